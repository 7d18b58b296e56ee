#!/usr/bin/env python3
"""Writes DESIGN.md from design/head.md, mc/properties.py and design/tail.md."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'mc'))
from properties import PROPERTIES, NOT_APPLICABLE
out = [open(os.path.join(HERE, 'design/head.md')).read()]
for p in sorted(PROPERTIES, key=lambda p: p['id']):
    out.append('### %s — %s\n\n%s\n\n' % (p['id'], p['title'], p['statement']))
    out.append('* quantified over: %s\n* decided by: %s\n* quick bounds: %s\n' % (p['over_text'], p['rule'], p['bounds']))
    if p['bounds_thorough'] != p['bounds']:
        out.append('* thorough bounds: %s\n' % p['bounds_thorough'])
    out.append('* beyond the tests: %s\n' % p['why'])
    if p['assumptions']:
        out.append('* assumes: %s\n' % '; '.join(p['assumptions']))
    out.append('* harness: %s (%s)\n\n' % (', '.join(sorted({'harness/%s.cpp' % q['harness'] for q in p['parts']})), ', '.join(q['flavor'] for q in p['parts'])))
for n in NOT_APPLICABLE:
    out.append('### %s — %s\n\nNot claimed: %s\n\n' % (n['text']['id'], n['text']['title'], n['reason']))
out.append(open(os.path.join(HERE, 'design/tail.md')).read())
out.append(open(os.path.join(HERE, 'design/seeds.md')).read())
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(''.join(out))
