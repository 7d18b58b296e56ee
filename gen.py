#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from mc/properties.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'mc'))
from properties import PROPERTIES, NOT_APPLICABLE
claimed = sorted(PROPERTIES, key=lambda p: p['id'])
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in sorted(claimed + [n['text'] for n in NOT_APPLICABLE], key=lambda p: p['id']):
        assert len(p['title']) <= 80, p['title']
        anchors = dict(files=p['files'], mechanism=p['mechanism'], observe_at=p['observe'], hook_needed=p['hook'])
        if p['state']:
            anchors['state'] = p['state']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['over_text']),
                                why_tests_cant=p['why'], anchors=anchors)) + '\n')
manifest = dict(
    version=1, setup_cmd='true',
    checks=[dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'], thorough_cmd='python3 check.py %s --thorough' % p['id'],
                 evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level=p['level'],
                 level_note='Exhaustive within the stated bounds: %s. %s. Assumes: %s.' % (p['bounds'], p['note'], '; '.join(p['assumptions']) or 'nothing else')) for p in claimed],
    not_applicable=[dict(property=n['text']['id'], reason=n['reason']) for n in NOT_APPLICABLE],
    notes='Each check builds the library from the working tree of /repo in the flavor that it needs (mc/build.py), explores its harness with 8 processes, replays every failure alone before it reports it, and writes its evidence. No hook in /repo: the environment (clock, random engine, file system, threads) is replaced at link time. python3 replay.py FILE runs a reported violation again.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
