#!/usr/bin/env python3
"""Writes design/seeds.md, the table of the planted bugs, from their descriptions (run after planting)."""
import glob, json, os
HERE = os.path.dirname(os.path.abspath(__file__))
missed = json.load(open(os.path.join(HERE, 'design/seeds.json')))
rows = ['| planted bug | what it breaks | needs | caught by |\n|---|---|---|---|\n']
for d in sorted(glob.glob(os.path.join(HERE, 'seeded/*/meta.json')) + glob.glob(os.path.join(HERE, 'planted_more/*/meta.json')), key=lambda f: f.split('/')[-2]):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    note = missed.get(i, '')
    rows.append('| %s | %s | %s | %s |\n' % (i, m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), m['property'] + (' (' + note + ')' if note else '')))
open(os.path.join(HERE, 'design/seeds.md'), 'w').write(''.join(rows))
