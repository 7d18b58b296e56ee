#!/usr/bin/env python3
"""replay.py FILE: replays alone a violation recorded by check.py."""
import json, os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'mc'))
import build
from checks import CHECKS
e = json.load(open(sys.argv[1]))
pid = os.path.basename(sys.argv[1]).split('_')[0]
part = [p for p in CHECKS[pid]['parts'] if p['harness'] == e['harness'] and p['flavor'] == e['flavor']][0]
binary = build.build(part['flavor'], part['harness'], part.get('extra', ()))
with tempfile.TemporaryDirectory() as scratch:
    env = dict(os.environ, SNN_ARCHIVES=os.path.join(HERE, 'archives'), ASAN_OPTIONS='detect_leaks=0', OMP_NUM_THREADS='1')
    env.setdefault('VERIF_SEED', '1')
    sys.exit(subprocess.run([binary, '--scratch', scratch, '--replay', e['scenario'], e['path']], env=env).returncode)
