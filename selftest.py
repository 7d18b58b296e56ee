#!/usr/bin/env python3
"""Compares what the explorer and the scheduler find on litmus programs with what they must find."""
import json, os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'mc'))
import build
# scenario: (failure expected, outcomes expected or None, executions expected or None)
EXPECTED = {'tree': (None, 48, 48), 'lost_update': (None, 2, None), 'lost_update_without_preemption': (None, 1, None), 'three_increments': (None, 3, None),
            'store_buffering': (None, 3, None), 'publication': (None, 2, None), 'relaxed_publication': ('data race', None, None), 'plain_flag': ('data race', None, None),
            'joined': (None, 1, None), 'locked': (None, 2, None), 'deadlock': ('', None, None), 'spins_for_ever': ('', None, None), 'spins_and_ends': (None, 1, None),
            'sleeps': (None, 1, None), 'forgotten_thread': ('', None, None), 'use_after_free': ('data race', None, None)}
binary = build.build('sched', 'scheduler', ('sched.cpp',), os.path.join(HERE, 'selftest'))
bad = 0
for name, (failure, outcomes, executions) in EXPECTED.items():
    scratch = tempfile.mkdtemp(prefix='snn_selftest_')
    out = os.path.join(scratch, 'r.json')
    subprocess.run([binary, '--scratch', scratch, '--out', out, '--budget', '60', '--scenario', name], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = json.load(open(out))
    shutil.rmtree(scratch)
    found = {f['signature'] for f in r['found']}
    good = (not found if failure is None else any(failure in f for f in found)) and outcomes in (None, r['outcomes']) and executions in (None, r['executions'])
    bad += not good
    print('%-32s %s: %d executions, %d outcomes, %s' % (name, 'ok' if good else 'WRONG', r['executions'], r['outcomes'], sorted(found) or 'no failure'))
sys.exit(1 if bad else 0)
