#!/usr/bin/env python3
"""check.py ID: builds the harness of a property from /repo's working tree, explores it and judges the result."""
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'mc'))
import build
from checks import CHECKS


def load_known():
    with open(os.path.join(HERE, 'known_findings.json')) as f:
        return json.load(f)['findings']


def command(binary, part, tier, scratch, scale=1):
    budget = part.get('thorough_budget', 3000) if tier == 'thorough' else part.get('budget', 300)
    cmd = [binary, '--scratch', scratch, '--budget', str(budget), '--limit', str(part.get('limit', 30) * scale)] + part.get('args', [])
    return cmd + (['--thorough'] if tier == 'thorough' else [])


def replay(binary, part, tier, env, entry):
    """Runs the execution alone, with a longer limit: True when it fails again."""
    scratch = tempfile.mkdtemp(prefix='snn_replay_')
    try:
        r = subprocess.run(command(binary, part, tier, scratch, 3) + ['--replay', entry['scenario'], entry['path']],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=part.get('limit', 30) * 3 + 30)
        return 'REPLAY-OK' not in r.stdout, r.stdout
    except subprocess.TimeoutExpired:
        return True, 'the replay did not end'
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay_in_order(binary, part, tier, env, entry):
    """Runs again all the executions of the worker, in the same order: a failure can depend on the executions before it."""
    scratch = tempfile.mkdtemp(prefix='snn_replay_')
    try:
        out = os.path.join(scratch, 'result.json')
        subprocess.run(command(binary, part, tier, scratch) + ['--out', out, '--only-worker', str(entry['worker'])], env=env, stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL, cwd=scratch)
        with open(out) as f:
            again = json.load(f)['found']
        return any(e['scenario'] == entry['scenario'] and e['path'] == entry['path'] and e['signature'] == entry['signature'] for e in again)
    except (OSError, ValueError):
        return False
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run_part(pid, part, tier, env, scratch):
    binary = build.build(part['flavor'], part['harness'], part.get('extra', ()))
    out = os.path.join(scratch, 'result_%s_%s.json' % (part['harness'], part['flavor']))
    work = os.path.join(scratch, part['harness'] + part['flavor'])
    os.makedirs(work)
    r = subprocess.run(command(binary, part, tier, work) + ['--out', out], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', cwd=work)
    if r.returncode != 0 or not os.path.exists(out):
        sys.stdout.write(r.stdout[-4000:])
        raise RuntimeError('the explorer failed with code %d' % r.returncode)
    with open(out) as f:
        result = json.load(f)
    confirmed, unconfirmed, cleared = [], [], []
    begin = time.time()
    for e in sorted(result['found'], key=lambda e: e['signature'] == 'hang'): # the replay of a hang is long
        if len(confirmed) >= 6 or confirmed and time.time() - begin > 60:
            break
        e['flavor'], e['harness'] = part['flavor'], part['harness']
        for _ in range(1 if e['signature'] == 'hang' else 2):
            failed, text = replay(binary, part, tier, env, e)
            if failed:
                break
        e['replay_output'] = text[-4000:]
        if failed:
            confirmed.append(e)
        elif e['signature'] == 'hang': # it ends when it has more time, and it is right
            cleared.append(e)
        else:
            unconfirmed.append(e)
    for e in list(unconfirmed):
        if confirmed:
            break
        if replay_in_order(binary, part, tier, env, e):
            e['how'] = 'depends on the executions before it: run the harness with --only-worker %d' % e['worker']
            unconfirmed.remove(e)
            confirmed.append(e)
    result['confirmed'], result['unconfirmed'] = confirmed, unconfirmed
    return result


def main():
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    check = CHECKS[pid]
    env = dict(os.environ, SNN_ARCHIVES=os.path.join(HERE, 'archives'), VERIF_SEED=str(seed), VERIF_TIER=tier, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:max_allocation_size_mb=4096:handle_abort=1',
               UBSAN_OPTIONS='print_stacktrace=1', OMP_NUM_THREADS='1', LC_ALL='C')
    start = time.time()
    scratch = tempfile.mkdtemp(prefix='snn_check_')
    try:
        results = [run_part(pid, p, tier, env, scratch) for p in check['parts']]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    known = {k['signature']: k for k in load_known() if k['property'] == pid}
    violations, findings = [], {}
    for r in results:
        violations += r['confirmed']
        for k in r['known']:
            if k['signature'] in known:
                f = findings.setdefault(k['signature'], {'count': 0, 'message': k['message']})
                f['count'] += k['count']
            else:
                violations.append({'scenario': '', 'signature': k['signature'], 'message': k['message'], 'path': '', 'note': 'deviation explained by a defect model which is not listed in known_findings.json'})
    total = lambda key: sum(r[key] for r in results)
    samples = [s for r in results for s in r['samples']][:16]
    capped = any(r['capped'] for r in results)
    coverage = {'rule': check['rule'], 'samples': samples}
    if check['level'] == 'model_checking':
        coverage.update(states=total('states'), transitions=total('transitions'), traces_validated_against_impl=total('executions'))
    else:
        coverage.update(evaluations=total('executions'), distinct_nontrivial=total('states'), transitions=total('transitions'))
    coverage['oracle_evaluations'] = total('checks')
    coverage['distinct_outcomes'] = total('outcomes')
    coverage['exhaustive'] = not capped
    coverage['bounds'] = check['bounds_thorough'] if tier == 'thorough' and 'bounds_thorough' in check else check['bounds']
    if capped:
        coverage['cap'] = 'the time budget or the limit of reported failures was reached: the enumeration is not complete'
    if findings:
        coverage['known_findings'] = {k: v['count'] for k, v in findings.items()}
    unconfirmed = [e for r in results for e in r['unconfirmed']]
    if unconfirmed:
        coverage['not_reproduced'] = ['%s [%s] %s: %s' % (e['scenario'], e['path'], e['signature'], e['message'][:300]) for e in unconfirmed]
    evidence = {'property': pid, 'tier': tier, 'seed': seed, 'level': check['level'], 'coverage': coverage,
                'assumptions': check['assumptions'], 'wall_s': round(time.time() - start, 1), 'violations': len(violations)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    print('%s: %d executions, %d states, %d transitions, %d oracle evaluations, %d outcomes, %.1f s%s'
          % (pid, total('executions'), total('states'), total('transitions'), total('checks'), total('outcomes'), time.time() - start,
             ', CAPPED' if capped else ''))
    for s, f in sorted(findings.items()):
        print('KNOWN-FINDING: property=%s %s (%s; %d cases in this run, e.g. %s)' % (pid, s, known[s]['what'], f['count'], f['message'][:200].replace('\n', ' ')))
    for e in unconfirmed:
        print('NOT-REPRODUCED: %s [%s] %s: %s' % (e['scenario'], e['path'], e['signature'], e['message'][:500]))
    if violations:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        for i, e in enumerate(violations[:6]):
            path = os.path.join(HERE, 'replays', '%s_%d.json' % (pid, i))
            e.setdefault('how', 'python3 /verif/replay.py %s' % path)
            with open(path, 'w') as f:
                json.dump(e, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('   %s [%s] %s: %s' % (e['scenario'], e['path'][:200], e['signature'], e['message'][:1500]))
            if e.get('note'):
                print('   ' + e['note'][:600])
        return 1
    if unconfirmed:
        return 2
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except RuntimeError as e:
        print('ERROR', e)
        sys.exit(2)
