#!/usr/bin/env python3
"""Deterministic simulation checks for pygfunction.

  check.py C01 [--tier quick|thorough] [--seed N] [--runs N] [--workers N]
  check.py --replay replays/FILE.json      re-execute one recorded run
  check.py C01 --digest [--runs N]         print the digest of every run

Exit status: 0 property held on every run, 1 violated (VIOLATION line),
2 error of the harness.
"""
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
ENV = {'MPLBACKEND': 'Agg', 'OPENBLAS_NUM_THREADS': '1',
       'OMP_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
       'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONNOUSERSITE': '1'}

if os.environ.get('SIM_CHILD') != '1':
    # a clean interpreter: fixed BLAS threads, nothing written next to sources
    import shutil
    import subprocess
    import tempfile
    tmp = tempfile.mkdtemp(prefix='simenv-')
    env = dict(os.environ, **ENV)
    env.update(SIM_CHILD='1', MPLCONFIGDIR=tmp, TMPDIR=tmp, SIM_SCRATCH=tmp)
    for k in ('PYTHONPATH', 'PYTHONHOME'):
        env.pop(k, None)
    env.setdefault('PYTHONHASHSEED', '0')
    py = PY if os.path.exists(PY) else sys.executable
    try:
        rc = subprocess.run([py, os.path.abspath(__file__)] + sys.argv[1:],
                            env=env).returncode
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc if rc in (0, 1) else 2)

sys.path.insert(0, VERIF)
import argparse                                             # noqa: E402
import json                                                 # noqa: E402
import traceback                                            # noqa: E402
import warnings                                             # noqa: E402

warnings.simplefilter('ignore')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--first', type=int, default=0)
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--replay')
    ap.add_argument('--digest', action='store_true')
    ap.add_argument('--no-report', action='store_true')
    ap.add_argument('--keep-going', action='store_true')
    a = ap.parse_args()

    import numpy as np
    np.seterr(all='ignore')
    from sim import engine, findings

    if a.replay:
        path = a.replay if os.path.isabs(a.replay) \
            else os.path.join(VERIF, a.replay)
        rep, out, ctx = engine.replay_file(path)
        if out['ok']:
            print(f'replay of {a.replay}: the property held')
            return 0
        print(f'{out["kind"]}: {out["message"]}')
        print(f'VIOLATION property={rep["property"]} replay={a.replay}')
        return 1

    mod = engine.load_prop(a.prop)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    n = a.runs or mod.RUNS[tier]
    soft = getattr(mod, 'SOFT', {}).get(
        tier, 240. if tier == 'quick' else 3 * 3600.)
    print(f'{mod.ID} seed={a.seed} tier={tier} runs={n}', flush=True)
    tot = engine.run_batch(mod.ID, a.seed, tier, n, a.workers, soft,
                           soft * 2 + 200., first=a.first,
                           stop_at_first=not a.keep_going)
    if a.digest:
        for i, d in tot['digests']:
            print('digest', i, d)
        print('batch-digest', tot['digest'])
    known = findings.load(mod.ID)
    new = [v for v in tot['violations']
           if not any(k.matches(v[1], v[2]) for k in known)]
    for k in known:
        print(f'KNOWN-FINDING: property={mod.ID} {k.text}')
    if a.no_report:
        for v in new:
            print('violation', v[0], v[1], v[2][:200])
        for e in tot['errors']:
            print('error', e)
        print('faults', dict(tot['faults']))
        print('counts', dict(tot['counts']))
        print(f'runs {tot["runs"]} wall {tot["wall"]:.1f} cpu '
              f'{tot["cpu"]:.1f} states {len(tot["states"])} nontrivial '
              f'{len(tot["nontrivial"])} skipped {tot["skipped"]}')
        return 1 if new else (2 if tot['errors'] else 0)
    write_evidence(mod, a.seed, tier, tot, len(new))
    if new:
        v = new[0]
        budget = 45. if tier == 'quick' else 300.
        path, small, ok = engine.report_violation(mod, a.seed, tier, v,
                                                  budget)
        print(f'run {v[0]} (seed {engine.run_seed(a.seed, mod.ID, v[0])}): '
              f'{v[1]}: {v[2]}')
        print(f'minimised plan: {json.dumps(small)[:600]}')
        if not ok:
            print('the replay file did not reproduce in a fresh process; '
                  'this is an error of the harness')
            return 2
        print(f'VIOLATION property={mod.ID} replay={path}', flush=True)
        return 1
    if tot['errors']:
        print('HARNESS ERROR')
        print('\n'.join(tot['errors'])[:6000])
        return 2
    if tot['runs'] == 0:
        print('HARNESS ERROR: nothing was run')
        return 2
    print(f'{mod.ID} held on {tot["runs"]} simulated runs '
          f'({len(tot["nontrivial"])} distinct non-trivial, '
          f'{sum(tot["faults"].values())} faults fired, '
          f'{tot["wall"]:.1f} s)')
    return 0


def write_evidence(mod, seed, tier, tot, n_viol):
    hours = max(tot['wall'], 1e-9) / 3600.
    cov = {
        'evaluations': tot['runs'],
        'distinct_nontrivial': len(tot['nontrivial']),
        'rule': mod.RULE,
        'samples': [trim(s) for s in tot['samples'][:2]],
        'runs_per_hour': round(tot['runs'] / hours),
        'seeds_per_hour': round(tot['runs'] / hours),
        'simulated_hours': round(tot['sim_time'] / 3600., 3),
        'events_recorded': tot['events'],
        'assertions': tot['counts'].get('assertions', 0),
        'faults_injected': dict(sorted(tot['faults'].items())),
        'probes': {k: v for k, v in sorted(tot['counts'].items())
                   if k != 'assertions'},
        'distinct_state_transitions': len(tot['states']),
        'state_measure': getattr(mod, 'STATE_MEASURE',
                                 'pairs of successive abstract states '
                                 '(operation kind, relation to the previous '
                                 'arguments, component class)'),
        'batch_digest': tot['digest'],
        'runs_skipped_by_time_cap': tot['skipped'],
        'components_real': mod.REAL,
        'components_stubbed': mod.STUBS,
    }
    ev = {'property': mod.ID, 'tier': tier, 'seed': seed,
          'level': 'exploration', 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'wall_s': round(tot['wall'], 2), 'violations': n_viol}
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{mod.ID}.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(path + '.tmp', path)


def trim(s):
    t = json.dumps(s)
    if len(t) <= 6000:
        return s
    s = dict(s)
    plan = dict(s['plan'])
    for k, v in list(plan.items()):
        if isinstance(v, list) and len(v) > 4:
            plan[k] = v[:4] + [f'... {len(v) - 4} more']
    s['plan'] = plan
    t = json.dumps(s)
    if len(t) > 8000:
        s['plan'] = json.dumps(plan)[:5000]
    return s


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print('HARNESS ERROR')
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
