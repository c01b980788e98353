#!/opt/venv/bin/python
"""run.py PROPERTY [--tier quick|thorough] [--case NAME] [--replay FILE] [--jobs N]

Explores the bounded space of one property on the code in /repo and writes
evidence/<PROPERTY>.json.  Exit 0: held; 1: VIOLATION; 2: harness error.
"""
import os
import sys

os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('MKL_NUM_THREADS', '1')
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ.setdefault('PYTHONHASHSEED', '0')
os.environ['TZ'] = 'UTC'
os.environ.pop('PVLIB_USE_NUMBA', None)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path[:0] = [REPO, HERE]

import argparse          # noqa: E402
import importlib         # noqa: E402
import json              # noqa: E402
import multiprocessing   # noqa: E402
import signal            # noqa: E402
import time              # noqa: E402
import traceback         # noqa: E402
import warnings          # noqa: E402


def run_case(job):
    pid, name, tier, seed = job
    from mc import core
    mod = importlib.import_module(f'mc.checks.{pid}')
    fn = {n: f for n, f, _ in mod.CASES}[name]
    ctx = core.Ctx(pid, name, tier, seed)
    t0 = time.time()

    def late(sig, frame):
        raise TimeoutError('the exploration of this case did not terminate')
    if tier == 'quick':
        signal.signal(signal.SIGALRM, late)
        signal.alarm(600)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            fn(ctx)
        except Exception as e:   # noqa
            tb = traceback.format_exc().strip().splitlines()
            ctx.fail(f'{name}/unexpected-exception/{type(e).__name__}',
                     f'{type(e).__name__}: {e}', tb=tb[-10:])
    signal.alarm(0)
    return dict(case=name, states=ctx.states, transitions=ctx.transitions,
                traces=ctx.traces, outcomes=len(ctx.outcomes),
                samples=ctx.samples, fails=ctx.fails, nfails=ctx.nfails,
                wall=time.time() - t0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case', default=None)
    ap.add_argument('--replay', default=None)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid, tier = a.pid, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = a.case
    if a.replay:
        r = json.load(open(a.replay))
        only, tier = r['case'], r['tier']
    t0 = time.time()
    import pvlib
    assert os.path.realpath(pvlib.__file__).startswith(
        os.path.realpath(REPO) + os.sep), pvlib.__file__
    mod = importlib.import_module(f'mc.checks.{pid}')
    names = [n for n, _, th in mod.CASES if tier == 'thorough' or not th]
    if only:
        names = [n for n in names if n == only or n.startswith(only)]
    assert names, 'no case'
    jobs = [(pid, n, tier, seed) for n in names]
    nproc = max(1, min(a.jobs, len(jobs)))
    if nproc == 1 or getattr(mod, 'SERIAL', False):
        res = [run_case(j) for j in jobs]
    else:
        ctxm = multiprocessing.get_context('fork')
        with ctxm.Pool(nproc, maxtasksperchild=1) as pool:
            res = list(pool.imap(run_case, jobs, chunksize=1))
    known = []
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)).get('findings', [])
                 if k['property'] == pid]
    kkeys = {k['key']: k for k in known}
    viol, seen_known = [], {}
    for r in res:
        for key, msg, detail in r['fails']:
            if key in kkeys:
                seen_known[key] = kkeys[key]
            else:
                viol.append((r['case'], key, msg, detail))
    ev = dict(property=pid, tier=tier, seed=seed,
              level=getattr(mod, 'LEVEL', 'model_checking'),
              coverage=dict(
                  states=sum(r['states'] for r in res),
                  transitions=sum(r['transitions'] for r in res),
                  traces_validated_against_impl=sum(r['traces'] for r in res),
                  distinct_outcomes=sum(r['outcomes'] for r in res),
                  cases=[dict(case=r['case'], states=r['states'],
                              transitions=r['transitions'],
                              comparisons=r['traces'],
                              outcomes=r['outcomes'],
                              wall_s=round(r['wall'], 2)) for r in res],
                  exhaustive=True,
                  rule=getattr(mod, 'RULE', (mod.__doc__ or '').strip()),
                  samples=[s for r in res for s in r['samples'][:1]][:12]),
              assumptions=getattr(mod, 'ASSUMPTIONS', []),
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    if not only:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    if a.v:
        for r in res:
            print(f"{r['case']:40s} states={r['states']:8d} trans={r['transitions']:8d} "
                  f"traces={r['traces']:9d} out={r['outcomes']:5d} {r['wall']:.1f}s fails={r['nfails']}")
    print(f"{pid} tier={tier} states={ev['coverage']['states']} "
          f"transitions={ev['coverage']['transitions']} "
          f"comparisons={ev['coverage']['traces_validated_against_impl']} "
          f"wall={ev['wall_s']}s")
    for key, k in seen_known.items():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if viol:
        d = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        for i, (case, key, msg, detail) in enumerate(viol[:10]):
            path = os.path.join(d, f'{pid}-{i}.json')
            with open(path, 'w') as f:
                json.dump(dict(property=pid, case=case, tier=tier, key=key,
                               message=msg, detail=detail,
                               replay=f'/opt/venv/bin/python /verif/run.py {pid} --replay {path}'),
                          f, indent=1)
            print(f'VIOLATION property={pid} replay={path}')
            print(f'  {key}: {msg}')
            if a.v and detail:
                print('   ', json.dumps(detail)[:1500])
        if len(viol) > 10:
            print(f'  ... and {len(viol) - 10} more')
        return 1
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
