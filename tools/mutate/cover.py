"""cover.py OUT.json: which lines of pvlib each exploration case executes."""
import sys, os, json, time, importlib, multiprocessing
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from base import *


def job(a):
    pid, name = a
    lines = {}
    mon = sys.monitoring
    mon.use_tool_id(3, 'cov')

    def line(code, n):
        f = code.co_filename
        if f.startswith(R + '/pvlib/'):
            lines.setdefault(f[len(R) + 1:], set()).add(n)
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    t = time.time()
    err = None
    try:
        one(pid, name)
    except BaseException as e:
        err = f'{type(e).__name__} {e}'[:200]
    return dict(pid=pid, case=name, t=time.time() - t, err=err,
                lines={k: sorted(v) for k, v in lines.items()})


if __name__ == '__main__':
    preload()
    import pvlib
    jobs = []
    for p in (sys.argv[2:] or PIDS):
        m = importlib.import_module('mc.checks.' + p)
        jobs += [(p, c[0]) for c in m.CASES if not c[2]]
    old = {}
    if os.path.exists(sys.argv[1]):
        old = {(d['pid'], d['case']): d for d in json.load(open(sys.argv[1]))
               if d['pid'] not in sys.argv[2:]} if sys.argv[2:] else {}
    with multiprocessing.get_context('fork').Pool(8, maxtasksperchild=1) as p:
        for d in p.imap_unordered(job, jobs, chunksize=1):
            if d['err']:
                print(d['pid'], d['case'], d['err'])
            old[d['pid'], d['case']] = d
    json.dump(list(old.values()), open(sys.argv[1], 'w'))
    print(len(old), sum(d['t'] for d in old.values()))
