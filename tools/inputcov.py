"""inputcov.py OUT.json PID...: which classes of argument (form, value, option) every public function and
method of pvlib receives while the quick checks run.  Only calls made from outside pvlib count.  Used to find
input classes no check explores; `inputcov.py --report OUT.json...` prints the gaps."""
import collections, functools, importlib, inspect, json, os, sys, types
if sys.argv[1] == '--report':
    tot = collections.defaultdict(lambda: collections.defaultdict(set))
    for f in sys.argv[2:]:
        for fn, ps in json.load(open(f)).items():
            for p, cl in ps.items():
                tot[fn][p] |= set(cl)
    for fn in sorted(tot):
        print(fn)
        for p, cl in tot[fn].items():
            print('   ', p, ' '.join(sorted(cl)))
    sys.exit()
for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
    os.environ[k] = '1'
os.environ.update(TZ='UTC', PYTHONDONTWRITEBYTECODE='1')
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.environ.get('VERIF_REPO', '/repo'), HERE]
import numpy as np, pandas as pd, pvlib, pkgutil
REC = collections.defaultdict(lambda: collections.defaultdict(set))
depth = [0]


def tz(ix):
    if not isinstance(ix, pd.DatetimeIndex):
        return type(ix).__name__
    if ix.tz is None:
        return 'naive'
    s = str(ix.tz)
    return 'utc' if s == 'UTC' else 'fixed' if s.startswith(('Etc', 'UTC', 'pytz')) else 'dst'


def vals(a, out):
    a = np.asarray(a)
    if a.dtype.kind not in 'fiub' or not a.size:
        return
    if a.dtype.kind == 'f':
        if np.isnan(a).any(): out.add('v:nan')
        if np.isinf(a).any(): out.add('v:inf')
        with np.errstate(all='ignore'):
            a = a[np.isfinite(a)]
    if a.size:
        if (a < 0).any(): out.add('v:neg')
        if (a == 0).any(): out.add('v:zero')
        if (a > 0).any(): out.add('v:pos')


def classes(v):
    o = set()
    if v is None: o.add('None')
    elif isinstance(v, (bool, np.bool_)): o.add(f'bool:{v}')
    elif isinstance(v, str): o.add('s:' + v[:30])
    elif isinstance(v, (int, np.integer)): o.add('int'); vals(v, o)
    elif isinstance(v, np.floating): o.add('npfloat'); vals(v, o)
    elif isinstance(v, float): o.add('float'); vals(v, o)
    elif isinstance(v, pd.Timestamp): o.add('Timestamp:' + ('naive' if v.tz is None else str(v.tz)))
    elif isinstance(v, pd.DatetimeIndex): o.add(f'DTI:{tz(v)}'); o.add('n0' if not len(v) else 'n1' if len(v) == 1 else 'nN')
    elif isinstance(v, np.ndarray): o.add(f'array{v.ndim}d:{v.dtype}'); o.add('n0' if not v.size else 'n1' if v.size == 1 else 'nN'); vals(v, o)
    elif isinstance(v, pd.Series): o.add(f'Series:{v.dtype}'); o.add('ix:' + tz(v.index)); o.add('n0' if not len(v) else 'n1' if len(v) == 1 else 'nN'); vals(v, o)
    elif isinstance(v, pd.DataFrame): o.add('DataFrame'); o.add('ix:' + tz(v.index))
    elif isinstance(v, (list, tuple)): o.add(type(v).__name__); o.add('n0' if not len(v) else 'n1' if len(v) == 1 else 'nN'); [o.add('of:' + type(x).__name__) for x in v[:3]]
    else: o.add(type(v).__name__)
    return o


def wrap(f, name):
    try:
        sig = inspect.signature(f)
    except (TypeError, ValueError):
        return f

    @functools.wraps(f)
    def g(*a, **k):
        if depth[0] == 0:
            try:
                b = sig.bind(*a, **k)
                for p in sig.parameters:
                    if p == 'self': continue
                    r = REC[name][p]
                    if p in b.arguments:
                        if len(r) < 200: r.update(classes(b.arguments[p]))
                    else:
                        r.add('<left out>')
            except TypeError:
                REC[name]['!badcall'].add('x')
        depth[0] += 1
        try:
            return f(*a, **k)
        finally:
            depth[0] -= 1
    return g


mods = [importlib.import_module(m.name) for m in pkgutil.walk_packages(pvlib.__path__, 'pvlib.') if 'spa_c' not in m.name and 'pvfactors' not in m.name and 'sunpy' not in m.name]
memo = {}
for m in [pvlib] + mods:
    for n, o in list(vars(m).items()):
        if isinstance(o, types.FunctionType) and o.__module__.startswith('pvlib'):
            if n.startswith('__') or o.__module__.endswith(('_deprecation', 'spa', 'tools')) and n.startswith('_'): continue
            if o not in memo:
                memo[o] = wrap(o, o.__module__[6:] + '.' + o.__qualname__)
            setattr(m, n, memo[o])
        elif isinstance(o, type) and o.__module__.startswith('pvlib') and o.__module__ == m.__name__:
            for k, v in list(vars(o).items()):
                if isinstance(v, types.FunctionType) and (not k.startswith('_') or k == '__init__'):
                    setattr(o, k, wrap(v, f'{o.__module__[6:]}.{o.__qualname__}.{k}'))
out, pids = sys.argv[1], sys.argv[2:]
import warnings
warnings.simplefilter('ignore')
from mc import core
import run
for pid in pids:
    mod = importlib.import_module('mc.checks.' + pid)
    for n, f, *_ in mod.CASES:
        r = run.run_case((pid, n, 'quick', 1))
        if r['nfails']: print(pid, n, r['nfails'], str(r['fails'][:1])[:300], flush=True)
json.dump({k: {p: sorted(c) for p, c in v.items()} for k, v in REC.items()}, open(out, 'w'))
print(out, len(REC))
