"""Shared pieces: run one exploration case in a forked child on the tree in
memory (optionally with one source file replaced)."""
import os, sys, json
os.environ.update(OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
                  PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC')
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
R = os.environ.get('VERIF_REPO', '/repo')
sys.path[:0] = [R, V]
KNOWN = {}
for k in json.load(open(V + '/known_findings.json'))['findings']:
    KNOWN.setdefault(k['property'], set()).add(k['key'])
PIDS = sorted(f[:-3] for f in os.listdir(V + '/mc/checks')
              if f.endswith('.py') and not f.startswith('_'))


class Killed(BaseException):
    pass


def preload():
    import numpy, pandas, scipy, scipy.optimize, scipy.interpolate, scipy.special  # noqa
    import scipy.stats, scipy.linalg, scipy.constants, scipy.integrate, scipy.spatial, scipy.signal  # noqa
    import requests, h5py, pytz, zoneinfo  # noqa
    import unittest.mock, xml.etree, statsmodels.api, concurrent.futures  # noqa


def one(pid, name, tier='quick', stop=True):
    import importlib, warnings
    from mc import core
    mod = importlib.import_module('mc.checks.' + pid)
    fn = {c[0]: c[1] for c in mod.CASES}[name]
    ctx = core.Ctx(pid, name, tier, 1)
    if stop:
        def fail(key, msg, **d):
            if key not in KNOWN.get(pid, ()):
                raise Killed(f'{key}: {msg}'[:300])
        ctx.fail = fail
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        fn(ctx)
    return ctx
