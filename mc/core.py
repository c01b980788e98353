"""Exhaustive bounded exploration of the real pvlib code: harness core.

A *case* is one finite exploration (a lattice of inputs, a tree of operation
histories, a product of configurations).  Every case calls the implementation
in /repo on every element of its space and compares with an oracle (a plain
reference model or an invariant).  Counters:

  states       distinct abstract states explored (input points, histories,
               configurations), deduplicated per case
  transitions  deliveries of such a state to the implementation (one point in
               one input form, one operation of a history)
  traces       oracle comparisons of an implementation output against the
               model trace
"""
import copy
import itertools
import json
import math
import os
import sys
import time
import traceback
import warnings

import numpy as np
import pandas as pd

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    pass


def jsonable(x, depth=0):
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in x]
    if isinstance(x, (str, bool, int)) or x is None:
        return x
    if isinstance(x, float):
        return x if math.isfinite(x) else repr(x)
    if isinstance(x, np.generic):
        return jsonable(x.item(), depth + 1)
    return repr(x)[:400]


class Ctx:
    """Counters and findings of one case."""

    def __init__(self, pid, case, tier, seed):
        self.pid, self.case, self.tier, self.seed = pid, case, tier, seed
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self._seen = set()
        self.samples = []
        self.fails = []          # (key, msg, detail)
        self.nfails = 0
        self._keys = set()

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- counting ---------------------------------------------------------
    def state(self, key=None, n=1):
        """Register abstract state(s). With a key: deduplicated."""
        if key is None:
            self.states += n
            return True
        h = hash(key)
        if h in self._seen:
            return False
        self._seen.add(h)
        self.states += 1
        return True

    def step(self, n=1):
        self.transitions += n

    def outcome(self, o):
        if len(self.outcomes) < 5000:
            self.outcomes.add(o)

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(jsonable(s))

    # -- oracle -----------------------------------------------------------
    def fail(self, key, msg, **detail):
        self.nfails += 1
        if key in self._keys:
            return
        self._keys.add(key)
        if len(self.fails) < 40:
            self.fails.append((key, msg, jsonable(detail)))

    def expect(self, ok, key, msg='', **detail):
        self.traces += 1
        if not ok:
            self.fail(key, msg, **detail)
        return bool(ok)

    def close(self, got, exp, key, rtol=1e-9, atol=1e-9, **detail):
        """Elementwise closeness (NaN equals NaN)."""
        g = np.asarray(got, dtype=float)
        e = np.asarray(exp, dtype=float)
        self.traces += max(1, e.size)
        if g.shape != e.shape:
            try:
                e2 = np.broadcast_to(e, g.shape)
            except ValueError:
                self.fail(key, f'shape {g.shape} instead of {e.shape}', **detail)
                return False
            if e.size != 1:
                self.fail(key, f'shape {g.shape} instead of {e.shape}', **detail)
                return False
            e = e2
        bad = notclose(g, e, rtol, atol)
        if bad.any():
            i = np.unravel_index(np.argmax(bad), bad.shape) if bad.shape else ()
            self.fail(key, f'got {g[i]!r} expected {e[i]!r} at index {i} '
                           f'({int(bad.sum())} of {bad.size} differ)', **detail)
            return False
        return True

    def raises(self, exc, fn, key, **detail):
        self.traces += 1
        self.step()
        try:
            r = fn()
        except exc:
            self.outcome('raised')
            return True
        except Exception as e:   # noqa
            self.fail(key, f'raised {type(e).__name__}: {e} instead of {exc}',
                      **detail)
            return False
        self.fail(key, f'no error raised (returned {str(r)[:200]})', **detail)
        return False


def notclose(g, e, rtol, atol):
    with np.errstate(all='ignore'):
        tol = atol + rtol * np.abs(e)
        d = np.abs(g - e)
        bad = ~(d <= tol)
        same = (g == e) | (np.isnan(g) & np.isnan(e))
        bad &= ~same
        # an infinite expectation only matches itself
        bad |= (np.isinf(e) & ~same)
    return bad


def flat(out):
    """Normalise an output to a dict name -> value."""
    if isinstance(out, pd.DataFrame):
        return {str(c): out[c] for c in out.columns}
    if isinstance(out, dict):
        return {str(k): v for k, v in out.items()}
    if isinstance(out, tuple) or isinstance(out, list):
        d = {}
        for i, v in enumerate(out):
            if isinstance(v, (dict, pd.DataFrame)):
                for k, w in flat(v).items():
                    d[f'{i}.{k}'] = w
            else:
                d[str(i)] = v
        return d
    return {'': out}


def same_value(a, b):
    """Deep equality used for mutation checks."""
    if type(a) is not type(b):
        return False
    if isinstance(a, pd.Series) or isinstance(a, pd.DataFrame):
        return a.equals(b) and a.index.equals(b.index) and \
            (list(a.columns) == list(b.columns)
             if isinstance(a, pd.DataFrame) else a.name == b.name)
    if isinstance(a, pd.Index):
        return a.equals(b) and a.dtype == b.dtype
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and \
            (np.array_equal(a, b, equal_nan=True) if a.dtype.kind == 'f'
             else np.array_equal(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same_value(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and a != a:
        return b != b
    try:
        return bool(a == b)
    except Exception:
        return True


def deepcopy(x):
    if isinstance(x, (pd.Series, pd.DataFrame)):
        return x.copy(deep=True)
    return copy.deepcopy(x)


TZ = 'Etc/GMT+7'


def dt_index(n, tz=TZ):
    """An irregular but increasing tz-aware index of n labels."""
    base = pd.Timestamp('2021-06-21 05:13:07')
    secs = np.cumsum(np.arange(n) % 7 + 1) * 61 if n else []
    return pd.DatetimeIndex(base + pd.to_timedelta(secs, unit='s')).tz_localize(tz)


def points(axes):
    names = list(axes)
    return names, list(itertools.product(*[axes[k] for k in names]))


def lattice(ctx, name, fn, ref, axes, *, forms=('array', 'series', 'scalar',
            'int', 'mixed', 'len1'), rtol=1e-9, atol=1e-9, nan=True,
            keep=None, index=None, outs=None, scalar_max=4000,
            only_series=False, series_args=None, ref_nan=False,
            allow_extra=True, kw=None):
    """Compare fn with ref on the full product of axes, in several forms.

    ref(**point) returns a float, tuple or dict of floats.
    keep(point dict) selects points that belong to the space.
    outs: names of outputs (of fn) that ref describes (tuple positions
    otherwise).  nan: additionally every argument is replaced by NaN in turn
    and every described output must be NaN (if ref_nan: whatever ref returns).
    """
    kw = kw or {}
    names, pts = points(axes)
    if keep is not None:
        pts = [p for p in pts if keep(**dict(zip(names, p)))]
    if not pts:
        raise RuntimeError(f'{name}: empty lattice')
    ctx.states += len(pts)
    exp = [flat(ref(**dict(zip(names, p)))) for p in pts]
    okeys = list(exp[0])
    E = {k: np.array([float(e[k]) for e in exp]) for k in okeys}
    cols = {k: np.array([p[i] for p in pts], dtype=float)
            for i, k in enumerate(names)}
    for k in okeys:
        v = E[k]
        ctx.outcome((name, k, float(np.round(np.nanmin(v), 6))
                     if np.isfinite(v).any() else 'nan'))
        ctx.outcome((name, k, float(np.round(np.nanmax(v), 6))
                     if np.isfinite(v).any() else 'nan2'))
    ctx.sample(dict(case=name, point=dict(zip(names, pts[len(pts) // 2])),
                    expected=exp[len(pts) // 2]))

    def call(form, args):
        before = {k: deepcopy(v) for k, v in args.items()}
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            try:
                out = fn(**args, **kw)
            except Exception as e:   # noqa
                tb = traceback.format_exc().strip().splitlines()
                ctx.fail(f'{name}/{form}/exception',
                         f'{type(e).__name__}: {e}', tb=tb[-6:])
                return None
        for k in args:
            if not same_value(args[k], before[k]):
                ctx.fail(f'{name}/{form}/mutated/{k}',
                         f'argument {k} modified by the call')
        return flat(out)

    def compare(form, got, sel=None, want_index=None, shape=None):
        if got is None:
            return
        for j, k in enumerate(okeys):
            gk = outs[j] if outs else k
            e = E[k] if sel is None else E[k][sel]
            if gk not in got:
                ctx.fail(f'{name}/{form}/missing/{gk}',
                         f'output {gk!r} missing (has {list(got)})')
                continue
            g = got[gk]
            if want_index is not None:
                if not isinstance(g, pd.Series):
                    ctx.fail(f'{name}/{form}/type/{gk}',
                             f'output is {type(g).__name__}, not Series')
                elif not g.index.equals(want_index):
                    ctx.fail(f'{name}/{form}/index/{gk}', 'index changed')
            try:
                ga = np.asarray(g, dtype=float)
            except Exception as ex:   # noqa
                ctx.fail(f'{name}/{form}/dtype/{gk}', f'not numeric: {ex}')
                continue
            ctx.traces += e.size
            if ga.shape != e.shape:
                if ga.size == e.size and form == 'array2d':
                    ga = ga.reshape(e.shape)
                elif ga.ndim == 0:
                    ga = np.broadcast_to(ga, e.shape)
                else:
                    ctx.fail(f'{name}/{form}/shape/{gk}',
                             f'shape {ga.shape}, expected {e.shape}')
                    continue
            bad = notclose(ga, e, rtol, atol)
            if bad.any():
                i = int(np.argmax(bad))
                ii = i if sel is None else int(np.arange(len(pts))[sel][i])
                ctx.fail(f'{name}/{form}/value/{gk}',
                         f'got {ga[i]!r}, reference {e[i]!r} at '
                         f'{dict(zip(names, pts[ii]))} '
                         f'({int(bad.sum())}/{bad.size} points differ)')

    n = len(pts)
    if only_series:
        forms = tuple(f for f in forms if f in ('series', 'len1', 'int'))
    for form in forms:
        if form == 'array':
            ctx.step(n)
            compare(form, call(form, {k: v.copy() for k, v in cols.items()}))
        elif form == 'array2d':
            ctx.step(n)
            got = call(form, {k: v.reshape(n, 1).copy() for k, v in cols.items()})
            compare(form, got)
        elif form == 'series':
            ctx.step(n)
            idx = index(n) if index is not None else dt_index(n)
            got = call(form, {k: (pd.Series(v.copy(), index=idx)
                                  if series_args is None or k in series_args
                                  else v.copy()) for k, v in cols.items()})
            compare(form, got, want_index=idx)
        elif form == 'len1':
            ids = sorted({0, n // 2, n - 1})
            for i in ids:
                ctx.step()
                if only_series:
                    idx = dt_index(1)
                    got = call(form, {k: pd.Series(v[i:i + 1].copy(), index=idx)
                                      for k, v in cols.items()})
                else:
                    got = call(form, {k: v[i:i + 1].copy()
                                      for k, v in cols.items()})
                compare(form, got, sel=slice(i, i + 1))
        elif form == 'scalar':
            stride = max(1, -(-n // scalar_max))
            for i in range(0, n, stride):
                ctx.step()
                got = call(form, {k: float(v[i]) for k, v in cols.items()})
                if got is None:
                    break
                for j, k in enumerate(okeys):
                    gk = outs[j] if outs else k
                    ctx.traces += 1
                    if gk not in got:
                        ctx.fail(f'{name}/{form}/missing/{gk}', 'missing')
                        continue
                    g = np.asarray(got[gk], dtype=float)
                    if g.size != 1:
                        ctx.fail(f'{name}/{form}/shape/{gk}',
                                 f'scalar input gives shape {g.shape}')
                    elif notclose(g.reshape(()), np.asarray(E[k][i]),
                                  rtol, atol):
                        ctx.fail(f'{name}/{form}/value/{gk}',
                                 f'got {g!r}, reference {E[k][i]!r} at '
                                 f'{dict(zip(names, pts[i]))}')
        elif form == 'int':
            # per argument: those points where that argument is integral
            for a in names:
                v = cols[a]
                sel = np.isfinite(v) & (v == np.round(v)) & (np.abs(v) < 1e9)
                if not sel.any():
                    continue
                m = int(sel.sum())
                ctx.step(m)
                args = {k: (w[sel].astype(np.int64) if k == a
                            else w[sel].copy()) for k, w in cols.items()}
                widx = None
                if only_series:
                    widx = dt_index(m)
                    args = {k: pd.Series(w, index=widx)
                            for k, w in args.items()}
                compare(f'int:{a}', call(f'int:{a}', args), sel=sel,
                        want_index=widx)
            sel = np.ones(n, bool)
            for v in cols.values():
                sel &= np.isfinite(v) & (v == np.round(v)) & (np.abs(v) < 1e9)
            if sel.any() and len(names) > 1:
                m = int(sel.sum())
                ctx.step(m)
                args = {k: w[sel].astype(np.int64) for k, w in cols.items()}
                widx = None
                if only_series:
                    widx = dt_index(m)
                    args = {k: pd.Series(w, index=widx)
                            for k, w in args.items()}
                compare('int:all', call('int:all', args), sel=sel,
                        want_index=widx)
        elif form == 'mixed':
            # one argument an array, the others scalars; and the converse
            if len(names) < 2:
                continue
            mid = {k: cols[k][n // 2] for k in names}
            for a in names:
                sel = np.ones(n, bool)
                for b in names:
                    if b != a:
                        sel &= (cols[b] == mid[b]) | (np.isnan(cols[b]) &
                                                      np.isnan(mid[b]))
                if sel.sum() >= 2:
                    ctx.step(int(sel.sum()))
                    args = {k: (w[sel].copy() if k == a else float(mid[k]))
                            for k, w in cols.items()}
                    compare(f'mixed:{a}', call(f'mixed:{a}', args), sel=sel)
                sel = (cols[a] == mid[a])
                if sel.sum() >= 2:
                    ctx.step(int(sel.sum()))
                    args = {k: (float(mid[k]) if k == a else w[sel].copy())
                            for k, w in cols.items()}
                    compare(f'mixed1:{a}', call(f'mixed1:{a}', args), sel=sel)
        else:
            raise ValueError(form)
    if nan:
        args_to_nan = names if nan is True else list(nan)
        k0 = np.arange(n)[:: max(1, n // 60)]
        for a in args_to_nan:
            args = {k: v[k0].copy() for k, v in cols.items()}
            pos = np.arange(len(k0)) % 2 == 0
            args[a] = np.where(pos, np.nan, args[a])
            widx = None
            if only_series:
                widx = dt_index(len(k0))
                args = {k: pd.Series(w, index=widx) for k, w in args.items()}
            ctx.step(len(k0))
            ctx.states += int(pos.sum())
            got = call(f'nan:{a}', args)
            if got is None:
                continue
            for j, k in enumerate(okeys):
                gk = outs[j] if outs else k
                if gk not in got:
                    continue
                g = np.asarray(got[gk], dtype=float)
                if ref_nan:
                    e = []
                    for i, q in enumerate(k0):
                        p = dict(zip(names, pts[q]))
                        if pos[i]:
                            p[a] = float('nan')
                        e.append(float(flat(ref(**p))[k]))
                    e = np.array(e)
                else:
                    e = np.where(pos, np.nan, E[k][k0])
                ctx.traces += e.size
                if g.shape != e.shape:
                    ctx.fail(f'{name}/nan:{a}/shape/{gk}', f'{g.shape}')
                    continue
                bad = notclose(g, e, rtol, atol)
                if bad.any():
                    i = int(np.argmax(bad))
                    ctx.fail(f'{name}/nan:{a}/value/{gk}',
                             f'with {a} missing at even positions: got {g[i]!r}'
                             f' expected {e[i]!r} (position {i}, point '
                             f'{dict(zip(names, pts[k0[i]]))})')


def quiet(fn, *a, **k):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        return fn(*a, **k)


def case(cases, name=None, thorough_only=False):
    """Decorator registering a case function in the list `cases`."""
    def deco(f):
        cases.append((name or f.__name__, f, thorough_only))
        return f
    return deco
