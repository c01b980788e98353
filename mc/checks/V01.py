"""Lattice of single-diode parameter sets (dark, zero series resistance,
infinite shunt, recombination, breakdown) x solver x operating point x input
form; oracle: bisection on the parametric diode equation, plus residual,
inverse and maximality invariants."""
import itertools
import math

import numpy as np
import pandas as pd

from mc.core import case, lattice, quiet, dt_index, flat, notclose
from mc.ref import diode as D
from pvlib import pvsystem as ps, singlediode as sd

CASES = []
inf = math.inf
PN = ['photocurrent', 'saturation_current', 'resistance_series', 'resistance_shunt', 'nNsVth']
METHODS = ['lambertw', 'brentq', 'newton', 'chandrupatla']
OUT = ['i_sc', 'v_oc', 'i_mp', 'v_mp', 'p_mp', 'i_x', 'i_xx']


def table(fn, *cols):
    """Vectorised reference -> lookup by parameter tuple."""
    res = flat(fn(*[np.array(c, float) for c in cols]))
    keys = list(zip(*[[float(x) for x in c] for c in cols]))
    return {k: {n: float(np.asarray(res[n])[i]) for n in res} for i, k in enumerate(keys)}


def axes(ctx, method):
    ax = dict(photocurrent=[0, 0.05, 1, 8], saturation_current=[1e-12, 1e-7], resistance_series=[0, 0.05, 1],
              resistance_shunt=[3, 300, inf], nNsVth=[0.5, 1.7, 4])
    if ctx.thorough:
        ax.update(photocurrent=[0, 1e-3, 0.05, 1, 4, 8, 12.5], saturation_current=[1e-14, 1e-10, 1e-8, 1e-6],
                  resistance_series=[0, 0.05, 0.3, 1], resistance_shunt=[3, 50, 300, 1e4, inf], nNsVth=[0.5, 1, 1.7, 2.5, 4])
    return ax


def _points(method):
    def f(ctx):
        ax = axes(ctx, method)
        pts = list(itertools.product(*ax.values()))
        tab = table(D.points, *zip(*pts))

        def run(**k):
            return ps.singlediode(**k, method=method)
        slow = 60 if method == 'lambertw' else 200
        for outs, tol in ((['i_sc', 'v_oc', 'p_mp', 'i_x'], 1e-8), (['v_mp', 'i_mp', 'i_xx'], 3e-6)):
            def ref(**k):
                r = tab[tuple(float(k[n]) for n in PN)]
                return {o: r[o] for o in outs}
            forms = ('array', 'series', 'int', 'mixed', 'len1', 'scalar') if tol < 1e-7 else ('array', 'scalar')
            lattice(ctx, f'singlediode {method}', run, ref, ax, forms=forms, rtol=tol, atol=tol, nan=False,
                    scalar_max=slow)
        # invariants on the implementation's own answers
        cols = [np.array(c, float) for c in zip(*pts)]
        o = quiet(ps.singlediode, *cols, method=method)
        ctx.step(len(pts))
        ctx.expect(list(o.columns) == OUT, f'{method}/columns', str(list(o.columns)))
        eps = 1e-7
        ctx.expect(bool(((o.v_mp >= -eps) & (o.v_mp <= o.v_oc + eps)).all()), f'{method}/vmp order')
        ctx.expect(bool(((o.i_mp >= -eps) & (o.i_mp <= o.i_sc + eps)).all()), f'{method}/imp order')
        ctx.close(o.p_mp, o.i_mp * o.v_mp, f'{method}/p=iv', rtol=1e-9, atol=1e-9)
        for u in np.linspace(0, 1, ctx.pick(21, 101)):
            v = u * o.v_oc.to_numpy()
            i = D.i_from_v(v, *cols)
            ctx.step(len(pts))
            ctx.expect(bool((v * i <= o.p_mp.to_numpy() + 1e-7).all()), f'{method}/maximum power beaten', f'at {u} Voc')
        # the returned points satisfy the implicit equation
        for vn, inn in (('v_mp', 'i_mp'),):
            v, i = o[vn].to_numpy(), o[inn].to_numpy()
            IL, I0, Rs, Rsh, a = cols
            res = IL - I0 * np.expm1((v + i * Rs) / a) - (v + i * Rs) / Rsh - i
            ctx.close(res, 0 * res, f'{method}/equation', rtol=0, atol=1e-7)
    return f


for _m in METHODS:
    CASES.append((f'singlediode {_m}', _points(_m), False))


def _inv(method):
    def f(ctx):
        base = axes(ctx, method)
        base = dict(base, nNsVth=[0.5, 1.7])
        bracket = method in ('brentq', 'chandrupatla')
        allp = list(itertools.product(*base.values()))
        voc = {k: v[''] for k, v in table(D.v_from_i, *zip(*[(0.,) + p for p in allp])).items()}
        pv = [(v,) + tuple(map(float, p)) for v in [-9., -2., 0., .3, 1., 5., 20.] for p in allp]
        ci = [(i,) + tuple(map(float, p)) for i in [-.5, 0., .05, .5, 3., 8.] for p in allp]

        def keep_v(**k):
            v = k['voltage']
            c = voc[(0.,) + tuple(float(k[n]) for n in PN)]
            return (not bracket or 0 <= v <= c) and v <= 3 * c + 1

        def keep_i(**k):
            i = k['current']
            if method == 'newton' and not 0 <= i <= k['photocurrent']:
                return False        # its start, the open-circuit voltage, is documented for the power quadrant
            if bracket and not 0 <= i <= k['photocurrent']:
                return False
            if k['photocurrent'] == 0 and i < 0 and k['resistance_shunt'] == inf:
                return True
            if k['resistance_shunt'] == inf and i >= k['photocurrent'] and i != 0:   # unbounded, or lost in rounding
                return False
            return True
        tv = table(D.i_from_v, *zip(*pv))
        ti = table(D.v_from_i, *zip(*ci))
        forms = ('array', 'series', 'int', 'mixed', 'len1', 'scalar')
        if method != 'lambertw':
            forms = ('array', 'series', 'int', 'mixed', 'len1', 'scalar')

        def as_in(fn):
            # documented to return arrays: only check shape and value
            def g(**k):
                return np.asarray(fn(**k, method=method))
            return g
        forms = tuple(x for x in forms if x != 'series')
        lattice(ctx, f'i_from_v {method}', as_in(ps.i_from_v),
                lambda **k: tv[tuple(float(k[n]) for n in ['voltage'] + PN)][''],
                dict(voltage=[-9, -2, 0, .3, 1, 5, 20], **base), forms=forms, rtol=1e-7, atol=1e-8, nan=False, keep=keep_v,
                scalar_max=150)
        lattice(ctx, f'v_from_i {method}', as_in(ps.v_from_i),
                lambda **k: ti[tuple(float(k[n]) for n in ['current'] + PN)][''],
                dict(current=[-.5, 0, .05, .5, 3, 8], **base), forms=forms, rtol=1e-7, atol=1e-8, nan=False, keep=keep_i,
                scalar_max=150)
        # mutual inverse on the implementation, both directions
        P = [np.array(c, float) for c in zip(*allp)]
        vo = np.array([voc[(0.,) + tuple(map(float, p))] for p in allp])
        vo[P[0] == 0] = 0.
        for u in (0., .1, .5, .9, 1.):
            v = u * vo
            i = quiet(ps.i_from_v, v, *P, method=method)
            i = np.minimum(i, P[0]) if bracket else i
            sel = (i >= 1e-9) | ((u < 1) & (P[0] > 0)) if bracket else np.ones(len(v), bool)
            if not sel.any():
                continue
            Q = [c[sel] for c in P]
            back = quiet(ps.v_from_i, i[sel], *Q, method=method)
            ctx.step(2 * len(v))
            # in the current-source region the current hardly depends on voltage
            slope = 1 / Q[3] + Q[1] * np.exp(np.minimum(D.vd_of_v(v[sel], tuple(Q)) / Q[4], 500)) / Q[4]
            if bracket:
                back = np.clip(back, 0, vo[sel])
            again = quiet(ps.i_from_v, back, *Q, method=method)
            ctx.close(again, i[sel], f'{method}/inverse current', rtol=1e-7, atol=1e-7)
            ok = slope > 1e-5
            ctx.close(np.asarray(back)[ok], v[sel][ok], f'{method}/inverse voltage', rtol=1e-6, atol=1e-6)
        # shapes and containers
        for fn, x in ((ps.i_from_v, 1.0), (ps.v_from_i, 0.5)):
            r = fn(x, 1., 1e-9, .1, 100., 1.5, method=method)
            ctx.step()
            ctx.expect(np.ndim(r) == 0, f'{fn.__name__} {method} scalar', repr(r))
            r = fn(np.array([x, x, 0.2]), 1., 1e-9, .1, 100., 1.5, method=method)
            ctx.expect(np.shape(r) == (3,), f'{fn.__name__} {method} array', repr(r))
            r1 = fn(x, 1., 1e-9, np.array([.1, .2]), 100., 1.5, method=method)
            ctx.expect(np.shape(r1) == (2,), f'{fn.__name__} {method} param array', repr(r1))
            ctx.raises(NotImplementedError, lambda: fn(x, 1., 1e-9, .1, 100., 1.5, method='nope'), f'{fn.__name__} unknown method')
            ctx.close(fn(x, 1., 1e-9, .1, 100., 1.5, method=method.upper()), fn(x, 1., 1e-9, .1, 100., 1.5, method=method),
                      f'{fn.__name__} {method} method case')
            ctx.state(n=4)
    return f


for _m in METHODS:
    CASES.append((f'inverse {_m}', _inv(_m), False))


def _full(ctx):
    """Parameter sets with recombination and breakdown."""
    out = []
    for IL, I0, Rs, Rsh, a in itertools.product([.2, 6.], ctx.pick([1e-9], [1e-12, 1e-9, 1e-7]), [0., .3], [30., 400.], [1.7]):
        for d2, vbi in ((0., inf), (.6, 64.8), (1.4, 90.), (1., 30.), (1.4, 26.), (.004, 54.)):
            for bf, bv, be in ((0., -5.5, 3.28), (.002, -21., 3.28), (.01, -13., 4.)):
                out.append((IL, I0, Rs, Rsh, a, d2, vbi, bf, bv, be))
    return out


BN = PN + ['d2mutau', 'NsVbi', 'breakdown_factor', 'breakdown_voltage', 'breakdown_exp']


@case(CASES)
def extreme_resistances(ctx):
    """Resistances far outside a module's, where a solver is tempted to treat
    them as zero or infinite."""
    P = list(itertools.product((.05, 8.), (1e-10,), (1e-6, 1e-5, 9e-5, 1e-3, 2.5), (.5, 3., 1e4, 1e6), (.5, 1.7)))
    C = [np.array(c, float) for c in zip(*P)]
    tab = table(D.points, *C)
    exp = {o: np.array([tab[tuple(map(float, p))][o] for p in P]) for o in OUT}
    voc = exp['v_oc']
    for m in METHODS:
        ctx.state(n=len(P))
        ctx.step(4 * len(P))
        r = quiet(ps.singlediode, *C, method=m)
        for o in ('i_sc', 'v_oc', 'p_mp', 'i_x'):
            ctx.close(r[o], exp[o], f'extreme resistances {m} {o}', rtol=1e-8, atol=1e-9)
        for u in (0., .3, .9, .99):
            v = u * voc
            i = quiet(ps.i_from_v, v, *C, method=m)
            ctx.close(i, D.i_from_v(v, *C), f'extreme resistances {m} i_from_v', rtol=1e-8, atol=1e-8)
            i = u * exp['i_sc']
            ctx.close(quiet(ps.v_from_i, i, *C, method=m), D.v_from_i(i, *C), f'extreme resistances {m} v_from_i', rtol=1e-7, atol=1e-8)


@case(CASES)
def bishop88_point(ctx):
    """Current, voltage, power and their derivatives at diode voltages."""
    def ref(x, *p):
        IL, I0, Rs, Rsh, a, d2, vbi, bf, bv, be = p

        def cur(y):
            i = IL - I0 * (np.exp(y / a) - 1) - y / Rsh
            if d2 > 0:
                i = i - IL * d2 / (vbi - y)
            if bf:
                i = i - bf * y / Rsh * (1 - y / bv) ** (-be)
            return i

        def g(y):
            r = -I0 * np.exp(y / a) / a - 1 / Rsh
            if d2 > 0:
                r = r - IL * d2 / (vbi - y) ** 2
            if bf:
                r = r - bf / Rsh * (1 - y / bv) ** (-be) - bf * y / Rsh * be / bv * (1 - y / bv) ** (-be - 1)
            return r

        def dpdv(y):
            i = cur(y)
            gv = 1 - g(y) * Rs
            return (y - i * Rs) * g(y) / gv + i
        i = cur(x)
        h = 1e-30
        return (i, x - i * Rs, i * (x - i * Rs), g(x), 1 - g(x) * Rs, g(x) / (1 - g(x) * Rs), dpdv(x),
                dpdv(x + 1j * h).imag / h)
    ps_ = _full(ctx) + [p[:2] + (2.5,) + p[3:] for p in _full(ctx)[::5]]
    xs = [-6., -1., 0., .4, 10., 20., 24.]
    P = [(x,) + p for p in ps_ for x in xs]
    C = [np.array(c, float) for c in zip(*P)]
    exp = np.array([ref(*p) for p in P]).T
    ctx.state(n=len(P))
    for gr in (False, True):
        r = quiet(sd.bishop88, *C, gradients=gr)
        ctx.step(len(P))
        ctx.expect(len(r) == (8 if gr else 3), 'bishop88 outputs', str(len(r)))
        for j, v in enumerate(r):
            ctx.close(v, exp[j], f'bishop88 output {j} gradients={gr}', rtol=1e-8, atol=1e-10)
    for k in range(0, len(P), 11):
        r = quiet(sd.bishop88, *P[k], gradients=True)
        ctx.step()
        for j, v in enumerate(r):
            ctx.close(v, exp[j][k], f'bishop88 scalar output {j}', rtol=1e-8, atol=1e-10)
    d = quiet(sd.bishop88, C[0][:7], *P[0][1:6])
    ctx.close(d[0], D.iv(C[0][:7], *P[0][1:6])[0], 'bishop88 defaults')
    r = quiet(sd.bishop88, np.array([-6., -2., 0.]), 6., 1e-9, .3, 30., 1.7, breakdown_factor=.01, breakdown_voltage=-13.)
    ctx.close(r[0], D.iv(np.array([-6., -2., 0.]), 6., 1e-9, .3, 30., 1.7, 0., inf, .01, -13., 3.28)[0], 'bishop88 exponent default')
    r = quiet(sd.bishop88, np.array([-4., -2., 0.]), 6., 1e-9, .3, 30., 1.7, breakdown_factor=.01)
    ctx.close(r[0], D.iv(np.array([-4., -2., 0.]), 6., 1e-9, .3, 30., 1.7, 0., inf, .01, -5.5, 3.28)[0], 'bishop88 voltage default')


@case(CASES)
def bishop88_solvers(ctx):
    """Solvers with recombination and breakdown, with and without full output."""
    ps_ = _full(ctx)
    C = [np.array(c, float) for c in zip(*ps_)]
    im, vm, pm = D.mpp(*C)
    voc = D.v_from_i(0., *C)
    for meth in ('brentq', 'newton', 'chandrupatla'):
        for full in (False, True):
            kw = dict(method=meth)
            if full:
                kw['method_kwargs'] = {'full_output': True}
            vec = not (full and meth == 'brentq')
            idx = [np.arange(len(ps_))] if vec else [np.array([k]) for k in range(0, len(ps_), 5)]
            for sel in idx:
                A = [c[sel] for c in C] if vec else [float(c[sel[0]]) for c in C]

                def call(fn, *x):
                    try:
                        r = quiet(fn, *x, *A, **kw)
                    except Exception as e:
                        ctx.fail(f'{fn.__name__} {meth} full={full} raised', f'{type(e).__name__}: {e}')
                        return None
                    ctx.step(len(sel))
                    if full:
                        ctx.expect(isinstance(r, tuple) and len(r) == 2, f'{fn.__name__} {meth} full output', str(type(r)))
                        return r[0]
                    return r
                ctx.state(('mpp', meth, full, tuple(sel)))
                r = call(sd.bishop88_mpp)
                if r is not None:
                    for j, e in enumerate((im, vm, pm)):
                        ctx.close(np.atleast_1d(r[j]), e[sel], f'bishop88_mpp {meth} full={full} {j}', rtol=3e-6, atol=3e-6)
                for u in (0., .3, .8, .97):
                    v = u * voc[sel]
                    x = v if vec else float(v[0])
                    r = call(sd.bishop88_i_from_v, x)
                    e = D.i_from_v(v, *[c[sel] for c in C])
                    ctx.state(('iv', meth, full, u, tuple(sel)))
                    if r is not None:
                        ctx.close(np.atleast_1d(r), e, f'bishop88_i_from_v {meth} full={full}', rtol=1e-6, atol=1e-6)
                    e = u * .9 * D.i_from_v(0 * v, *[c[sel] for c in C])
                    r = call(sd.bishop88_v_from_i, e if vec else float(e[0]))
                    ev = D.v_from_i(e, *[c[sel] for c in C])
                    if r is not None:
                        ctx.close(np.atleast_1d(r), ev, f'bishop88_v_from_i {meth} full={full}', rtol=1e-6, atol=1e-6)
        # reverse bias: only Newton is defined there
    for v in (-1., -4., -9.):
        sel = np.flatnonzero((C[7] > 0) & (C[5] == 0))
        A = [c[sel] for c in C]
        lo = np.where(v > A[8], A[8] * .999999, v)
        r = quiet(sd.bishop88_i_from_v, v, *A, method='newton')
        e = D.iv(D.vd_of_v(np.full(len(sel), v), tuple(A), lo=A[8] * .999999), *A)[0]
        ctx.state(('reverse', v), n=1)
        ctx.step(len(sel))
        ctx.close(r, e, 'bishop88_i_from_v reverse newton', rtol=1e-6, atol=1e-6)
    for fn, x in ((sd.bishop88_mpp, ()), (sd.bishop88_i_from_v, (1.,)), (sd.bishop88_v_from_i, (.1,))):
        ctx.raises(NotImplementedError, lambda: fn(*x, 1., 1e-9, .1, 100., 1.5, method='bisect'), f'{fn.__name__} unknown method')
        d = {'full_output': False, 'maxiter': 60}
        quiet(fn, *x, 1., 1e-9, .1, 100., 1.5, method='newton', method_kwargs=d)
        ctx.expect(d == {'full_output': False, 'maxiter': 60}, f'{fn.__name__} changed method_kwargs', str(d))


@case(CASES)
def built_in_voltage(ctx):
    """Thin-film recombination with built-in voltages around and below the
    open-circuit voltage of the plain diode; method names in any case."""
    vbi = np.arange(14., 42., ctx.pick(2., .25))
    for IL, d2, Rs, I0 in itertools.product((.3, 6.), (.05, .6, 1.4), (0., .3, 1.1), (1e-9, 1e-7)):
        P = (IL, I0, Rs, 300., 1.7, d2, vbi)
        A = (IL, I0, Rs, 300., 1.7)
        B = [np.full(len(vbi), x) for x in A] + [np.full(len(vbi), d2), vbi]
        im, vm, pm = D.mpp(*B)
        voc = D.v_from_i(np.zeros(len(vbi)), *B)
        for meth in ('Brentq', 'chandrupatla') if Rs else ('brentq', 'Chandrupatla'):
            ctx.state((IL, d2, Rs, I0, meth), n=len(vbi))

            def call(fn, *x):
                ctx.step(len(vbi))
                try:
                    return quiet(fn, *x, *A, d2mutau=d2, NsVbi=vbi, method=meth)
                except Exception as e:    # noqa
                    ctx.fail(f'built-in {fn.__name__} {meth} raised', f'{type(e).__name__}: {e}', args=(IL, d2, Rs, I0))
            r = call(sd.bishop88_mpp)
            if r is not None:
                ctx.close(r[2], pm, f'built-in mpp {meth}', rtol=1e-5, atol=1e-9)
            for u in (.05, .4, .9, .995):
                r = call(sd.bishop88_i_from_v, u * voc)
                e = D.i_from_v(u * voc, *B)
                if r is not None:
                    ctx.close(r, e, f'built-in i_from_v {meth}', rtol=1e-6, atol=1e-6)
                cur = u * .98 * D.i_from_v(0 * voc, *B)
                r = call(sd.bishop88_v_from_i, cur)
                if r is not None:
                    ctx.close(r, D.v_from_i(cur, *B), f'built-in v_from_i {meth}', rtol=1e-6, atol=1e-6)


@case(CASES)
def max_power_point(ctx):
    """The wrapper: container, keys, recombination, methods, mixed shapes."""
    for meth in ('brentq', 'newton', 'chandrupatla'):
        ax = dict(photocurrent=[1, 2, 8], saturation_current=[1e-9, 1e-7], resistance_series=[0, .3],
                  resistance_shunt=[30, 400, inf], nNsVth=[1.7, 3], d2mutau=[0, 1.2], NsVbi=[40., 90.])
        pts = list(itertools.product(*ax.values()))
        tab = table(D.mpp, *zip(*pts))
        nm = {'0': 'i_mp', '1': 'v_mp', '2': 'p_mp'}

        def ref(**k):
            r = tab[tuple(float(k[n]) for n in list(ax))]
            return {nm[j]: r[j] for j in nm}
        lattice(ctx, f'max_power_point {meth}', lambda **k: ps.max_power_point(**k, method=meth), ref, ax,
                forms=('array', 'series', 'int', 'mixed', 'len1', 'scalar'), nan=False, rtol=3e-6, atol=3e-6, scalar_max=60)
    r = ps.max_power_point(6., 1e-9, .3, 300., 1.7)
    ctx.expect(list(r) == ['i_mp', 'v_mp', 'p_mp'], 'max_power_point keys', str(list(r)))
    e = D.mpp(6., 1e-9, .3, 300., 1.7)
    ctx.close([r['i_mp'], r['v_mp'], r['p_mp']], [float(x) for x in e], 'max_power_point default', rtol=1e-6, atol=1e-6)


@case(CASES)
def containers(ctx):
    """Scalars give mappings; any Series gives a frame with its index; arrays a frame."""
    base = dict(photocurrent=6., saturation_current=1e-9, resistance_series=.3, resistance_shunt=300., nNsVth=1.7)
    idx = dt_index(3)
    alt = dict(photocurrent=[0., 3., 6.], saturation_current=[1e-9, 2e-9, 1e-8], resistance_series=[0., .2, .4],
               resistance_shunt=[50., 300., inf], nNsVth=[1.5, 1.7, 2.])
    memo = {}
    for meth in METHODS:
        r = ps.singlediode(**base, method=meth)
        ctx.state((meth, 'scalar'))
        ctx.expect(isinstance(r, dict) and list(r) == OUT and all(np.ndim(v) == 0 for v in r.values()), f'{meth} scalar container', repr(r))
        for mask in itertools.product((0, 1, 2), repeat=5):
            if sum(m > 0 for m in mask) not in (1, 2, 5):
                continue
            args = {}
            for k, m in zip(PN, mask):
                args[k] = base[k] if m == 0 else np.array(alt[k]) if m == 1 else pd.Series(alt[k], index=idx)
            ctx.state((meth, mask))
            ctx.step()
            try:
                r = quiet(ps.singlediode, **args, method=meth)
            except Exception as e:
                ctx.fail(f'{meth} containers {mask}', f'{type(e).__name__}: {e}')
                continue
            pat = tuple(m > 0 for m in mask)
            if pat not in memo:
                memo[pat] = D.points(*[np.broadcast_to(np.asarray(args[k], float), 3) for k in PN])
            e = memo[pat]
            ctx.expect(isinstance(r, pd.DataFrame), f'{meth} container type', repr(type(r)))
            if 2 in mask:
                ctx.expect(r.index.equals(idx), f'{meth} container index', repr(r.index))
            else:
                ctx.expect(isinstance(r.index, pd.RangeIndex), f'{meth} plain index', repr(r.index))
            for k in OUT:
                ctx.close(r[k], e[k], f'{meth} container {k}', rtol=3e-6, atol=3e-6)
    with_nan = dict(base, photocurrent=np.array([np.nan, 6., 0.]))
    for meth in ('lambertw', 'newton', 'chandrupatla'):
        try:
            r = quiet(ps.singlediode, **with_nan, method=meth)
        except Exception:
            continue       # a solver may refuse missing values
        ctx.state((meth, 'nan'))
        e = D.points(6., 1e-9, .3, 300., 1.7)
        for k in OUT:
            ctx.close(r[k].to_numpy()[1], float(e[k]), f'{meth} value beside nan {k}', rtol=3e-6, atol=3e-6)
            ctx.expect(bool(np.isnan(r[k].to_numpy()[0])), f'{meth} nan row {k}')
