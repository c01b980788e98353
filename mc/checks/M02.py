"""Tilts 0..180 x regions x direct models x resolutions against an explicit
double loop over the hemisphere and against the closed forms; all ordered
pairs of convertible models and exact self-fits."""
import numpy as np
import pandas as pd
from scipy import integrate

from mc.core import case, lattice, quiet, dt_index
from mc.ref import iam as R
from pvlib import iam

CASES = []
nan = float('nan')
TILT = [0, 0.5, 1, 10, 20, 30, 45, 60, 75, 89, 90, 91, 120, 150, 179, 180]


@case(CASES)
def martin_ruiz_diffuse(ctx):
    ts = TILT + list(range(0, 181, ctx.pick(5, 1)))
    ts = sorted(set(map(float, ts)))
    for ar in (0.05, 0.16, 0.3):
        for c1, c2 in ((0.4244, None), (0.4, -0.07), (0.4244, 0.0)):
            lattice(ctx, f'mrd-{ar}-{c1}-{c2}',
                    lambda surface_tilt: iam.martin_ruiz_diffuse(surface_tilt, ar, c1, c2),
                    lambda surface_tilt: R.martin_ruiz_diffuse(surface_tilt, ar, c1, c2),
                    dict(surface_tilt=ts), rtol=1e-6, atol=2e-6,
                    forms=('array', 'series', 'scalar', 'int', 'len1'))
    lattice(ctx, 'mrd-default', iam.martin_ruiz_diffuse,
            lambda surface_tilt: R.martin_ruiz_diffuse(surface_tilt),
            dict(surface_tilt=ts), rtol=1e-6, atol=2e-6)
    sky, gnd = iam.martin_ruiz_diffuse(np.arange(0., 181))
    ctx.step(181)
    ctx.expect(((sky >= 0) & (sky <= 1) & (gnd >= 0) & (gnd <= 1)).all(), 'mrd-bounds')


@case(CASES)
def schlick_diffuse(ctx):
    ts = sorted(set(map(float, list(range(0, 180, ctx.pick(5, 1))) +
                        [0.5, 0.1, 0.05, 0.02, 89.5, 90.5, 175., 178.])))
    lattice(ctx, 'schlickd', iam.schlick_diffuse,
            lambda surface_tilt: R.schlick_diffuse(surface_tilt),
            dict(surface_tilt=ts), rtol=1e-6, atol=1e-6,
            forms=('array', 'series', 'scalar', 'int', 'len1'))
    # closed form equals the solid-angle integral of the direct modifier
    for t in ctx.pick([0., 5., 30., 60., 90., 120., 150.],
                      [float(x) for x in range(0, 171, 5)]):
        ctx.state(t)
        ctx.step(4)
        sky, gnd = iam.schlick_diffuse(t)
        ms = iam.marion_integrate(iam.schlick, t, 'sky')
        mg = iam.marion_integrate(iam.schlick, t, 'ground')
        ctx.close(ms, sky, 'schlick-sky-integral', atol=4e-3, tilt=t)
        if t >= 5:
            ctx.close(mg, gnd, 'schlick-ground-integral', atol=1.5e-2, tilt=t)


MODELS = {
    'ashrae': ({}, {'b': 0.1}), 'physical': ({}, {'n': 1.3}, {'n': 1.526, 'n_ar': 1.29}),
    'martin_ruiz': ({}, {'a_r': 0.3}), 'schlick': ({},),
    'sapm': ({'module': dict(B0=1, B1=-0.002438, B2=0.0003103, B3=-0.00001246,
                             B4=2.11e-7, B5=-1.36e-9)},),
}
SB = (1, -0.002438, 0.0003103, -0.00001246, 2.11e-7, -1.36e-9)


def _direct(model, kw):
    if model == 'sapm':
        return lambda a: R.sapm(a, SB)
    return lambda a: getattr(R, model)(a, **kw)


def np_marion(direct_fn, tilt, region, num):
    """Vectorised explicit sum, independent of the implementation layout."""
    ai = np.pi / num
    b = np.radians(tilt)
    i = np.arange(num)
    phi = i * ai
    if region == 'sky':
        m = phi + ai <= np.pi / 2 + 1e-12
    elif region == 'ground':
        m = phi >= np.pi / 2 - 1e-12
    else:
        m = (phi >= np.radians(89.5) - 1e-12) & (phi + ai <= np.pi / 2 + 1e-12)
    phi = phi[m][:, None]
    psi = (np.arange(2 * num) * ai + ai / 2)[None, :]
    da = ai * (np.cos(phi) - np.cos(phi + ai))
    ca = np.cos(b) * np.cos(phi + ai / 2) + np.sin(b) * np.sin(phi + ai / 2) * np.cos(psi)
    ok = (ca > 0) & (np.arccos(np.clip(ca, -1, 1)) < np.pi / 2)
    w = np.where(ok, ca * da, 0.0)
    # tabulate the scalar reference on the needed angles
    th = np.degrees(np.arccos(np.clip(ca, -1, 1)))
    grid = np.linspace(0, 180, 36001)
    f = np.array([direct_fn(x) for x in grid])
    v = np.interp(th, grid, f)
    den = w.sum()
    return (v * w).sum() / den if den > 0 else 0.0


def _marion(ctx, model):
    tilts = ctx.pick([0., 20., 45., 90., 135., 180.],
                     [0., 5., 10., 20., 30., 45., 60., 75., 90., 105., 120., 150., 170., 180.])
    for kw in MODELS[model]:
        d = _direct(model, kw)
        exp = {r: [np_marion(d, t, r, 1800 if r == 'horizon' else 180) for t in tilts]
               for r in ('sky', 'horizon', 'ground')}
        out = quiet(iam.marion_diffuse, model, np.array(tilts), **kw)
        idx = dt_index(len(tilts))
        outs = quiet(iam.marion_diffuse, model, pd.Series(tilts, index=idx), **kw)
        ctx.expect(list(out) == ['sky', 'horizon', 'ground'], 'keys')
        for r in exp:
            for i, t in enumerate(tilts):
                ctx.state((model, str(kw), r, t))
            ctx.step(3 * len(tilts))
            ctx.close(out[r], exp[r], f'{model}/{r}/array', atol=3e-6, rtol=1e-5)
            ctx.expect(isinstance(outs[r], pd.Series) and outs[r].index.equals(idx),
                       f'{model}/{r}/index')
            ctx.close(outs[r], exp[r], f'{model}/{r}/series', atol=3e-6, rtol=1e-5)
            for i, t in enumerate(tilts):
                if i % 2 == 0 or ctx.thorough:
                    o = quiet(iam.marion_diffuse, model, t, **kw)[r]
                    ctx.expect(np.isscalar(o), f'{model}/{r}/scalar-type')
                    ctx.close(o, exp[r][i], f'{model}/{r}/scalar', atol=3e-6, rtol=1e-5)
            ctx.expect(all(0 <= x <= 1 + 1e-9 for x in exp[r]), f'{model}/{r}/bounds')
            ctx.outcome((model, str(kw), r, round(exp[r][1], 6)))
        v = quiet(iam.marion_diffuse, model, np.array([30., nan, 60.]), **kw)
        for r in exp:
            ctx.expect(np.isnan(v[r]).tolist() == [False, True, False], f'{model}/{r}/nan')


for _m in MODELS:
    CASES.append((f'marion_{_m}', lambda ctx, m=_m: _marion(ctx, m), False))


@case(CASES)
def marion_resolution_and_errors(ctx):
    for num in (4, 10, 36, 90):
        for region in ('sky', 'ground'):
            for t in (0., 30., 90., 150., 180.):
                ctx.state((num, region, t))
                ctx.step()
                ctx.close(iam.marion_integrate(iam.ashrae, t, region, num=num),
                          R.marion(R.ashrae, t, region, num), f'num/{region}', atol=1e-9)
    # increments that do not divide the quarter circle, and a user's own (discontinuous or increasing) modifier
    fns = {'step': (lambda a: np.where(np.asarray(a) < 61.37, 1., .3), lambda a: 1. if a < 61.37 else .3),
           'rising': (lambda a: np.asarray(a) / 90., lambda a: a / 90.), 'one': (lambda a: np.ones_like(a), lambda a: 1.)}
    for num in (3, 5, 7, 9, 15, 25, 42, 45, 50, 61) + ctx.pick((), (11, 13, 91, 125)):
        for region in ('sky', 'ground'):
            for t in (0., .4, 3., 40., 90., 133., 179.3, 180.):
                for k, (f, g) in fns.items():
                    ctx.state((num, region, t, k))
                    ctx.step()
                    ctx.close(iam.marion_integrate(f, t, region, num=num), R.marion(g, t, region, num), f'odd/{region}/{k}', atol=1e-9)
    for num in (500, 502, 999) + ctx.pick((), (700, 1001)):
        for t in (0., 40., 90., 133.):
            ctx.state((num, 'horizon', t))
            ctx.step()
            ctx.close(iam.marion_integrate(fns['rising'][0], t, 'horizon', num=num), R.marion(fns['rising'][1], t, 'horizon', num), f'odd/horizon/{num}', atol=1e-9)
    ctx.raises(ValueError, lambda: iam.marion_diffuse('interp', 20.), 'bad-model')
    ctx.raises(ValueError, lambda: iam.marion_diffuse('not', 20.), 'bad-model2')
    ctx.raises(ValueError, lambda: iam.marion_integrate(iam.ashrae, 20., 'moon'), 'bad-region')
    ctx.raises(ValueError, lambda: iam.marion_integrate(iam.ashrae, 20., 'moon', num=10),
               'bad-region2')


AOI = np.linspace(0, 90, 91)
PARAMS = {'ashrae': [{'b': 0.02}, {'b': 0.05}, {'b': 0.1}, {'b': 0.15}],
          'martin_ruiz': [{'a_r': 0.1}, {'a_r': 0.16}, {'a_r': 0.21}, {'a_r': 0.3}],
          'physical': [{'n': 1.3, 'K': 4, 'L': 0.002}, {'n': 1.526, 'K': 4, 'L': 0.002},
                       {'n': 1.7, 'K': 4, 'L': 0.01}]}


def _wres(src, tgt, aoi=AOI):
    w = 1 - np.sin(np.radians(aoi))
    w = np.where((aoi >= 0) & (aoi <= 90), w, 0)
    return np.sum(np.abs(src - np.nan_to_num(tgt)) * w)


def _curve(m, **p):
    return np.array([getattr(R, m)(a, **p) for a in AOI])


@case(CASES)
def fit_self(ctx):
    """Fitting a model to its own curve recovers that curve."""
    for m, plist in PARAMS.items():
        for p in plist:
            ctx.state((m, str(p)))
            ctx.step()
            y = _curve(m, **p)
            q = quiet(iam.fit, AOI, y, m)
            ctx.expect(set(q) == set(p), f'fit-keys/{m}', str(q))
            ctx.close(_curve(m, **q), y, f'fit-self/{m}', atol=2e-3, p=p, q=q)
            # order of the samples is irrelevant
            r = quiet(iam.fit, AOI[::-1].copy(), y[::-1].copy(), m)
            ctx.step()
            ctx.close(_curve(m, **r), y, f'fit-self-reversed/{m}', atol=2e-3)


def _best_1d(m, key, src, lo, hi):
    g = np.linspace(lo, hi, 2000)
    return min(_wres(src, np.array(_fast(m, key, x))) for x in g)


def _fast(m, key, x):
    a = np.radians(AOI)
    if m == 'ashrae':
        with np.errstate(all='ignore'):
            v = 1 - x * (1 / np.cos(a) - 1)
        v = np.maximum(v, 0)
        v[-1] = 0
        return v
    v = (1 - np.exp(-np.cos(a) / x)) / (1 - np.exp(-1 / x))
    v[-1] = 0
    return v


@case(CASES)
def convert_pairs(ctx):
    """Conversions are at least as good as exhaustive search of the target."""
    for s, plist in PARAMS.items():
        for t in PARAMS:
            for p in plist:
                if t == 'physical' and s == 'physical':
                    continue
                ctx.state((s, t, str(p)))
                ctx.step()
                src = _curve(s, **p)
                try:
                    q = quiet(iam.convert, s, p, t)
                except Exception as e:   # noqa
                    ctx.fail(f'convert/{s}/{t}/exception', f'{p}: {type(e).__name__} {e}')
                    continue
                ctx.expect(set(q) == set(PARAMS[t][0]), f'keys/{s}/{t}', str(q))
                res = _wres(src, _curve(t, **q))
                if s == t:
                    ctx.close(_curve(t, **q), src, f'convert-self/{s}', atol=1e-3, p=p, q=q)
                elif t in ('ashrae', 'martin_ruiz'):
                    key = list(PARAMS[t][0])[0]
                    best = _best_1d(t, key, src, 1e-4, 1)
                    ctx.expect(res <= best * 1.02 + 1e-3, f'convert-opt/{s}/{t}',
                               f'{p}: residual {res} vs best {best}', q=q)
                else:
                    ls = np.linspace(1e-6, 0.08, 41)
                    if s == 'ashrae':
                        b = p['b']
                        n0 = np.sin(np.arccos(b / (1 + b)))
                        ctx.close(q['n'], n0, 'convert-fixed-n', atol=1e-6)
                        ctx.expect(q['K'] == 4, 'convert-K')
                        best = min(_wres(src, _curve('physical', n=n0, K=4, L=x))
                                   for x in ls)
                        q2 = quiet(iam.convert, s, p, t, fix_n=False)
                        ctx.step()
                        r2 = _wres(src, _curve('physical', **q2))
                        ctx.expect(r2 <= res * 1.02 + 2e-2, 'convert-free-n',
                                   f'{p}: free n {r2} worse than fixed n {res}')
                    else:
                        ctx.expect(1.05 - 1e-9 <= q['n'] <= 2 and 0 <= q['L'] <= 0.08 + 1e-9
                                   and q['K'] == 4,
                                   f'convert-range/{s}/{t}', f'{p} -> {q}')
                        ns = np.linspace(1.05, 2, 20)
                        best = min(_wres(src, _curve('physical', n=n, K=4, L=x))
                                   for n in ns for x in ls[::4])
                    ctx.expect(res <= best * 1.05 + 2e-2, f'convert-opt/{s}/{t}',
                               f'{p}: residual {res} vs best {best}', q=q)
                ctx.outcome((s, t, round(res, 6)))
    for bad in [('ashrae', {'a_r': .1}, 'physical'), ('ashrae', {}, 'martin_ruiz'),
                ('martin_ruiz', {'a_r': .1, 'b': 1}, 'ashrae'),
                ('physical', {'n': 1.5}, 'ashrae')]:
        ctx.state(str(bad))
        ctx.raises(ValueError, lambda: iam.convert(*bad), f'convert-params/{bad}')
    for bad in [('nope', {'b': 1}, 'ashrae'), ('ashrae', {'b': .05}, 'sapm'),
                ('interp', {}, 'ashrae')]:
        ctx.raises(NotImplementedError, lambda: iam.convert(*bad), f'convert-model/{bad}')
    ctx.raises(NotImplementedError, lambda: iam.fit(AOI, AOI * 0 + 1, 'sapm'), 'fit-model')


@case(CASES)
def exact_fits(ctx):
    """Measurements made with the target itself: absorbing glass,
    sparse angles, angles that cannot be measured."""
    sets = dict(physical=[dict(n=n, K=4., L=L) for n in (1.3, 1.526, 1.8) for L in (.002, .01, .02)] + [dict(n=1.1, K=4., L=.002)],
                martin_ruiz=[dict(a_r=a) for a in (.05, .16, .3, .8)], ashrae=[dict(b=b) for b in (.01, .05, .2, .6)])
    for m, plist in sets.items():
        f = getattr(iam, m)
        for p in plist:
            for ang in (np.arange(0, 91.), np.arange(0, 90.1, 10.), np.array([0., 20., 40., 50., 60., 70., 80.])):
                y = quiet(f, ang, **p)
                for extra in ([], [-20., -60.], [95., 120.]):
                    a = np.concatenate([ang, extra])
                    v = np.concatenate([y, [7.] * len(extra)])
                    ctx.state((m, str(p), len(ang), str(extra)))
                    ctx.step()
                    q = quiet(iam.fit, a, v, m)
                    ctx.close(quiet(f, ang, **q), y, f'exact fit/{m}', atol=1e-3, p=p, q=str(q), extra=str(extra))


@case(CASES)
def weights(ctx):
    """A custom weight restricts the fit to where it is non-zero."""
    src = _curve('martin_ruiz', a_r=0.16)
    for cut in (40, 60, 80):
        ctx.state(cut)
        ctx.step()
        w = lambda a, c=cut: np.where(np.asarray(a) <= c, 1.0, 0.0)   # noqa
        bad = src.copy()
        bad[AOI > cut] = 0.123        # must not influence the fit
        q = quiet(iam.fit, AOI, bad, 'martin_ruiz', weight=w)
        ctx.close(_curve('martin_ruiz', **q)[AOI <= cut], src[AOI <= cut],
                  'weight-used', atol=2e-3)
