"""All incidence angles of a fine grid over [-180, 180] (including +-90 and
missing) x parameter sets x input forms against scalar Fresnel / published
equations; plus normalisation, bounds, evenness and monotonicity."""
import numpy as np
import pandas as pd

from mc.core import case, lattice, quiet
from mc.ref import iam as R
from pvlib import iam

CASES = []
nan = float('nan')


def aois(ctx):
    g = np.round(np.arange(-180, 180.01, ctx.pick(1.0, 0.1)), 3)
    return sorted(set(g.tolist()) | {-90.0, 90.0, 89.999, -89.999, 90.001, 0.25,
                                     -0.25, 59.5, 87.134, 89.5})


FORMS = ('array', 'series', 'scalar', 'int', 'len1', 'array2d')


@case(CASES)
def ashrae(ctx):
    for b in [0.0, 0.01, 0.05, 0.1, 0.3, 1.0]:
        lattice(ctx, f'ashrae-{b}', lambda aoi: iam.ashrae(aoi, b),
                lambda aoi: R.ashrae(aoi, b), dict(aoi=aois(ctx)), forms=FORMS)
    lattice(ctx, 'ashrae-default', iam.ashrae, lambda aoi: R.ashrae(aoi),
            dict(aoi=aois(ctx)), forms=FORMS)


@case(CASES)
def physical(ctx):
    ns = ctx.pick([1.1, 1.3, 1.526, 2.0], [1.05, 1.1, 1.3, 1.4, 1.526, 1.8, 2.0])
    for n in ns:
        for K, L in [(4.0, 0.002), (0.0, 0.002), (4.0, 0.0), (30., 0.004)]:
            for n_ar in [None, 1.0, 1.05, 1.29, n, 1.7]:
                lattice(ctx, f'phys-{n}-{K}-{L}-{n_ar}',
                        lambda aoi: iam.physical(aoi, n, K, L, n_ar=n_ar),
                        lambda aoi: R.physical(aoi, n, K, L, n_ar),
                        dict(aoi=aois(ctx)), rtol=1e-8, atol=1e-9,
                        forms=('array', 'series', 'int'))
    # a glass with the index of air: no reflection, absorption only, and still
    # nothing from behind
    for K, L in [(4.0, 0.002), (0.0, 0.002), (40., 0.01)]:
        for n_ar in (None, 1.0):
            lattice(ctx, f'phys-air-{K}-{L}-{n_ar}', lambda aoi: iam.physical(aoi, 1.0, K, L, n_ar=n_ar),
                    lambda aoi: R.physical(aoi, 1.0, K, L, n_ar), dict(aoi=aois(ctx)), rtol=1e-8, atol=1e-9,
                    forms=('array', 'series', 'int', 'scalar', 'len1'))
    lattice(ctx, 'phys-default', iam.physical, lambda aoi: R.physical(aoi),
            dict(aoi=aois(ctx)), rtol=1e-8, forms=FORMS)


@case(CASES)
def martin_ruiz(ctx):
    for ar in [0.01, 0.1, 0.16, 0.25, 1.0]:
        lattice(ctx, f'mr-{ar}', lambda aoi: iam.martin_ruiz(aoi, ar),
                lambda aoi: R.martin_ruiz(aoi, ar), dict(aoi=aois(ctx)), forms=FORMS)
    lattice(ctx, 'mr-default', iam.martin_ruiz, lambda aoi: R.martin_ruiz(aoi),
            dict(aoi=aois(ctx)), forms=FORMS)
    for bad in (0, 0.0, -0.1, [0.1, 0.0], [0.16, -1]):
        ctx.state(str(bad))
        ctx.raises(ValueError, lambda: iam.martin_ruiz(45.0, bad), f'mr-bad/{bad}')


@case(CASES)
def schlick(ctx):
    lattice(ctx, 'schlick', iam.schlick, lambda aoi: R.schlick(aoi),
            dict(aoi=aois(ctx)), forms=FORMS)


SAPM = [
    (1.0, -0.002438, 0.0003103, -0.00001246, 2.11e-7, -1.36e-9),
    (1.0, -0.003, 0.0004, -2e-5, 2e-7, -1e-9),
    (1.0, 0.0, 0.0, 0.0, 0.0, 0.0),
    (1.0, 0.01, 0.0, 0.0, 0.0, -1e-9),
]


@case(CASES)
def sapm(ctx):
    for i, B in enumerate(SAPM):
        mod = {f'B{j}': v for j, v in enumerate(B)}
        for upper in (None, 1.0, 1.05):
            for m, tag in ((mod, 'dict'), (pd.Series(mod), 'series')):
                lattice(ctx, f'sapm-{i}-{upper}-{tag}',
                        lambda aoi: iam.sapm(aoi, m, upper),
                        lambda aoi: R.sapm(aoi, B, upper),
                        dict(aoi=aois(ctx)), forms=FORMS)


@case(CASES)
def interp(ctx):
    tabs = [((0, 90), (1.0, 0.0)), ((0, 60, 90), (1.0, 0.9, 0.0)),
            ((0, 10, 45, 70, 90), (1.0, 1.0, 0.99, 0.8, 0.0)),
            ((0, 50, 80), (0.95, 0.94, 0.5)), ((0., 30.), (2.0, 1.5)),
            ((0, 45, 60), (1.0, 0.5, 0.1)), ((0, 20, 60, 90), (.98, 1.02, .9, 0.)),
            ((10, 40, 80), (0.97, 1.01, .3))]
    for i, (x, y) in enumerate(tabs):
        for norm in (True, False):
            for conv in (list, np.array, tuple):
                lattice(ctx, f'interp-{i}-{norm}-{conv.__name__}',
                        lambda aoi: iam.interp(aoi, conv(x), conv(y), normalize=norm),
                        lambda aoi: R.interp_linear(aoi, x, y) / (R.interp_linear(0., x, y) if norm else 1),
                        dict(aoi=aois(ctx)), forms=FORMS)
    # splines pass through their knots, normalised
    x = np.array([0, 20, 40, 60, 75, 90.])
    y = np.array([0.98, 0.975, 0.96, 0.88, 0.6, 0.0])
    for meth in ('linear', 'quadratic', 'cubic'):
        for norm in (True, False):
            ctx.state((meth, norm))
            ctx.step()
            r = iam.interp(x, x, y, method=meth, normalize=norm)
            ctx.close(r, y / (y[0] if norm else 1), f'knots/{meth}/{norm}', atol=1e-9)
            r = iam.interp(-x, x, y, method=meth, normalize=norm)
            ctx.close(r, y / (y[0] if norm else 1), f'knots-neg/{meth}/{norm}', atol=1e-9)
            g = iam.interp(np.arange(0, 90.5, .5), x, y, method=meth, normalize=norm)
            ctx.expect((g >= 0).all(), f'nonneg/{meth}')
    # the smallest tables: linear through 2, quadratic through 3, cubic through 4
    g = np.array([-90., -60., -30., 0., 10., 30., 45., 60., 75., 90.])
    a = np.abs(g)
    for meth, xs, ys in [('linear', (0, 90), (1., .1)), ('quadratic', (0, 45, 90), (1., .9, .2)), ('cubic', (0, 30, 60, 90), (1., .98, .8, .1)),
                         ('quadratic', (0, 60, 90), (.9, .8, .3)), ('cubic', (0, 45, 70, 90), (.95, .9, .7, .3)),
                         ('quadratic', (0, 45, 90), (.95, 1.05, .2))]:
        ctx.state((meth, xs))
        ctx.step()
        want = np.polyval(np.polyfit(xs, ys, len(xs) - 1), a)
        ctx.close(iam.interp(g, xs, ys, method=meth, normalize=False), np.clip(want, 0, None), f'smallest table/{meth}', atol=1e-9)
        ctx.close(iam.interp(g, xs, ys, method=meth), np.clip(want, 0, None) / ys[0], f'smallest table normalised/{meth}', atol=1e-9)
    # step methods (deprecated, still promised): neighbours of each angle
    xs, ys = np.array([0., 20., 50., 90.]), np.array([1., .9, .7, .2])
    step = dict(nearest=lambda v: ys[np.argmin(abs(xs - v))], previous=lambda v: ys[np.searchsorted(xs, v, 'right') - 1],
                zero=lambda v: ys[np.searchsorted(xs, v, 'right') - 1], slinear=lambda v: float(np.interp(v, xs, ys)))
    step['nearest-up'] = step['nearest']
    step['next'] = lambda v: ys[np.searchsorted(xs, v, 'left')]
    for meth, f in step.items():
        for v in (0., 5., 19., 20., 21., 34., 36., 49.5, 50., 69., 71., 90., -21., -90.):
            ctx.state((meth, v))
            ctx.step()
            ctx.close(float(quiet(iam.interp, v, xs, ys, method=meth)), f(abs(v)), f'step method/{meth}', atol=1e-12)
    for bad, kw in [(((0,), (1,)), {}), (((0, 90), (1, 0)), dict(method='quadratic')),
                    (((0, 45, 90), (1, .9, 0)), dict(method='cubic')),
                    (((0, 90), (1, -0.1)), {}),
                    (((0, 90), (1, 0)), dict(method='bogus'))]:
        ctx.state(str((bad, kw)))
        ctx.raises(ValueError, lambda: iam.interp(10., *map(list, bad), **kw),
                   f'interp-bad/{bad}/{kw}')


@case(CASES)
def laws(ctx):
    """Normalisation, bounds, evenness, monotonicity on the fine grid."""
    g = np.round(np.arange(0, 90.0001, ctx.pick(0.25, 0.01)), 4)
    fns = {}
    for b in (0, 0.05, 0.2, 0.5):
        fns[f'ashrae{b}'] = lambda a, b=b: iam.ashrae(a, b)
    for n in (1.1, 1.526, 1.9):
        for ar in (None, 1.29):
            if ar is None or ar < n:
                fns[f'physical{n}{ar}'] = lambda a, n=n, ar=ar: iam.physical(a, n, n_ar=ar)
    for a_r in (0.05, 0.16, 0.4):
        fns[f'martin{a_r}'] = lambda a, r=a_r: iam.martin_ruiz(a, r)
    fns['schlick'] = iam.schlick
    for name, f in fns.items():
        v = quiet(f, g)
        w = quiet(f, -g)
        beyond = quiet(f, np.array([90., 90.5, 100., 135., 179., 180., -95., -180.]))
        ctx.state(name)
        ctx.states += len(g)
        ctx.step(2 * len(g) + 8)
        ctx.expect(abs(v[0] - 1) < 1e-12, f'{name}/normalised')
        ctx.expect((v >= 0).all() and (v <= 1 + 1e-12).all(), f'{name}/bounds')
        ctx.expect((np.diff(v) <= 1e-9).all(), f'{name}/monotone')
        ctx.close(w, v, f'{name}/even', atol=1e-12)
        ctx.close(beyond, np.zeros(8), f'{name}/behind', atol=1e-12)
        ctx.outcome((name, round(float(v[len(v) // 2]), 9)))
