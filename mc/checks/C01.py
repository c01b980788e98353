"""Product lattice of sun position x airmass x turbidity / aerosol / water x
altitude / pressure x extraterrestrial irradiance, in every input form, against
scalar equations of the published clear-sky models; closure, sign and
darkness are asserted on the implementation's own outputs at every point."""
import itertools

import numpy as np
import pandas as pd

from mc.core import case, lattice, quiet, dt_index, flat, same_value, deepcopy
from mc.ref import clear as C
from pvlib import clearsky

CASES = []
nan = float('nan')
Z = [0, 12.3, 37, 60, 77, 85, 88.7, 89.9, 89.99, 90.001, 91, 95, 120, 180]
FORMS = ('array', 'series', 'scalar', 'int', 'mixed', 'len1', 'array2d')


def phys(ctx, out, z, key, close=True, dark=True):
    """Sign, closure and darkness on actual outputs (no reference)."""
    o = {k: np.asarray(v, float) for k, v in flat(out).items()}
    c = np.maximum(np.cos(np.radians(z)), 0)
    ctx.traces += 3 * len(z)
    for k in ('ghi', 'dni', 'dhi'):
        if not (o[k] >= -1e-9).all():
            i = int(np.argmin(o[k]))
            ctx.fail(f'{key}/negative/{k}', f'{o[k][i]} at zenith {z[i]}')
        if dark:
            b = z > 90
            if not (np.abs(o[k][b]) <= 1e-9).all():
                ctx.fail(f'{key}/not-dark/{k}', f'{o[k][b].max()} below the horizon')
    if close:
        d = np.abs(o['ghi'] - o['dhi'] - o['dni'] * c)
        if not (d <= 1e-9 * (1 + o['ghi'])).all():
            i = int(np.argmax(d))
            ctx.fail(f'{key}/closure', f'ghi - dhi - dni cos z = {d[i]} at zenith {z[i]}')


def container(ctx, fn, args, series, outs, key):
    """Every subset of the given arguments as series, the others as scalars:
    a frame with the series index when one of `series` decides it."""
    n = 4
    idx = dt_index(n)[::-1]          # decreasing
    idx2 = idx[[0, 1, 1, 2]]         # repeated label
    for ix in (idx, idx2):
        for s in series:
            a = {k: (pd.Series(np.asarray(v, float)[:n], index=ix) if k in s else float(v[0]))
                 for k, v in args.items()}
            b = deepcopy(a)
            out = quiet(fn, **a)
            ctx.step()
            ctx.state((key, tuple(s), ix is idx2))
            ctx.expect(isinstance(out, pd.DataFrame) and list(out.columns) == list(outs)
                       and out.index.equals(ix), f'{key}/frame/{"+".join(s)}',
                       f'{type(out).__name__} {getattr(out, "columns", None)}')
            ctx.expect(all(same_value(a[k], b[k]) for k in a), f'{key}/mutated/{"+".join(s)}')
            for i in range(n):
                e = flat(quiet(fn, **{k: (float(v.iloc[i]) if isinstance(v, pd.Series) else v)
                                      for k, v in a.items()}))
                for k in outs:
                    ctx.close(np.asarray(out[k], float)[i], np.asarray(e[k], float).reshape(()),
                              f'{key}/frame-value/{"+".join(s)}/{k}')


@case(CASES)
def ineichen(ctx):
    for enh in (False, True):
        lattice(ctx, f'ineichen-{enh}',
                lambda z, am, tl, alt, ex: clearsky.ineichen(z, am, tl, alt, ex, perez_enhancement=enh),
                lambda z, am, tl, alt, ex: C.ineichen(z, am, tl, alt, ex, enh),
                dict(z=ctx.pick(Z, Z + [5, 25, 45, 50, 65, 70, 80, 83, 87, 89, 89.5]),
                     am=[0.55, 1, 1.7, 5, 14, 37.9, nan], tl=[1, 2.2, 3, 6.5, 10],
                     alt=[-350, 0, 1500, 4200], ex=[1316, 1364, 1412.3]),
                outs=['ghi', 'dni', 'dhi'], nan=['z', 'tl', 'alt', 'ex'], ref_nan=True,
                forms=FORMS, scalar_max=1500)
    # the defaults
    z, am, tl = np.array([10., 60, 89, 100]), np.array([1., 2, 20, nan]), 3.
    g = quiet(clearsky.ineichen, z, am, tl)
    e = np.array([C.ineichen(a, b, tl) for a, b in zip(z, am)])
    for j, k in enumerate(('ghi', 'dni', 'dhi')):
        ctx.close(g[k], e[:, j], f'ineichen/default/{k}')
    # physics on the real outputs, turbidity at least 1
    pts = list(itertools.product(Z, [0.55, 1, 1.7, 5, 14, 37.9, nan], [1, 1.5, 3, 10], [-350, 0, 4200]))
    z, am, tl, alt = (np.array(c, float) for c in zip(*pts))
    for enh in (False, True):
        ctx.step(len(pts))
        phys(ctx, quiet(clearsky.ineichen, z, am, tl, alt, perez_enhancement=enh), z, f'ineichen/{enh}')
    # clear sky decreases with turbidity
    for zz in Z:
        r = quiet(clearsky.ineichen, zz, 1.5, np.linspace(1, 10, 30))
        ctx.expect((np.diff(r['ghi']) <= 1e-9).all() and (np.diff(r['dni']) <= 1e-9).all(),
                   'ineichen/turbidity', f'not decreasing with turbidity at zenith {zz}')
    container(ctx, clearsky.ineichen,
              dict(apparent_zenith=[20, 60, 89, 95], airmass_absolute=[1, 2, 20, nan],
                   linke_turbidity=[2, 3, 4, 5], altitude=[0, 100, 2000, 10], dni_extra=[1330, 1350, 1360, 1400]),
              [('apparent_zenith', 'airmass_absolute'), ('apparent_zenith', 'airmass_absolute', 'linke_turbidity'),
               ('apparent_zenith', 'airmass_absolute', 'linke_turbidity', 'altitude', 'dni_extra'),
               ('apparent_zenith', 'airmass_absolute', 'dni_extra')], ['ghi', 'dni', 'dhi'], 'ineichen')


@case(CASES)
def haurwitz(ctx):
    z = sorted(set(Z) | set(np.round(np.arange(0, 181, ctx.pick(1.0, 0.05)), 3)) - {90.0})
    idx = dt_index(len(z))
    for dtype in ('float', 'int', 'float32'):
        zz = [x for x in z if x == round(x)] if dtype == 'int' else z
        ix = idx[:len(zz)]
        s = pd.Series(np.array(zz).astype('int64' if dtype == 'int' else 'float64'), index=ix, name='q')
        if dtype == 'float32':
            s = s.astype('float32')
        b = s.copy()
        out = quiet(clearsky.haurwitz, s)
        ctx.step(len(zz))
        ctx.states += len(zz)
        ctx.expect(list(out.columns) == ['ghi'] and out.index.equals(ix), f'haurwitz/{dtype}/frame')
        ctx.close(out['ghi'], [C.haurwitz(x) for x in zz], f'haurwitz/{dtype}/value',
                  rtol=1e-9 if dtype != 'float32' else 1e-3, atol=1e-9 if dtype != 'float32' else 1e-2)
        ctx.expect((np.asarray(out['ghi']) >= 0).all() and (np.asarray(out['ghi'])[np.array(zz) > 90] == 0).all(),
                   f'haurwitz/{dtype}/physical')
        ctx.expect(same_value(s, b), f'haurwitz/{dtype}/mutated')
    for i in (0, 40, 100):
        s = pd.Series([float(z[i])], index=idx[:1])
        ctx.close(clearsky.haurwitz(s)['ghi'], [C.haurwitz(z[i])], 'haurwitz/len1')
    s = pd.Series([40., 50., 60.], index=idx[[2, 0, 2]])
    out = clearsky.haurwitz(s)
    ctx.expect(out.index.equals(s.index), 'haurwitz/repeat-index')
    ctx.close(out['ghi'], [C.haurwitz(x) for x in s], 'haurwitz/repeat')
    ctx.expect(len(clearsky.haurwitz(s.iloc[:0])) == 0, 'haurwitz/empty')


@case(CASES)
def solis(ctx):
    el = [-90, -30, -1, -0.001, 0.001, 0.5, 2, 10, 33, 60, 90]
    lattice(ctx, 'solis',
            lambda el, aod, w, p, ex: clearsky.simplified_solis(el, aod, w, p, ex),
            lambda el, aod, w, p, ex: C.solis(el, aod, w, p, ex),
            dict(el=ctx.pick(el, el + [1, 3, 5, 7, 15, 20, 25, 40, 50, 70, 80]),
                 aod=[0, 0.02, 0.0499, 0.05, 0.0501, 0.1, 0.45, 1], w=[0, 0.1, 0.2, 1, 2.5, 10],
                 p=[50000, 84000, 101325, 108000], ex=[1316, 1364, 1412.3]),
            outs=['ghi', 'dni', 'dhi'], ref_nan=True, scalar_max=1500,
            forms=('array', 'series', 'scalar', 'int', 'mixed', 'len1'))
    e = [C.solis(x, 0.1, 1., 101325., 1364.) for x in el]
    g = clearsky.simplified_solis(np.array(el, float))
    for j, k in enumerate(('ghi', 'dni', 'dhi')):
        ctx.close(g[k], [r[j] for r in e], f'solis/default/{k}')
    # every subset of the inputs given as a series / an array / an integer array
    names = ['apparent_elevation', 'aod700', 'precipitable_water', 'pressure', 'dni_extra']
    vals = dict(apparent_elevation=[33, 5, 60, -4], aod700=[0, 1, 0, 1], precipitable_water=[1, 2, 4, 3],
                pressure=[101325, 90000, 84000, 70000], dni_extra=[1364, 1330, 1400, 1410])
    fixed = dict(apparent_elevation=33.3, aod700=0.13, precipitable_water=1.7, pressure=95000.5, dni_extra=1364.4)
    idx = dt_index(4)
    for r in range(1, 6):
        for sub in itertools.combinations(names, r):
            exp = [C.solis(*[vals[k][i] if k in sub else fixed[k] for k in names]) for i in range(4)]
            for form in ('int', 'float', 'series', 'intseries', 'series1'):
                m = 1 if form == 'series1' else 4
                a = dict(fixed)
                for k in sub:
                    v = np.array(vals[k][:m], dtype='int64' if form.startswith('int') else float)
                    a[k] = pd.Series(v, index=idx[:m]) if 'series' in form else v
                ctx.step()
                ctx.state((sub, form))
                try:
                    out = quiet(clearsky.simplified_solis, **a)
                except Exception as ex:      # noqa
                    ctx.fail(f'solis/{form}/{"+".join(sub)}/exception', f'{type(ex).__name__}: {ex}')
                    continue
                for j, k in enumerate(('ghi', 'dni', 'dhi')):
                    if np.size(out[k]) == 1:    # an input that does not enter this component
                        out[k]
                    ctx.close(np.broadcast_to(np.asarray(out[k], float), (m,)), [q[j] for q in exp[:m]],
                              f'solis/{form}/{"+".join(sub)}/{k}')
                if 'series' in form and 'apparent_elevation' in sub:
                    ctx.expect(isinstance(out, pd.DataFrame) and out.index.equals(idx[:m])
                               and list(out.columns) == ['ghi', 'dni', 'dhi'],
                               f'solis/{form}/frame/{"+".join(sub)}')
    # signs and darkness; global at least the beam's horizontal part is not
    # guaranteed by the fit, so closure is not asserted
    pts = list(itertools.product(el, [0, 0.05, 0.2, 0.45], [0.1, 1, 10], [50000, 101325]))
    x, aod, w, p = (np.array(c, float) for c in zip(*pts))
    phys(ctx, quiet(clearsky.simplified_solis, x, aod, w, p), 90 - x, 'solis', close=False)


@case(CASES)
def bird(ctx):
    keep = lambda **k: True    # noqa
    axes = dict(z=[0, 37, 60, 85, 89.9, 89.97, 90.001, 120], am=[0.99, 1.7, 11, 36, nan], a380=[0, 0.1, 0.5],
                a500=[0, 0.12, 0.4], pw=[0, 1.4, 5], o3=[0, 0.3], p=[70000, 101325], ex=[1330, 1364.],
                asym=[0.7, 0.85], alb=[0, 0.2, 0.9])
    if not ctx.thorough:
        axes.update(a500=[0, 0.12], ex=[1364], pw=[0, 1.4], alb=[0.2, 0.9])
    lattice(ctx, 'bird', lambda z, am, a380, a500, pw, o3, p, ex, asym, alb:
            clearsky.bird(z, am, a380, a500, pw, o3, p, ex, asym, alb),
            lambda z, am, a380, a500, pw, o3, p, ex, asym, alb: C.bird(z, am, a380, a500, pw, o3, p, ex, asym, alb),
            axes, keep=keep, outs=['direct_horizontal', 'ghi', 'dni', 'dhi'], ref_nan=True, scalar_max=700,
            nan=['am', 'a380', 'a500', 'pw', 'o3', 'p', 'ex'],
            forms=('array', 'series', 'scalar', 'int', 'mixed', 'len1', 'array2d'))
    g = quiet(clearsky.bird, np.array([30., 70]), np.array([1.15, 2.9]), 0.15, 0.1, 1.5)
    e = [C.bird(z, am, 0.15, 0.1, 1.5, 0.3, 101325., 1364., 0.85, 0.2) for z, am in ((30., 1.15), (70., 2.9))]
    for j, k in enumerate(('direct_horizontal', 'ghi', 'dni', 'dhi')):
        ctx.close(g[k], [r[j] for r in e], f'bird/default/{k}')
    za = [(0, 1.), (37, 1.252), (60, 1.995), (85, 10.3), (88, 19.6), (90.001, 37.9), (120, nan), (95, 38.)]
    pts = [(*a, *b) for a in za for b in itertools.product([0, 0.1, 0.5], [0, 1.4, 5], [0.1, 0.3],
                                                           [70000, 101325], [0, .2, .9]) if a[1] == a[1]]
    z, am, a, pw, o3, p, alb = (np.array(c, float) for c in zip(*pts))
    out = quiet(clearsky.bird, z, am, a, a, pw, o3, p, albedo=alb)
    o = dict(out)
    phys(ctx, o, z, 'bird', dark=False)
    b = z > 90
    for k in ('ghi', 'dhi', 'direct_horizontal'):
        ctx.expect((np.abs(o[k][b]) < 1e-9).all(), f'bird/dark/{k}')
    container(ctx, clearsky.bird,
              dict(zenith=[20, 60, 89, 95], airmass_relative=[1, 2, 20, nan], aod380=[.1, .2, .3, .1],
                   aod500=[.05, .2, .1, .3], precipitable_water=[1, 2, 3, 1.5]),
              [('zenith', 'airmass_relative'), ('zenith', 'airmass_relative', 'aod380', 'aod500',
                                                'precipitable_water')],
              ['direct_horizontal', 'ghi', 'dni', 'dhi'], 'bird')
