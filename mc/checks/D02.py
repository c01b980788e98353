"""Reverse transposition on a lattice of orientation x sun x irradiance x
options: every returned value is put back through scalar forward models and
must bracket the input within the tolerance, failures must be real.  GTI
decomposition: days of samples x orientations x options against a scalar model
of the iteration."""
import itertools
import math
import warnings

import numpy as np
import pandas as pd

from mc.core import case, quiet, dt_index
from mc.ref import irr
from pvlib import irradiance as I

CASES = []
nan = math.nan
rev = I.ghi_from_poa_driesse_2024


def _verify(ctx, key, v, conv, it, p, poa, dx, am, alb, xtol):
    t, a, z, sa = p
    f = lambda g: irr.poa_from_ghi(g, t, a, z, sa, dx, am, alb)  # noqa
    ctx.traces += 1
    if poa != poa:
        ctx.expect(v != v and not conv and it == 0, f'{key}/missing', f'{v} {conv} {it}')
        return
    if poa <= 0:
        ctx.expect(v == 0 and conv and it == 0, f'{key}/zero', f'{v} {conv} {it}')
        return
    hi = max(10, 1.25 * dx * math.cos(math.radians(z)))
    top = f(hi) - poa
    if abs(top) < 1e-7:
        return
    if top < 0:
        ctx.expect(v != v and not conv, f'{key}/unreachable', f'{p} {poa}: {v} {conv} {it}')
        return
    ctx.outcome(it)
    if v != v:
        ctx.fail(f'{key}/failed', f'no value at {p} {poa}, {f(hi)} available at {hi}')
        return
    # a bisection step halves the bracket
    need = math.ceil(math.log2(hi / xtol))
    ctx.expect(bool(conv) == (need <= 25), f'{key}/converged', f'{p} {poa} {conv} {it} {need}')
    ctx.expect(abs(it - min(need, 25)) <= 1, f'{key}/iterations', f'{p} {poa} {it} {need}')
    w = max(xtol, hi / 2 ** 25) * 1.0001
    lo, up = f(max(v - w, 0)) - poa, f(v + w) - poa
    if not lo <= 1e-7 or not up >= -1e-7:
        ctx.fail(f'{key}/value', f'{p} poa {poa} dni_extra {dx} airmass {am} albedo {alb}: ghi {v}, forward '
                 f'{lo + poa} .. {up + poa}')


GEO = list(itertools.product([0., 25, 60, 90], [90., 180, 300], [0., 30, 60, 80, 88, 92], [100., 180, 250]))


def _grid(k):
    def f(ctx):
        xs = ctx.pick([0.01], [0.01, 1e-4, 0.5])
        poas = ctx.pick([0., 3., 120., 500, 950, 2000], [0., -5, nan, 3., 40, 120., 300, 500, 700, 950, 1300, 2000])
        geo = GEO[k::4]
        if not ctx.thorough:
            geo = geo[::2]
        for xt in xs:
            for alb, dx, am in ((.25, 1366.1, None), (.6, 1320., 2.)):
                pts = [(p, q) for p in geo for q in poas]
                cols = [np.array([p[i] for p, _ in pts]) for i in range(4)]
                poa = np.array([q for _, q in pts], float)
                ctx.states += len(pts)
                ctx.step(len(pts))
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    g, c, n = rev(*cols, poa, dx, am, alb, xt, full_output=True)
                for i, (p, q) in enumerate(pts):
                    _verify(ctx, 'reverse', g[i], c[i], n[i], p, q, dx, am, alb, xt)
    return f


for _k in range(4):
    CASES.append((f'reverse_{_k}', _grid(_k), False))


@case(CASES)
def reverse_forms(ctx):
    p = (30., 180., 40., 170.)
    poa = np.array([-3., 0., nan, 150., 600., 5000., 40.])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        g, c, n = rev(*p, poa, 1366.1, full_output=True)
        only = rev(*p, poa, 1366.1)
        ctx.close(only, g, 'forms/full_output')
        for i in range(len(poa)):
            _verify(ctx, 'forms/array', g[i], c[i], n[i], p, poa[i], 1366.1, None, .25, .01)
            v = rev(*p, float(poa[i]), 1366.1)
            ctx.close(v, g[i], 'forms/scalar', atol=1e-9)
            ctx.step()
        ctx.close(rev(*p, np.array([150, 600]), 1366), rev(*p, np.array([150., 600.]), 1366.), 'forms/int')
        ctx.close(rev(*p, np.array([0, 600, 150]), 1366), rev(*p, np.array([0., 600., 150.]), 1366.), 'forms/int with zero first')
        for idx in (dt_index(len(poa)), pd.RangeIndex(len(poa)), dt_index(len(poa))[::-1]):
            s = pd.Series(poa, index=idx)
            gs, cs, ns = rev(*p, s, 1366.1, full_output=True)
            for name, x, e in (('ghi', gs, g), ('converged', cs, c), ('niter', ns, n)):
                ctx.expect(isinstance(x, pd.Series) and x.index.equals(idx), f'forms/series/{name}')
                ctx.close(x.to_numpy().astype(float), np.asarray(e, float), f'forms/series/{name}', atol=1e-9)
            one = rev(*p, s, 1366.1)
            ctx.expect(isinstance(one, pd.Series) and one.index.equals(idx), 'forms/series')
        # everything per element
        t = np.array([0., 30, 90])
        v = rev(t, np.array([180., 90, 0]), np.array([20., 50, 70]), np.array([180., 120, 200]), np.array([500., 400, 200]),
                np.array([1366., 1350, 1400]), np.array([1., 1.5, 3]), np.array([.2, .3, .1]))
        for i in range(3):
            e = rev(t[i], [180., 90, 0][i], [20., 50, 70][i], [180., 120, 200][i], [500., 400, 200][i], [1366., 1350, 1400][i],
                    [1., 1.5, 3][i], [.2, .3, .1][i])
            ctx.close(v[i], e, 'forms/elementwise', atol=1e-9)
    for bad in (0, -1., -1e-9):
        ctx.raises(ValueError, lambda: rev(*p, 100., 1366., xtol=bad), 'xtol')
    # recovers the global irradiance it was made from (monotone region)
    for gh in (5., 60., 250., 500., 800.):
        for q in ((0., 180., 30., 180.), (20., 180., 30., 180.), (45., 160., 60., 150.)):
            f = irr.poa_from_ghi(gh, *q, 1366.1)
            ctx.state((gh, q))
            ctx.step()
            ctx.close(rev(*q, f, 1366.1, xtol=1e-5), gh, 'recovers', rtol=0, atol=5e-5)


DAYS = {
    'clear': [0, 40, 200, 420, 640, 820, 930, 960, 900, 760, 560, 340, 130, 20, 0],
    'overcast': [0, 10, 40, 80, 120, 150, 170, 180, 170, 150, 110, 80, 40, 10, 0],
    'broken': [0, 30, 200, 90, 600, 300, 950, 200, 880, 300, 500, 60, 120, 15, 0],
    'gap': [0, 40, nan, 420, 640, 820, nan, 960, 900, 760, 560, nan, 130, 20, 0],
}


def _day(name):
    def f(ctx):
        from pvlib import solarposition
        idx = pd.date_range('2020-06-24 05:20', periods=15, freq='1h', tz='Etc/GMT+7')
        if ctx.thorough:
            idx2 = idx.append(idx + pd.Timedelta('1D'))
        pos = solarposition.get_solarposition(idx, 39.7, -105.2)
        poa = DAYS[name]
        for (tilt, az), kw in itertools.product(ctx.pick([(30., 180.), (60., 110.), (90., 270.)], [(0., 180.), (30., 180.), (60., 110.), (90., 270.), (90., 0.)]), [
                {}, dict(pressure=82000.), dict(use_delta_kt_prime=False), dict(albedo=.6), dict(calculate_gt_90=False),
                dict(max_iterations=3), dict(max_iterations=1), dict(model='isotropic'), dict(model='haydavies'), dict(model='perez-driesse'),
                dict(model_perez='phoenix1988'), dict(temp_dew=10.), dict(max_iterations=35)]):
            z, sa = list(pos['apparent_zenith']), list(pos['azimuth'])
            ao = [irr.aoi(tilt, az, a, b) for a, b in zip(z, sa)]
            S = lambda x: pd.Series(x, index=idx, dtype=float)  # noqa
            ctx.state((name, tilt, az, str(kw)))
            ctx.step(len(idx))
            k2 = dict(kw)
            if 'temp_dew' in k2:
                k2['temp_dew'] = S([10.] * 15)
            args = [S(poa), S(ao), S(z), S(sa)]
            with warnings.catch_warnings(record=True) as w, np.errstate(all='ignore'):
                warnings.simplefilter('always')
                g = I.gti_dirint(*args, idx, tilt, az, **k2)
            rk = {dict(use_delta_kt_prime='use', calculate_gt_90='gt90', model_perez='pset', temp_dew='td').get(k, k): v for k, v in kw.items()}
            if 'td' in rk:
                rk['td'] = [10.] * 15
            doys = list(idx.tz_convert('UTC').dayofyear)
            e, conv = irr.gti_dirint(poa, ao, z, sa, doys, list(idx.date), tilt, az, **rk)
            ctx.expect(isinstance(g, pd.DataFrame) and g.index.equals(idx) and list(g.columns) == ['ghi', 'dni', 'dhi'], 'gti/frame')
            warned = any(issubclass(x.category, RuntimeWarning) and 'converge' in str(x.message) for x in w)
            ctx.expect(warned == (not conv), 'gti/convergence warning', f'{name} {kw} {warned} {conv}')
            for j, c in enumerate(('ghi', 'dni', 'dhi')):
                ctx.close(g[c].to_numpy(), [r[j] for r in e], f'gti/{c}', rtol=1e-7, atol=1e-6, day=name, tilt=tilt, az=az, kw=str(kw))
            for s, v in zip(args, (poa, ao, z, sa)):
                ctx.expect(s.equals(S(v)), 'gti/mutated')
            v = g[np.array(ao) < 90].dropna()
            ctx.expect((v.to_numpy() >= 0).all(), 'gti/non-negative')
            cl = v['ghi'] - v['dhi'] - v['dni'] * np.cos(np.radians(pos['apparent_zenith'][v.index]))
            ok = (pos['apparent_zenith'][v.index] < 86) & (v['dhi'] > 0)
            ctx.expect((cl[ok].abs() < 1e-6).all(), 'gti/closure', str(cl[ok]))
            ctx.outcome((name, tilt, az, round(float(np.nansum(g['dni'])), 3)))
    return f


for _n in DAYS:
    CASES.append((f'gti_{_n}', _day(_n), False))


def _two_days(later):
    def f(ctx):
        """The separate treatment beyond 90 degrees averages each date on its own."""
        from pvlib import solarposition
        idx = pd.date_range('2020-06-24 05:20', periods=15, freq='1h', tz='Etc/GMT+7')
        day = idx
        # the next day; the same day of the next month; the same day of the next year
        for a, b in itertools.product(DAYS, DAYS):
            if later != '2020-06-25' and (a == b or b not in ('clear', 'broken')):
                continue
            idx = day.append(day + (pd.Timestamp(later) - pd.Timestamp('2020-06-24')))
            pos = solarposition.get_solarposition(idx, 39.7, -105.2)
            z, sa = list(pos['apparent_zenith']), list(pos['azimuth'])
            if a == 'broken':       # the sun exactly in the south belongs to neither half
                k = min(range(15), key=lambda i: abs(sa[i] - 180))
                sa[k] = sa[15 + k] = 180.
            S = lambda x: pd.Series(x, index=idx, dtype=float)  # noqa
            poa = DAYS[a] + DAYS[b]
            for tilt, az in ((60., 110.), (90., 270.), (90., 0.)):
                ao = [irr.aoi(tilt, az, p, q) for p, q in zip(z, sa)]
                ctx.state((a, b, az))
                ctx.step(30)
                g = quiet(I.gti_dirint, S(poa), S(ao), S(z), S(sa), idx, tilt, az)
                e, _ = irr.gti_dirint(poa, ao, z, sa, list(idx.tz_convert('UTC').dayofyear), list(idx.date), tilt, az)
                for j, c in enumerate(('ghi', 'dni', 'dhi')):
                    ctx.close(g[c].to_numpy(), [r[j] for r in e], f'gti/two days/{c}', rtol=1e-7, atol=1e-6)
    return f


for _l in ('2020-06-25', '2020-07-24', '2021-06-25'):
    CASES.append((f'gti_days_{_l}', _two_days(_l), False))


@case(CASES)
def gti_unusable(ctx):
    idx = pd.date_range('2020-06-24 05:20', periods=3, freq='1h', tz='Etc/GMT+7')
    S = lambda x: pd.Series(x, index=idx[:3], dtype=float)  # noqa
    ctx.raises(ValueError, lambda: I.gti_dirint(S([1, 2, 3]), S([90, 95, 120]), S([40, 40, 40]), S([180] * 3), idx[:3], 90., 0.),
               'gti/no usable time')
