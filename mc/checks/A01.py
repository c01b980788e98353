"""Every day number of normal and leap years, instants around midnight and
year ends in several zones x every accepted input form x methods x solar
constants; oracle: the published distance series, the SPA heliocentric radius
evaluated by a scalar model, and PyEphem queried directly."""
import datetime as dt
import itertools
import math

import numpy as np
import pandas as pd

from mc.core import case, lattice, quiet
from mc.ref import irr, spa as R
from mc.checks.S01 import unix
from pvlib import irradiance, solarposition as sp

CASES = []
gx = irradiance.get_extra_radiation
RR = {'spencer': irr.rr_spencer, 'asce': irr.rr_asce}
_nrel = {}


def rr_nrel(t, delta_t=67.0):
    k = (unix(t), delta_t)
    if k not in _nrel:
        _nrel[k] = R.geocentric(k[0], delta_t)['R'] ** -2
    return _nrel[k]


def rr_ephem(t):
    import ephem
    s = ephem.Sun()
    if t.tzinfo is not None:
        t = t.tz_convert('UTC')
    s.compute(ephem.Date(t.to_pydatetime().replace(tzinfo=None)))
    return s.earth_distance ** -2


def utc_doy(t):
    t = pd.Timestamp(t)
    return (t.tz_convert('UTC') if t.tzinfo is not None else t).dayofyear


@case(CASES)
def doy_forms(ctx):
    doys = list(range(1, 367)) + [1.5, 182.25, 365.99, 0, 400]
    for m in ('spencer', 'asce'):
        lattice(ctx, m, lambda datetime_or_doy: gx(datetime_or_doy, method=m), lambda datetime_or_doy:
                1366.1 * RR[m](datetime_or_doy), dict(datetime_or_doy=doys), forms=('array', 'scalar', 'int', 'len1'),
                rtol=1e-12)
        for sc in (0., 1., 1361., 1366.1, 1367):
            for d in doys[::7]:
                ctx.state((m, sc, d))
                ctx.step(4)
                e = sc * RR[m](d)
                for v in (d, np.float64(d), np.int64(d) if d == int(d) else d):
                    g = gx(v, solar_constant=sc, method=m)
                    ctx.close(g, e, f'{m}/constant', rtol=1e-12)
                    ctx.expect(np.isscalar(g), f'{m}/scalar-out', str(type(g)))
                ctx.close(gx(d, sc, m.upper()), e, f'{m}/case', rtol=1e-12)
        g = gx(pd.Series(doys, dtype=float), method=m)
        ctx.close(np.asarray(g), [1366.1 * RR[m](d) for d in doys], f'{m}/series-of-days', rtol=1e-12)
        g = gx(np.array([[1, 2], [200, 366]]), method=m)
        ctx.close(g, [[1366.1 * RR[m](d) for d in r] for r in ((1, 2), (200, 366))], f'{m}/2d', rtol=1e-12)
    ctx.close(gx(100), 1366.1 * irr.rr_spencer(100), 'default', rtol=1e-12)
    ctx.close(gx(100, 1000.), 1000. * irr.rr_spencer(100), 'default', rtol=1e-12)
    # methods using dates take day numbers within the epoch year
    for m, ey in itertools.product(('nrel', 'pyephem'), (None, 2012, 2013, 2014, 2000, 1999)):
        kw = {} if ey is None else dict(epoch_year=ey)
        y = ey or 2014
        f = rr_nrel if m == 'nrel' else rr_ephem
        ds = [1, 2, 59, 60, 61, 183, 364, 365, 366, 45.5]
        e = [1366.1 * f(pd.Timestamp(y, 1, 1) + pd.Timedelta(days=d - 1)) for d in ds]
        ctx.state((m, ey))
        ctx.step(len(ds) + 1)
        ctx.close(gx(np.array(ds), method=m, **kw), e, f'{m}/epoch', rtol=1e-10)
        for d, v in zip(ds, e):
            g = gx(d, method=m, **kw)
            ctx.close(g, v, f'{m}/epoch/scalar', rtol=1e-10)
            ctx.expect(np.isscalar(g), f'{m}/scalar-out', str(type(g)))


def stamps(ctx):
    s = ['2019-12-31 23:30', '2020-01-01 00:00', '2020-02-28 12:00', '2020-02-29 06:00', '2020-03-01 00:30',
         '2020-06-21 18:45:11', '2020-12-31 00:00', '2020-12-31 20:00', '2021-01-01 02:00', '2021-12-31 12:00',
         '1999-07-04 04:04:04.5', '2050-10-10 10:10']
    return s + ([str(x) for x in pd.date_range('2020-01-01 03:00', periods=366, freq='D')] if ctx.thorough else [])


@case(CASES)
def instants(ctx):
    naive = [pd.Timestamp(s) for s in stamps(ctx)]
    for tz in (None, 'UTC', 'Etc/GMT+12', 'Etc/GMT-14', 'US/Arizona', 'Asia/Kolkata'):
        ts = [t if tz is None else t.tz_localize(tz) for t in naive]
        idx = pd.DatetimeIndex(ts)
        exp = {m: [1366.1 * RR[m](utc_doy(t)) for t in ts] for m in RR}
        exp['nrel'] = [1366.1 * rr_nrel(t) for t in ts]
        exp['pyephem'] = [1366.1 * rr_ephem(t) for t in ts]
        for m, e in exp.items():
            tol = 1e-10
            ctx.states += len(ts)
            ctx.step(len(ts) + 3)
            g = gx(idx, method=m)
            ctx.expect(isinstance(g, pd.Series) and g.index.equals(idx) and g.index.tz == idx.tz, f'{m}/index')
            ctx.close(g, e, f'{m}/index-values', rtol=tol)
            g = gx(idx[::-1], method=m)
            ctx.expect(g.index.equals(idx[::-1]), f'{m}/index reversed')
            ctx.close(g, e[::-1], f'{m}/reversed', rtol=tol)
            ctx.close(gx(idx[:1], method=m), e[:1], f'{m}/one', rtol=tol)
            ctx.close(2 * np.asarray(gx(idx, solar_constant=1366.1, method=m)), gx(idx, solar_constant=2732.2, method=m),
                      f'{m}/linear', rtol=1e-12)
            for t, v in zip(ts, e):
                forms = [t, t.to_pydatetime()]
                if tz is None:
                    forms.append(t.to_datetime64())
                    if t == t.normalize():
                        forms += [t.date(), np.datetime64(t.date(), 'D')]
                for f in forms:
                    ctx.step()
                    g = quiet(gx, f, method=m)
                    ctx.close(g, v, f'{m}/{type(f).__name__}', rtol=tol)
                    ctx.expect(np.isscalar(g), f'{m}/{type(f).__name__}/scalar-out', str(type(g)))
    # options of the algorithm
    idx = pd.DatetimeIndex(naive).tz_localize('UTC')
    for D in (0., 67., 500.):
        ctx.state(D)
        ctx.step(len(idx))
        ctx.close(gx(idx, method='nrel', delta_t=D), [1366.1 * rr_nrel(t, D) for t in idx], 'nrel/delta_t', rtol=1e-12)
    ctx.close(gx(idx, method='nrel', delta_t=None), [1366.1 * rr_nrel(t, R.delta_t(t.year, t.month)) for t in idx],
              'nrel/delta_t none', rtol=1e-12)
    for b in ('numpy', 'numba'):
        ctx.close(quiet(gx, idx, method='nrel', how=b, numthreads=2), [1366.1 * rr_nrel(t) for t in idx], f'nrel/{b}', rtol=1e-12)
    empty = idx[:0]
    for m in ('spencer', 'asce'):
        ctx.expect(len(gx(empty, method=m)) == 0, f'{m}/empty')


@case(CASES)
def distance(ctx):
    """The distance functions themselves and agreement of the methods."""
    idx = pd.date_range('2020-01-01', '2021-01-02', freq=ctx.pick('5D', '6h'), tz='UTC')
    d = sp.nrel_earthsun_distance(idx)
    ctx.states += len(idx)
    ctx.step(2 * len(idx))
    ctx.close(d, [rr_nrel(t) ** -.5 for t in idx], 'nrel_earthsun_distance', rtol=1e-12)
    p = sp.pyephem_earthsun_distance(idx)
    ctx.close(p, [rr_ephem(t) ** -.5 for t in idx], 'pyephem_earthsun_distance', rtol=1e-12)
    for n, v in (('nrel', d), ('pyephem', p)):
        ctx.expect(v.index.equals(idx), f'{n}/index')
        ctx.expect(((v > 0.9832) & (v < 1.0168)).all(), f'{n}/range')
        ctx.expect(str(v.idxmin())[:10] in ('2020-01-01', '2020-01-06', '2020-01-05', '2020-01-04'), f'{n}/perihelion', str(v.idxmin()))
    ctx.close(d, p, 'agree', rtol=0, atol=3e-5)
    t0 = pd.Timestamp('2020-05-05 12:00', tz='US/Eastern')
    for f in (t0, t0.to_pydatetime(), [t0], pd.DatetimeIndex([t0])):
        ctx.close(np.asarray(sp.nrel_earthsun_distance(f))[0], rr_nrel(t0) ** -.5, 'distance/forms', rtol=1e-12)
    e = {m: np.asarray(gx(idx, method=m)) for m in ('spencer', 'asce', 'nrel', 'pyephem')}
    for m, v in e.items():
        ctx.expect(((v > 1366.1 * 0.965) & (v < 1366.1 * 1.036)).all(), f'{m}/annual range', f'{v.min()} {v.max()}')
        ctx.close(v, e['nrel'], f'{m}/agreement', rtol=4e-3)
    ctx.close(e['spencer'], e['nrel'], 'spencer/agreement', rtol=2.5e-3)


@case(CASES)
def rejects(ctx):
    for bad in ('', 'spencer71', 'spa', 'nrel_numpy', 'asce ', 'ephemeris', 'solpos'):
        for v in (10, 10., np.array([1, 2]), pd.Timestamp('2020-01-01'), dt.date(2020, 1, 1),
                  pd.DatetimeIndex(['2020-01-01']), pd.Series([1., 2.])):
            ctx.state((bad, type(v).__name__))
            ctx.raises(ValueError, lambda: gx(v, method=bad), f'bad method/{bad}')
