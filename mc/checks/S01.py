"""Product of instants (leap days, year ends, equinoxes, solstices, five
centuries) x sites (poles, equator, date line, both hemispheres) x
atmospheres; every reported column equals a scalar evaluation of the NREL
solar position algorithm, cross-validated against PyEphem."""
import datetime as dt
import itertools
import math
import warnings

import numpy as np
import pandas as pd

from mc.core import case, quiet
from mc.ref import spa as R
from pvlib import solarposition as sp, spa, atmosphere

CASES = []
COLS = ['apparent_zenith', 'zenith', 'apparent_elevation', 'elevation',
        'azimuth', 'equation_of_time']
LATS = [-90., -66.5, -45., -23.4364, -0.01, 0., 10., 39.742476, 51.5, 66.6, 89.9, 90.]
LONS = [-180., -105.1786, -0.5, 0., 15.5, 100., 179.99, 180.]
DATES = ['2019-12-31 23:59:59', '2020-01-01 00:00:00', '2020-02-28 23:30:00',
         '2020-02-29 12:00:00', '2020-03-20 03:49:00', '2020-06-20 21:44:00',
         '2020-09-22 13:31:00', '2020-12-21 10:02:00', '2021-02-28 06:15:45',
         '2021-07-04 18:00:00', '2003-10-17 19:30:30']
EPOCHS = ['1970-01-01 00:00:00', '1969-12-31 23:59:59', '1900-03-01 05:00:00',
          '1677-10-01 12:00:00', '1800-06-15 09:30:00', '1950-11-11 11:11:11',
          '1999-12-31 12:00:00', '2000-01-01 12:00:00', '2049-12-31 20:00:00',
          '2050-01-01 04:00:00', '2100-02-28 12:00:00', '2100-03-01 12:00:00',
          '2200-08-08 08:08:08']


def unix(ts):
    """Exact Unix seconds of a Timestamp, computed by the calendar."""
    ts = pd.Timestamp(ts)
    if ts.tzinfo is not None:
        ts = ts.tz_convert('UTC').tz_localize(None)
    d = dt.date(ts.year, ts.month, ts.day).toordinal() - dt.date(1970, 1, 1).toordinal()
    return (d * 86400 + ts.hour * 3600 + ts.minute * 60 + ts.second
            + ts.microsecond * 1e-6 + ts.nanosecond * 1e-9)


def expected(times, lat, lon, **kw):
    dT = kw.pop('delta_t', 67.0)
    rows = []
    for t in times:
        d = dT
        if dT is None:
            u = t if t.tzinfo is None else t.tz_convert('UTC')
            d = R.delta_t(u.year, u.month)
        rows.append(R.position(unix(t), lat, lon, delta_t=d, **kw))
    return rows


def compare(ctx, got, times, exp, key, tol=2e-6, cols=COLS, **info):
    if list(got.columns) != COLS and cols is COLS:
        ctx.fail(f'{key}/columns', f'{list(got.columns)}')
    ctx.expect(len(got) == len(exp), f'{key}/rows', str(len(got)))
    for c in cols:
        e = np.array([r[c] for r in exp])
        g = np.asarray(got[c], dtype=float)
        ctx.traces += len(e)
        if g.shape != e.shape:
            ctx.fail(f'{key}/shape/{c}', str(g.shape), **info)
            continue
        d = g - e
        lim = tol
        if c == 'azimuth':
            d = (d + 180) % 360 - 180
            s = np.sin(np.radians([r['zenith'] for r in exp]))
            d = d * s
            if not ((g >= 0) & (g < 360)).all():
                ctx.fail(f'{key}/azimuth-range', f'{g.min()} {g.max()}', **info)
        if c.startswith('apparent'):
            # near the refraction switch a tie decides; keep away from it
            edge = np.array([abs(r['elevation'] + 0.26667 + info.get('refr', 0.5667)) < 1e-6
                             for r in exp])
            d = np.where(edge, 0, d)
            # the formula is steep close to the tan pole just below -5 deg
        bad = ~(np.abs(d) <= lim)
        if bad.any():
            i = int(np.argmax(bad))
            ctx.fail(f'{key}/value/{c}', f'{times[i]}: got {g[i]!r} reference '
                     f'{e[i]!r} ({int(bad.sum())}/{len(bad)})', **info)


def instants(ctx):
    base = [pd.Timestamp(d) for d in DATES]
    for d in ('2021-03-20', '2020-06-21', '2021-12-21'):
        base += [pd.Timestamp(d) + pd.Timedelta(minutes=m)
                 for m in range(0, 1440, ctx.pick(20, 5))]
    return pd.DatetimeIndex(base).tz_localize('UTC')


def _site(k):
    def f(ctx):
        times = instants(ctx)
        lats = LATS[k::4]
        for lat, lon in itertools.product(lats, LONS):
            exp = expected(times, lat, lon)
            ctx.states += len(times)
            ctx.step(len(times))
            got = sp.spa_python(times, lat, lon)
            compare(ctx, got, times, exp, f'site/{lat}/{lon}', lat=lat, lon=lon)
            ctx.expect(got.index.equals(times), 'index')
            g2 = sp.get_solarposition(times, lat, lon)
            ctx.step(len(times))
            compare(ctx, g2, times, exp, f'get/{lat}/{lon}', lat=lat, lon=lon)
            ctx.close(got['zenith'], 90 - got['elevation'], 'zenith=90-elevation', atol=1e-9)
            ctx.close(got['apparent_zenith'], 90 - got['apparent_elevation'],
                      'app zenith=90-app elevation', atol=1e-9)
            ctx.outcome((lat, lon, round(float(got['zenith'].iloc[3]), 4)))
        ctx.sample(dict(lat=lats[0], lon=LONS[1], time=str(times[5]), expected=exp[5]))
    return f


for _k in range(4):
    CASES.append((f'sites_{_k}', _site(_k), False))


@case(CASES)
def epochs(ctx):
    for unit in ('s', 'ms', 'us', 'ns'):
        for dT in (None, 0.0, 67.0, -3.0, 120.5):
            times = pd.DatetimeIndex(EPOCHS).as_unit(unit).tz_localize('UTC')
            for lat, lon in ((39.74, -105.18), (-34., 151.)):
                exp = expected(times, lat, lon, delta_t=dT)
                ctx.states += len(times)
                ctx.step(2 * len(times))
                compare(ctx, sp.spa_python(times, lat, lon, delta_t=dT), times, exp,
                        f'epoch/{unit}/{dT}')
                compare(ctx, sp.get_solarposition(times, lat, lon, delta_t=dT), times,
                        exp, f'epoch-get/{unit}/{dT}')
    # centuries outside nanosecond range
    for unit in ('s', 'us'):
        times = pd.DatetimeIndex(np.array(
            ['1000-05-05T05:05:05', '1582-10-04T12:00:00', '2500-01-31T23:00:00',
             '0500-06-01T00:00:00', '0499-06-01T00:00:00', '1599-12-31T23:59:59'],
            dtype=f'datetime64[{unit}]')).tz_localize('UTC')
        exp = expected(times, 20., 30., delta_t=None)
        ctx.states += len(times)
        ctx.step(len(times))
        compare(ctx, sp.spa_python(times, 20., 30., delta_t=None), times, exp,
                f'far-epoch/{unit}')
    # sub-second stamps and per-instant delta-T arrays
    times = pd.DatetimeIndex(['2021-06-21 12:00:00.5', '2021-06-21 12:00:00.123456',
                              '2021-06-21 12:00:59.999999']).tz_localize('UTC')
    exp = expected(times, 45., 10.)
    ctx.states += 3
    ctx.step(3)
    compare(ctx, sp.spa_python(times, 45., 10.), times, exp, 'subsecond')
    dTs = np.array([10., 1000., -500.])
    exp = [expected(times[i:i + 1], 45., 10., delta_t=dTs[i])[0] for i in range(3)]
    ctx.states += 3
    ctx.step(3)
    compare(ctx, sp.spa_python(times, 45., 10., delta_t=dTs), times, exp, 'delta_t-array')


@case(CASES)
def atmospheres(ctx):
    times = pd.date_range('2021-03-20 00:00', periods=ctx.pick(73, 289),
                          freq=ctx.pick('20min', '5min'), tz='UTC')
    # extra instants around the refraction switch
    lat, lon = 39.742476, -105.1786
    ref0 = None
    for P, Tm, alt, ar in itertools.product(
            (101325., 82000., 50000., 0.0), (12., -30., 45.), (0., 1830.14, -400., 1e6),
            (None, 0.5667, 0.3, 2.0, 0.0)):
        a = 0.5667 if ar is None else ar
        exp = expected(times, lat, lon, elev=alt, pressure=P, temp=Tm, atmos_refract=a)
        ctx.states += len(times)
        ctx.step(len(times))
        got = sp.spa_python(times, lat, lon, altitude=alt, pressure=P, temperature=Tm,
                            atmos_refract=ar)
        compare(ctx, got, times, exp, f'atm/{P}/{Tm}/{alt}/{ar}', tol=1e-6 if alt < 1e5 else 1e-6,
                refr=a, P=P, T=Tm, alt=alt)
        if P > 0:
            up = got['elevation'] < -(0.26667 + a) - 1e-6
            ctx.expect((got['apparent_elevation'][up] == got['elevation'][up]).all(),
                       'no-refraction-below')
            dn = got['elevation'] > -(0.26667 + a) + 1e-6
            ctx.expect((got['apparent_elevation'][dn] > got['elevation'][dn]
                        - 1e-2).all(), 'refraction-above')
    # true position independent of atmosphere
    for P, Tm in itertools.product((101325., 0., 60000.), (-40., 12., 50.)):
        ctx.state((P, Tm))
        ctx.step(len(times))
        g = sp.get_solarposition(times, lat, lon, pressure=P, temperature=Tm, altitude=100.)
        if ref0 is None:
            ref0 = g
        for c in ('zenith', 'elevation', 'azimuth', 'equation_of_time'):
            ctx.expect((g[c] == ref0[c]).all(), f'true position depends on atmosphere/{c}')


@case(CASES)
def wrapper_defaults(ctx):
    """get_solarposition: altitude/pressure completion and time forms."""
    times = pd.date_range('2021-06-21 03:00', periods=9, freq='2h', tz='Etc/GMT+7')
    lat, lon = 35., -110.
    for alt, P in itertools.product((None, 0., 1500., -50.), (None, 101325., 84000., 60000.)):
        if alt is None and P is None:
            a, p = 0., 101325.
        elif alt is None:
            a, p = 44331.5 - 4946.62 * P ** 0.190263, P
        elif P is None:
            a, p = alt, 100 * ((44331.514 - alt) / 11880.516) ** (1 / 0.1902632)
        else:
            a, p = alt, P
        for Tm in (12.0, 40.):
            exp = expected(times, lat, lon, elev=a, pressure=p, temp=Tm)
            ctx.state((alt, P, Tm))
            ctx.step(len(times))
            kw = {} if Tm == 12. else dict(temperature=Tm)
            compare(ctx, sp.get_solarposition(times, lat, lon, altitude=alt, pressure=P, **kw),
                    times, exp, f'wrap/{alt}/{P}/{Tm}')
            # the completed site, to full precision
            ctx.close(sp.get_solarposition(times, lat, lon, altitude=alt, pressure=P, **kw).to_numpy(),
                      sp.spa_python(times, lat, lon, altitude=a, pressure=p, temperature=Tm).to_numpy(),
                      'wrapper completes altitude and pressure', rtol=0, atol=2e-8, alt=alt, P=P)
    forms = {
        'Timestamp': (pd.Timestamp('2021-06-21 12:34:56', tz='US/Arizona'),),
        'datetime-aware': (dt.datetime(2021, 6, 21, 12, 34, 56, tzinfo=dt.timezone.utc),),
        'datetime-naive': (dt.datetime(2021, 6, 21, 12, 34, 56),),
        'Timestamp-naive': (pd.Timestamp('2021-06-21 12:34:56'),),
    }
    for name, (t,) in forms.items():
        ctx.state(name)
        ctx.step(2)
        ts = pd.Timestamp(t)
        exp = expected([ts], lat, lon)
        compare(ctx, sp.get_solarposition(t, lat, lon), [ts], exp, f'form/{name}')
        compare(ctx, sp.spa_python(t, lat, lon), [ts], exp, f'form-spa/{name}')
    lst = [dt.datetime(2021, 6, 21, 1), dt.datetime(2020, 2, 29, 23)]
    ctx.state('list')
    ctx.step()
    compare(ctx, sp.spa_python(lst, lat, lon), lst,
            expected([pd.Timestamp(x) for x in lst], lat, lon), 'form/list')
    ctx.raises(ValueError, lambda: sp.get_solarposition(times, lat, lon, method='nope'), 'bad method')
    ctx.raises(ValueError, lambda: sp.spa_python(times, lat, lon, how='fortran'), 'bad engine')
    e = sp.spa_python(times[:0], lat, lon)
    ctx.expect(len(e) == 0 and list(e.columns) == COLS, 'empty')


@case(CASES)
def distance(ctx):
    times = pd.date_range('2019-12-31', '2021-01-02', freq=ctx.pick('61h', '7h'), tz='UTC')
    times = times.append(pd.DatetimeIndex(EPOCHS).tz_localize('UTC'))
    for dT in (67.0, None, 0.0):
        e = [R.geocentric(unix(t), R.delta_t(t.year, t.month) if dT is None else dT)['R']
             for t in times]
        ctx.states += len(times)
        ctx.step(len(times))
        g = sp.nrel_earthsun_distance(times, delta_t=dT)
        ctx.expect(isinstance(g, pd.Series) and g.index.equals(times), 'distance/index')
        ctx.close(g, e, f'distance/{dT}', rtol=0, atol=1e-9)
    g = sp.nrel_earthsun_distance(pd.Timestamp('2020-07-04', tz='UTC'))
    ctx.close(g, [R.geocentric(unix('2020-07-04'), 67.0)['R']], 'distance/scalar', atol=1e-9)
    g = sp.nrel_earthsun_distance([dt.datetime(2020, 7, 4, 5)])
    ctx.close(g, [R.geocentric(unix('2020-07-04 05:00'), 67.0)['R']], 'distance/list', atol=1e-9)
    p = sp.pyephem_earthsun_distance(times)
    n = sp.nrel_earthsun_distance(times, delta_t=None)
    ctx.step(len(times))
    ctx.close(p, n, 'pyephem-vs-nrel', atol=3e-5)
    ctx.expect(p.index.equals(times), 'pyephem index')


@case(CASES)
def deltat(ctx):
    ys = sorted(set([-1999, -1000, -501, -500, -499, 0, 499, 500, 501, 1599, 1600, 1699, 1700,
                     1799, 1800, 1859, 1860, 1899, 1900, 1919, 1920, 1940, 1941, 1960, 1961,
                     1985, 1986, 2004, 2005, 2049, 2050, 2149, 2150, 2151, 3000]
                    + list(range(-1999, 3001, ctx.pick(50, 7)))))
    for y in ys:
        for m in range(1, 13):
            ctx.state((y, m))
            ctx.step()
            g = spa.calculate_deltat(y, m)
            ctx.close(g, R.delta_t(y, m), f'deltat/{y}', rtol=1e-10, atol=1e-9)
    pts = list(itertools.product(ys, range(1, 13)))
    Y = np.array([p[0] for p in pts])
    M = np.array([p[1] for p in pts])
    e = [R.delta_t(*p) for p in pts]
    ctx.step(2 * len(pts))
    ctx.close(spa.calculate_deltat(Y, M), e, 'deltat/array', rtol=1e-10)
    ctx.close(spa.calculate_deltat(pd.Index(Y), pd.Index(M)), e, 'deltat/index', rtol=1e-10)
    ctx.close(spa.calculate_deltat(Y, 7), [R.delta_t(y, 7) for y in Y], 'deltat/mixed', rtol=1e-10)
    # measured values (IERS): within a second of the 1970-2020 record
    for y, v in ((1970, 40.18), (1980, 50.54), (1990, 56.86), (2000, 63.83), (2005, 64.69), (2010, 66.07)):
        ctx.expect(abs(spa.calculate_deltat(y, 1) - v) < 1.0, f'deltat/record/{y}')
    for y in (-2000, 3001):
        ctx.state(y)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            spa.calculate_deltat(y, 1)
        ctx.expect(len(w) == 1, 'deltat warns outside validity')


@case(CASES)
def stages(ctx):
    """Julian dates of calendar instants and the stage functions."""
    for y in (1600, 1899, 1900, 1987, 1988, 1999, 2000, 2004, 2100, 2024):
        for mo in range(1, 13):
            for d in (1, 15, 28):
                for h, mi, s, us in ((0, 0, 0, 0), (12, 0, 0, 0), (19, 21, 57, 250000)):
                    ctx.state((y, mo, d, h))
                    ctx.step()
                    n = dt.date(y, mo, d).toordinal() - dt.date(2000, 1, 1).toordinal()
                    e = 2451544.5 + n + (h * 3600 + mi * 60 + s + us * 1e-6) / 86400
                    ctx.close(spa.julian_day_dt(y, mo, d, h, mi, s, us), e, f'jd/{y}/{mo}',
                              rtol=0, atol=2e-9)
                    ctx.close(spa.julian_day(np.array([unix(dt.datetime(y, mo, d, h, mi, s, us))])),
                              [e], f'jd-unix/{y}', rtol=0, atol=2e-9)
    # published examples, on both sides of the calendar reform (fractions of a day as in the table)
    for (y, mo, dd), e in {(2000, 1, 1.5): 2451545.0, (1999, 1, 1.0): 2451179.5, (1987, 1, 27.): 2446822.5, (1987, 6, 19.5): 2446966.0,
                           (1988, 1, 27.): 2447187.5, (1988, 6, 19.5): 2447332.0, (1900, 1, 1.): 2415020.5, (1600, 1, 1.): 2305447.5,
                           (1600, 12, 31.): 2305812.5, (1582, 10, 15.): 2299160.5, (1582, 10, 4.): 2299159.5, (837, 4, 10.3): 2026871.8,
                           (333, 1, 27.5): 1842713.0, (-1000, 7, 12.5): 1356001.0, (-1001, 8, 17.9): 1355671.4, (-4712, 1, 1.5): 0.}.items():
        ctx.state((y, mo, dd))
        ctx.step()
        us = round((dd % 1) * 86400e6)
        h, mi, se, us = us // 3600000000, us // 60000000 % 60, us // 1000000 % 60, us % 1000000
        ctx.close(spa.julian_day_dt(y, mo, int(dd), h, mi, se, us), e, f'jd/published/{y}', rtol=0, atol=1e-8)
    # scalar kernel and vector kernel are the same function
    ts = [unix(x) for x in DATES + EPOCHS]
    u = np.array(ts)
    for lat, lon in itertools.product((-90., -40., 0., 39.74, 90.), (-180., -105., 20.)):
        e = [R.position(t, lat, lon, 1830., 82000., 11., 67., 0.5667) for t in ts]
        ctx.states += len(ts)
        ctx.step(len(ts) * 2)
        names = ['apparent_zenith', 'zenith', 'apparent_elevation', 'elevation', 'azimuth',
                 'equation_of_time']
        for fn, tag in ((spa.solar_position, 'solar_position'), (spa.solar_position_numpy, 'numpy')):
            out = fn(u, lat, lon, 1830., 820., 11., 67., 0.5667, 1)
            compare(ctx, pd.DataFrame(dict(zip(names, out))), ts, e, f'kernel/{tag}/{lat}/{lon}')
        out = np.empty((6, len(ts)))
        # uncompiled loop body (scalar path)
        spa.solar_position_loop(u, np.full(len(u), 67.), np.array(
            [lat, lon, 1830., 820., 11., 0.5667, 0, 0]), out)
        ctx.step(len(ts))
        compare(ctx, pd.DataFrame(dict(zip(names, out))), ts, e, f'kernel/loop/{lat}/{lon}')


@case(CASES)
def slow_quantities(ctx):
    """Series and polynomials that move slowly with time, to full precision and far from the present,
    where every term of the published tables counts (the position columns carry the rounding of the
    Julian date, about 1e-7 degrees)."""
    jce = [-40., -19.98, -3.1, -.999, -.2, -1e-3, 0., 1e-4, .1999, .2301, .5, 1.01, 4.4, 20., 39.99]
    args = [(297.85036, 445267.111480, -0.0019142, 1 / 189474), (357.52772, 35999.050340, -0.0001603, -1 / 300000),
            (134.96298, 477198.867398, 0.0086972, 1 / 56250), (93.27191, 483202.017538, -0.0036825, 1 / 327270),
            (125.04452, -1934.136261, 0.0020708, 1 / 450000)]
    fns = ('mean_elongation', 'mean_anomaly_sun', 'mean_anomaly_moon', 'moon_argument_latitude', 'moon_ascending_longitude')
    have = lambda n: callable(getattr(spa, n, None))   # noqa
    for t in jce:
        m = t / 10
        ctx.state(t)
        X = [a + b * t + c * t ** 2 + d * t ** 3 for a, b, c, d in args]
        for n, x in zip(fns, X):
            if have(n):
                ctx.step()
                ctx.close(getattr(spa, n)(t), x, 'slow/' + n, rtol=1e-13, atol=1e-9, jce=t)
        if have('longitude_obliquity_nutation'):
            T = R.T
            for XX in (X, [10., 20., 30., 40., 50.], [0.] * 5, [90.] * 5, [-123.4, 77.7, 311., 5., 200.]):
                p = q = 0.
                for (a, b, c, d), y in zip(T.NUTATION_ABCD_ARRAY, T.NUTATION_YTERM_ARRAY):
                    ag = math.radians(sum(i * j for i, j in zip(y, XX)))
                    p += (a + b * t) * math.sin(ag)
                    q += (c + d * t) * math.cos(ag)
                # scalar form fills a pair; array form returns it
                out = np.empty((2,))
                spa.longitude_obliquity_nutation(t, *XX, out)
                ctx.step()
                ctx.close(out, [p / 36e6, q / 36e6], 'slow/nutation', rtol=1e-9, atol=1e-13, jce=t)
        for n, e in (('heliocentric_longitude', math.degrees(R._poly((R.T.L0, R.T.L1, R.T.L2, R.T.L3, R.T.L4, R.T.L5), m)) % 360),
                     ('heliocentric_latitude', math.degrees(R._poly((R.T.B0, R.T.B1), m))),
                     ('heliocentric_radius_vector', R._poly((R.T.R0, R.T.R1, R.T.R2, R.T.R3, R.T.R4), m))):
            if have(n):
                ctx.step()
                g = getattr(spa, n)(m)
                if n.endswith('longitude'):
                    g = e + (g - e + 180) % 360 - 180
                ctx.close(g, e, 'slow/' + n, rtol=0, atol=1e-9 if 'long' in n else 1e-12, jce=t)
        if have('mean_ecliptic_obliquity'):
            U = m / 10
            co = (84381.448, -4680.93, -1.55, 1999.25, -51.38, -249.67, -39.05, 7.12, 27.87, 5.79, 2.45)
            ctx.close(spa.mean_ecliptic_obliquity(m), math.fsum(k * U ** i for i, k in enumerate(co)), 'slow/obliquity', rtol=1e-12)
        if have('sun_mean_longitude'):
            ctx.close(spa.sun_mean_longitude(m), math.fsum((280.4664567, 360007.6982779 * m, 0.03032028 * m ** 2, m ** 3 / 49931,
                                                            -m ** 4 / 15300, -m ** 5 / 2000000)), 'slow/sun mean longitude', rtol=1e-13)
        if have('mean_sidereal_time'):
            jd = 2451545 + 36525 * t
            e = 280.46061837 + 360.98564736629 * (jd - 2451545) + 0.000387933 * t ** 2 - t ** 3 / 38710000
            g = spa.mean_sidereal_time(jd, t)
            ctx.close((g - e + 180) % 360 - 180, 0., 'slow/sidereal', atol=1e-6)


@case(CASES)
def against_pyephem(ctx):
    """Independent ephemeris: the reference itself and the code."""
    import ephem
    n = 0
    for lat, lon in ((0., 0.), (51., -0.5), (-34., 151.), (-77., 166.), (39.74, -105.18), (10., 180.)):
        times = pd.date_range('1950-01-01', '2050-01-01', periods=ctx.pick(60, 600)).round('s')
        got = sp.spa_python(times, lat, lon, delta_t=None)
        o = ephem.Observer()
        o.lat, o.lon, o.pressure, o.elevation = str(lat), str(lon), 0, 0
        s = ephem.Sun()
        ctx.states += len(times)
        ctx.step(len(times))
        for i, t in enumerate(times):
            o.date = ephem.Date(t.to_pydatetime())
            s.compute(o)
            el, az = math.degrees(s.alt), math.degrees(s.az)
            d1 = abs(got['elevation'].iloc[i] - el)
            d2 = abs((got['azimuth'].iloc[i] - az + 180) % 360 - 180) * math.cos(math.radians(el))
            ctx.expect(d1 < 0.002 and d2 < 0.004, 'ephem', f'{t} {lat} {lon}: {d1} {d2}')
            n += 1
