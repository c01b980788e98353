"""All methods x instants x sites x atmospheres compared with scalar
references and with one another; closed-form formulas on all 366 days and a
full geometric lattice; time-of-altitude searches."""
import datetime as dt
import itertools
import math
import sys
import types
import warnings

import numpy as np
import pandas as pd

from mc.core import case, lattice, quiet
from mc.ref import spa as R, sun
from mc.checks.S01 import unix
from pvlib import solarposition as sp

CASES = []
LATS = [-77., -45., -23.4, 0.5, 15., 39.74, 51.5, 66.6, 80., 89.]
LONS = [-179.5, -105.18, 0., 28., 151., 180.]


def times(ctx, *extra):
    t = []
    for d in ('2019-12-31', '2020-02-29', '2020-03-20', '2020-06-20', '2020-09-22', '2020-12-31', '2020-01-03', '2020-01-04', '2020-01-05',
              '2021-01-01', '2021-11-03', '2000-01-01', '2049-07-01', '1950-05-05', *extra):
        t += [pd.Timestamp(d) + pd.Timedelta(minutes=m + 7.31) for m in range(0, 1440, ctx.pick(40, 10))]
    return pd.DatetimeIndex(t).round('ms').tz_localize('UTC')


def naive(t):
    return t.tz_convert('UTC').tz_localize(None)


def angd(a, b):
    return np.abs((np.asarray(a, float) - np.asarray(b, float) + 180) % 360 - 180)


@case(CASES)
def ephemeris_reference(ctx):
    # the far centuries make every power of the epoch count
    tt = times(ctx, '1680-03-05', '1799-10-10', '2261-09-09')[::2]
    atm = list(itertools.product((101325., 60000., 0.), (12., -25., 40.)))
    for (lat, lon), k in zip(itertools.product(LATS, LONS), itertools.count()):
        for P, Tm in (atm if k % 7 == 0 or ctx.thorough else [atm[k % len(atm)]]):
            ctx.states += len(tt)
            ctx.step(len(tt))
            g = sp.ephemeris(tt, lat, lon, P, Tm)
            e = [sun.ephemeris(naive(t), lat, lon, P, Tm) for t in tt]
            ctx.expect(list(g.columns) == list(e[0]), 'columns')
            ctx.expect(g.index.equals(tt), 'index')
            el = np.array([r['elevation'] for r in e])
            # keep away from the steps of the piecewise refraction
            ok = np.min(np.abs(el[:, None] - np.array([-1, -0.575, 5, 85.])), axis=1) > 1e-3
            for c in g:
                v = np.array([r[c] for r in e])
                tol = 4e-6    # the Kepler iteration stops within 1.7e-6
                d = np.abs(g[c].to_numpy() - v)
                if c == 'azimuth':
                    d = angd(g[c], v) * np.cos(np.radians(el))
                    ctx.expect(((g[c] >= 0) & (g[c] <= 360)).all(), 'azimuth range')
                if c == 'solar_time':
                    d = np.minimum(d, 24 - d)
                if 'apparent' in c:
                    d = np.where(ok, d, 0)
                    tol = 1e-4
                ctx.traces += len(d)
                if not (d <= tol).all():
                    i = int(np.argmax(d))
                    ctx.fail(f'ephemeris/{c}', f'{tt[i]} lat {lat} lon {lon} P {P} T {Tm}: {g[c].iloc[i]} vs {v[i]}')
            # through the dispatcher
            if P > 0:
                g2 = sp.get_solarposition(tt, lat, lon, pressure=P, method='Ephemeris', temperature=Tm)
                ctx.expect(g2.equals(g), 'dispatch/ephemeris')


@case(CASES)
def pyephem_reference(ctx):
    import ephem
    tt = times(ctx)[::5]
    for k, (lat, lon) in enumerate(itertools.product(LATS, LONS)):
        alt, P, Tm = [(0., 101325., 12.), (1800., 82000., -10.), (100., 0., 30.), (3000., 70000., 35.)][k % 4]
        ctx.states += len(tt)
        ctx.step(2 * len(tt))
        g = sp.pyephem(tt, lat, lon, alt, P, Tm)
        o = ephem.Observer()
        o.lat, o.lon, o.elevation, o.temp = str(lat), str(lon), alt, Tm
        s = ephem.Sun()
        exp = []
        for t in tt:
            r = []
            for p in (P / 100, 0):
                o.pressure = p
                o.date = naive(t).to_pydatetime()
                s.compute(o)
                r += [math.degrees(s.alt), math.degrees(s.az)]
            exp.append(r)
        exp = np.array(exp)
        for c, v in (('apparent_elevation', exp[:, 0]), ('apparent_azimuth', exp[:, 1]),
                     ('elevation', exp[:, 2]), ('azimuth', exp[:, 3]),
                     ('apparent_zenith', 90 - exp[:, 0]), ('zenith', 90 - exp[:, 2])):
            ctx.close(g[c], v, f'pyephem/{c}', atol=1e-6, lat=lat, lon=lon)
        if P > 0:
            g2 = sp.get_solarposition(tt, lat, lon, alt, P, 'PyEphem', Tm)
            ctx.expect(g2.equals(g), 'dispatch/pyephem')
        ctx.expect(g.index.equals(tt), 'pyephem index')


@case(CASES)
def methods_agree(ctx):
    tt = times(ctx)
    for lat, lon in itertools.product(LATS, LONS):
        ctx.states += len(tt)
        ctx.step(3 * len(tt))
        P, Tm = 90000., 18.
        a = sp.get_solarposition(tt, lat, lon, 500., P, 'nrel_numpy', Tm, delta_t=None)
        b = sp.get_solarposition(tt, lat, lon, 500., P, 'ephemeris', Tm)
        cz = np.sin(np.radians(a['zenith'].to_numpy()))
        c = sp.get_solarposition(tt[::3], lat, lon, 500., P, 'pyephem', Tm)
        ctx.expect((np.abs(a['zenith'] - b['zenith']) < 0.02).all(), 'spa-ephemeris/zenith',
                   str(np.abs(a['zenith'] - b['zenith']).max()))
        ctx.expect((angd(a['azimuth'], b['azimuth']) * cz < 0.02).all(), 'spa-ephemeris/azimuth')
        up = a['elevation'] > 1
        ctx.expect((np.abs(a['apparent_elevation'] - b['apparent_elevation'])[up] < 0.03).all(),
                   'spa-ephemeris/apparent', str(np.abs(a['apparent_elevation'] - b['apparent_elevation'])[up].max()))
        a3, cz3 = a.iloc[::3], cz[::3]
        ctx.expect((np.abs(a3['zenith'] - c['zenith']) < 0.003).all(), 'spa-pyephem/zenith',
                   str(np.abs(a3['zenith'] - c['zenith']).max()))
        ctx.expect((angd(a3['azimuth'], c['azimuth']) * cz3 < 0.005).all(), 'spa-pyephem/azimuth')
        up3 = a3['elevation'] > 1
        ctx.expect((np.abs(a3['apparent_elevation'] - c['apparent_elevation'])[up3] < 0.05).all(),
                   'spa-pyephem/apparent', str(np.abs(a3['apparent_elevation'] - c['apparent_elevation'])[up3].max()))
        ctx.outcome((lat, lon, round(float(a['zenith'].sum()), 2)))


@case(CASES)
def dispatch(ctx):
    """Method names select the method; keyword arguments reach it."""
    tt = times(ctx)[:7]
    calls = {}
    real = {n: getattr(sp, n) for n in ('spa_python', 'spa_c', 'pyephem', 'ephemeris')}
    import inspect
    try:
        for n in real:
            def rec(*a, _n=n, **k):
                b = inspect.signature(real[_n]).bind(*a, **k)
                b.apply_defaults()
                calls[_n] = dict(b.arguments)
                return _n
            setattr(sp, n, rec)
        want = {'nrel_numpy': ('spa_python', {'how': 'numpy'}), 'nrel_numba': ('spa_python', {'how': 'numba'}),
                'nrel_c': ('spa_c', {}), 'pyephem': ('pyephem', {}), 'ephemeris': ('ephemeris', {})}
        for m, (fn, kw) in want.items():
            for name in (m, m.upper(), m.title()):
                for alt, P, Tm in itertools.product((0., 1500.), (101325., 70000.), (12., 33.)):
                    ctx.state((name, alt, P, Tm))
                    ctx.step()
                    calls.clear()
                    try:
                        r = sp.get_solarposition(tt, 1., 2., alt, P, name, Tm)
                    except (ImportError, ModuleNotFoundError):
                        r = None
                    if not calls:       # not reached through the module: judge by the values
                        if r is not None and fn != 'spa_c':
                            a = dict(pressure=P, temperature=Tm, **kw)
                            if fn != 'ephemeris':
                                a['altitude'] = alt
                            ctx.expect(r.equals(real[fn](tt, 1., 2., **a)), f'dispatch/{m}/values')
                        continue
                    ctx.expect(list(calls) == [fn], f'dispatch/{m}', str(list(calls)))
                    c = calls.get(fn, {})
                    ok = (c.get('latitude') == 1. and c.get('longitude') == 2. and c.get('pressure') == P
                          and c.get('temperature') == Tm)
                    if 'altitude' in c:
                        ok &= c['altitude'] == alt
                    for k, v in kw.items():
                        ok &= c.get(k) == v
                    ctx.expect(ok, f'dispatch/{m}/arguments', str({k: v for k, v in c.items() if k != 'time'}))
    finally:
        for n, f in real.items():
            setattr(sp, n, f)
    for bad in ('', 'nrel', 'nrel_fortran', 'ephem', 'spa'):
        ctx.state(bad)
        ctx.raises(ValueError, lambda: sp.get_solarposition(tt, 1., 2., method=bad), f'bad/{bad}')


@case(CASES)
def spa_c_wrapper(ctx):
    """The C wrapper's marshalling, with the extension replaced by a stand-in
    that evaluates the reference algorithm."""
    tt = times(ctx)[::9].round('s')

    def spa_calc(year, month, day, hour, minute, second, latitude, longitude, elevation, pressure,
                 temperature, delta_t, time_zone=0):
        u = unix(dt.datetime(year, month, day, hour, minute, second)) - 3600 * time_zone
        r = R.position(u, latitude, longitude, elevation, pressure * 100, temperature, delta_t)
        return dict(year=year, azimuth=r['azimuth'], zenith=r['apparent_zenith'], e=r['apparent_elevation'],
                    e0=r['elevation'], time_zone=time_zone)
    m = types.ModuleType('pvlib.spa_c_files.spa_py')
    m.spa_calc = spa_calc
    old = sys.modules.get('pvlib.spa_c_files.spa_py')
    sys.modules['pvlib.spa_c_files.spa_py'] = m
    try:
        for tz in ('UTC', 'Etc/GMT+7', None):
            t2 = tt.tz_convert(tz) if tz else tt.tz_localize(None)
            for lat, lon, alt, P, Tm in ((39.7, -105., 1e6, 80000., 30.), (-20., 140., 0., 101325., 12.)):
                ctx.states += len(tt)
                ctx.step(len(tt))
                g = sp.get_solarposition(t2, lat, lon, alt, P, 'nrel_c', Tm)
                ctx.expect(g.index.equals(t2), 'spa_c/index')
                e = [R.position(unix(t), lat, lon, alt, P, Tm) for t in tt]
                for c in ('apparent_zenith', 'zenith', 'apparent_elevation', 'elevation', 'azimuth'):
                    ctx.close(g[c], [r[c] for r in e], f'spa_c/{c}', atol=1e-6)
        raw = sp.spa_c(tt, 39.7, -105., raw_spa_output=True)
        ctx.expect('timezone' in raw.columns and len(raw) == len(tt), 'spa_c/raw')
    finally:
        if old is None:
            del sys.modules['pvlib.spa_c_files.spa_py']
        else:
            sys.modules['pvlib.spa_c_files.spa_py'] = old


@case(CASES)
def daily_formulas(ctx):
    doys = [float(d) for d in range(1, 367)]
    F = ('array', 'series', 'scalar', 'int', 'len1')
    lattice(ctx, 'eot_spencer71', sp.equation_of_time_spencer71, lambda dayofyear: sun.eot_spencer71(dayofyear),
            dict(dayofyear=doys), forms=F)
    lattice(ctx, 'eot_pvcdrom', sp.equation_of_time_pvcdrom, lambda dayofyear: sun.eot_pvcdrom(dayofyear),
            dict(dayofyear=doys), forms=F)
    lattice(ctx, 'decl_spencer71', sp.declination_spencer71, lambda dayofyear: sun.decl_spencer71(dayofyear),
            dict(dayofyear=doys), forms=F)
    lattice(ctx, 'decl_cooper69', sp.declination_cooper69, lambda dayofyear: sun.decl_cooper69(dayofyear),
            dict(dayofyear=doys), forms=F)
    ix = pd.Index(np.arange(1, 367))
    for fn, rf in ((sp.equation_of_time_spencer71, sun.eot_spencer71), (sp.equation_of_time_pvcdrom, sun.eot_pvcdrom),
                   (sp.declination_spencer71, sun.decl_spencer71), (sp.declination_cooper69, sun.decl_cooper69)):
        ctx.step(366)
        ctx.close(fn(ix), [rf(d) for d in range(1, 367)], f'{fn.__name__}/Index')
    # stated accuracy against the algorithm: every day of three years
    for y in (2015, 2016, 2019, 2020):
        for d in pd.date_range(f'{y}-01-01', f'{y}-12-31', freq='D') + pd.Timedelta('12h'):
            ctx.state(d)
            ctx.step(4)
            g = R.geocentric(unix(d), 67.)
            k = d.dayofyear
            ctx.expect(abs(sp.equation_of_time_spencer71(k) - g['eot']) < 1.1, 'eot_spencer71/accuracy', str(d))
            ctx.expect(abs(sp.equation_of_time_pvcdrom(k) - g['eot']) < 1.1, 'eot_pvcdrom/accuracy', str(d))
            ctx.expect(abs(math.degrees(sp.declination_spencer71(k)) - g['delta']) < 0.5, 'decl_spencer71/accuracy', str(d))
            ctx.expect(abs(math.degrees(sp.declination_cooper69(k)) - g['delta']) < 1.7, 'decl_cooper69/accuracy', str(d))


@case(CASES)
def geometry(ctx):
    la = [math.radians(x) for x in (-89.9, -66, -45, -20, -10, 0, 10, 20, 37.8, 51, 66, 80, 89.9)]
    ha = [math.radians(x) for x in list(range(-180, 181, ctx.pick(15, 3))) + [-0.5, 0.5, 179.5]]
    de = [math.radians(x) for x in (-23.44, -10, 0, 5, 15, 23.44)]
    lattice(ctx, 'zenith', sp.solar_zenith_analytical,
            lambda latitude, hourangle, declination: sun.zenith(latitude, hourangle, declination),
            dict(latitude=la, hourangle=ha, declination=de), atol=3e-8,
            forms=('array', 'series', 'scalar', 'mixed', 'len1'), scalar_max=800)

    def az(latitude, hourangle, declination):
        z = quiet(sp.solar_zenith_analytical, latitude, hourangle, declination)
        return sp.solar_azimuth_analytical(latitude, hourangle, declination, z)

    def keep(latitude, hourangle, declination):
        z = sun.zenith(latitude, hourangle, declination)
        a = sun.azimuth(latitude, hourangle, declination)
        return 1e-3 < z < math.pi - 1e-3 and math.sin(z) * math.cos(latitude) > 1e-6

    # compare on the circle: cos and sin of the azimuth
    def azcs(latitude, hourangle, declination):
        a = az(latitude, hourangle, declination)
        return np.cos(a), np.sin(a)

    def refcs(latitude, hourangle, declination):
        a = sun.azimuth(latitude, hourangle, declination)
        return math.cos(a), math.sin(a)
    lattice(ctx, 'azimuth', azcs, refcs, dict(latitude=la, hourangle=ha, declination=de), keep=keep,
            atol=2e-4, forms=('array', 'series', 'scalar', 'len1'), scalar_max=800,
            nan=['hourangle', 'declination'])
    # NaN hour angle alone gives a missing azimuth
    ctx.state('nan-ha')
    ctx.step()
    r = quiet(sp.solar_azimuth_analytical, 0.5, np.array([np.nan, 0.3]), 0.1, np.array([1.0, 1.0]))
    ctx.expect(np.isnan(r[0]) and np.isfinite(r[1]), 'nan hour angle')
    # range
    rng = np.array([az(a, h, d) for a in la for h in ha for d in de])
    ctx.expect(((rng >= -1e-9) & (rng <= 2 * np.pi + 1e-9)).all(), 'azimuth range')
    # agreement with SPA over a year
    tt = pd.date_range('2019-01-01', '2019-12-31 23:00', freq=ctx.pick('7h', '1h'), tz='UTC')
    for lat, lon in ((37.8, -122.25), (-33., 151.), (1., 20.), (65., 10.)):
        ctx.states += len(tt)
        ctx.step(len(tt))
        p = sp.spa_python(tt, lat, lon)
        h = np.radians((sp.hour_angle(tt, lon, p['equation_of_time'].to_numpy()) + 180) % 360 - 180)
        d = sp.declination_spencer71(tt.dayofyear.to_numpy() + (tt.hour.to_numpy() - 12) / 24)
        z = np.degrees(sp.solar_zenith_analytical(math.radians(lat), h, d))
        ctx.expect((np.abs(z - p['zenith']) < 0.5).all(), 'zenith-vs-spa', str(np.abs(z - p['zenith']).max()))
        a = np.degrees(sp.solar_azimuth_analytical(math.radians(lat), h, d, np.radians(z)))
        da = angd(a, p['azimuth']) * np.sin(np.radians(p['zenith'].to_numpy()))
        ctx.expect((da < 0.6).all(), 'azimuth-vs-spa', str(da.max()))


@case(CASES)
def search_time(ctx):
    import ephem
    for lat, lon, day in itertools.product((-35., 0.5, 39.74, 60.), (-105.18, 20., 151.),
                                           ('2021-03-20', '2021-06-21', '2020-02-29')):
        noon = pd.Timestamp(day, tz='UTC') + pd.Timedelta(hours=12 - lon / 15)
        for P, alt0 in ((101325., 0.), (0., 1000.), (70000., 3000.)):
            def alt_at(t, attr='alt'):
                o = ephem.Observer()
                o.lat, o.lon, o.elevation, o.pressure, o.temp = str(lat), str(lon), alt0, P / 100., 12.
                o.date = ephem.Date(t.astimezone(dt.timezone.utc).replace(tzinfo=None))
                s = ephem.Sun()
                s.compute(o)
                return float(getattr(s, attr))
            for lo, hi in ((-9, -1.5), (1.5, 9)):
                a, b = noon + pd.Timedelta(hours=lo), noon + pd.Timedelta(hours=hi)
                for tz in ('UTC', 'Etc/GMT+7'):
                    A, B = a.tz_convert(tz).to_pydatetime(), b.tz_convert(tz).to_pydatetime()
                    for attr in ('alt', 'az'):
                        f0, f1 = alt_at(A, attr), alt_at(B, attr)
                        if attr == 'az' and abs(f1 - f0) > 3:
                            continue
                        for q in (0.1, 0.5, 0.9):
                            v = f0 + q * (f1 - f0)
                            ctx.state((lat, lon, day, P, lo, attr, q, tz))
                            ctx.step()
                            r = sp.calc_time(A, B, lat, lon, attr, v, altitude=alt0, pressure=P)
                            ctx.expect(A <= r <= B, 'search/inside', f'{A} {r} {B}')
                            ctx.expect(r.tzinfo is not None, 'search/tz')
                            ctx.expect(abs(alt_at(r, attr) - v) < 2e-6, 'search/value',
                                       f'{attr} {alt_at(r, attr)} vs {v}')
            ctx.raises(ValueError, lambda: sp.calc_time(noon.to_pydatetime(), (noon + pd.Timedelta('1h')).to_pydatetime(),
                                                        lat, lon, 'alt', 2.0), 'search/no-root')
    # naive bounds mean UTC
    A, B = dt.datetime(2021, 3, 20, 6), dt.datetime(2021, 3, 20, 11)
    r = sp.calc_time(A, B, 10., 0., 'alt', 0.5)
    r2 = sp.calc_time(A.replace(tzinfo=dt.timezone.utc), B.replace(tzinfo=dt.timezone.utc), 10., 0., 'alt', 0.5)
    ctx.expect(r == r2, 'search/naive')
