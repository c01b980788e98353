"""Days (equinoxes, solstices, leap day, year ends, every n-th day) x
latitudes up to the poles x longitudes x fixed-offset and daylight-saving
zones x request times of day x implementations; oracle: the SPA appendix
evaluated for the UTC day whose transit is on the local day, and the true solar
altitude at the returned instants."""
import itertools
import math

import numpy as np
import pandas as pd

from mc.core import case, quiet
from mc.ref import spa as R, sun
from mc.checks.S01 import unix
from pvlib import solarposition as sp
from pvlib.location import Location

CASES = []
LATS = [-90., -89., -70., -66.6, -60., -34., -1., 0., 23.4, 39.74, 55., 65., 66.6, 68., 80., 90.]
SITES = [(-179.5, -12), (-171.7, 13), (-171.7, -11), (-105.18, -7), (-105.18, -8), (-60., -3.5), (0., 0), (0.5, 1),
         (77., 5.5), (151., 10), (151., 11), (172., 12), (178., 12), (179.9, 13), (-176., -12), (180., 12), (-180., -12)]


def offset_tz(h):
    if h == int(h):
        return f'Etc/GMT{-int(h):+d}' if h else 'UTC'
    import datetime as dt
    return dt.timezone(dt.timedelta(hours=h))


def days(ctx):
    d = pd.date_range('2020-01-01', '2021-01-02', freq=ctx.pick('19D', '3D'))
    x = pd.DatetimeIndex(['2019-12-31', '2020-02-28', '2020-02-29', '2020-03-01', '2020-03-19', '2020-03-20', '2020-03-21',
                          '2020-06-20', '2020-09-22', '2020-11-03', '2020-12-21', '2020-12-31', '2021-12-31',
                          '2000-02-29', '1999-12-31', '2049-05-05'])
    return d.append(x).unique().sort_values()


_cache = {}


def rts_for(date, lat, lon, offset_h, delta_t=67.0):
    """Events whose transit lies on the local date (fixed offset)."""
    base = unix(pd.Timestamp(date))
    for k in (0, 1, -1):
        r = R.rts(base + k * 86400, lat, lon, delta_t)
        loc = r[0] + offset_h * 3600
        if base <= loc < base + 86400:
            return r
    return None


def _lat(lat):
    def f(ctx):
        dd = days(ctx)
        for lon, off in SITES:
            tz = offset_tz(off)
            idx = dd.tz_localize(tz)
            exp = [rts_for(d, lat, lon, off) for d in dd]
            base = None
            for tod in ('0s', '5h13min7s', '12h', '23h59min59s'):
                t = (dd + pd.Timedelta(tod)).tz_localize(tz)
                ctx.states += len(t)
                ctx.step(len(t))
                g = quiet(sp.sun_rise_set_transit_spa, t, lat, lon)
                if not g.index.equals(t):
                    ctx.fail('index', 'index changed')
                if sorted(g.columns) != ['sunrise', 'sunset', 'transit']:
                    ctx.fail('columns', str(list(g.columns)))
                for j, c in enumerate(('transit', 'sunrise', 'sunset')):
                    col = g[c]
                    ctx.traces += len(col)
                    for i, v in enumerate(col):
                        e = exp[i][j] if exp[i] is not None else None
                        if e is None:
                            continue
                        if pd.isna(v) != (e != e):
                            ctx.fail(f'{c}/missing', f'{t[i]} lat {lat} lon {lon} tz {tz}: {v}, reference {e}')
                        elif e == e:
                            if abs(unix(v) - e) > 2e-3:
                                ctx.fail(f'{c}/value', f'{t[i]} lat {lat} lon {lon}: {v}, reference '
                                         f'{pd.Timestamp(e, unit="s", tz="UTC")}')
                            if v.utcoffset() != t[i].utcoffset():
                                ctx.fail(f'{c}/zone', f'{v}')
                for i, v in enumerate(g['transit']):
                    if exp[i] is not None and v.date() != t[i].date():
                        ctx.fail('transit/local day', f'{t[i]} lat {lat} lon {lon}: {v}')
            # the physical meaning at the returned instants
            for i, e in enumerate(exp):
                if e is None or abs(lat) > 85:
                    continue
                tr, sr, ss = e
                g0 = g.iloc[i]
                if e[1] == e[1] and not pd.isna(g0['sunrise']):
                    for c, s in (('sunrise', 1), ('sunset', -1)):
                        u = unix(g0[c])
                        a = R.altitude(u, lat, lon)
                        slope = R.altitude(u + 60, lat, lon) - R.altitude(u - 60, lat, lon)
                        ctx.traces += 2
                        if abs(a + 0.8333) > 0.5:
                            ctx.fail(f'{c}/altitude', f'{g0[c]} lat {lat} lon {lon}: altitude {a}')
                        if slope * s <= 0:
                            ctx.fail(f'{c}/direction', f'{g0[c]} lat {lat} lon {lon}: slope {slope}')
                    ctx.expect(g0['sunrise'] < g0['transit'] < g0['sunset'], 'order', f'{g0}')
                    ctx.expect((g0['sunset'] - g0['sunrise']) < pd.Timedelta('24h10min'), 'length')
                u = unix(g0['transit'])
                if abs(lat) < 66:
                    h = [R.altitude(u + k, lat, lon) for k in (-600, 0, 600)]
                    ctx.expect(h[1] > h[0] - 1e-4 and h[1] > h[2] - 1e-4, 'transit/highest', f'{g0} {lat} {lon} {h}')
                if e[1] != e[1]:
                    # up or down all day (a margin of 0.3 deg for the day's drift)
                    alts = [R.altitude(u + k * 3600, lat, lon) for k in range(-12, 13)]
                    ctx.expect(max(alts) < -0.83 + 0.5 or min(alts) > -0.83 - 0.5, 'missing only in polar day or night',
                               f'{g0} {lat} {lon} {min(alts)} {max(alts)}')
            ctx.outcome((lat, lon, sum(1 for e in exp if e and e[1] == e[1])))
    return f


for _l in LATS:
    CASES.append((f'spa_lat{_l:g}', _lat(_l), False))


@case(CASES)
def near_utc_midnight(ctx):
    """Longitudes that put an event within seconds of midnight UTC."""
    for date, lat, j, s in itertools.product(('2020-03-20', '2020-06-21', '2021-01-03', '2019-11-03'), (-45., .5, 51.5, 60.), (0, 1, 2),
                                             (-30., -4., -.5, .5, 4., 30.)):
        lon = -179. if j == 0 else 90. * (1 if j == 1 else -1)
        u = unix(pd.Timestamp(date))
        for _ in range(4):
            r = R.rts(u, lat, lon, 67.)
            d = (r[j] - u - s + 43200) % 86400 - 43200
            lon = (lon + d / 240. + 180) % 360 - 180
        for off in (0, -11, 9):
            t = pd.DatetimeIndex([date]).tz_localize(offset_tz(off)) + pd.Timedelta('13h')
            e = rts_for(pd.Timestamp(date), lat, lon, off)
            if e is None:
                continue
            ctx.state()
            ctx.step()
            g = quiet(sp.sun_rise_set_transit_spa, t, lat, lon)
            for k, c in enumerate(('transit', 'sunrise', 'sunset')):
                ctx.close(unix(g[c].iloc[0]) - u, e[k] - u, f'midnight/{c}', rtol=0, atol=3e-3, date=date, lat=lat, lon=lon, offset=off)


@case(CASES)
def delta_t(ctx):
    t = pd.DatetimeIndex(['2020-03-20', '1950-06-21', '2100-01-01', '1900-07-07']).tz_localize('Etc/GMT+7')
    for dT in (0., 67., 500., None, np.array([10., 400., 67., -3.])):
        ctx.state(str(dT))
        ctx.step(4)
        g = sp.sun_rise_set_transit_spa(t, 39.74, -105.18, delta_t=dT)
        d = [R.delta_t(x.tz_convert('UTC').year, x.tz_convert('UTC').month) for x in t] if dT is None else \
            (dT if isinstance(dT, np.ndarray) else [dT] * 4)
        for i in range(4):
            e = rts_for(t[i].date(), 39.74, -105.18, -7, d[i])
            for j, c in enumerate(('transit', 'sunrise', 'sunset')):
                ctx.close(unix(g[c].iloc[i]), e[j], f'delta_t/{c}', rtol=0, atol=3e-3)
    for fn in (sp.sun_rise_set_transit_spa, sp.sun_rise_set_transit_ephem):
        ctx.raises(ValueError, lambda: fn(t.tz_localize(None), 1., 2.), 'naive')
    ctx.raises(ValueError, lambda: sp.sun_rise_set_transit_ephem(t, 1., 2., next_or_previous='both'), 'next_or_previous')


@case(CASES)
def dst_zones(ctx):
    """Days with missing or doubled midnights and clock changes."""
    for tz, lat, lon, dd in [('US/Eastern', 40., -75., ['2020-03-07', '2020-03-08', '2020-03-09', '2020-10-31', '2020-11-01']),
                             ('America/Santiago', -33., -70.6, ['2014-09-06', '2014-09-07', '2014-09-08']),
                             ('America/Havana', 23., -82., ['2014-11-01', '2014-11-02', '2014-11-03']),
                             ('Australia/Lord_Howe', -31.5, 159., ['2020-04-05', '2020-10-04']),
                             ('Pacific/Fiji', -18., 178., ['2020-11-03', '2021-01-17', '2020-02-11']),
                             ('Pacific/Apia', -13.8, -171.7, ['2020-11-03', '2020-02-11', '2020-04-05']),
                             ('Pacific/Auckland', -38.6, 178., ['2020-11-03', '2020-04-05', '2020-09-27']),
                             ('America/Adak', 51.9, -176.6, ['2020-02-11', '2020-03-08', '2020-11-01', '2020-07-26'])]:
        for d in dd:
            for tod in ('3h30min', '12h', '23h30min'):
                t = pd.DatetimeIndex([pd.Timestamp(d) + pd.Timedelta(tod)]).tz_localize(tz, ambiguous=np.array([True]))
                ctx.state((tz, d, tod))
                ctx.step()
                g = sp.sun_rise_set_transit_spa(t, lat, lon).iloc[0]
                off = pd.Timestamp(d + ' 12:00').tz_localize(tz).utcoffset().total_seconds() / 3600
                e = rts_for(d, lat, lon, off)
                for j, c in enumerate(('transit', 'sunrise', 'sunset')):
                    ctx.close(unix(g[c]), e[j], f'dst/{tz}/{c}', rtol=0, atol=2e-3)
                ctx.expect(all(str(g[c].date()) == d for c in g.index), f'dst/{tz}/local day', f'{g.tolist()}')
                eot = R.geocentric(e[0], 67.)['eot']
                dec = math.radians(R.geocentric(e[0], 67.)['delta'])
                if tz == 'America/Havana' and d == '2014-11-02':
                    continue        # ambiguous local midnight is rejected by the geometric method
                if abs(off - lon / 15) > 6:
                    continue        # the zone is a day away from the longitude
                sr, ss, tr = sp.sun_rise_set_transit_geometric(t, lat, lon, dec, np.array([eot]))
                ctx.expect(abs((tr[0] - g['transit']).total_seconds()) < 30, f'dst/geometric/{tz}/transit', f'{tr[0]} {g["transit"]}')
                for a, c in ((sr, 'sunrise'), (ss, 'sunset')):
                    ctx.expect(abs((a[0] - g[c]).total_seconds()) < 600, f'dst/geometric/{tz}/{c}', f'{a[0]} {g[c]}')


@case(CASES)
def pyephem(ctx):
    import ephem
    dd = days(ctx)[::2]
    for lat, (lon, off) in itertools.product([-60., -34., 0., 39.74, 60.], SITES[::2]):
        tz = offset_tz(off)
        for tod in ('0s', '12h'):
            t = (dd + pd.Timedelta(tod)).tz_localize(tz)
            for which in ('next', 'Previous'):
                ctx.states += len(t)
                ctx.step(len(t))
                g = sp.sun_rise_set_transit_ephem(t, lat, lon, next_or_previous=which, pressure=0., horizon='-0:50')
                ctx.expect(g.index.equals(t), 'ephem/index')
                for c in ('sunrise', 'sunset', 'transit'):
                    for i, v in enumerate(g[c]):
                        ctx.traces += 1
                        dt_ = (v - t[i]).total_seconds()
                        ok = 0 <= dt_ < 86400 + 900 if which == 'next' else -86400 - 900 < dt_ <= 0
                        if not ok:
                            ctx.fail(f'ephem/{which}/{c}', f'{t[i]}: {v}')
                        if v.utcoffset() != t[i].utcoffset():
                            ctx.fail(f'ephem/{c}/zone', str(v))
                        u = unix(v)
                        if c == 'transit':
                            h = [R.altitude(u + k, lat, lon) for k in (-900, 0, 900)]
                            if not (h[1] > h[0] and h[1] > h[2]):
                                ctx.fail('ephem/transit/highest', f'{v} {lat} {lon}')
                        else:
                            a = R.altitude(u, lat, lon)
                            s = R.altitude(u + 60, lat, lon) - a
                            if abs(a + 50 / 60 + 0.267) > 0.03:
                                ctx.fail(f'ephem/{c}/altitude', f'{v} {lat} {lon}: {a}')
                            if (s > 0) != (c == 'sunrise'):
                                ctx.fail(f'ephem/{c}/direction', f'{v} {lat} {lon}')
                # same events as the algorithm
                if which == 'next' and tod == '0s' and abs(lat) < 61:
                    s = sp.sun_rise_set_transit_spa(t, lat, lon)
                    g = sp.sun_rise_set_transit_ephem(t, lat, lon, pressure=0., horizon='-0:34')
                    for i in range(len(t)):
                        if s['sunrise'].iloc[i] > t[i] and abs(off - lon / 15) < 2.1:
                            for c in ('sunrise', 'transit', 'sunset'):
                                d = abs((s[c].iloc[i] - g[c].iloc[i]).total_seconds())
                                ctx.expect(d < (100 if abs(lat) < 50 else 240), f'ephem-vs-spa/{c}', f'{t[i]} {lat} {lon} {d}')
    # pressure, temperature, altitude and horizon reach the observer
    t = pd.DatetimeIndex(['2020-05-05 00:00', '2020-11-11 10:00']).tz_localize('Etc/GMT+7')
    for P, Tm, alt, hz, w in itertools.product((0., 80000., 101325.), (-20., 12., 35.), (0., 3000.), ('0:00', '-0:34', '+5:00'),
                                               ('next', 'previous')):
        ctx.state((P, Tm, alt, hz, w))
        ctx.step(2)
        g = sp.sun_rise_set_transit_ephem(t, 39.74, -105.18, w, alt, P, Tm, hz)
        for i in range(2):
            o = ephem.Observer()
            o.lat, o.lon, o.elevation, o.pressure, o.temp, o.horizon = '39.74', '-105.18', alt, P / 100., Tm, hz
            for c, f in (('sunrise', f'{w}_rising'), ('sunset', f'{w}_setting'), ('transit', f'{w}_transit')):
                o.date = ephem.Date(t[i].tz_convert('UTC').to_pydatetime().replace(tzinfo=None))
                e = getattr(o, f)(ephem.Sun()).datetime()
                ctx.close(unix(g[c].iloc[i]), unix(e), f'ephem/args/{c}', rtol=0, atol=0.01)
    # microseconds survive
    v = sp.sun_rise_set_transit_ephem(t, 39.74, -105.18)
    ctx.expect(any(x.microsecond for x in v['transit']), 'ephem/microseconds')


@case(CASES)
def geometric(ctx):
    dd = days(ctx)
    for lat, (lon, off) in itertools.product(LATS, SITES):
        tz = offset_tz(off)
        for tod in ('0s', '17h'):
            t = (dd + pd.Timedelta(tod)).tz_localize(tz)
            doy = t.dayofyear.to_numpy()
            dec = np.array([sun.decl_spencer71(d) for d in doy])
            eot = np.array([sun.eot_spencer71(d) for d in doy])
            ctx.states += len(t)
            ctx.step(len(t))
            sr, ss, tr = quiet(sp.sun_rise_set_transit_geometric, t, lat, lon, dec, eot)
            for i in range(len(t)):
                base = unix(dd[i]) - off * 3600
                noon = (12 + off) * 3600 - (lon * 240 + eot[i] * 60) + base
                x = -math.tan(dec[i]) * math.tan(math.radians(lat))
                ctx.traces += 3
                if abs(abs(x) - 1) < 1e-9:
                    continue
                if abs(unix(tr[i]) - noon) > 2e-3:
                    ctx.fail('geometric/transit', f'{t[i]} {lon}: {tr[i]}')
                if abs(x) > 1:
                    if not (pd.isna(sr[i]) and pd.isna(ss[i])):
                        ctx.fail('geometric/polar', f'{t[i]} {lat}: {sr[i]}')
                    continue
                ha = math.degrees(math.acos(x)) * 240
                if abs(unix(sr[i]) - (noon - ha)) > 2e-3 or abs(unix(ss[i]) - (noon + ha)) > 2e-3:
                    ctx.fail('geometric/events', f'{t[i]} {lat} {lon}: {sr[i]} {ss[i]}')
                if sr[i].utcoffset() != t[i].utcoffset():
                    ctx.fail('geometric/zone', str(sr[i]))
            if abs(lat) <= 56:
                s = sp.sun_rise_set_transit_spa(t, lat, lon)
                for i in range(len(t)):
                    if abs(off - lon / 15) > 2.2:
                        continue
                    d = [abs((a - b).total_seconds()) for a, b in
                         ((tr[i], s['transit'].iloc[i]), (sr[i], s['sunrise'].iloc[i]), (ss[i], s['sunset'].iloc[i]))]
                    ctx.expect(d[0] < 90 and max(d[1:]) < 720, 'geometric-vs-spa', f'{t[i]} {lat} {lon} {d}')
    ctx.raises(ValueError, lambda: sp.sun_rise_set_transit_geometric(dd, 1., 2., 0.1, 0.), 'naive')


@case(CASES)
def location_dispatch(ctx):
    t = pd.date_range('2020-02-27 07:00', periods=4, freq='D', tz='Etc/GMT+7')
    loc = Location(39.74, -105.18, 'Etc/GMT+7', 1830.)
    for name, fn in (('pyephem', sp.sun_rise_set_transit_ephem), ('spa', sp.sun_rise_set_transit_spa)):
        ctx.state(name)
        ctx.step()
        g = loc.get_sun_rise_set_transit(t, method=name)
        ctx.expect(g.equals(fn(t, 39.74, -105.18)), f'location/{name}')
    ctx.expect(loc.get_sun_rise_set_transit(t).equals(sp.sun_rise_set_transit_spa(t, 39.74, -105.18)), 'location/default')
    g = loc.get_sun_rise_set_transit(t, method='pyephem', next_or_previous='previous', pressure=0.)
    ctx.expect(g.equals(sp.sun_rise_set_transit_ephem(t, 39.74, -105.18, 'previous', pressure=0.)), 'location/kwargs')
    doy = t.dayofyear.to_numpy()
    dec, eot = (np.array([f(d) for d in doy]) for f in (sun.decl_spencer71, sun.eot_spencer71))
    g = loc.get_sun_rise_set_transit(t, method='geometric', declination=dec, equation_of_time=eot)
    sr, ss, tr = sp.sun_rise_set_transit_geometric(t, 39.74, -105.18, dec, eot)
    for c, v in (('sunrise', sr), ('sunset', ss), ('transit', tr)):
        ctx.step()
        ctx.expect(g.index.equals(t) and all(abs((a - b).total_seconds()) < 1e-3 for a, b in zip(g[c], v)), f'location/geometric/{c}')
    ctx.raises(ValueError, lambda: loc.get_sun_rise_set_transit(t, method='bogus'), 'location/bad')
