"""All time-zone forms and every sequence of valid and invalid zone
assignments up to the bound; the altitude grid with cell edges; every location
method x site x time layout x option against the component function; every
metadata variant of both file families."""
import datetime
import itertools
import math
import zoneinfo

import numpy as np
import pandas as pd

from mc.core import case, quiet, same_value, deepcopy
from mc.checks.X04 import same
from pvlib import atmosphere, clearsky, irradiance, solarposition
from pvlib.location import Location, lookup_altitude

TECHNIQUE = ('explicit-state bounded model checking: exhaustive enumeration of assignment histories and argument '
             'lattices on the real code against a reference state')
CASES = []
nan = math.nan
UTC = datetime.timezone.utc
PROBE = [datetime.datetime(2024, m, 15, 12, tzinfo=UTC) for m in (1, 4, 7, 10)]


def offs(zone):
    return [t.astimezone(zone).utcoffset() for t in PROBE]


def pz(name):
    import pytz
    return pytz.timezone(name)


def zone_of(loc):
    """The zone object of the location."""
    return quiet(lambda: loc.pytz)


def check_zone(ctx, loc, name, key, **d):
    ctx.expect(isinstance(loc.tz, str) and loc.tz == name, key + ':name', got=str(loc.tz), want=name, **d)
    z = zone_of(loc)
    ctx.expect(getattr(z, 'zone', None) == name or str(z) == name, key + ':object', got=str(z), want=name, **d)
    ctx.expect(f'tz: {name}' in repr(loc), key + ':repr', got=repr(loc)[-60:], **d)


@case(CASES)
def zones(ctx):
    """Every IANA name, as string, zoneinfo and pytz object."""
    import pytz
    both = sorted(zoneinfo.available_timezones() & set(pytz.all_timezones))
    for i, n in enumerate(both):
        forms = [n, zoneinfo.ZoneInfo(n), pytz.timezone(n)]
        for f in forms:
            ctx.state()
            check_zone(ctx, Location(10., 20., tz=f, altitude=1.), n, 'zone', form=type(f).__name__)
            loc = Location(10., 20., altitude=1.)
            check_zone(ctx, loc, 'UTC', 'zone-default')
            loc.tz = f
            check_zone(ctx, loc, n, 'zone-assigned', form=type(f).__name__)
        z = zone_of(loc)
        ctx.expect([t.astimezone(z).utcoffset() for t in PROBE] == offs(zoneinfo.ZoneInfo(loc.tz)), 'zone:offsets', zone=n)
    for n in (datetime.timezone.utc, pytz.utc, pytz.UTC):
        check_zone(ctx, Location(0., 0., n, 0.), 'UTC', 'zone-utc')
    for k in range(-30, 31):
        ok = -12 <= k <= 14
        for v in (k, float(k), np.float64(k)):
            ctx.state()
            if ok:
                loc = Location(10., 20., tz=v, altitude=1.)
                check_zone(ctx, loc, 'Etc/GMT%+d' % -k if k else loc.tz, 'offset', hours=k)
                ctx.expect(set(offs(zoneinfo.ZoneInfo(loc.tz))) == {datetime.timedelta(hours=k)}, 'offset:value', hours=k, got=loc.tz)
            else:
                ctx.raises((ValueError, KeyError), lambda: Location(10., 20., tz=v, altitude=1.), 'offset:range', hours=k)
        for f in (.5, .25, .75, 1e-9):
            ctx.state()
            ctx.raises((TypeError, ValueError), lambda: Location(10., 20., tz=k + f, altitude=1.), 'offset:fraction', hours=k + f)
    ctx.outcome('ok')


VALID = [('UTC', 'UTC'), ('US/Arizona', 'US/Arizona'), (-7, 'Etc/GMT+7'), (5.0, 'Etc/GMT-5'), (0, 'Etc/GMT+0'),
         (zoneinfo.ZoneInfo('Asia/Kolkata'), 'Asia/Kolkata'), ('pytz:Asia/Tokyo', 'Asia/Tokyo'), (datetime.timezone.utc, 'UTC')]
INVALID = ['not/azone', '', -7.5, None, 99, nan, math.inf, [], b'UTC', ('UTC',), datetime.timedelta(hours=1), '../UTC', 'UTC ', -15]


def form(v):
    return pz(v[5:]) if isinstance(v, str) and v.startswith('pytz:') else v


@case(CASES)
def histories(ctx):
    """All sequences of zone assignments."""
    letters = [('ok',) + v for v in VALID] + [('bad', v) for v in INVALID]
    n = 3 if ctx.thorough else 2
    if not ctx.thorough:
        pass
    for seq in itertools.product(letters, repeat=n):
        for start in (('UTC', 'UTC'), (-5, 'Etc/GMT+5')) if n == 2 else (('UTC', 'UTC'),):
            loc = Location(10., 20., start[0], 30., 'x')
            cur = start[1]
            ctx.state()
            for x in seq:
                ctx.step()
                try:
                    loc.tz = form(x[1])
                    err = None
                except Exception as e:     # noqa
                    err = e
                if x[0] == 'ok':
                    if not ctx.expect(err is None, 'history:rejected', zone=str(x[1]), err=repr(err)):
                        break
                    cur = x[2]
                else:
                    ctx.expect(isinstance(err, (TypeError, ValueError, KeyError)), 'history:accepted', zone=repr(x[1]), err=repr(err))
                check_zone(ctx, loc, cur, 'history', seq=str([str(s[1]) for s in seq]))
            ctx.expect((loc.latitude, loc.longitude, loc.altitude, loc.name) == (10., 20., 30., 'x'), 'history:others')
    for v in INVALID:
        ctx.raises((TypeError, ValueError, KeyError), lambda: Location(0., 0., v, 0.), 'constructor:invalid', zone=repr(v))
    # the zone attributes: same value after reading, no direct way to split them
    loc = Location(0., 0., 'US/Arizona', 0.)
    for bad in ('UTC', None):
        try:
            loc.pytz = bad
        except AttributeError:
            pass
        check_zone(ctx, loc, 'US/Arizona', 'pytz-set')


def _altitude(part):
    @case(CASES, name=f'altitude_{part}')
    def f(ctx):
        """Grid of five-minute cells: centres and points near every edge."""
        import h5py
        from pathlib import Path
        import pvlib
        with h5py.File(Path(pvlib.__file__).parent / 'data' / 'Altitude.h5', 'r') as h:
            raw = h['Altitude'][:]
        step = 45 if ctx.thorough else 120
        rows = sorted(set(list(range(0, 2160, step)) + [1, 1079, 1080, 2158, 2159]))[part::4]
        cols = sorted(set(list(range(0, 4320, 2 * step)) + [1, 2159, 2160, 4318, 4319]))
        for r, c in itertools.product(rows, cols):
            v = int(raw[r, c])
            exp = 0. if v == 255 else v * 28. - 450.
            for dr, dc in ((.5, .5), (.02, .5), (.98, .5), (.5, .02), (.5, .98)):
                lat, lon = 90 - (r + dr) / 12, -180 + (c + dc) / 12
                ctx.state()
                got = lookup_altitude(lat, lon)
                ctx.expect(got == exp, 'altitude', lat=lat, lon=lon, got=got, want=exp)
            if r % 2:
                loc = Location(lat, lon)
                ctx.expect(loc.altitude == exp, 'altitude:location', lat=lat, lon=lon)
        if part == 0:
            for lat, lon, r, c in ((90, 0, 0, 2160), (-90., 0.01, 2159, 2160), (0.01, -180, 1079, 0), (.01, 180., 1079, 4319),
                                   (90., 180., 0, 4319), (-90, -180, 2159, 0)):
                v = int(raw[r, c])
                ctx.expect(lookup_altitude(lat, lon) == (0 if v == 255 else v * 28. - 450), 'altitude:edge', lat=lat, lon=lon)
            for lat, lon in ((90.1, 0), (-90.1, 0), (0, 180.1), (0, -180.1), (91, 0), (-400, 0), (0, 360), (nan, 0), (0, nan)):
                ctx.raises(ValueError, lambda: lookup_altitude(lat, lon), 'altitude:range', lat=lat, lon=lon)
                ctx.raises(ValueError, lambda: Location(lat, lon), 'altitude:range-location', lat=lat, lon=lon)
            for a in (0, 0., -400., 3000, 8848.5, nan):
                loc = Location(40., -105., altitude=a)
                ctx.expect(loc.altitude == a or (a != a and loc.altitude != loc.altitude), 'altitude:given', given=a, got=loc.altitude)
                # coordinates outside the map are fine when the altitude is given
                ctx.expect(Location(95., 200., altitude=5.).altitude == 5., 'altitude:given-outside')


for _i in range(4):
    _altitude(_i)

SITES = [(40.1, -105.2, 1830., 'America/Denver'), (-33.9, 151.2, 0., 'Australia/Sydney'), (0., 0., -50., 'UTC'), (69.6, 18.9, 2500, 2),
         (28.6, 77.2, 216., 'Asia/Kolkata')]
TIMES = {
    'site': lambda tz: pd.date_range('2024-06-20 04:00', periods=5, freq='4h', tz='Etc/GMT-2' if isinstance(tz, int) else tz),
    'utc': lambda tz: pd.date_range('2024-01-05 00:30', periods=5, freq='5h', tz='UTC'),
    'offset': lambda tz: pd.DatetimeIndex(['2024-03-20 10:00', '2024-12-31 23:00', '2024-02-29 06:00'], tz='Etc/GMT+9'),
    'one': lambda tz: pd.DatetimeIndex(['2024-09-10 11:00'], tz='UTC'),
}


def eq(ctx, got, exp, key, **d):
    same(ctx, got, exp, key, **d)


@case(CASES)
def sun(ctx):
    for (lat, lon, alt, tz), (tn, tf) in itertools.product(SITES, TIMES.items()):
        loc = Location(lat, lon, tz, alt)
        times = tf(tz)
        t0 = times.copy()
        for m, kw in itertools.product(('nrel_numpy', 'ephemeris', 'pyephem', None), ({}, {'pressure': 95000.}, {'temperature': -5.},
                                                                                   {'pressure': 80000., 'temperature': 30.})):
            ctx.state()
            k = dict(kw, method=m) if m else dict(kw)
            exp = quiet(solarposition.get_solarposition, times, lat, lon, altitude=alt, method=m or 'nrel_numpy',
                        pressure=kw.get('pressure', atmosphere.alt2pres(alt)), temperature=kw.get('temperature', 12))
            eq(ctx, quiet(loc.get_solarposition, times, **k), exp, 'sun', site=(lat, lon), times=tn, kw=str(k))
        ser = pd.Series(np.linspace(-10., 25., len(times)), index=times)
        for m in ('nrel_numpy', 'ephemeris'):
            eq(ctx, quiet(loc.get_solarposition, times, temperature=ser, method=m),
               quiet(solarposition.get_solarposition, times, lat, lon, altitude=alt, method=m, pressure=atmosphere.alt2pres(alt), temperature=ser),
               'sun:series')
        eq(ctx, quiet(loc.get_solarposition, times, delta_t=None), quiet(
            solarposition.get_solarposition, times, lat, lon, altitude=alt, pressure=atmosphere.alt2pres(alt), temperature=12, delta_t=None), 'sun:kw')
        for bad in ('', 'spa', 'NREL'):
            ctx.raises(ValueError, lambda: loc.get_solarposition(times, method=bad), 'sun:method')
        ctx.expect(times.equals(t0) and times.tz == t0.tz, 'sun:mutates')
        # later changes of the coordinates are used
        loc.latitude, loc.longitude, loc.altitude = lat / 2, lon / 2, alt + 100.
        eq(ctx, quiet(loc.get_solarposition, times), quiet(solarposition.get_solarposition, times, lat / 2, lon / 2, altitude=alt + 100.,
                                                           pressure=atmosphere.alt2pres(alt + 100.), temperature=12), 'sun:reassigned')


APPARENT = ('simple', 'kasten1966', 'kastenyoung1989', 'gueymard1993', 'pickering2002')
TRUE = ('youngirvine1967', 'young1994', 'gueymard2003')


@case(CASES)
def airmass(ctx):
    for (lat, lon, alt, tz), (tn, tf) in itertools.product(SITES, TIMES.items()):
        loc = Location(lat, lon, tz, alt)
        times = tf(tz)
        sp = quiet(loc.get_solarposition, times)
        mine = sp.copy()
        mine['apparent_zenith'] -= 3.
        mine['zenith'] -= 2.
        for m in [x for x in APPARENT + TRUE if x in atmosphere.APPARENT_ZENITH_MODELS + atmosphere.TRUE_ZENITH_MODELS] + [None]:
            for s in (None, mine):
                ctx.state()
                p = sp if s is None else s
                name = m or 'kastenyoung1989'
                z = p['apparent_zenith'] if name in APPARENT else p['zenith']
                rel = atmosphere.get_relative_airmass(z, name)
                exp = pd.DataFrame({'airmass_relative': rel, 'airmass_absolute': rel * atmosphere.alt2pres(alt) / 101325.}, index=times)
                kw = {'model': m} if m else {}
                keep = deepcopy(p)
                got = quiet(loc.get_airmass, times, **kw) if s is None else quiet(loc.get_airmass, solar_position=s, **kw)
                eq(ctx, got, exp, 'airmass', model=name, site=(lat, lon), times=tn)
                if s is not None:
                    eq(ctx, quiet(loc.get_airmass, times, s, **kw), exp, 'airmass:both')
                    ctx.expect(same_value(p, keep), 'airmass:mutates')
        for bad in ('', 'Simple', 'kasten', 'gueymard'):
            ctx.raises(ValueError, lambda: loc.get_airmass(times, model=bad), 'airmass:model', name=bad)


@case(CASES)
def clear(ctx):
    for (lat, lon, alt, tz), (tn, tf) in itertools.product(SITES, TIMES.items()):
        loc = Location(lat, lon, tz, alt)
        times = tf(tz)
        sp0 = quiet(loc.get_solarposition, times)
        mine = sp0.copy()
        mine['apparent_zenith'] -= 4.
        mine['apparent_elevation'] += 4.
        ex0 = irradiance.get_extra_radiation(times)
        for sp, ex, pr in itertools.product((None, mine), (None, 1400., ex0 * 1.01), (None, 70000.)):
            s = sp
            if s is None:
                s = quiet(loc.get_solarposition, times) if pr is None else quiet(loc.get_solarposition, times, pressure=pr)
            e = ex0 if ex is None else ex
            common = {k: v for k, v in dict(solar_position=sp, dni_extra=ex, pressure=pr).items() if v is not None}
            keep = deepcopy(common)
            ctx.state()
            d = dict(site=(lat, lon), times=tn, given=str(sorted(common)))
            eq(ctx, quiet(loc.get_clearsky, times, model='haurwitz', **common), quiet(clearsky.haurwitz, s['apparent_zenith']), 'clear:haurwitz', **d)
            for kw in ({}, {'aod700': .3, 'precipitable_water': 2.}):
                eq(ctx, quiet(loc.get_clearsky, times, model='simplified_solis', **common, **kw),
                   quiet(clearsky.simplified_solis, s['apparent_elevation'], pressure=pr if pr is not None else atmosphere.alt2pres(alt), dni_extra=e, **kw),
                   'clear:solis', kw=str(kw), **d)
            for kw in ({'linke_turbidity': 3.}, {'linke_turbidity': pd.Series(np.linspace(2., 6., len(times)), index=times), 'perez_enhancement': True},
                       {'linke_turbidity': 4., 'airmass_absolute': 1.7}):
                am = kw.get('airmass_absolute')
                if am is None:
                    am = atmosphere.get_relative_airmass(s['apparent_zenith']) * atmosphere.alt2pres(alt) / 101325.
                exp = quiet(clearsky.ineichen, s['apparent_zenith'], am, kw['linke_turbidity'], altitude=alt, dni_extra=e,
                            **({'perez_enhancement': True} if 'perez_enhancement' in kw else {}))
                eq(ctx, quiet(loc.get_clearsky, times, **common, **kw), exp, 'clear:ineichen', kw=str(sorted(kw)), **d)
                eq(ctx, quiet(loc.get_clearsky, times, model='ineichen', **common, **kw), exp, 'clear:ineichen', kw=str(sorted(kw)), **d)
            ctx.expect(same_value(common, keep), 'clear:mutates', **d)
        for bad in ('', 'Ineichen', 'bird', 'solis'):
            ctx.raises(ValueError, lambda: loc.get_clearsky(times, model=bad), 'clear:model', name=bad)


@case(CASES)
def events(ctx):
    for (lat, lon, alt, tz), (tn, tf) in itertools.product([s for s in SITES if abs(s[0]) < 60], TIMES.items()):
        if tn in ('utc', 'one') and abs(lon) > 90:
            pass
        loc = Location(lat, lon, tz, alt)
        times = tf(tz)
        ctx.state()
        for m in (None, 'spa'):
            for kw in ({}, {'delta_t': None}, {'how': 'numpy'}):
                eqt(ctx, quiet(loc.get_sun_rise_set_transit, times, **dict(kw, **({'method': m} if m else {}))),
                    quiet(solarposition.sun_rise_set_transit_spa, times, lat, lon, **kw), 'events:spa')
        for kw in ({}, {'next_or_previous': 'previous'}, {'horizon': '-0:34'}):
            eqt(ctx, quiet(loc.get_sun_rise_set_transit, times, method='pyephem', **kw),
                quiet(solarposition.sun_rise_set_transit_ephem, times, lat, lon, **kw), 'events:ephem')
        dec = pd.Series(np.radians(solarposition.declination_spencer71(times.dayofyear) * 180 / np.pi), index=times)
        eot = pd.Series(solarposition.equation_of_time_spencer71(times.dayofyear), index=times)
        r = quiet(solarposition.sun_rise_set_transit_geometric, times, lat, lon, declination=dec.values, equation_of_time=eot.values)
        exp = pd.DataFrame(dict(zip(('sunrise', 'sunset', 'transit'), r)), index=times)
        eqt(ctx, quiet(loc.get_sun_rise_set_transit, times, method='geometric', declination=dec.values, equation_of_time=eot.values), exp, 'events:geometric')
        for bad in ('', 'SPA', 'ephem'):
            ctx.raises(ValueError, lambda: loc.get_sun_rise_set_transit(times, method=bad), 'events:method', name=bad)


def eqt(ctx, got, exp, key):
    ctx.expect(isinstance(got, pd.DataFrame) and list(got.columns) == list(exp.columns) and got.index.equals(exp.index), key + ':frame')
    for c in exp:
        a, b = pd.DatetimeIndex(got[c]), pd.DatetimeIndex(exp[c])
        ctx.expect(a.equals(b) and str(a.tz) == str(b.tz), key, column=c, got=str(list(a))[:120], want=str(list(b))[:120])


@case(CASES)
def metadata(ctx):
    """from_tmy / from_epw: signs, zones and altitudes of the metadata."""
    data = pd.DataFrame({'ghi': [1., 2.]})
    for lat, lon, tz, alt in itertools.product((-45.5, 0., 33.), (-110.25, 0., 150.), (-8, -8.0, 0, 0.0, 10, 'US/Pacific'), (-20., 0, 0., 1650.)):
        want = tz if isinstance(tz, str) else ('Etc/GMT%+d' % -int(tz))
        m3 = {'latitude': lat, 'longitude': lon, 'TZ': tz, 'altitude': alt, 'Name': '"AN AIRPORT"', 'USAF': 703165, 'State': 'AK'}
        m2 = {'latitude': lat, 'longitude': lon, 'TZ': tz, 'altitude': alt, 'City': 'MIAMI', 'WBAN': '12839', 'State': 'FL'}
        ep = {'latitude': lat, 'longitude': lon, 'TZ': tz, 'altitude': alt, 'city': 'Somewhere', 'country': 'X', 'loc': 'LOCATION'}
        for m, f, name in ((m3, Location.from_tmy, m3['Name']), (m2, Location.from_tmy, 'MIAMI'), (ep, Location.from_epw, 'Somewhere')):
            for dd in (None, data):
                keep = dict(m)
                ctx.state()
                loc = f(m) if dd is None else f(m, dd)
                d = dict(meta=str(keep))
                ctx.expect((loc.latitude, loc.longitude, loc.altitude, loc.name) == (lat, lon, alt, name), 'metadata', got=repr(loc), **d)
                check_zone(ctx, loc, loc.tz if tz == 0 and not isinstance(tz, str) else want, 'metadata', **d)
                if tz == 0:
                    ctx.expect(set(offs(zoneinfo.ZoneInfo(loc.tz))) == {datetime.timedelta(0)}, 'metadata:zero')
                ctx.expect(m == keep, 'metadata:mutates', **d)
                if dd is not None:
                    ctx.expect(loc.weather is dd, 'metadata:weather')
                    if f == Location.from_tmy:
                        ctx.expect(loc.tmy_data is dd, 'metadata:tmy_data')
    for f, m in ((Location.from_tmy, m3), (Location.from_tmy, m2), (Location.from_epw, ep)):
        for k in ('latitude', 'longitude', 'TZ', 'altitude'):
            bad = {a: b for a, b in m.items() if a != k}
            ctx.raises(KeyError, lambda: f(bad), 'metadata:missing', missing=k)
        ctx.raises((TypeError, ValueError), lambda: f(dict(m, TZ=5.5)), 'metadata:fraction')
    for lat, lon, alt, name in itertools.product((-45.5, 0., 90), (-180, 0., 12.), (0, 5.5), (None, 'n')):
        loc = Location(lat, lon, altitude=alt, name=name)
        ctx.expect(repr(loc).split() == f'Location: name: {name} latitude: {lat} longitude: {lon} altitude: {alt} tz: UTC'.split(), 'repr', got=repr(loc))
