"""Every weather-service client runs against a scripted network that ends at the
transport (requests adapter, urllib opener, ftplib), with virtual time.  Per
client two spaces are enumerated: (1) the lattice of arguments, where the
request on the wire (method, address, every query/body field, credentials,
time-out) must be exactly the one the documentation describes and the answer
must come back completely, correctly stamped, named and scaled; (2) all answer
sequences up to a bound over an alphabet of good answers, documented refusals,
undocumented refusals, server errors, malformed and empty bodies, missing
files, pending jobs, lost connections and time-outs, where the client must
return the data it was given, raise, or warn as documented."""
import datetime as D
import gzip
import io
import itertools
import json
import math
import os
import urllib.error
import warnings
import zipfile

import numpy as np
import pandas as pd
import requests

from pvlib import iotools
from pvlib.iotools import (era5 as m_era5, solaranywhere as m_sa)
from mc.core import case
from mc.net import Net, Answer, run, script, site
from mc.checks import I01
from mc.checks.I01 import UTC, fixed, check, meta_check, Scratch, same

CASES = []
NAN = float('nan')
HTML = '<html><head><title>Error</title></head><body>sorry</body></html>'

# answers no client may turn into data
LOST = [requests.exceptions.ConnectionError('lost'),
        requests.exceptions.ReadTimeout('slow'),
        requests.exceptions.ConnectTimeout('never')]
REFUSALS = [Answer(500, HTML), Answer(502, ''), Answer(404, HTML),
            Answer(401, {'detail': 'no'}), Answer(503, '[]'),
            Answer(429, {'error': {'code': 'RATE', 'message': 'later'}})]
GARBAGE = [Answer(200, ''), Answer(200, HTML), Answer(200, '{'),
           Answer(200, '{}'), Answer(200, '[]'), Answer(200, 'null')]


def name_of(a):
    if isinstance(a, Answer):
        return f'{a.status} {a.body[:25]!r}'
    return type(a).__name__


def must_raise(ctx, out, tag, exc=None, text=None):
    ctx.step()
    if out.ok:
        ctx.fail('bad answer passed off as data', f'{tag}: returned '
                                                  f'{str(out.value)[:120]}')
        return
    if not isinstance(out.error, Exception):
        ctx.fail('client keeps asking', f'{tag}: {len(out.log)} requests')
        return
    if exc is not None:
        ctx.expect(isinstance(out.error, exc), 'documented exception',
                   f'{tag}: {type(out.error).__name__} {out.error}')
    if text is not None:
        ctx.expect(text in str(out.error), 'server message reported',
                   f'{tag}: {str(out.error)[:150]!r} lacks {text!r}')


def must_return(ctx, out, tag, n=None):
    ctx.step()
    if not out.ok:
        ctx.fail('good answer refused', f'{tag}: {type(out.error).__name__} '
                                        f'{str(out.error)[:200]}')
        return False
    if n is not None and len(out.log) != n:
        ctx.fail('number of requests', f'{tag}: {len(out.log)} not {n}')
        return False
    return True


def eq_text(g, e):
    if str(g) == str(e):
        return True
    try:
        return float(g) == float(e) and not isinstance(e, str)
    except (TypeError, ValueError):
        return False


def wire(ctx, req, tag, method='GET', base=None, query=None, headers=None,
         body=None, timeout='any'):
    ctx.step()
    ctx.expect(req.method == method, 'request method',
               f'{tag}: {req.method}')
    if base is not None:
        ctx.expect(req.base == base, 'request address',
                   f'{tag}: {req.base} expected {base}')
    if query is not None:
        got = req.query
        ctx.expect(len(req.pairs) == len(got), 'request fields',
                   f'{tag}: repeated fields {req.pairs}')
        exp = {k: v for k, v in query.items() if v is not None}
        ctx.expect(set(got) == set(exp), 'request fields',
                   f'{tag}: missing {set(exp) - set(got)}, '
                   f'extra {set(got) - set(exp)}')
        for k in set(got) & set(exp):
            ctx.expect(eq_text(got[k], exp[k]), 'request field value',
                       f'{tag}: {k}={got[k]!r} expected {exp[k]!r}')
    for k, v in (headers or {}).items():
        ctx.expect(req.headers.get(k) == v, 'request header',
                   f'{tag}: {k}: {req.headers.get(k)!r} expected {v!r}')
    if body is not None:
        try:
            got = req.json
        except Exception as e:
            ctx.fail('request body', f'{tag}: {req.body!r} {e}')
            return
        ctx.expect(got == body, 'request body',
                   f'{tag}: {got} expected {body}')
    if timeout != 'any':
        ctx.expect(req.timeout == timeout, 'time-out honoured',
                   f'{tag}: {req.timeout} expected {timeout}')


def faults(ctx, call, tag, documented=(), modules=(), prefix=(),
           garbage=GARBAGE):
    """Every bad answer as the (len(prefix)+1)-th one."""
    for a in list(LOST) + list(REFUSALS) + list(garbage):
        ctx.state()
        out = run(Net(script(list(prefix) + [a] * (1 if not prefix else 1)),
                      modules=modules), call)
        must_raise(ctx, out, f'{tag} after {len(prefix)}: {name_of(a)}')
        if isinstance(a, requests.exceptions.RequestException) and \
                not out.ok:
            ctx.expect(isinstance(out.error, (requests.RequestException,
                                              OSError)),
                       'lost connection reported as such',
                       f'{tag}: {type(out.error).__name__}')
    for a, exc, text in documented:
        ctx.state()
        out = run(Net(script(list(prefix) + [a]), modules=modules), call)
        must_raise(ctx, out, f'{tag}: {name_of(a)}', exc, text)


# --------------------------------------------------------------------- PSM4
PSM_URL = 'https://developer.nlr.gov/api/nsrdb/v2/solar/'
PSM_FUNCS = {
    'get_nsrdb_psm4_aggregated': ('nsrdb-GOES-aggregated-v4-0-0-download.csv',
                                  True, False),
    'get_nsrdb_psm4_tmy': ('nsrdb-GOES-tmy-v4-0-0-download.csv', False, True),
    'get_nsrdb_psm4_conus': ('nsrdb-GOES-conus-v4-0-0-download.csv', True,
                             False),
    'get_nsrdb_psm4_full_disc': ('nsrdb-GOES-full-disc-v4-0-0-download.csv',
                                 True, False),
    'get_nsrdb_psm4_polar': ('nsrdb-polar-v4-0-0-download.csv', True, False),
    'get_nsrdb_psm4_polar_tmy': ('nsrdb-polar-tmy-v4-0-0-download.csv', False,
                                 True)}
PSM_DEFAULT = ['air_temperature', 'dew_point', 'dhi', 'dni', 'ghi',
               'surface_albedo', 'surface_pressure', 'wind_direction',
               'wind_speed']
PSM_REQ = {'ghi': 'ghi', 'dhi': 'dhi', 'dni': 'dni',
           'ghi_clear': 'clearsky_ghi', 'dhi_clear': 'clearsky_dhi',
           'dni_clear': 'clearsky_dni', 'solar_zenith': 'solar_zenith_angle',
           'temp_air': 'air_temperature', 'temp_dew': 'dew_point',
           'relative_humidity': 'relative_humidity',
           'pressure': 'surface_pressure', 'wind_speed': 'wind_speed',
           'wind_direction': 'wind_direction', 'albedo': 'surface_albedo',
           'precipitable_water': 'total_precipitable_water', 'aod': 'aod'}


def psm_text(cols0, start, step, tz, lat, lon, el, n=3):
    stamps = [start + D.timedelta(minutes=step * k) for k in range(n)]
    table = [[(i * 31 + j * 17) % 400 + 0.25 * (c != 'Cloud Type')
              for j, c in enumerate(cols0)] for i in range(n)]
    head = ['Year', 'Month', 'Day', 'Hour', 'Minute'] + cols0
    lead = [[t.year, t.month, t.day, t.hour, t.minute] for t in stamps]
    lines = ['Source,Location ID,Latitude,Longitude,Time Zone,Elevation,'
             'Local Time Zone', f'NSRDB,1,{lat},{lon},{tz},{el},{tz}',
             ','.join(head)]
    lines += [','.join(str(x) for x in a + b) for a, b in zip(lead, table)]
    return '\n'.join(lines) + '\n', stamps, head, lead, table


def psm_expect(ctx, out, tag, texts, mv, tz):
    text, stamps, head, lead, table = texts
    cols = [(h, [r[j] for r in lead]) for j, h in enumerate(head[:5])]
    cols += [(I01.PSM_MAP.get(c, c) if mv else c, [r[j] for r in table])
             for j, c in enumerate(head[5:])]
    check(ctx, out.value[0], [t.replace(tzinfo=fixed(tz)) for t in stamps],
          cols, tag, offset=tz)


@case(CASES, name='psm4: requests and answers')
def c_psm4(ctx):
    coords = [(40.53, -108.54), (-33.123456, 151.2), (0, 0), (89.99996, -180),
              (-0.00004, 5.00005)]
    params = [None, list(PSM_REQ), PSM_DEFAULT[::-1],
              ['ghi', 'cloud_type', 'temp_air', 'clearsky_ghi'], ('dni',)]
    texts = psm_text(['GHI', 'Temperature', 'Cloud Type'],
                     D.datetime(2020, 2, 28, 23, 30), 30, -7, 40.5, -108.5,
                     2000)
    for fname, (endpoint, leap0, tmy) in PSM_FUNCS.items():
        fn = getattr(iotools, fname)
        years = ['tmy', 'tmy-2023', 'tdy-2022'] if tmy else [2023, '2016']
        lat = list(itertools.product(coords, params, (None, False, True),
                                     (None, False, True), ('def',), ('def',),
                                     ('def',), (True,)))
        lat += list(itertools.product(
            coords[:1], params[:1], (None,), (None,), (5, 30, 60),
            ('def', 'https://h.test/x.csv'), ('def', 5), (True, False)))
        if ctx.thorough:
            lat = list(itertools.product(
                coords, params, (None, False, True), (None, False, True),
                ('def', 5, 30), ('def', 'https://h.test/x.csv'), ('def', 7),
                (True, False)))
        for i, ((la, lo), par, leap, utc, step, url, timeout, mv) in \
                enumerate(lat):
            year = years[i % len(years)]
            ctx.state()
            kw = {}
            if par is not None:
                kw['parameters'] = par
            if leap is not None:
                kw['leap_day'] = leap
            if utc is not None:
                kw['utc'] = utc
            if step != 'def':
                kw['time_step'] = step
            if url != 'def':
                kw['url'] = url
            if timeout != 'def':
                kw['timeout'] = timeout
            if not mv:
                kw['map_variables'] = False
            named = i % 3
            if named == 1:
                kw['full_name'] = 'A B'
            if named == 2:
                kw['affiliation'] = 'C & D'
            if not (tmy and year == 'tmy'):
                kw['year'] = year
            tag = f'{fname} {la},{lo} {kw}'
            out = run(Net(script([Answer(200, texts[0])])), fn, la, lo,
                      'KEY/1+', 'me@x.org', **kw)
            if not must_return(ctx, out, tag, 1):
                continue
            q = out.log[0].query
            try:
                x, y = q.get('wkt', '').replace('POINT(', '').replace(
                    ')', '').split(' ')
                ok = abs(float(x) - lo) <= 0.5001e-4 and \
                    abs(float(y) - la) <= 0.5001e-4 and \
                    q['wkt'].startswith('POINT(')
            except ValueError:
                ok = False
            ctx.expect(ok, 'request coordinates',
                       f'{tag}: {q.get("wkt")!r}')
            wire(ctx, out.log[0], tag, 'GET',
                 url if url != 'def' else PSM_URL + endpoint, {
                     'api_key': 'KEY/1+', 'email': 'me@x.org',
                     'full_name': kw.get('full_name', 'pvlib python'),
                     'affiliation': kw.get('affiliation', 'pvlib python'),
                     'reason': 'pvlib python', 'mailing_list': 'false',
                     'wkt': q.get('wkt', ''), 'names': str(year),
                     'attributes': ','.join(PSM_REQ.get(p, p) for p in
                                            (par or PSM_DEFAULT)),
                     'leap_day': str(leap0 if leap is None else leap).lower(),
                     'utc': str(bool(utc)).lower(),
                     'interval': 60 if step == 'def' else step},
                 timeout=30 if timeout == 'def' else timeout)
            psm_expect(ctx, out, tag, texts, mv, -7)
            want = {'latitude': 40.5, 'longitude': -108.5,
                    'altitude': 2000} if mv else {
                'Latitude': 40.5, 'Longitude': -108.5, 'Elevation': 2000}
            meta_check(ctx, out.value[1], want, tag)

        def call(fn=fn, tmy=tmy):
            return fn(40, -105, 'K', 'e@x.y', year='tmy' if tmy else 2020)
        H = requests.HTTPError
        faults(ctx, call, fname, [
            (Answer(400, {'errors': ['bad wkt', 'bad year']}), H, 'bad wkt'),
            (Answer(422, {'errors': ['bad wkt', 'bad year']}), H, 'bad year'),
            (Answer(403, 'API_KEY_INVALID'), H, 'API_KEY_INVALID'),
            (Answer(429, {'error': {'code': 'OVER_RATE_LIMIT',
                                    'message': 'slow down'}}), H,
             'OVER_RATE_LIMIT'),
            (Answer(500, HTML), H, 'sorry'), (Answer(502, ''), H, None)])
        # error text that comes as UTF-8
        faults(ctx, call, fname, [(Answer(403, 'clé refusée'), H,
                                   'clé refusée')], garbage=[])


# -------------------------------------------------------------------- PVGIS
PV = 'https://re.jrc.ec.europa.eu/api/'


def pv_base(ctx, req, endpoint, url, tag):
    if url is not None:
        ctx.expect(req.base == url + endpoint, 'request address',
                   f'{tag}: {req.base}')
    else:
        ctx.expect(req.base.startswith(PV) and
                   req.base.endswith('/' + endpoint), 'request address',
                   f'{tag}: {req.base}')


def pvgis_hourly_answer(cols0=('Gb(i)', 'Gd(i)', 'Gr(i)', 'H_sun', 'T2m',
                               'WS10m', 'Int')):
    stamps, table = I01.pvgis_hourly(D.datetime(2016, 2, 28, 22, 10), 5,
                                     cols0)
    src = {'inputs': {'location': {'latitude': 45.0, 'longitude': 8.0,
                                   'elevation': 250.0}},
           'outputs': {'hourly': [
               dict([('time', t.strftime('%Y%m%d:%H%M'))]
                    + [(c, float(v)) for c, v in zip(cols0, r)])
               for t, r in zip(stamps, table)]},
           'meta': {'inputs': {}, 'outputs': {}}}
    ctext = '\n'.join(
        ['Latitude (decimal degrees):\t45.000',
         'Longitude (decimal degrees):\t8.000', 'Elevation (m):\t250',
         'Radiation database:\tPVGIS-SARAH', '', '',
         ','.join(('time',) + cols0)]
        + [','.join([t.strftime('%Y%m%d:%H%M')] + [str(float(v)) for v in r])
           for t, r in zip(stamps, table)]
        + ['', 'G(i): Global irradiance (W/m2)', ''])
    return json.dumps(src), ctext, stamps, table, cols0


@case(CASES, name='pvgis hourly: requests and answers')
def c_pvgis_hourly(ctx):
    jtext, ctext, stamps, table, cols0 = pvgis_hourly_answer()
    years = [(None, None), (2005, 2016), ('2013-01-01', '2014-12-31'),
             (pd.Timestamp('2007-12-31 23:59'), D.datetime(2008, 1, 1)),
             (2010, None), (None, pd.Timestamp('2011-06-01', tz='UTC')),
             ('2012', D.date(2013, 5, 5))]
    year_of = [(None, None), (2005, 2016), (2013, 2014), (2007, 2008),
               (2010, None), (None, 2011), (2012, 2013)]
    dims = {
        'loc': [(45.0, 8.0), (-33.9, -70.6), (0, 0)],
        'years': range(len(years)),
        'raddatabase': [None, 'PVGIS-SARAH3'],
        'components': [True, False],
        'tilt': [0, 35.5, 90],
        'az': [180, 0, 90, 270, 360, 165.5],
        'outputformat': ['json', 'csv'],
        'usehorizon': [True, False],
        'userhorizon': [None, [10, 20.5, 30, 15], (0, 1, 2)],
        'pvcalculation': [False, True],
        'peakpower': [None, 1.5],
        'pvtechchoice': ['crystSi', 'CIS'],
        'mountingplace': ['free', 'building'],
        'loss': [0, 14.5], 'trackingtype': [0, 1, 5],
        'optimal_surface_tilt': [False, True], 'optimalangles': [False, True],
        'url': [None, 'https://pv.test/v9/'], 'timeout': [None, 3],
        'map': [True, False]}
    keys = list(dims)
    base = {k: list(v)[0] for k, v in dims.items()}
    pts = [base]
    for a, b in itertools.combinations(keys, 2):
        for x, y in itertools.product(list(dims[a])[1:], list(dims[b])[1:]):
            p = dict(base)
            p[a], p[b] = x, y
            pts.append(p)
    for a in keys:
        for x in list(dims[a])[1:]:
            pts.append(dict(base, **{a: x}))
    if ctx.thorough:
        for trio in itertools.combinations(keys, 3):
            for vals in itertools.product(*[list(dims[a])[1:] for a in trio]):
                pts.append(dict(base, **dict(zip(trio, vals))))
    for i, p in enumerate(pts):
        ctx.state()
        kw = {}
        s, e = years[p['years']]
        if s is not None:
            kw['start'] = s
        if e is not None:
            kw['end'] = e
        if p['tilt'] != 0:
            kw['surface_tilt'] = p['tilt']
        if p['az'] != 180:
            kw['surface_azimuth'] = p['az']
        for k in keys:
            if k in ('loc', 'years', 'tilt', 'az', 'map'):
                continue
            if p[k] != base[k]:
                kw[k] = p[k]
        if not p['map']:
            kw['map_variables'] = False
        tag = f'pvgis hourly {p["loc"]} {kw}'
        text = jtext if p['outputformat'] == 'json' else ctext
        out = run(Net(script([Answer(200, text)])), iotools.get_pvgis_hourly,
                  *p['loc'], **kw)
        if not must_return(ctx, out, tag, 1):
            continue
        pv_base(ctx, out.log[0], 'seriescalc', p['url'], tag)
        sy, ey = year_of[p['years']]
        q = {'lat': p['loc'][0], 'lon': p['loc'][1],
             'outputformat': p['outputformat'], 'angle': p['tilt'],
             'aspect': p['az'] - 180, 'pvcalculation': int(
                 p['pvcalculation']), 'pvtechchoice': p['pvtechchoice'],
             'mountingplace': p['mountingplace'],
             'trackingtype': p['trackingtype'],
             'components': int(p['components']),
             'usehorizon': int(p['usehorizon']),
             'optimalangles': int(p['optimalangles']),
             'optimalinclination': int(p['optimal_surface_tilt']),
             'loss': p['loss'], 'raddatabase': p['raddatabase'],
             'startyear': sy, 'endyear': ey, 'peakpower': p['peakpower'],
             'userhorizon': None if p['userhorizon'] is None else
             ','.join(str(x) for x in p['userhorizon'])}
        wire(ctx, out.log[0], tag, query=q,
             timeout=30 if p['timeout'] is None else p['timeout'])
        if i % 5 == 0 or len(kw) < 2:
            cols = [(I01.PVGIS_MAP.get(c, c) if p['map'] else c,
                     [r[j] for r in table]) for j, c in enumerate(cols0)]
            check(ctx, out.value[0], [t.replace(tzinfo=UTC) for t in stamps],
                  cols, tag, offset=0)
    H = requests.HTTPError
    for fmt in ('json', 'csv'):
        faults(ctx, lambda: iotools.get_pvgis_hourly(45, 8,
                                                     outputformat=fmt),
               f'pvgis hourly {fmt}', [
            (Answer(400, {'message': 'bad lat', 'status': 400}), H,
             'bad lat'), (Answer(429, {'status': 429}), H, '429'),
            (Answer(500, HTML), H, '500'), (Answer(503, '[]'), H, '503'),
            (Answer(404, {'message': 'no route'}), H, 'no route')])
    out = run(Net(script([Answer(200, 'x')])), iotools.get_pvgis_hourly, 45,
              8, outputformat='basic')
    must_raise(ctx, out, 'pvgis hourly basic')


@case(CASES, name='pvgis tmy: requests, rolling, answers')
def c_pvgis_tmy(ctx):
    years = [2018, 2007, 2009, 2013, 2008, 2006, 2011, 2010, 2020, 2006, 2007,
             2016]
    stamps, table = I01.pvgis_tmy(years)
    jtext, ctext, etext = I01.pvgis_tmy_texts(stamps, table, years)
    one = [dict()]
    lat = []
    for uh, us, sy, ey, url, to in itertools.product(
            (True, False), (None, [1, 2.5, 3]), (None, 2005), (None, 2015),
            (None, 'https://pv.test/v9/'), (None, 3)):
        kw = {}
        if not uh:
            kw['usehorizon'] = False
        if us:
            kw['userhorizon'] = us
        if sy:
            kw['startyear'] = sy
        if ey:
            kw['endyear'] = ey
        if url:
            kw['url'] = url
        if to:
            kw['timeout'] = to
        lat.append(kw)
    short = json.loads(jtext)
    # requests only: cheap refusals are enough to see the request
    for kw in lat:
        for fmt, (la, lo) in itertools.product(('json', 'csv', 'epw'), (
                (45.0, 8.0), (-33.9, -70.6))):
            ctx.state()
            out = run(Net(script([Answer(400, {'message': 'stop here'})])),
                      iotools.get_pvgis_tmy, la, lo, outputformat=fmt, **kw)
            tag = f'pvgis tmy {fmt} {kw}'
            must_raise(ctx, out, tag, requests.HTTPError, 'stop here')
            if len(out.log) != 1:
                ctx.fail('number of requests', tag)
                continue
            pv_base(ctx, out.log[0], 'tmy', kw.get('url'), tag)
            q = {'lat': la, 'lon': lo, 'outputformat': fmt,
                 'startyear': kw.get('startyear'),
                 'endyear': kw.get('endyear'),
                 'userhorizon': '1,2.5,3' if 'userhorizon' in kw else None}
            got = dict(out.log[0].query)
            # the service's default is to use the horizon
            uh = got.pop('usehorizon', '1')
            ctx.expect(uh == ('0' if 'usehorizon' in kw else '1'),
                       'request field value', f'{tag}: usehorizon={uh}')
            out.log[0].query = got
            out.log[0].pairs = list(got.items())
            wire(ctx, out.log[0], tag, query=q, timeout=kw.get('timeout', 30))
    H = requests.HTTPError
    for fmt in ('json', 'csv', 'epw'):
        faults(ctx, lambda: iotools.get_pvgis_tmy(45, 8, outputformat=fmt),
               f'pvgis tmy {fmt}', [
            (Answer(400, {'message': 'bad lat', 'status': 400}), H,
             'bad lat'), (Answer(429, {'status': 429}), H, '429'),
            (Answer(500, HTML), H, '500')])
    for fmt in ('basic', 'xml'):
        out = run(Net(script([Answer(200, jtext)])), iotools.get_pvgis_tmy,
                  45, 8, outputformat=fmt)
        must_raise(ctx, out, f'pvgis tmy {fmt}',
                   ValueError if fmt == 'basic' else None)
    # rolling and coercing: 'def' = argument not given
    grid = [(r, c) for r in (None, 0, 1, 5, 12, -1, -8, -11)
            for c in ('def', None, 2001, 1988)]
    if ctx.thorough:
        grid = [(r, c) for r in [None] + list(range(-12, 15))
                for c in ('def', None, 2001, 1988, 1900)]
    texts = {'json': jtext, 'csv': ctext, 'epw': etext}
    for i, (roll, coerce) in enumerate(grid):
        for fmt in (('json', 'csv', 'epw') if ctx.thorough else
                    (('json', 'csv', 'epw')[i % 3],)):
            mv = (i + len(fmt)) % 4 != 0
            ctx.state()
            kw = {'outputformat': fmt}
            if roll is not None:
                kw['roll_utc_offset'] = roll
            if coerce != 'def':
                kw['coerce_year'] = coerce
            if not mv:
                kw['map_variables'] = False
            tag = f'pvgis tmy {kw}'
            out = run(Net(script([Answer(200, texts[fmt])])),
                      iotools.get_pvgis_tmy, 45, 8, **kw)
            if not must_return(ctx, out, tag, 1):
                continue
            year = 1990 if coerce == 'def' else coerce
            off = roll or 0
            if roll is not None and year is None:
                year = 1990
            n = len(stamps)
            if year is None:
                exp = [t.replace(tzinfo=UTC) for t in stamps]
            else:
                exp = [t.replace(year=year, tzinfo=fixed(off))
                       for t in stamps]
            rows = [table[(k - off) % n] for k in range(n)]
            if fmt == 'epw':
                cols = [('temp_air', [r[0] for r in rows]),
                        ('ghi', [r[2] for r in rows]),
                        ('wind_speed', [r[6] for r in rows])]
            else:
                cols = [(I01.PVGIS_MAP.get(c, c) if mv else c,
                         [r[j] for r in rows])
                        for j, c in enumerate(I01.PVGIS_TMY)]
            check(ctx, out.value[0], exp, cols, tag, only=fmt != 'epw',
                  offset=off)
            if fmt == 'json':
                ctx.expect(out.value[1].get('months_selected') == [
                    {'month': k + 1, 'year': y}
                    for k, y in enumerate(years)], 'metadata', tag)


@case(CASES, name='pvgis horizon: requests and answers')
def c_pvgis_horizon(ctx):
    H = requests.HTTPError
    for step, (la, lo), kw in itertools.product(
            (7.5, 30, 90, 180), ((45.0, 8.0), (-33.9, -70.6)),
            ({}, {'timeout': 4}, {'url': 'https://pv.test/v9/'})):
        ctx.state()
        az = [-180 + step * k for k in range(int(360 / step) + 1)]
        el = [round((k * 37) % 100 / 10, 1) for k in range(len(az) - 1)]
        el.append(el[0])
        body = {'inputs': {'location': {'latitude': la}},
                'outputs': {'horizon_profile': [
                    {'A': float(a), 'H_hor': e} for a, e in zip(az, el)],
                    'winter_solstice': [], 'summer_solstice': []},
                'meta': {'inputs': {'x': 1}, 'outputs': {}}}
        out = run(Net(script([Answer(200, body)])),
                  iotools.get_pvgis_horizon, la, lo, **kw)
        tag = f'pvgis horizon step={step} {kw}'
        if not must_return(ctx, out, tag, 1):
            continue
        pv_base(ctx, out.log[0], 'printhorizon', kw.get('url'), tag)
        wire(ctx, out.log[0], tag, query={'lat': la, 'lon': lo,
                                          'outputformat': 'json'},
             timeout=kw['timeout'] if 'timeout' in kw else 'any')
        ser, meta = out.value
        ctx.expect(isinstance(ser, pd.Series) and
                   list(ser.index) == [a + 180 for a in az[:-1]] and
                   list(ser) == el[:-1] and
                   ser.name == 'horizon_elevation' and
                   ser.index.name == 'horizon_azimuth', 'horizon profile',
                   f'{tag}: {ser}')
        ctx.expect(meta == body['meta'], 'metadata', tag)
    faults(ctx, lambda: iotools.get_pvgis_horizon(45, 8), 'pvgis horizon', [
        (Answer(400, {'message': 'bad lat', 'status': 400}), H, 'bad lat'),
        (Answer(429, {'status': 429}), H, '429'),
        (Answer(500, HTML), H, '500')])


# --------------------------------------------------------------------- CAMS
CAMS_ISO = {'1min': 'PT01M', '15min': 'PT15M', '1h': 'PT01H', '1d': 'P01D',
            '1M': 'P01M'}


@case(CASES, name='cams: requests and answers')
def c_cams(ctx):
    spans = [('2020-06-01', '2020-06-02', '2020-06-01', '2020-06-02'),
             (pd.Timestamp('2019-12-31 23:00'), D.datetime(2020, 1, 1),
              '2019-12-31', '2020-01-01'),
             (D.date(2020, 2, 29), pd.Timestamp('2020-03-01', tz='UTC'),
              '2020-02-29', '2020-03-01')]
    for step, ident, alt, ref, verbose, (s, e, ss, es), label in \
            itertools.product(
                CAMS_ISO, ('def', 'mcclear', 'cams_radiation'),
                (None, 0, 12.5), ('UT', 'TST'), (False, True), spans,
                ctx.pick((None,), (None, 'left', 'right'))):
        ctx.state()
        start = D.datetime(2020, 6, 1)
        edges = I01.cams_edges(step, start, 3)
        cols0 = I01.CAMS_COLS[0 if ident != 'cams_radiation' else 1]
        table = [[round((i * 131 + j * 37) % 9000 / 7, 4)
                  for j in range(len(cols0))] for i in range(3)]
        text = I01.cams_text(step, edges, cols0, table, 55.7, 12.5, 39.0)
        mv = not (ref == 'TST')
        integ = alt == 0
        kw = {}
        if ident != 'def':
            kw['identifier'] = ident
        if alt is not None:
            kw['altitude'] = alt
        if step != '1h':
            kw['time_step'] = step
        if ref != 'UT':
            kw['time_ref'] = ref
        if verbose:
            kw['verbose'] = True
        if not mv:
            kw['map_variables'] = False
        if integ:
            kw['integrated'] = True
        if label:
            kw['label'] = label
        if alt == 12.5:
            kw['url'] = 'cams.test'
            kw['timeout'] = 9
        tag = f'cams {step} {s} {kw}'
        out = run(Net(script([Answer(200, text)])), iotools.get_cams, 55.7,
                  -12.5, s, e, 'a.b@x.org', **kw)
        if not must_return(ctx, out, tag, 1):
            continue
        req = out.log[0]
        ctx.expect('DataInputs=' in req.rawquery, 'request fields', tag)
        raw = req.rawquery.split('DataInputs=')[-1].split('&')[0]
        raw = raw.replace('%3B', ';').replace('%3D', '=')
        pairs = [x.split('=', 1) for x in raw.split(';')]
        got = dict(x if len(x) == 2 else (x[0], '') for x in pairs)
        okv = verbose and step == '1min' and ref == 'UT'
        want = {'latitude': 55.7, 'longitude': -12.5,
                'altitude': -999 if alt is None else alt,
                'date_begin': ss, 'date_end': es, 'time_ref': ref,
                'summarization': CAMS_ISO[step],
                'username': 'a.b%2540x.org',
                'verbose': 'true' if okv else 'false'}
        ctx.expect(set(got) == set(want) and len(pairs) == len(want),
                   'request fields', f'{tag}: {got}')
        for k in set(got) & set(want):
            ctx.expect(eq_text(got[k], want[k]), 'request field value',
                       f'{tag}: {k}={got[k]} expected {want[k]}')
        q = {k: v for k, v in req.query.items() if k != 'DataInputs'}
        idn = 'get_' + ('mcclear' if ident == 'def' else ident)
        ctx.expect(q == {'Service': 'WPS', 'Request': 'Execute',
                         'Identifier': idn, 'version': '1.0.0',
                         'RawDataOutput': 'irradiation'},
                   'request fields', f'{tag}: {q}')
        host = kw.get('url', 'api.soda-solardata.com')
        wire(ctx, req, tag, 'GET', f'https://{host}/service/wps',
             timeout=kw.get('timeout', 30))
        ctx.expect(bool(out.warnings) == (verbose and not okv),
                   'verbose warning', f'{tag}: {out.warnings}')
        stamps = I01.cams_expect(step, label, edges)
        cols = []
        for j, c in enumerate(cols0):
            vals = [r[j] for r in table]
            if not integ and c != 'Reliability':
                vals = [v / ((b - a).total_seconds() / 3600)
                        for v, a, b in zip(vals, edges, edges[1:])]
            cols.append((I01.CAMS_MAP.get(c, c) if mv else c, vals))
        naive = step in ('1d', '1M')
        check(ctx, out.value[0], [t if naive else t.replace(tzinfo=UTC)
                                  for t in stamps], cols, tag, naive=naive,
              only=False)
        meta_check(ctx, out.value[1], {
            'latitude': 55.7, 'longitude': 12.5, 'altitude': 39.0,
            'time_step': step,
            'radiation_unit': 'Wh/m^2' if integ else 'W/m^2'}, tag)
    H = requests.HTTPError
    wps = ('<?xml version="1.0"?><ows:ExceptionReport><ows:Exception>'
           '<ows:ExceptionText>%s</ows:ExceptionText></ows:Exception>'
           '</ows:ExceptionReport>')
    for ident in ('mcclear', 'cams_radiation'):
        def call():
            return iotools.get_cams(55, 12, '2020-01-01', '2020-01-02',
                                    'a@b.c', identifier=ident)
        faults(ctx, call, 'cams', [
            (Answer(400, wps % 'Failed to parse email'), H,
             'Failed to parse email'),
            (Answer(500, wps % 'Process error: quota'), H, 'quota'),
            (Answer(400, HTML), H, '400'), (Answer(502, ''), H, '502')])
    for kw in ({'time_step': '2h'}, {'time_step': 60},
               {'identifier': 'macclear'}, {'identifier': ''}):
        ctx.state()
        out = run(Net(script([])), iotools.get_cams, 55, 12, '2020-01-01',
                  '2020-01-02', 'a@b.c', **kw)
        must_raise(ctx, out, f'cams {kw}', ValueError)


# --------------------------------------------------------------------- ACIS
ACIS_MAP = {'pcpn': 'precipitation', 'maxt': 'temp_air_max',
            'avgt': 'temp_air_average', 'obst': 'temp_air_observation',
            'mint': 'temp_air_min', 'cdd': 'cooling_degree_days',
            'hdd': 'heating_degree_days', 'gdd': 'growing_degree_days',
            'snow': 'snowfall', 'snwd': 'snowdepth'}
ACIS_UNIT = {'pcpn': 'mm', 'snow': 'cm', 'snwd': 'cm'}
ACIS_DAYS = [('2020-02-28', '2020-03-01'),
             (pd.Timestamp('2019-12-31 18:00'), D.datetime(2020, 1, 2, 3)),
             (D.date(2020, 1, 1), '20200103')]


def acis_elems(names):
    return [{'name': n, 'interval': 'dly', 'units': ACIS_UNIT.get(
        n, 'degreeC')} for n in names]


def ymd(t):
    return pd.Timestamp(t).strftime('%Y-%m-%d')


@case(CASES, name='acis: grids, stations, answers')
def c_acis(ctx):
    H = requests.HTTPError
    seven = ['pcpn', 'maxt', 'mint', 'avgt', 'cdd', 'hdd', 'gdd']
    ten = ['maxt', 'mint', 'avgt', 'obst', 'pcpn', 'snow', 'snwd', 'cdd',
           'hdd', 'gdd']
    funcs = {
        'prism': (iotools.get_acis_prism, seven, (), '21', 'GridData'),
        'nrcc1': (iotools.get_acis_nrcc, seven, (1,), 1, 'GridData'),
        'nrcc3': (iotools.get_acis_nrcc, seven, (3,), 3, 'GridData'),
        'mpe': (iotools.get_acis_mpe, ['pcpn'], (), '2', 'GridData')}
    stamps = [D.datetime(2020, 2, 28), D.datetime(2020, 2, 29),
              D.datetime(2020, 3, 1)]
    for (which, (fn, names, extra, grid, path)), (s, e), (la, lo), mv, kw in \
            itertools.product(funcs.items(), ACIS_DAYS,
                              ((40.1, -80.05), (-5, 0)), (True, False),
                              ({}, {'timeout': 6},
                               {'url': 'https://acis.test/G'})):
        for miss in range(len(names) + 1):
            ctx.state()
            table = [[-999 if (j == miss and i != 1) else
                      round(((i + 2) * 17 + j * 5) / 7 - 5, 2)
                      for j in range(len(names))] for i in range(3)]
            meta = {'ll': [lo + 0.01, la - 0.01]}
            if which != 'mpe':
                meta['elev'] = 1000
            body = {'meta': meta, 'data': [
                [t.strftime('%Y-%m-%d')] + r
                for t, r in zip(stamps, table)]}
            opts = dict(kw)
            if not mv:
                opts['map_variables'] = False
            tag = f'acis {which} {s} miss={miss} {opts}'
            out = run(Net(script([Answer(200, body)])), fn, la, lo, s, e,
                      *extra, **opts)
            if not must_return(ctx, out, tag, 1):
                continue
            req = out.log[0]
            wire(ctx, req, tag, 'POST', kw.get(
                'url', 'https://data.rcc-acis.org/' + path),
                query={}, headers={'Content-Type': 'application/json'},
                timeout=kw['timeout'] if 'timeout' in kw else 'any')
            got = req.json
            loc = got.pop('loc', '').split(',')
            ctx.expect(len(loc) == 2 and eq_text(loc[0], lo) and
                       eq_text(loc[1], la), 'request coordinates',
                       f'{tag}: {loc}')
            ctx.expect(str(got.pop('grid', None)) == str(grid),
                       'request field value', f'{tag}: grid')
            want = {'elems': acis_elems(names), 'sdate': ymd(s),
                    'edate': ymd(e), 'output': 'json',
                    'meta': ['ll', 'elev'] if which != 'mpe' else ['ll']}
            ctx.expect(got == want, 'request body', f'{tag}: {got}')
            cols = [(ACIS_MAP[c] if mv else c,
                     [NAN if r[j] == -999 else r[j] for r in table])
                    for j, c in enumerate(names)]
            check(ctx, out.value[0], stamps, cols, tag, naive=True)
            m = out.value[1]
            k = ('latitude', 'longitude', 'altitude') if mv else \
                ('lat', 'lon', 'elev')
            ctx.close(m.get(k[0]), la - 0.01, 'acis latitude', atol=1e-12)
            ctx.close(m.get(k[1]), lo + 0.01, 'acis longitude', atol=1e-12)
            if which != 'mpe':
                ctx.close(m.get(k[2]), 304.8, 'acis altitude in metres')
    # places at zero, and answers that leave the place out
    calls = {k: (lambda f=f, x=x, **kw: f(0, 0, '2020-01-01', '2020-01-03',
                                          *x, **kw), names)
             for k, (f, names, x, _, _) in funcs.items()}
    calls['station'] = (lambda **kw: iotools.get_acis_station_data(
        'X', '2020-01-01', '2020-01-03', **kw), ten)
    for (k, (call, names)), mv, (ll, elev) in itertools.product(
            calls.items(), (True, False), itertools.product(
                (None, [0, 0], [0, 12.5], [-12.5, 0]), (None, 0, -100))):
        ctx.state()
        meta = {'name': ''}
        if ll is not None:
            meta['ll'] = list(ll)
        if elev is not None:
            meta['elev'] = elev
        body = {'meta': meta, 'data': [['2020-01-01'] + [0] * len(names)]}
        out = run(Net(script([Answer(200, body)])), call, map_variables=mv)
        tag = f'acis {k} ll={ll} elev={elev} map={mv}'
        if not must_return(ctx, out, tag, 1):
            continue
        want = {'name': ''}
        if ll is not None:
            want.update({'latitude' if mv else 'lat': ll[1],
                         'longitude' if mv else 'lon': ll[0]})
        if elev is not None:
            want['altitude' if mv else 'elev'] = elev * 0.3048
        ctx.expect(set(out.value[1]) == set(want) and all(
            x == want[y] or abs(x - want[y]) < 1e-9
            for y, x in out.value[1].items()), 'metadata',
            f'{tag}: {out.value[1]}')
        ctx.expect(bool((out.value[0] == 0).all().all()), 'zero is a value',
                   tag)
    # stations
    for (s, e), sid, mv, trace in itertools.product(
            ACIS_DAYS, ('BOU', 'USW00014895', 94846), (True, False),
            (None, 0, 0.5)):
        for rows in itertools.product(('M', 'T', '3.5'), repeat=3):
            ctx.state()
            table = [[rows[i] if j == 4 else rows[(i + j) % 3]
                      if rows[(i + j) % 3] != 'T' else '-7.25'
                      for j in range(10)] for i in range(3)]
            body = {'meta': {'ll': [-80.5, 40.25], 'elev': 500,
                             'name': 'X', 'uid': 7, 'state': 'OH'},
                    'data': [[t.strftime('%Y-%m-%d')] + r
                             for t, r in zip(stamps, table)]}
            kw = {}
            if trace is not None:
                kw['trace_val'] = trace
            if not mv:
                kw['map_variables'] = False
            if trace == 0:
                kw.update(url='https://acis.test/S', timeout=2)
            out = run(Net(script([Answer(200, body)])),
                      iotools.get_acis_station_data, sid, s, e, **kw)
            tag = f'acis station {sid} {rows} {kw}'
            if not must_return(ctx, out, tag, 1):
                continue
            wire(ctx, out.log[0], tag, 'POST', kw.get(
                'url', 'https://data.rcc-acis.org/StnData'), query={},
                body={'sid': str(sid), 'elems': acis_elems(ten), 'meta':
                      'name,state,sids,sid_dates,ll,elev,uid,county,climdiv,'
                      'valid_daterange,tzo,network', 'sdate': ymd(s),
                      'edate': ymd(e), 'output': 'json'},
                timeout=kw.get('timeout', 'any'))
            tv = 0.001 if trace is None else trace
            cols = [(ACIS_MAP[c] if mv else c,
                     [NAN if r[j] == 'M' else tv if r[j] == 'T'
                      else float(r[j]) for r in table])
                    for j, c in enumerate(ten)]
            check(ctx, out.value[0], stamps, cols, tag, naive=True)
            ctx.expect(all(d.kind == 'f' for d in out.value[0].dtypes),
                       'station data are numbers', tag)
            m = out.value[1]
            k = ('latitude', 'longitude', 'altitude') if mv else \
                ('lat', 'lon', 'elev')
            meta_check(ctx, m, {k[0]: 40.25, k[1]: -80.5, 'name': 'X',
                                'uid': 7}, tag)
            ctx.close(m.get(k[2]), 152.4, 'acis altitude in metres')
    # station list
    for (s, e), lats, lons, n in itertools.product(
            ACIS_DAYS + [(None, None), ('2020-01-01', None),
                         (None, '2020-01-01')],
            ([39.5, 40.5], (-10, -5)), ([-80.75, -80], (0, 5.5)), (0, 1, 3)):
        ctx.state()
        recs = [{'name': f'S{i}', 'll': [-80.5 + i, 40.25 - i],
                 'elev': 1000 + i, 'uid': i} for i in range(n)]
        out = run(Net(script([Answer(200, {'meta': recs})])),
                  iotools.get_acis_available_stations, lats, lons,
                  **({} if s is None else {'start': s}),
                  **({} if e is None else {'end': e}))
        tag = f'acis stations {lats} {lons} {s} {e}'
        if not must_return(ctx, out, tag, 1):
            continue
        want = {'bbox': f'{lons[0]},{lats[0]},{lons[1]},{lats[1]}',
                'meta': 'name,state,sids,sid_dates,ll,elev,uid,county,'
                        'climdiv,tzo,network'}
        if s is not None and e is not None:
            want.update(elems=['maxt', 'mint', 'avgt', 'obst', 'pcpn', 'snow',
                               'snwd'], sdate=ymd(s), edate=ymd(e))
        wire(ctx, out.log[0], tag, 'POST',
             'https://data.rcc-acis.org/StnMeta', query={}, body=want)
        df = out.value
        ctx.expect(len(df) == n, 'one row per station', tag)
        if n:
            ctx.expect(list(df['name']) == [f'S{i}' for i in range(n)] and
                       list(df['latitude']) == [40.25 - i for i in range(n)]
                       and list(df['longitude']) == [-80.5 + i
                                                     for i in range(n)],
                       'station table', f'{tag}: {df}')
            if list(df['altitude']) == [1000 + i for i in range(n)]:
                ctx.fail('acis station altitude in feet', tag)
            else:
                ctx.close(df['altitude'], [(1000 + i) * 0.3048
                                           for i in range(n)],
                          'station altitude')
    calls = {k: (lambda f=f, x=x: f(40, -80, '2020-01-01', '2020-01-03', *x))
             for k, (f, _, x, _, _) in funcs.items()}
    calls['station'] = lambda: iotools.get_acis_station_data(
        'BOU', '2020-01-01', '2020-01-03')
    calls['list'] = lambda: iotools.get_acis_available_stations(
        [39, 40], [-81, -80])
    for k, call in calls.items():
        faults(ctx, call, f'acis {k}', [
            (Answer(200, {'error': 'no data available'}), H,
             'no data available'), (Answer(400, 'x'), H, '400'),
            (Answer(500, HTML), H, '500')])


# --------------------------------------------------------------------- BSRN
class Ftp:
    """A BSRN server; one word per request."""
    def __init__(self, files, station, words):
        self.files, self.station = files, station
        self.words, self.log, self.closed = words, [], 0

    def __call__(self, host='', user='', passwd='', *a, **k):
        self.log.append(('login', host, user, passwd))
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed += 1

    def cwd(self, path):
        import ftplib
        self.log.append(('cwd', path))
        if path.strip('/') != self.station:
            raise ftplib.error_perm('550 Failed to change directory.')
        return '250 ok'

    def quit(self):
        self.closed += 1
        return '221 bye'

    close = quit

    def retrbinary(self, cmd, callback, *a, **k):
        import ftplib
        self.log.append(('get', cmd))
        name = cmd.split(' ', 1)[1].split('/')[-1]
        word = self.words.get(name, 'missing')
        if word == 'missing':
            raise ftplib.error_perm('550 Failed to open file.')
        if word == 'denied':
            raise ftplib.error_perm('530 Not logged in.')
        if word == 'lost':
            raise EOFError()
        data = self.files[name]
        if word == 'cut':
            callback(data[:len(data) // 2])
            return '426 Connection closed; transfer aborted.'
        half = len(data) // 2
        callback(data[:half])
        callback(data[half:])
        return '226 Transfer complete.'


@case(CASES, name='bsrn: every month answered in every way')
def c_bsrn(ctx):
    import ftplib
    first = [(2019, 11), (2000, 1)]
    words = ('ok', 'missing', 'denied', 'cut', 'lost')
    lrs = ('0100', '0300')
    with Scratch() as s:
        for y0, m0 in first:
            months, files, stamps, data = [], {}, [], {}
            for k in range(4):
                y, m = y0 + (m0 - 1 + k) // 12, (m0 - 1 + k) % 12 + 1
                months.append((y, m))
                name = f'abc{m:02d}{y % 100:02d}.dat.gz'
                st = [D.datetime(y, m, 1), D.datetime(y, m, 15, 12, 34)]
                text, sel = I01.bsrn_file(y, m, lrs, 12.5 + k, -70.25, 11 + k,
                                          [(0, 3), (90, 1)], k, st)
                files[name] = gzip.compress(text.encode())
                data[name] = (st, sel)
            names = list(files)
            for n in range(1, ctx.pick(4, 5)):
                y, m = months[n - 1]
                ends = [D.datetime(y, m, 1), D.datetime(y, m, 28, 5)]
                y, m = months[0]
                begs = [D.datetime(y, m, 1), pd.Timestamp(y, m, 28)]
                for seq in itertools.product(words, repeat=n):
                    b, e = begs[len(seq[0]) % 2], ends[len(seq[-1]) % 2]
                    if n == 1:
                        b, e = begs[0], ends[1]
                    form = sum(map(len, seq)) % 3
                    if form == 1:
                        b, e = str(b), str(e)
                    ctx.state()
                    srv = Ftp(files, 'abc', dict(zip(names, seq)))
                    save = form == 2
                    kw = {}
                    if save:
                        kw['save_path'] = s.dir
                        for x in os.listdir(s.dir):
                            os.remove(os.path.join(s.dir, x))
                    asked = (('0100',), None, ('0100', '0300'),
                             ('0500',))[(len(seq[0]) + n) % 4]
                    if asked:
                        kw['logical_records'] = asked
                    asked = asked or ('0100',)
                    tag = f'bsrn {b}..{e} {seq} {kw}'
                    out = run(Net(script([]), ftp=srv), iotools.get_bsrn,
                              'ABC' if form else 'abc', b, e, 'user', 'pw',
                              **kw)
                    ctx.expect(srv.log[0][1:] == (
                        'ftp.bsrn.awi.de', 'user', 'pw'), 'ftp login',
                        f'{tag}: {srv.log[0]}')
                    gets = [c.split('/')[-1].replace('RETR ', '')
                            for k, c in srv.log[2:] if k == 'get']
                    fatal = [i for i, w in enumerate(seq)
                             if w in ('denied', 'cut', 'lost')]
                    if fatal:
                        must_raise(ctx, out, tag, {
                            'denied': ftplib.error_perm, 'cut': ftplib.Error,
                            'lost': EOFError}[seq[fatal[0]]])
                        continue
                    if not must_return(ctx, out, tag):
                        continue
                    ctx.expect(gets == names[:n], 'files asked for',
                               f'{tag}: {gets}')
                    have = [x for x, w in zip(names, seq) if w == 'ok']
                    lost = [x for x, w in zip(names, seq) if w != 'ok']
                    said = ' '.join(str(w.message) for w in out.warnings)
                    if have:
                        ctx.expect(all(x in said for x in lost) and not any(
                            x in said for x in have), 'missing files named',
                            f'{tag}: {said}')
                    else:
                        ctx.expect(said != '', 'missing files named', tag)
                    if save:
                        ctx.expect(sorted(os.listdir(s.dir)) == sorted(have),
                                   'saved files', f'{tag}: '
                                                  f'{os.listdir(s.dir)}')
                        for x in have:
                            with open(os.path.join(s.dir, x), 'rb') as f:
                                ctx.expect(f.read() == files[x],
                                           'saved files', tag)
                    got, meta = out.value
                    cmap = {'0100': I01.BSRN1, '0300': I01.BSRN3,
                            '0500': I01.BSRN5}
                    if not have or asked == ('0500',):
                        ctx.expect(len(got) == 0 and list(got.columns) == [
                            c for lr in asked for c in cmap[lr]],
                            'empty frame with columns', f'{tag}')
                        if not have:
                            ctx.expect(meta == {}, 'metadata', tag)
                        continue
                    exp, cols = [], []
                    for x in have:
                        exp += [t.replace(tzinfo=UTC) for t in data[x][0]]
                    for lr in asked:
                        for j, c in enumerate(cmap[lr]):
                            cols.append((c, [r[j] for x in have
                                             for r in data[x][1][lr]]))
                    check(ctx, got, exp, cols, tag, offset=0)
                    k = names.index(have[-1])
                    ctx.close(meta['latitude'], 12.5 + k, 'bsrn latitude')
                    ctx.expect(meta['altitude'] == 11 + k, 'metadata', tag)
        srv = Ftp({}, 'abc', {})
        out = run(Net(script([]), ftp=srv), iotools.get_bsrn, 'xyz',
                  '2020-01-01', '2020-01-02', 'u', 'p')
        must_raise(ctx, out, 'bsrn unknown station', KeyError)
        for bad in (('0200',), ('0100', '1'),):
            srv = Ftp(files, 'abc', {x: 'ok' for x in names})
            out = run(Net(script([]), ftp=srv), iotools.get_bsrn, 'abc',
                      begs[0], ends[0], 'u', 'p', logical_records=bad)
            must_raise(ctx, out, f'bsrn {bad}', ValueError)


# ---------------------------------------------------- SURFRAD, SOLRAD, SRML
def solrad_file(day, tz):
    names = list(I01.SOL_BASE)
    for p in I01.SOL_PAIRS:
        names += [p, p + '_flag']
    stamps = [day + D.timedelta(minutes=k) for k in (0, 61, 1439)]
    lines = [' Station Name', f'   43.07250 -89.41133 271 {tz:d} version 1']
    table = []
    for i, t in enumerate(stamps):
        row = [t.year, t.timetuple().tm_yday, t.month, t.day, t.hour,
               t.minute]
        txt = (f' {row[0]:4d} {row[1]:3d} {row[2]:2d} {row[3]:2d} '
               f'{row[4]:2d} {row[5]:2d} {0.5:6.3f} {90.25:6.2f}')
        vals = []
        for j, p in enumerate(I01.SOL_PAIRS):
            v = round((i * 37 + j * 101 + day.day) % 1200 - 20.5, 1)
            txt += f' {v:7.1f} {0:1d}'
            vals.append(v)
        for j, p in enumerate(I01.SOL_STD):
            txt += f' {0.25:9.3f}' if j < 3 else f' {0.25:8.3f} '
        lines.append(txt)
        table.append(vals)
    return '\n'.join(lines) + '\n', stamps, table


SPANS = [('1999-12-30', 3), ('2000-02-28', 3), ('2019-01-01', 1),
         ('2020-12-31', 2)]


def daily_case(ctx, which):
    get = {'surfrad': iotools.get_surfrad, 'solrad': iotools.get_solrad}[which]
    root = f'https://gml.noaa.gov/aftp/data/radiation/{which}/'
    for first, n in SPANS:
        d0 = D.datetime.fromisoformat(first)
        days = [d0 + D.timedelta(days=k) for k in range(n)]
        files, truth = {}, []
        for k, d in enumerate(days):
            name = (f'abc/{d.year}/abc{d.year % 100:02d}'
                    f'{d.timetuple().tm_yday:03d}.dat')
            if which == 'surfrad':
                stamps = [d, d + D.timedelta(hours=12),
                          d + D.timedelta(minutes=1439)]
                text, table = I01.surf_file(
                    '   37.7  -105.9 2317 m version 1', stamps, k)
            else:
                text, stamps, table = solrad_file(d, -6)
            files[name] = text
            truth.append((name, stamps, table))
        forms = [(first, str(days[-1].date())),
                 (pd.Timestamp(d0) + pd.Timedelta('13h'),
                  pd.Timestamp(days[-1]) + pd.Timedelta('2h')),
                 (d0, days[-1] + D.timedelta(hours=23, minutes=59)),
                 (pd.Timestamp(d0) + pd.Timedelta('23h'),
                  pd.Timestamp(days[-1]) + pd.Timedelta('22h'))]
        words = (200, 404, 500, 'lost')
        for (s, e), seq, mv, url in itertools.product(
                forms, itertools.product(words, repeat=n),
                (True, False) if which == 'surfrad' else (None,),
                (None, 'https://mirror.test/d/')):
            ctx.state()
            if pd.Timestamp(e) < pd.Timestamp(s):
                continue
            base = url or root
            pages = {}
            for (name, _, _), w in zip(truth, seq):
                if w == 'lost':
                    pages[base + name] = urllib.error.URLError('lost') \
                        if which == 'surfrad' else \
                        requests.exceptions.ConnectionError('lost')
                elif w == 200:
                    pages[base + name] = files[name]
                else:
                    pages[base + name] = Answer(w, 'x')
            kw = {}
            if url:
                kw['url'] = url
            if mv is False:
                kw['map_variables'] = False
            net = Net(site(pages))
            out = run(net, get, 'ABC' if url else 'abc', s, e, **kw)
            tag = f'{which} {s}..{e} {seq} {kw}'
            if 'lost' in seq:
                must_raise(ctx, out, tag)
                continue
            have = [t for t, w in zip(truth, seq) if w == 200]
            lost = [t[0] for t, w in zip(truth, seq) if w != 200]
            if not have:
                must_raise(ctx, out, tag, ValueError)
                continue
            if not must_return(ctx, out, tag, n):
                continue
            ctx.expect([r.url for r in out.log] == [base + t[0]
                                                    for t in truth],
                       'files asked for', f'{tag}: '
                                          f'{[r.url for r in out.log]}')
            said = [str(w.message) for w in out.warnings]
            ctx.expect(len(said) == len(lost) and all(
                any(x in m for m in said) for x in lost),
                'missing files named', f'{tag}: {said}')
            data, meta = out.value
            exp = [t.replace(tzinfo=UTC) for h in have for t in h[1]]
            if which == 'surfrad':
                cols = [(I01.surf_map(c) if mv else c,
                         [r[j] for h in have for r in h[2]])
                        for j, c in enumerate(I01.surf_cols())]
                check(ctx, data, exp, cols, tag, offset=0)
            else:
                cols = [(c, [r[j] for h in have for r in h[2]])
                        for j, c in enumerate(I01.SOL_PAIRS)]
                check(ctx, data, exp, cols, tag, offset=0, only=False)
            ctx.expect(meta['station'] == 'abc' and list(meta['filenames'])
                       == [t[0] for t in truth], 'metadata', f'{tag}: {meta}')
            ctx.expect('latitude' in meta and 'longitude' in meta,
                       'metadata', tag)


@case(CASES, name='surfrad: every day found or not')
def c_surfrad(ctx):
    daily_case(ctx, 'surfrad')


@case(CASES, name='solrad: every day found or not')
def c_solrad(ctx):
    daily_case(ctx, 'solrad')


@case(CASES, name='srml: every month found or not')
def c_srml(ctx):
    root = 'http://solardata.uoregon.edu/download/Archive/'
    for (y0, m0), n in (((1999, 12), 3), ((2018, 4), 2), ((2000, 2), 1)):
        months = [(y0 + (m0 - 1 + k) // 12, (m0 - 1 + k) % 12 + 1)
                  for k in range(n)]
        for ftype in ('PO', 'RO', 'HO'):
            truth, files = [], {}
            for k, (y, m) in enumerate(months):
                name = f'EU{ftype}{y % 100:02d}{m:02d}.txt'
                doy = D.date(y, m, 1).timetuple().tm_yday
                step = {'PO': 5, 'RO': 1, 'HO': 60}[ftype]
                lines = [f'94255\t{y}\t1000\t0\t9301\t0']
                stamps, rows = [], []
                for i in range(70 if step == 1 else 24):
                    mins = (i + 1) * step
                    v, f = round(3.5 * i + k, 1), (12, 99)[i % 5 == 2]
                    w, g = round(i - 4.25, 2), 11
                    lines.append(f'{doy}\t{mins // 60 * 100 + mins % 60}\t'
                                 f'{v}\t{f}\t{w}\t{g}')
                    stamps.append((D.datetime(y, m, 1) + D.timedelta(
                        minutes=mins - step)).replace(tzinfo=fixed(-8)))
                    rows.append((NAN if f == 99 else v, f, w, g))
                files[name] = '\n'.join(lines) + '\n'
                truth.append((name, stamps, rows))
            y, m = months[-1]
            forms = [(f'{y0}-{m0:02d}-01', f'{y}-{m:02d}-28'),
                     (D.datetime(y0, m0, 17, 5), pd.Timestamp(y, m, 20, 1)),
                     (pd.Timestamp(y0, m0, 1), D.datetime(y, m, 1)),
                     (D.datetime(y0, m0, 1), D.datetime(y, m, 28, 23))]
            words = (200, 404, 500, 'lost')
            for (s, e), seq, mv, url in itertools.product(
                    forms, itertools.product(words, repeat=n), (True, False),
                    (None, 'http://mirror.test/')):
                if pd.Timestamp(e) < pd.Timestamp(s):
                    continue
                ctx.state()
                base = url or root
                pages = {}
                for (name, _, _), w in zip(truth, seq):
                    pages[base + name] = files[name] if w == 200 else (
                        urllib.error.URLError('lost') if w == 'lost'
                        else Answer(w, 'x'))
                kw = {} if ftype == 'PO' else {'filetype': ftype}
                if url:
                    kw['url'] = url
                if not mv:
                    kw['map_variables'] = False
                out = run(Net(site(pages)), iotools.get_srml, 'EU', s, e,
                          **kw)
                tag = f'srml {s}..{e} {seq} {kw}'
                if 'lost' in seq:
                    must_raise(ctx, out, tag)
                    continue
                have = [t for t, w in zip(truth, seq) if w == 200]
                lost = [t[0] for t, w in zip(truth, seq) if w != 200]
                if not have:
                    must_raise(ctx, out, tag, ValueError)
                    continue
                if not must_return(ctx, out, tag, n):
                    continue
                ctx.expect([r.url for r in out.log] == [
                    base + t[0] for t in truth], 'files asked for',
                    f'{tag}: {[r.url for r in out.log]}')
                said = [str(w.message) for w in out.warnings]
                ctx.expect(len(said) == len(lost) and all(
                    any(x in q for q in said) for x in lost),
                    'missing files named', f'{tag}: {said}')
                data, meta = out.value
                a, b = ('ghi_0', 'temp_air_1') if mv else ('1000', '9301')
                cols = [(c, [r[j] for h in have for r in h[2]])
                        for j, c in enumerate((a, a + '_flag', b,
                                               b + '_flag'))]
                check(ctx, data, [t for h in have for t in h[1]], cols, tag,
                      offset=-8)
                ctx.expect(meta['station'] == 'EU' and meta['filetype'] ==
                           ftype and list(meta['filenames']) ==
                           [t[0] for t in truth], 'metadata',
                           f'{tag}: {meta}')


# --------------------------------------------------------------------- MIDC
@case(CASES, name='midc: requests and answers')
def c_midc(ctx):
    zones = {'MST': -7, 'PST': -8, 'EST': -5, 'HST': -10, 'UTC': 0}
    chans = ['Global PSP [W/m^2]', 'Temperature @ 2m [deg C]']
    for (z, off), (s, e), extra, vm, to in itertools.product(
            zones.items(), ACIS_DAYS, (0, 1, 3), (None, {
                'Global PSP [W/m^2]': 'ghi'}), (None, 7)):
        ctx.state()
        stamps = [D.datetime(2018, 10, 14) + D.timedelta(minutes=k)
                  for k in (0, 1, 60, 1439)]
        table = [[i * 3.5 - 1, 20.25 - i] for i in range(len(stamps))]
        # the raw service sends more values per line than column names
        lines = [','.join(['', 'Year', 'DOY', z] + chans)]
        lines += [','.join(str(v) for v in [
            i, t.year, t.timetuple().tm_yday, t.hour * 100 + t.minute] + r
            + [0] * extra) for i, (t, r) in enumerate(zip(stamps, table))]
        kw = {}
        if vm:
            kw['variable_map'] = vm
        if to:
            kw['timeout'] = to
        out = run(Net(script([Answer(200, '\n'.join(lines) + '\n')])),
                  iotools.read_midc_raw_data_from_nrel, 'UAT', s, e, **kw)
        tag = f'midc {z} {s} extra={extra} {kw}'
        if not must_return(ctx, out, tag, 1):
            continue
        wire(ctx, out.log[0], tag, 'GET',
             'https://midcdmz.nlr.gov/apps/data_api.pl',
             {'site': 'UAT', 'begin': pd.Timestamp(s).strftime('%Y%m%d'),
              'end': pd.Timestamp(e).strftime('%Y%m%d')}, timeout=to or 30)
        cols = [((vm or {}).get(c, c), [r[j] for r in table])
                for j, c in enumerate(chans)]
        check(ctx, out.value, [t.replace(tzinfo=fixed(off)) for t in stamps],
              cols, tag, only=False, offset=off)
        ctx.expect(len(out.value.columns) == 4 + len(chans), 'columns',
                   f'{tag}: {list(out.value.columns)}')
    faults(ctx, lambda: iotools.read_midc_raw_data_from_nrel(
        'UAT', '2018-10-14', '2018-10-14'), 'midc', [
        (Answer(500, HTML), requests.HTTPError, '500'),
        (Answer(404, ''), requests.HTTPError, '404')])


# --------------------------------------------------------------- NASA POWER
NASA = {'ALLSKY_SFC_SW_DWN': 'ghi', 'ALLSKY_SFC_SW_DIFF': 'dhi',
        'ALLSKY_SFC_SW_DNI': 'dni', 'ALLSKY_SRF_ALB': 'albedo',
        'ALLSKY_SFC_LW_DWN': 'longwave_down', 'CLRSKY_SFC_SW_DIFF':
        'dhi_clear', 'CLRSKY_SFC_SW_DNI': 'dni_clear', 'CLRSKY_SFC_SW_DWN':
        'ghi_clear', 'PS': 'pressure', 'RH2M': 'relative_humidity',
        'T2M': 'temp_air', 'T2MDEW': 'temp_dew', 'TQV': 'precipitable_water',
        'TOA_SW_DWN': 'ghi_extra', 'WS2M': 'wind_speed_2m', 'WS10M':
        'wind_speed'}
NASA_PV = {v: k for k, v in NASA.items()}


@case(CASES, name='nasa power: requests and answers')
def c_nasa(ctx):
    params = [None, 'ghi', 'ALLSKY_SFC_SW_DNI', ['pressure'], ['TQV', 'PS'],
              list(NASA_PV), list(NASA), ['temp_air', 'QV2M'],
              ('wind_speed', 'wind_speed_2m')]
    opts = [{}, {'elevation': 0}, {'elevation': 12.5, 'wind_height': 50,
                                   'wind_surface': 'vegtype_1'},
            {'community': 'ag'}, {'url': 'https://nasa.test/p'}]
    for par, opt, (la, lo), (s, e), mv, fill in itertools.product(
            params, opts, ((44.76, 7.64), (-5, 0)),
            (('2025-02-01', '2025-02-28'),
             (pd.Timestamp('2024-12-31 22:00'), D.datetime(2025, 1, 1))),
            (True, False), (-999.0, -99)):
        ctx.state()
        names = ['dni', 'dhi', 'ghi', 'temp_air', 'wind_speed'] \
            if par is None else [par] if isinstance(par, str) else list(par)
        codes = [NASA_PV.get(p, p) for p in names]
        stamps = [D.datetime(2024, 12, 31, 22) + D.timedelta(hours=k)
                  for k in range(4)]
        table = {c: [fill if (i + j) % 3 == 2 else round(
            10.5 + i * 3 + j, 2) for i in range(4)]
            for j, c in enumerate(codes)}
        body = {'type': 'Feature', 'geometry': {
            'type': 'Point', 'coordinates': [lo, la, 211.5]},
            'properties': {'parameter': {c: {
                t.strftime('%Y%m%d%H'): v for t, v in zip(stamps, vs)}
                for c, vs in table.items()}},
            'header': {'title': 'T', 'fill_value': fill,
                       'time_standard': 'UTC'},
            'parameters': {c: {'units': 'x'} for c in codes},
            'times': {'data': 1.5}}
        kw = dict(opt)
        if par is not None:
            kw['parameters'] = par
        if not mv:
            kw['map_variables'] = False
        out = run(Net(script([Answer(200, body)])), iotools.get_nasa_power,
                  la, lo, s, e, **kw)
        tag = f'nasa {s} {kw} fill={fill}'
        if not must_return(ctx, out, tag, 1):
            continue
        q = dict(out.log[0].query)
        ctx.expect(q.pop('header', 'true').lower() == 'true',
                   'request field value', tag)
        out.log[0].query, out.log[0].pairs = q, list(q.items())
        wire(ctx, out.log[0], tag, 'GET', opt.get(
            'url', 'https://power.larc.nasa.gov/api/temporal/hourly/point'),
            {'latitude': la, 'longitude': lo,
             'start': pd.Timestamp(s).strftime('%Y%m%d'),
             'end': pd.Timestamp(e).strftime('%Y%m%d'),
             'community': opt.get('community', 're'),
             'parameters': ','.join(codes), 'format': 'json',
             'time-standard': 'utc', 'site-elevation': opt.get('elevation'),
             'wind-elevation': opt.get('wind_height'),
             'wind-surface': opt.get('wind_surface')})
        cols = []
        for c in codes:
            k = 1.0
            if mv and c == 'PS':
                k = 1000.0
            if mv and c == 'TQV':
                k = 0.1
            cols.append((NASA.get(c, c) if mv else c, [
                NAN if v == fill else v * k for v in table[c]]))
        check(ctx, out.value[0], [t.replace(tzinfo=UTC) for t in stamps],
              cols, tag, offset=0)
        meta_check(ctx, out.value[1], {
            'latitude': la, 'longitude': lo, 'altitude': 211.5, 'title': 'T',
            'times': {'data': 1.5}, 'parameters': body['parameters']}, tag)
    H = requests.HTTPError
    faults(ctx, lambda: iotools.get_nasa_power(44, 7, '2025-01-01',
                                               '2025-01-01'), 'nasa', [
        (Answer(422, {'messages': ['bad latitude'], 'header': 'x'}), H,
         'bad latitude'), (Answer(429, {'message': 'slow down'}), H,
                           'slow down')])


# ------------------------------------------------------------ SOLARANYWHERE
SA_VARS = ['StartTime', 'ObservationTime', 'EndTime',
           'GlobalHorizontalIrradiance_WattsPerMeterSquared',
           'DirectNormalIrradiance_WattsPerMeterSquared',
           'DiffuseHorizontalIrradiance_WattsPerMeterSquared',
           'AmbientTemperature_DegreesC', 'WindSpeed_MetersPerSecond',
           'Albedo_Unitless', 'DataVersion']
SA_MAP = {SA_VARS[3]: 'ghi', SA_VARS[4]: 'dni', SA_VARS[5]: 'dhi',
          SA_VARS[6]: 'temp_air', SA_VARS[7]: 'wind_speed',
          SA_VARS[8]: 'albedo', 'RelativeHumidity_Percent':
          'relative_humidity', 'ClearSkyGHI_WattsPerMeterSquared':
          'ghi_clear', 'ClearSkyDNI_WattsPerMeterSquared': 'dni_clear',
          'ClearSkyDHI_WattsPerMeterSquared': 'dhi_clear'}


def sa_done(variables, n=3, off=0):
    t0 = D.datetime(2020, 1, 1, 0, 30, tzinfo=fixed(off))
    stamps = [t0 + D.timedelta(hours=k) for k in range(n)]
    rows = []
    for i, t in enumerate(stamps):
        row = {}
        for j, v in enumerate(variables):
            if v in ('StartTime', 'EndTime', 'ObservationTime'):
                d = {'StartTime': -30, 'EndTime': 30,
                     'ObservationTime': 0}[v]
                row[v] = (t + D.timedelta(minutes=d)).isoformat()
            elif v == 'DataVersion':
                row[v] = '3.5'
            else:
                row[v] = i * 10.5 + j
        rows.append(row)
    body = {'Status': 'Done', 'WeatherDataResults': [{
        'Status': 'Success', 'WeatherDataPeriods': {
            'TimeResolution_Minutes': 60, 'WeatherDataPeriods': rows},
        'WeatherSourceInformation': {
            'Latitude': '33.765', 'Longitude': '-84.395',
            'Elevation_Meters': '310.5', 'Source': 'S'}}]}
    return body, stamps, rows


@case(CASES, name='solaranywhere: requests, polling')
def c_sa(ctx):
    mods = (m_sa,)
    root = 'https://service.solaranywhere.com/api/v2'
    accepted = Answer(200, {'WeatherRequestId': 'abc-1'})
    spans = [(None, None, None, None),
             ('2020-01-01', '2020-01-02', '2020-01-01T00:00:00+00:00',
              '2020-01-02T00:00:00+00:00'),
             (pd.Timestamp('2020-01-01', tz='Etc/GMT+5'),
              D.datetime(2020, 7, 1, tzinfo=UTC),
              '2020-01-01T00:00:00-05:00', '2020-07-01T00:00:00+00:00')]
    opts = [{}, {'source': 'SolarAnywhereTGYLatest'}, {'time_resolution': 5,
                                                       'true_dynamics': True},
            {'spatial_resolution': 0.1}, {'missing_data': 'Omit'},
            {'probability_of_exceedance': 90, 'source':
             'SolarAnywherePOELatest'}, {'url': 'https://sa.test/v3'},
            {'variables': ['ObservationTime', 'RelativeHumidity_Percent',
                           'ClearSkyGHI_WattsPerMeterSquared',
                           'ClearSkyDNI_WattsPerMeterSquared',
                           'ClearSkyDHI_WattsPerMeterSquared', 'Other_X']}]
    for (s, e, ss, es), opt, (la, lo), mv, off in itertools.product(
            spans, opts, ((33.765, -84.395), (-5, 0)), (True, False),
            (0, -5)):
        ctx.state()
        variables = opt.get('variables', SA_VARS)
        body, stamps, rows = sa_done(variables, off=off)
        kw = dict(opt)
        if s is not None:
            kw.update(start=s, end=e)
        if not mv:
            kw['map_variables'] = False
        tag = f'solaranywhere {kw}'
        out = run(Net(script([accepted, Answer(200, body)]), modules=mods),
                  iotools.get_solaranywhere, la, lo, 'KEY', **kw)
        if not must_return(ctx, out, tag, 2):
            continue
        o = {'OutputFields': list(variables), 'SummaryOutputFields': [],
             'SpatialResolution_Degrees': opt.get('spatial_resolution', .01),
             'TimeResolution_Minutes': opt.get('time_resolution', 60),
             'WeatherDataSource': opt.get('source', 'SolarAnywhereLatest'),
             'MissingDataHandling': opt.get('missing_data', 'FillAverage')}
        if opt.get('true_dynamics'):
            o['ApplyTrueDynamics'] = True
        if 'probability_of_exceedance' in opt:
            o['ProbabilityOfExceedance'] = 90
        got = out.log[0].json
        for k, w in (('StartTime', ss), ('EndTime', es)):
            g = got.get('Options', {}).pop(k, None)
            ok = (g is None) == (w is None)
            if ok and w is not None:
                ok = D.datetime.fromisoformat(g) == \
                    D.datetime.fromisoformat(w) and \
                    D.datetime.fromisoformat(g).tzinfo is not None
            ctx.expect(ok, 'request period', f'{tag}: {k}={g}')
        ctx.expect(got == {'Sites': [{'Latitude': la, 'Longitude': lo}],
                           'Options': o}, 'request body', f'{tag}: {got}')
        base = opt.get('url', root)
        hd = {'X-Api-Key': 'KEY', 'Accept': 'application/json'}
        wire(ctx, out.log[0], tag, 'POST', base + '/WeatherData', {},
             dict(hd, **{'Content-Type': 'application/json; charset=utf-8'}))
        wire(ctx, out.log[1], tag, 'GET', base + '/WeatherDataResult/abc-1',
             {}, hd)
        cols = [(SA_MAP.get(v, v) if mv else v, [r[v] for r in rows])
                for v in variables]
        check(ctx, out.value[0], stamps, cols, tag, offset=off)
        meta_check(ctx, out.value[1], {
            'latitude': 33.765, 'longitude': -84.395, 'altitude': 310.5,
            'time_resolution': 60, 'Source': 'S', 'spatial_resolution':
            opt.get('spatial_resolution', .01)}, tag)
    for bad in (50.5, '50', [50]):
        out = run(Net(script([]), modules=mods), iotools.get_solaranywhere,
                  33, -84, 'K', probability_of_exceedance=bad)
        must_raise(ctx, out, f'PoE {bad!r}', ValueError)
    # polling: every sequence of pending answers, then the verdict
    done, stamps, rows = sa_done(SA_VARS)
    fail = {'Status': 'Done', 'WeatherDataResults': [{
        'Status': 'Failure', 'ErrorMessages': [{'Message': 'no coverage'}]}]}
    pend = [Answer(200, {'Status': 'Pending'}),
            Answer(200, {'Status': 'InProgress', 'WeatherDataResults': []})]
    for n in range(ctx.pick(5, 8)):
        for seq in itertools.product(pend, repeat=n):
            for verdict, timeout in itertools.product(
                    ('done', 'fail'), (None, 12, 0.5)):
                ctx.state()
                kw = {} if timeout is None else {'timeout': timeout}
                ans = [accepted] + list(seq) + [Answer(
                    200, done if verdict == 'done' else fail)]
                out = run(Net(script(ans), modules=mods),
                          iotools.get_solaranywhere, 33, -84, 'K', **kw)
                tag = f'solaranywhere {n} pending, {verdict}, {kw}'
                limit = 300 if timeout is None else timeout
                waited = sum(out.naps)
                if isinstance(out.error, TimeoutError):
                    ctx.expect(waited > limit - 30 or waited >= limit
                               or limit < 30, 'gives up only after time-out',
                               f'{tag}: waited {waited}')
                    ctx.expect(n > 0 and waited <= limit + 60,
                               'time-out honoured', f'{tag}: {waited}')
                    ctx.expect(limit <= 60, 'gives up only after time-out',
                               tag)
                elif verdict == 'fail':
                    must_raise(ctx, out, tag, RuntimeError, 'no coverage')
                elif must_return(ctx, out, tag, n + 2):
                    ctx.expect(len(out.value[0]) == 3, 'complete answer',
                               tag)
                if n >= 1 and not isinstance(out.error, TimeoutError):
                    ctx.expect(waited > 0, 'polling pauses', tag)
    for timeout in (1, 30, 300, 3000):
        out = run(Net(lambda r: accepted if r.method == 'POST' else pend[0],
                      modules=mods), iotools.get_solaranywhere, 33, -84, 'K',
                  timeout=timeout)
        must_raise(ctx, out, f'never done, timeout {timeout}', TimeoutError)
        ctx.expect(timeout <= sum(out.naps) <= timeout + 60,
                   'time-out honoured', f'{timeout}: {sum(out.naps)}')

    def call():
        return iotools.get_solaranywhere(33, -84, 'K', timeout=20)
    # an answer that never becomes final runs into the time-out
    faults(ctx, call, 'solaranywhere', [
        (Answer(400, {'Message': 'bad key'}), ValueError, 'bad key'),
        (Answer(403, {'Message': 'no licence'}), ValueError, 'no licence')],
        modules=mods)
    for a in LOST + [Answer(500, HTML), Answer(200, ''), Answer(200, '[]')]:
        ctx.state()
        out = run(Net(script([accepted, a, pend[0]]), modules=mods), call)
        must_raise(ctx, out, f'solaranywhere poll {name_of(a)}')


# ----------------------------------------------------------------- SOLARGIS
SG_RES = {5: 'MIN_5', 10: 'MIN_10', 15: 'MIN_15', 30: 'MIN_30', 60: 'HOURLY',
          'PT05M': 'MIN_5', 'PT5M': 'MIN_5', 'PT10M': 'MIN_10', 'PT15M':
          'MIN_15', 'PT30M': 'MIN_30', 'PT60M': 'HOURLY', 'PT1H': 'HOURLY',
          'P1D': 'DAILY', 'P1M': 'MONTHLY', 'P1Y': 'YEARLY',
          'hourly': 'HOURLY', 'MIN_10': 'MIN_10'}
SG_MAP = {'GHI': ('ghi', 1, 0), 'GHIc': ('ghi_clear', 1, 0),
          'GHI_C': ('ghi_clear', 1, 0), 'DNI': ('dni', 1, 0),
          'DNIc': ('dni_clear', 1, 0), 'DNI_C': ('dni_clear', 1, 0),
          'DIF': ('dhi', 1, 0), 'GTI': ('poa_global', 1, 0),
          'GTI_C': ('poa_global_clear', 1, 0),
          'GTIc': ('poa_global_clear', 1, 0),
          'SE': ('solar_elevation', 1, 0), 'SA': ('solar_azimuth', 1, 180),
          'TEMP': ('temp_air', 1, 0), 'TD': ('temp_dew', 1, 0),
          'AP': ('pressure', 100, 0), 'RH': ('relative_humidity', 1, 0),
          'WS': ('wind_speed', 1, 0), 'WD': ('wind_direction', 1, 0),
          'INC': ('aoi', 1, 0), 'PWAT': ('precipitable_water', 0.1, 0)}
SG_NA = ['GHI', 'GHIc', 'DNI', 'DNIc', 'DIF', 'GTI', 'KT', 'PAR', 'PREC',
         'PWAT', 'SDWE', 'SFWE']


def solargis_answer(cols0, off, n=4, miss=0,
                    site=('48.612590', '20.827079', '7.0')):
    stamps = [D.datetime(2022, 3, 27, 22, 30, tzinfo=fixed(off))
              + D.timedelta(hours=k) for k in range(n)]
    table = []
    for i in range(n):
        table.append([-9.0 if (i + j) % 4 == miss and c in SG_NA
                      else round(1.5 + 7 * i - 3.25 * j, 2)
                      for j, c in enumerate(cols0)])
    rows = ''.join(
        f'<row dateTime="{t.isoformat(timespec="milliseconds")}" values="'
        + ' '.join(str(v) for v in r) + '"/>'
        for t, r in zip(stamps, table))
    text = (
        '<?xml version="1.0"?><dataDeliveryResponse xmlns="http://geomodel.eu'
        '/schema/ws/data" xmlns:ns2="http://geomodel.eu/schema/common/geo">'
        '<site id="s" lat="48.61259" lng="20.827079"><metadata>#15 MINUTE '
        'VALUES\n#Issued: 2023-09-03 12:40\n#Site name: A: B\n#Latitude: '
        f'{site[0]}\n#Longitude: {site[1]}\n#Elevation: {site[2]} m a.s.l.\n'
        '#Summarization type: interpolated\n#Summarization period: '
        '01/01/2022 - 01/01/2022\n</metadata><columns>' + ' '.join(cols0)
        + '</columns>' + rows + '</site></dataDeliveryResponse>')
    return text, stamps, table


@case(CASES, name='solargis: requests and answers')
def c_solargis(ctx):
    import xml.etree.ElementTree as ET
    root = 'https://solargis.info/ws/rest/datadelivery/request'
    colsets = [['GHI', 'DNI', 'DIF', 'SE', 'SA', 'TEMP', 'AP', 'PWAT'],
               ['GHI'], ['PWAT'], ['TEMP'], ['GHIc', 'DNIc', 'GTI', 'KT',
                                             'PAR', 'RH', 'WS', 'WD', 'TD',
                                             'INC', 'PREC', 'X9'],
               ['GHI_C', 'DNI_C', 'GTI_C'], ['GTIc', 'SDWE', 'SFWE']]
    spans = [('2022-01-01', '2022-01-02'),
             (pd.Timestamp('2019-12-31 23:00'), D.datetime(2020, 2, 29))]
    lat = list(itertools.product(colsets, [60], ['def'], ['def'], [True],
                                 [True, False], spans[:1], (0, 1, -3.5),
                                 range(4)))
    lat += list(itertools.product(
        colsets[:1], SG_RES, ('def', 'start', 'END'), ('def', 'GMT-03'),
        (True, False), (True,), spans, (0,), (0,)))
    for cols0, res, tt, tz, shade, mv, (s, e), off, miss in lat:
        ctx.state()
        site = (('48.612590', '20.827079', '7.0'), ('0.0', '-0.5', '-12.5'),
                ('-33.5', '0', '0'))[miss % 3]
        text, stamps, table = solargis_answer(cols0, off, miss=miss, site=site)
        kw = {}
        if tt != 'def':
            kw['timestamp_type'] = tt
        if tz != 'def':
            kw['tz'] = tz
        if not shade:
            kw.update(terrain_shading=False, url='https://sg.test/r',
                      timeout=8)
        if not mv:
            kw['map_variables'] = False
        tag = f'solargis {cols0} {res} {kw} off={off}'
        out = run(Net(script([Answer(200, text)])), iotools.get_solargis,
                  48.61259, 20.5, s, e, cols0, 'demo', res, **kw)
        if not must_return(ctx, out, tag, 1):
            continue
        req = out.log[0]
        wire(ctx, req, tag, 'POST', kw.get('url', root), {'key': 'demo'},
             {'Content-Type': 'application/xml'},
             timeout=kw.get('timeout', 30))
        try:
            x = ET.fromstring(req.body)
        except ET.ParseError as err:
            ctx.fail('request body', f'{tag}: {err}')
            continue
        got = dict(x.attrib)
        ns = '{http://geomodel.eu/schema/data/request}'
        st, pr = x.find(ns + 'site'), x.find(ns + 'processing')
        if st is None or pr is None:
            ctx.fail('request body', f'{tag}: {req.body}')
            continue
        got.update({'lat': st.get('lat'), 'lng': st.get('lng')}, **pr.attrib)
        got['timestampType'] = (pr.findtext(ns + 'timestampType') or '')
        got['timeZone'] = pr.findtext(ns + 'timeZone')
        want = {'dateFrom': ymd(s), 'dateTo': ymd(e), 'lat': '48.61259',
                'lng': '20.5', 'key': ' '.join(cols0),
                'summarization': SG_RES[res],
                'terrainShading': str(shade).lower(),
                'timestampType': 'CENTER' if tt == 'def' else tt.upper(),
                'timeZone': 'GMT+00' if tz == 'def' else tz}
        ctx.expect({k: got.get(k) for k in want} == want, 'request body',
                   f'{tag}: {got}')
        cols = []
        for j, c in enumerate(cols0):
            name, k, d = SG_MAP.get(c, (c, 1, 0)) if mv else (c, 1, 0)
            cols.append((name, [NAN if c in SG_NA and r[j] == -9 else
                                r[j] * k + d for r in table]))
        check(ctx, out.value[0], stamps, cols, tag, offset=off)
        for c in out.value[0].columns:
            try:
                ok = np.isnan(out.value[0][c].to_numpy(dtype=float)).sum() \
                    == sum(1 for v in dict(cols)[c] if v != v)
            except (TypeError, ValueError, KeyError) as err:
                ok = False
            ctx.expect(ok, 'solargis columns are numbers',
                       f'{tag}: {c} {out.value[0][c].dtype}')
        meta_check(ctx, out.value[1], {
            'latitude': float(site[0]), 'longitude': float(site[1]),
            'altitude': float(site[2])}, tag)
        ctx.expect(out.value[1].get('issued', '').strip() ==
                   '2023-09-03 12:40' and out.value[1].get(
                       'site name', '').strip() == 'A: B', 'metadata',
                   f'{tag}: {out.value[1]}')
        ctx.expect('interpolated' in out.value[1].get(
            'summarization type', ''), 'metadata', f'{tag}: {out.value[1]}')
    H = requests.HTTPError
    faults(ctx, lambda: iotools.get_solargis(
        48, 20, '2022-01-01', '2022-01-02', ['GHI'], 'k', 60), 'solargis', [
        (Answer(400, {'errors': ['unknown key'], 'code': 1}), H,
         'unknown key'), (Answer(401, {'error': 'who?'}), H, 'who?')])


# ------------------------------------------------------------------ SOLCAST
SC_MAP = {'air_temp': ('temp_air', lambda x: x),
          'surface_pressure': ('pressure', lambda x: x * 100),
          'dewpoint_temp': ('temp_dew', lambda x: x),
          'gti': ('poa_global', lambda x: x),
          'wind_speed_10m': ('wind_speed', lambda x: x),
          'wind_direction_10m': ('wind_direction', lambda x: x),
          'azimuth': ('solar_azimuth', lambda x: -x % 360),
          'precipitable_water': ('precipitable_water', lambda x: x / 10),
          'zenith': ('solar_zenith', lambda x: x),
          'clearsky_dhi': ('dhi_clear', lambda x: x),
          'clearsky_dni': ('dni_clear', lambda x: x),
          'clearsky_ghi': ('ghi_clear', lambda x: x),
          'clearsky_gti': ('poa_global_clear', lambda x: x)}


@case(CASES, name='solcast: requests and answers')
def c_solcast(ctx):
    root = 'https://api.solcast.com.au/data/'
    funcs = {'tmy': iotools.get_solcast_tmy,
             'historic': iotools.get_solcast_historic,
             'forecast': iotools.get_solcast_forecast,
             'live': iotools.get_solcast_live}
    extras = [{}, {'hours': 3}, {'time_zone': 10, 'output_parameters':
                                 'ghi,dni'}]
    colsets = [['dni', 'ghi'], list(SC_MAP), ['azimuth'], ['x', 'air_temp']]
    for (which, fn), extra, cols0, period, mv, top, (la, lo) in \
            itertools.product(
                funcs.items(), extras, colsets,
                (('PT30M', 30), ('PT5M', 5), ('PT60M', 60)), (True, False),
                ('estimated_actuals', 'forecasts'),
                ((-33.85, 151.2), (5, 0))):
        calls = [((), {})]
        if which == 'historic':
            calls = [(('2020-01-01T00:00Z',), {'duration': 'P1D'}),
                     (('2020-01-01',), {'end': '2020-01-02'}),
                     ((pd.Timestamp('2020-01-01', tz='UTC'),),
                      {'end': pd.Timestamp('2020-01-02', tz='UTC')})]
        for pos, hist in calls:
            ctx.state()
            ends = [D.datetime(2020, 1, 1, 23, 30, tzinfo=UTC)
                    + D.timedelta(minutes=period[1] * k) for k in range(4)]
            az = [0.0, -90.0, 90.0, 180.0]
            table = [[az[i] if c == 'azimuth' else 10.5 * i + j
                      for j, c in enumerate(cols0)] for i in range(4)]
            recs = [dict([('period_end', t.strftime(
                '%Y-%m-%dT%H:%M:%S.0000000Z')), ('period', period[0])]
                + list(zip(cols0, r))) for t, r in zip(ends, table)]
            kw = dict(extra, **hist)
            if not mv:
                kw['map_variables'] = False
            out = run(Net(script([Answer(200, {top: recs})])), fn, la, lo,
                      *(pos + ('KEY',)), **kw) if which == 'historic' else \
                run(Net(script([Answer(200, {top: recs})])), fn, la, lo,
                    'KEY', **kw)
            tag = f'solcast {which} {pos} {kw} {period[0]}'
            if not must_return(ctx, out, tag, 1):
                continue
            q = dict(out.log[0].query)
            if q.pop('api_key', 'KEY') != 'KEY':
                ctx.fail('request field value', f'{tag}: api_key')
            want = {'latitude': la, 'longitude': lo, 'format': 'json'}
            want.update(extra)
            for k, v in list(hist.items()) + ([('start', pos[0])]
                                              if pos else []):
                g = q.pop(k, None)
                try:
                    ok = g == v or pd.Timestamp(g) == pd.Timestamp(v)
                except (TypeError, ValueError):
                    ok = False
                ctx.expect(ok, 'request period', f'{tag}: {k}={g}')
            out.log[0].query, out.log[0].pairs = q, list(q.items())
            wire(ctx, out.log[0], tag, 'GET',
                 root + which + '/radiation_and_weather', want,
                 {'Authorization': 'Bearer KEY'})
            df, meta = out.value
            meta_check(ctx, meta, {'latitude': la, 'longitude': lo}, tag)
            if not mv:
                ctx.expect(list(df.columns) == ['period_end', 'period']
                           + cols0 and [list(r) for r in
                                        df[cols0].to_numpy()] == table and
                           [pd.Timestamp(t) for t in df['period_end']] ==
                           [pd.Timestamp(t) for t in ends],
                           'solcast raw frame', tag)
                continue
            cols = []
            for j, c in enumerate(cols0):
                name, f = SC_MAP.get(c, (c, lambda x: x))
                cols.append((name, [f(r[j]) for r in table]))
            check(ctx, df, [t - D.timedelta(minutes=period[1] / 2)
                            for t in ends], cols, tag, offset=0)
    for which, fn in funcs.items():
        def call(fn=fn, which=which):
            if which == 'historic':
                return fn(1, 2, '2020-01-01', 'K', duration='P1D')
            return fn(1, 2, 'K')
        for mv in (True,):
            faults(ctx, call, f'solcast {which}', [
                (Answer(400, {'response_status': {'message': 'bad key'}}),
                 Exception, 'bad key'),
                (Answer(202, {'response_status': {'message': 'wait'}}),
                 Exception, 'wait')],
                garbage=[a for a in GARBAGE])


# ---------------------------------------------------------------- METEONORM
MN_MAP = {'global_horizontal_irradiance': 'ghi',
          'diffuse_horizontal_irradiance': 'dhi',
          'direct_normal_irradiance': 'dni',
          'direct_horizontal_irradiance': 'bhi',
          'global_clear_sky_irradiance': 'ghi_clear',
          'diffuse_clear_sky_irradiance': 'dhi_clear',
          'direct_normal_clear_sky_irradiance': 'dni_clear',
          'direct_horizontal_clear_sky_irradiance': 'bhi_clear',
          'diffuse_tilted_irradiance': 'poa_diffuse',
          'direct_tilted_irradiance': 'poa_direct',
          'global_tilted_irradiance': 'poa', 'temperature': 'temp_air',
          'dew_point_temperature': 'temp_dew'}
MN_PV = {v: k for k, v in MN_MAP.items()}


def mn_body(codes, nulls, step=60, start=D.datetime(2024, 12, 31, 22)):
    n = 4
    left = [start + D.timedelta(minutes=step * k) for k in range(n)]
    right = [t + D.timedelta(minutes=step) for t in left]
    table = {c: [None] * n if False else [10.5 * i + j for i in range(n)]
             for j, c in enumerate(codes)}
    vals = {c: (None if c in nulls else table[c]) for c in codes}
    fmt = '%Y-%m-%dT%H:%M:%SZ'
    return {'values': vals, 'start_times': [t.strftime(fmt) for t in left],
            'end_times': [t.strftime(fmt) for t in right],
            'meta': {'lat': 50.0, 'lon': 10.0, 'altitude': 290,
                     'frequency': 'x'}}, left, right, table


@case(CASES, name='meteonorm: requests and answers')
def c_meteonorm(ctx):
    root = 'https://api.meteonorm.com/v1/'
    funcs = {'forecast/basic': (iotools.get_meteonorm_forecast_basic, None),
             'forecast/precision': (
                 iotools.get_meteonorm_forecast_precision, '15_minutes'),
             'observation/realtime': (
                 iotools.get_meteonorm_observation_realtime, '15_minutes'),
             'observation/training': (
                 iotools.get_meteonorm_observation_training, '15_minutes')}
    times = [('2023-01-01', '2023-01-01T00:00:00Z'),
             ('2023-06-01 12:30', '2023-06-01T12:30:00Z'),
             (pd.Timestamp('2023-06-01 12:00', tz='UTC'),
              '2023-06-01T12:00:00Z'),
             (pd.Timestamp('2023-06-01 12:00', tz='Etc/GMT-5'),
              '2023-06-01T07:00:00Z'),
             ('2023-06-01 23:00-03:00', '2023-06-02T02:00:00Z'),
             (D.datetime(2023, 12, 31, 23, 59, 59), '2023-12-31T23:59:59Z'),
             (pd.Timestamp('2023-07-01 00:00', tz='Europe/Berlin'),
              '2023-06-30T22:00:00Z'),
             ('now', 'now'), ('+3hours', '+3hours'), ('+1days', '+1days')]
    pars = [('all', 'all'), ('ghi', 'global_horizontal_irradiance'),
            (['ghi', 'poa', 'snow_cover'], 'global_horizontal_irradiance,'
             'global_tilted_irradiance,snow_cover'),
            (list(MN_PV), ','.join(MN_PV.values())),
            (['temperature'], 'temperature')]
    hor = [('auto', 'auto'), ('flat', 'flat'),
           (list(range(360)), ','.join(str(i) for i in range(360))),
           ([0.5] * 3, '0.5,0.5,0.5'), ((1, 0, 2), '1,0,2'),
           (np.array([3, 0, 1]), '3,0,1')]
    codes0 = list(MN_MAP) + ['snow_cover']
    for end, (fn, freq0) in funcs.items():
        lat = list(itertools.product(times, times, pars[:1], hor[:1], [None],
                                     [None], [False], [True]))
        lat += list(itertools.product(
            times[:1], times[3:4], pars, hor, ('1h', '15min', '1min', 'h', 'min',
                                         '15_minutes', '1_hour', None)
            if freq0 else (None,), (None, (30.5, 90)), (False, True),
            (True, False)))
        for (s, ss), (e, es), (par, pp), (hz, hh), step, plane, ii, mv in \
                lat:
            ctx.state()
            nulls = () if ii else ('snow_cover', 'temperature')
            body, left, right, table = mn_body(codes0, nulls, 15)
            kw = {}
            if par != 'all':
                kw['parameters'] = par
            if not isinstance(hz, str) or hz != 'auto':
                kw['horizon'] = hz
            if step is not None:
                kw['time_step'] = step
            if plane:
                kw.update(surface_tilt=plane[0], surface_azimuth=plane[1],
                          url='https://mn.test/v2/')
            if ii:
                kw['interval_index'] = True
            if not mv:
                kw['map_variables'] = False
            tag = f'meteonorm {end} {s}..{e} ' + str({
                k: v for k, v in kw.items() if k != 'horizon'})
            out = run(Net(script([Answer(200, body)])), fn, 50, 10.5, s, e,
                      'KEY', **kw)
            if not must_return(ctx, out, tag, 1):
                continue
            freq = {'1h': '1_hour', '15min': '15_minutes', 'h': '1_hour',
                    'min': '1_minute', '1min': '1_minute',
                    None: freq0}.get(step, step)
            wire(ctx, out.log[0], tag, 'GET',
                 (kw['url'] if plane else root) + end, {
                     'lat': 50, 'lon': 10.5, 'start': ss, 'end': es,
                     'parameters': pp, 'surface_tilt': plane[0] if plane
                     else 0, 'surface_azimuth': plane[1] if plane else 180,
                     'horizon': hh, 'frequency': freq,
                     'response_format': 'json'},
                 {'Authorization': 'Bearer KEY'})
            mn_answer(ctx, out, tag, codes0, nulls, left, right, table, ii,
                      mv)

        def call(fn=fn):
            return fn(50, 10, '2023-01-01', '2023-01-02', 'K')
        faults(ctx, call, f'meteonorm {end}', [
            (Answer(403, {'error': {'message': 'invalid api key'}}),
             requests.HTTPError, 'invalid api key'),
            (Answer(400, {'error': {'message': 'bad horizon'}}),
             requests.HTTPError, 'bad horizon')])
    # TMY
    fn = iotools.get_meteonorm_tmy
    dims = {'terrain_situation': [None, 'valley'], 'albedo': [None, 0, 0.5],
            'turbidity': [None, [5.5] + list(range(2, 13)), 'auto',
                          tuple(range(12))],
            'random_seed': [None, 0, 100],
            'clear_sky_radiation_model': [None, 'solis'],
            'future_scenario': [None, 'ssp1_26'],
            'future_year': [None, 2050], 'time_step': [None, '1min', '1h'],
            'surface_tilt': [None, 20], 'surface_azimuth': [None, 90],
            'horizon': [None, 'flat', [1, 2], (0, 0)],
            'parameters': [None, 'dhi', ['bhi', 'temp_dew']],
            'interval_index': [None, True], 'map_variables': [None, False]}
    keys = list(dims)
    pts = [{}] + [{k: v} for k in keys for v in dims[k][1:]]
    pts += [{a: x, b: y} for a, b in itertools.combinations(keys, 2)
            for x in dims[a][1:] for y in dims[b][1:]]
    if ctx.thorough:
        pts += [dict(zip(t, v)) for t in itertools.combinations(keys, 3)
                for v in itertools.product(*[dims[k][1:] for k in t])]
    for kw in pts:
        ctx.state()
        body, left, right, table = mn_body(codes0, ('snow_cover',))
        out = run(Net(script([Answer(200, body)])), fn, 50, 10.5, 'KEY', **kw)
        tag = f'meteonorm tmy {kw}'
        if not must_return(ctx, out, tag, 1):
            continue

        def join(v):
            return v if isinstance(v, str) else ','.join(map(str, v))
        par = kw.get('parameters', 'all')
        par = [par] if isinstance(par, str) else par
        wire(ctx, out.log[0], tag, 'GET', root + 'climate/tmy', {
            'lat': 50, 'lon': 10.5,
            'parameters': ','.join(MN_PV.get(p, p) for p in par),
            'surface_tilt': kw.get('surface_tilt', 0),
            'surface_azimuth': kw.get('surface_azimuth', 180),
            'horizon': join(kw.get('horizon', 'auto')),
            'frequency': {'1h': '1_hour', '1min': '1_minute'}[
                kw.get('time_step', '1h')], 'response_format': 'json',
            'situation': kw.get('terrain_situation', 'open'),
            'albedo': kw.get('albedo'),
            'turbidity': join(kw.get('turbidity', 'auto')),
            'random_seed': kw.get('random_seed'),
            'clear_sky_radiation_model': kw.get('clear_sky_radiation_model',
                                                'esra'),
            'future_scenario': kw.get('future_scenario'),
            'future_year': kw.get('future_year')},
            {'Authorization': 'Bearer KEY'})
        mn_answer(ctx, out, tag, codes0, ('snow_cover',), left, right, table,
                  bool(kw.get('interval_index')),
                  kw.get('map_variables', True))
    faults(ctx, lambda: fn(50, 10, 'K'), 'meteonorm tmy', [
        (Answer(403, {'error': {'message': 'invalid api key'}}),
         requests.HTTPError, 'invalid api key')])


def mn_answer(ctx, out, tag, codes, nulls, left, right, table, ii, mv):
    df, meta = out.value
    cols = [(MN_MAP.get(c, c) if mv else c, table[c]) for c in codes
            if c not in nulls]
    if ii:
        ok = isinstance(df.index, pd.IntervalIndex) and \
            df.index.closed == 'left' and \
            [t.to_pydatetime() for t in df.index.left] == [
                t.replace(tzinfo=UTC) for t in left] and \
            [t.to_pydatetime() for t in df.index.right] == [
                t.replace(tzinfo=UTC) for t in right]
        ctx.expect(ok, 'interval index', f'{tag}: {df.index}')
        ctx.expect(list(df.columns) == [c for c, _ in cols] and all(
            list(df[c]) == v for c, v in cols), 'columns', tag)
    else:
        check(ctx, df, [(a + (b - a) / 2).replace(tzinfo=UTC)
                        for a, b in zip(left, right)], cols, tag, offset=0)
    want = {'latitude': 50.0, 'longitude': 10.0} if mv else {
        'lat': 50.0, 'lon': 10.0}
    meta_check(ctx, meta, dict(want, altitude=290), tag)


# --------------------------------------------------------------------- ERA5
ERA_MAP = {'d2m': 'temp_dew', 't2m': 'temp_air', 'sp': 'pressure',
           'ssrd': 'ghi', 'fdir': 'bhi', 'tp': 'precipitation',
           'strd': 'longwave_down'}
ERA_REQ = {'temp_dew': '2m_dewpoint_temperature', 'temp_air':
           '2m_temperature', 'pressure': 'surface_pressure', 'ghi':
           'surface_solar_radiation_downwards', 'bhi':
           'total_sky_direct_solar_radiation_at_surface', 'precipitation':
           'total_precipitation', 'longwave_down':
           'surface_thermal_radiation_downwards'}
ERA_UNIT = {'d2m': lambda x: x - 273.15, 't2m': lambda x: x - 273.15,
            'sst': lambda x: x - 273.15, 'skt': lambda x: x - 273.15,
            'ssrd': lambda x: x / 3600, 'fdir': lambda x: x / 3600,
            'strd': lambda x: x / 3600, 'tp': lambda x: x * 100}


def era_zip(cols0, n=3):
    stamps = [D.datetime(2019, 12, 31, 22) + D.timedelta(hours=k)
              for k in range(n)]
    table = [[290.5 + 10 * i + j for j in range(len(cols0))]
             for i in range(n)]
    lines = [','.join(['valid_time'] + cols0 + ['latitude', 'longitude'])]
    lines += [','.join([t.strftime('%Y-%m-%d %H:%M:%S')]
                       + [str(v) for v in r] + ['40.25', '-80.0'])
              for t, r in zip(stamps, table)]
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, 'w') as z:
        z.writestr('data.csv', '\n'.join(lines) + '\n')
    return buf.getvalue(), stamps, table


@case(CASES, name='era5: requests, polling, answers')
def c_era5(ctx):
    mods = (m_era5,)
    root = 'https://cds.climate.copernicus.eu/api/retrieve/v1/'
    post = Answer(200, {'jobID': 'j-1', 'status': 'accepted',
                        'metadata': {'origin': 'x'}})
    done = Answer(200, {'status': 'successful'})
    link = Answer(200, {'asset': {'value': {'href':
                                            'https://dl.test/d.zip'}}})
    colsets = [['t2m', 'ssrd', 'tp'], ['d2m'], list(ERA_UNIT)
               + ['sp', 'u10', 'v10', 'zz']]
    asks = [(['ghi', 'temp_air'], None), (list(ERA_REQ), None),
            (['2m_temperature', 'pressure', 'snow_depth'], None)]
    spans = [('2020-01-01', '2020-01-02', '2020-01-01/2020-01-02'),
             (pd.Timestamp('2020-01-01 22:00', tz='Etc/GMT+5'),
              pd.Timestamp('2020-03-01 03:00', tz='Etc/GMT-5'),
              '2020-01-02/2020-02-29'),
             (D.datetime(2019, 12, 31, 23), D.date(2020, 1, 1),
              '2019-12-31/2020-01-01')]
    for cols0, (ask, _), (s, e, span), mv, (la, lo), opt in \
            itertools.product(colsets, asks, spans, (True, False),
                              ((40.25, -80), (-5, 0)),
                              ({}, {'timeout': 9, 'url':
                                    'https://era.test/v1/'})):
        ctx.state()
        blob, stamps, table = era_zip(cols0)
        kw = dict(opt)
        if not mv:
            kw['map_variables'] = False
        out = run(Net(script([post, done, link, Answer(200, blob)]),
                      modules=mods), iotools.get_era5, la, lo, s, e, ask,
                  'KEY', **kw)
        tag = f'era5 {s} {ask} {kw}'
        if not must_return(ctx, out, tag, 4):
            continue
        base, to = opt.get('url', root), opt.get('timeout', 60)
        hd = {'PRIVATE-TOKEN': 'KEY'}
        got = out.log[0].json
        vs = got.get('inputs', {}).pop('variable', None)
        ctx.expect(isinstance(vs, list) and [
            ERA_MAP.get(v, v) if v in ERA_MAP else
            {b: a for a, b in ERA_REQ.items()}.get(v, v) for v in vs] ==
            [{b: a for a, b in ERA_REQ.items()}.get(v, v) for v in ask] and
            not any(v in ERA_REQ for v in vs),
            'request body', f'{tag}: variables {vs}')
        ctx.expect(got == {'inputs': {
            'location': {'longitude': lo, 'latitude': la}, 'date': [span],
            'data_format': 'csv'}}, 'request body', f'{tag}: {got}')
        wire(ctx, out.log[0], tag, 'POST', base + 'processes/reanalysis-era5-'
             'single-levels-timeseries/execution', {}, hd, timeout=to)
        wire(ctx, out.log[1], tag, 'GET', base + 'jobs/j-1', {}, hd,
             timeout=to)
        wire(ctx, out.log[2], tag, 'GET', base + 'jobs/j-1/results', {}, hd,
             timeout=to)
        wire(ctx, out.log[3], tag, 'GET', 'https://dl.test/d.zip', {})
        cols = []
        for j, c in enumerate(cols0):
            f = ERA_UNIT.get(c, lambda x: x) if mv else (lambda x: x)
            cols.append((ERA_MAP.get(c, c) if mv else c,
                         [f(r[j]) for r in table]))
        check(ctx, out.value[0], [t.replace(tzinfo=UTC) for t in stamps],
              cols, tag, offset=0)
        m = out.value[1]
        ctx.expect(m.get('jobID') == 'j-1' and m.get('latitude') == 40.25 and
                   m.get('longitude') == -80 and m.get('origin') == 'x',
                   'metadata', f'{tag}: {m}')

    def call(timeout=20):
        return iotools.get_era5(40, -80, '2020-01-01', '2020-01-02',
                                ['ghi'], 'K', timeout=timeout)
    blob, stamps, table = era_zip(['ssrd'])
    get = [link, Answer(200, blob)]
    words = {'accepted': Answer(200, {'status': 'accepted'}),
             'running': Answer(200, {'status': 'running'}),
             'failed': Answer(200, {'status': 'failed'}),
             'successful': done}
    for n in range(1, ctx.pick(5, 7)):
        for seq in itertools.product(words, repeat=n):
            final = [i for i, w in enumerate(seq)
                     if w in ('failed', 'successful')]
            if not final or final[0] != n - 1:
                continue
            ctx.state()
            out = run(Net(script([post] + [words[w] for w in seq] + get),
                          modules=mods), call)
            tag = f'era5 {seq}'
            if seq[-1] == 'failed':
                must_raise(ctx, out, tag, Exception, 'failed')
                ctx.expect(len(out.log) == n + 1, 'number of requests', tag)
            elif must_return(ctx, out, tag, n + 3):
                check(ctx, out.value[0], [t.replace(tzinfo=UTC)
                                          for t in stamps],
                      [('ghi', [r[0] / 3600 for r in table])], tag)
            ctx.expect(n == 1 or sum(out.naps) > 0, 'polling pauses', tag)
    for timeout in (1, 5, 60, 100):
        ctx.state()

        def handler(r):
            return post if r.method == 'POST' else words['running']
        out = run(Net(handler, modules=mods), call, timeout)
        must_raise(ctx, out, f'era5 never done {timeout}',
                   requests.exceptions.Timeout)
        ctx.expect(timeout - 1 <= sum(out.naps) <= timeout + 10,
                   'time-out honoured', f'{timeout}: {sum(out.naps)}')
        # a job that finishes just in time is delivered
        left = {'k': 0}

        def late(r, left=left):
            if r.method == 'POST':
                return post
            if r.url.endswith('results'):
                return link
            if r.url.startswith('https://dl'):
                return Answer(200, blob)
            left['k'] += 1
            return done if left['k'] > max(timeout - left['spare'], 0) else \
                words['running']
        for spare in (1, 0):
            left.update(k=0, spare=spare)
            out = run(Net(late, modules=mods), call, timeout)
            if must_return(ctx, out, f'era5 done just in time {timeout}'):
                ctx.expect(sum(out.naps) <= timeout + 1, 'time-out honoured',
                           f'{timeout}: {sum(out.naps)}')
    for pre in ([], [post], [post, done], [post, done, link]):
        docs = []
        if not pre:
            docs = [(Answer(401, {'title': 'auth failed'}), Exception,
                     'auth failed')]
        garbage = GARBAGE
        faults(ctx, call, 'era5', docs, modules=mods, prefix=pre,
               garbage=garbage)
    out = run(Net(script([post, done, link, Answer(200, era_zip(
        ['ssrd'], 0)[0])]), modules=mods), call)
    if must_return(ctx, out, 'era5 empty answer', 4):
        ctx.expect(len(out.value[0]) == 0, 'empty answer', 'era5')


# ------------------------------------------------------------------- MERRA2
M2_MAP = {'SWGDN': 'ghi', 'SWGDNCLR': 'ghi_clear', 'ALBEDO': 'albedo',
          'LWGNT': 'longwave_net', 'LWGAB': 'longwave_down', 'T2M':
          'temp_air', 'PS': 'pressure', 'TOTEXTTAU': 'aod550', 'TQV':
          'precipitable_water'}


def m2_text(k, undef, n=4):
    stamps = [D.datetime(2020, 2, 29, 22, 30) + D.timedelta(hours=i)
              for i in range(n)]
    vals = [undef if (i + k) % 4 == 3 else 280.5 + 3 * i + k
            for i in range(n)]
    lines = [f'prod_name,M2T1{k}', 'title,a,b', f'undef,{undef}',
             'lat,40.01', 'lon,-80.01', 'unit,x', '', 'Timestamp,Data']
    lines += [f'{t:%Y-%m-%d %H:%M:%S},{v}' for t, v in zip(stamps, vals)]
    return '\n'.join(lines) + '\n', stamps, vals


@case(CASES, name='merra2: requests and answers')
def c_merra2(ctx):
    login = 'https://urs.earthdata.nasa.gov/api/users/find_or_create_token'
    url = 'https://api.giovanni.earthdata.nasa.gov/timeseries'
    token = Answer(200, {'access_token': 'TOK', 'token_type': 'Bearer'})
    varsets = [['SWGDN'], ['T2M', 'PS'], list(M2_MAP), ['U10M', 'T2M'],
               ('TQV', 'SWGDN')]
    spans = [('2020-06-01 00:30', '2020-06-01T23:30', '2020-06-01T00:30:00/'
              '2020-06-01T23:30:00'),
             (pd.Timestamp('2020-06-01 00:00', tz='Etc/GMT+5'),
              pd.Timestamp('2020-06-02 00:00', tz='Etc/GMT-5'),
              '2020-06-01T05:00:00/2020-06-01T19:00:00'),
             (D.datetime(2020, 2, 29), pd.Timestamp('2020-03-01', tz='UTC'),
              '2020-02-29T00:00:00/2020-03-01T00:00:00')]
    for vs, per, (s, e, span), mv, (la, lo, loc), undef in \
            itertools.product(
                varsets, (False, True), spans, (True, False),
                ((40.01, -80.01, '[40.01,-80.01]'),
                 (-5, 0, '[-5,0]'),
                 (33.123456, -84.98765, '[33.1235,-84.9877]')),
                (1e15, -9999.0)):
        ctx.state()
        sets = [f'M2T1NX{"RSF"[i % 3]}AD.5.12.4' for i in range(len(vs))]
        ds = sets if per else 'M2T1NXRAD.5.12.4'
        names = sets if per else [ds] * len(vs)
        texts = [m2_text(k, undef) for k in range(len(vs))]
        kw = {} if mv else {'map_variables': False}
        out = run(Net(script([token] + [Answer(200, t[0]) for t in texts])),
                  iotools.get_merra2, la, lo, s, e, 'us:er'[:2], 'p w', ds,
                  vs, **kw)
        tag = f'merra2 {vs} per={per} {s} {kw}'
        if not must_return(ctx, out, tag, 1 + len(vs)):
            continue
        import base64
        wire(ctx, out.log[0], tag, 'POST', login, {}, {
            'Authorization': 'Basic ' + base64.b64encode(
                b'us:p w').decode()})
        for r, v, d in zip(out.log[1:], vs, names):
            q = dict(r.query)
            gl = q.pop('location', '[9,9]').strip('[]').split(',')
            ctx.expect(len(gl) == 2 and abs(float(gl[0]) - la) < 0.6e-4 and
                       abs(float(gl[1]) - lo) < 0.6e-4,
                       'request coordinates', f'{tag}: {gl}')
            r.query, r.pairs = q, list(q.items())
            wire(ctx, r, tag, 'GET', url, {
                'data': d.replace('.', '_') + '_' + v, 'time': span},
                {'Authorization': 'Bearer TOK'})
        cols = []
        for v, (t, st, vals) in zip(vs, texts):
            f = (lambda x: x - 273.15) if mv and v == 'T2M' else \
                (lambda x: x)
            cols.append((M2_MAP.get(v, v) if mv else v,
                         [NAN if x == undef else f(x) for x in vals]))
        check(ctx, out.value[0], [t.replace(tzinfo=UTC)
                                  for t in texts[0][1]], cols, tag, offset=0)
        m = out.value[1]
        ctx.expect(m.get('dataset') == ds and m.get('latitude') == 40.01 and
                   m.get('longitude') == -80.01, 'metadata', f'{tag}: {m}')
        for k, v in enumerate(vs):
            ctx.expect(m.get(v, {}).get('prod_name') == f'M2T1{k}' and
                       m[v].get('title') == 'a,b', 'metadata',
                       f'{tag}: {m.get(v)}')
    # variables that do not share their times: every time, missing as NaN
    for shift in (-2, -1, 1, 2, 5):
        ctx.state()
        a, b = m2_text(0, 1e15), m2_text(1, 1e15)
        late = [t + D.timedelta(hours=shift) for t in b[1]]
        text = b[0]
        for o, n in zip([f'{t:%Y-%m-%d %H:%M:%S}' for t in b[1]],
                        [f'{t:%Y/%m/%d %H:%M:%S}' for t in late]):
            text = text.replace(o, n)
        text = text.replace('2020/', '2020-').replace('/', '-')
        out = run(Net(script([token, Answer(200, a[0]), Answer(200, text)])),
                  iotools.get_merra2, 40, -80, '2020-06-01', '2020-06-02',
                  'u', 'p', 'A.1', ['SWGDN', 'PS'])
        tag = f'merra2 times apart by {shift} h'
        if must_return(ctx, out, tag, 3):
            every = sorted(set(a[1]) | set(late))
            cols = [(nm, [NAN if t not in st or v[st.index(t)] == 1e15 else
                          v[st.index(t)] for t in every])
                    for nm, st, v in (('ghi', a[1], a[2]),
                                      ('pressure', late, b[2]))]
            check(ctx, out.value[0], [t.replace(tzinfo=UTC) for t in every],
                  cols, tag, offset=0)
    H = requests.HTTPError

    def call():
        return iotools.get_merra2(40, -80, '2020-06-01', '2020-06-02', 'u',
                                  'p', 'A.1', ['SWGDN', 'T2M'])
    good = Answer(200, m2_text(0, 1e15)[0])
    docs = [(Answer(401, {'error': 'x'}), H, '401'),
            (Answer(500, HTML), H, '500')]
    for pre in ([], [token], [token, good]):
        faults(ctx, call, 'merra2', docs, prefix=pre)


# --------------------------------------------------------- cut-off downloads
def cut_rows(ctx, whole, out, tag, rows, loose=0):
    """A text cut after a line: an error, or exactly the rows before the cut
    (`loose`: the last ones may be partly missing)."""
    ctx.step()
    if not out.ok:
        ctx.outcome(type(out.error).__name__)
        ctx.expect(isinstance(out.error, Exception), 'cut file: endless',
                   f'{tag}: {out.error!r}')
        return
    df = out.value[0] if isinstance(out.value, tuple) else out.value
    ctx.outcome('rows %d' % min(len(df), 3))
    n = len(df)
    if not ctx.expect(rows <= n <= rows + bool(loose),
                      'cut file: rows before the cut',
                      f'{tag}: {n} rows, {rows} in the file'):
        return
    ctx.expect(list(df.index[:rows]) == list(whole.index[:rows]),
               'cut file: times', tag)
    for c in whole.columns:
        if c not in df.columns:
            ctx.expect(False, 'cut file: column lost', f'{tag} {c}')
            continue
        a, b = list(df[c].iloc[:rows]), list(whole[c].iloc[:rows])
        ctx.expect(all(same(x, y) for x, y in zip(a, b)),
                   'cut file: values', f'{tag} {c}: {a[:3]} / {b[:3]}')


def cut_texts():
    """name -> (reader, text, first data line, lines per row, kwargs)."""
    day = D.datetime(2020, 2, 29)
    stamps = [day + D.timedelta(minutes=k) for k in (0, 1, 59, 60, 719)]
    out = []

    def put(name, fn, text, head, per=1, foot=0, **kw):
        out.append((name, fn, text, head, per, foot, kw))
    put('psm4', iotools.read_nsrdb_psm4,
        psm_text(['GHI', 'Cloud Type'], day, 30, -7, 40.0, -105.0, 9)[0], 3)
    put('pvgis hourly', iotools.read_pvgis_hourly,
        pvgis_hourly_answer()[1], 7, foot=2, pvgis_format='csv')
    st, tb = I01.pvgis_tmy([2016] * 12)
    st, tb = ([x for x, y in zip(z, st) if (y.month, y.day) != (2, 29)]
              for z in (st, tb))
    put('pvgis tmy csv', iotools.read_pvgis_tmy, I01.pvgis_tmy_texts(
        st, tb, [2016] * 12)[1], 18, foot=5, pvgis_format='csv')
    keep = [0, 1, 2, 743, 744]
    t = I01.pvgis_tmy_texts([st[k] for k in keep], [tb[k] for k in keep],
                            [2016] * 12)
    put('pvgis tmy epw', iotools.read_pvgis_tmy, t[2], 8,
        pvgis_format='epw')
    edges = I01.cams_edges('1h', day, 5)
    for label in ('left', 'right'):
        put('cams ' + label, iotools.read_cams,
            I01.cams_text('1h', edges, I01.CAMS_COLS[0],
                          [[i * 1.5 + j for j in range(
                              len(I01.CAMS_COLS[0]))] for i in range(5)],
                          55.0, 12.0, 3.0), 15, label=label)
    for lrs in (('0100',), ('0100', '0300'), ('0300', '0500')):
        text, sel = I01.bsrn_file(2020, 2, lrs, 10.0, 20.0, 5,
                                  [(0, 3), (90, 1)], 2, stamps)
        first = [i for i, x in enumerate(text.split('\n'))
                 if x[:2] in ('*C', '*U') and x[2:6] == lrs[0]][0] + 1
        put('bsrn ' + lrs[0] + ('+' if lrs[1:] else ''), iotools.read_bsrn,
            text, first, {'0100': 2, '0300': 1, '0500': 2}[lrs[0]],
            foot=len(text.split('\n')) - 1 - first - len(stamps) * {
                '0100': 2, '0300': 1, '0500': 2}[lrs[0]],
            logical_records=(lrs[0],))
    put('surfrad', iotools.read_surfrad, I01.surf_file(
        '   37.7  -105.92 2317 m version 1', stamps)[0], 2)
    put('solrad', iotools.read_solrad, solrad_file(day, -7)[0], 2)
    put('srml', iotools.read_srml, '94255\t2020\t1000\t0\t2010\t0\n'
        + ''.join(f'60\t{h}00\t{h * 3}.5\t12\t{h}.0\t11\n'
                  for h in range(1, 8)), 1)
    put('midc', iotools.read_midc, 'DATE (MM/DD/YYYY),MST,Global [W/m^2]\n'
        + ''.join(f'02/29/2020,{t:%H:%M},{i * 7.5}\n'
                  for i, t in enumerate(stamps)), 1,
        variable_map={'Global [W/m^2]': 'ghi'})
    put('tmy3', iotools.read_tmy3, '\n'.join(I01.tmy3_file(
        [2001] * 12, (1, 12, 24), -7)[0].split('\n')[:14]) + '\n', 2)
    lines = [' 94008 SOME_PLACE             MT  -7 N 48 13 W 106 37   700']
    lines += [I01.tmy2_record(i, 1988, 2, 28, h)[0]
              for i, h in enumerate((1, 2, 23, 24))]
    put('tmy2', iotools.read_tmy2, '\n'.join(lines) + '\n', 1)
    put('epw', iotools.read_epw, '\n'.join(I01.epw_file(
        1, [2011] * 12, 52.0, 5.0, -2)[0].split('\n')[:18]) + '\n', 8)
    put('crn', iotools.read_crn, '\n'.join(I01.crn_line(
        t, t, i, 1)[0] for i, t in enumerate(stamps)) + '\n', 0)
    sa = ['0,X,NA,-7,40.0,-105.0,41,"Data Version: 3.6 / Type: T / LatLon '
          'Resolution: 0.010"',
          'ObservationTime(LST),Global Horizontal Irradiance (GHI) W/m2,'
          'AmbientTemperature (deg C)']
    sa += [f'02/29/2020 {h:02d}:00,{h},-999' for h in range(1, 6)]
    put('solaranywhere', iotools.read_solaranywhere, '\n'.join(sa) + '\n', 2)
    return out


@case(CASES, name='files and answers cut off anywhere')
def c_cut(ctx):
    quietnet = script([])
    with Scratch() as s:
        for name, fn, text, head, per, foot, kw in cut_texts():
            lines = text.split('\n')
            if lines[-1] == '':
                lines.pop()
            path = s.put('whole.dat', text)
            out = run(Net(quietnet), fn, path, **kw)
            if not must_return(ctx, out, 'whole ' + name):
                continue
            whole = out.value[0] if isinstance(out.value, tuple) \
                else out.value
            total = (len(lines) - head - foot) // per
            ctx.expect(len(whole) == total, 'whole file read',
                       f'{name}: {len(whole)} / {total}')
            for k in range(len(lines) + 1):
                if 20 < k < len(lines) - 8:
                    continue
                for end in ('\n', ''):
                    if k == 0 and end:
                        continue
                    ctx.state()
                    got = min(max(0, k - head), total * per)
                    path = s.put('cut.dat', '\n'.join(lines[:k]) + end)
                    out = run(Net(quietnet), fn, path, **kw)
                    cut_rows(ctx, whole, out, f'{name} {k} lines{end!r}',
                             got // per, got % per)
        # half-transferred JSON is never data, wherever it stops
        texts = []

        def put(name, call, body):
            texts.append((name, call, body if isinstance(body, str)
                          else json.dumps(body)))
        hourly = pvgis_hourly_answer()[0]
        put('pvgis hourly', lambda p: iotools.read_pvgis_hourly(
            p, pvgis_format='json'), hourly)
        st, tb = I01.pvgis_tmy([2016] * 12)
        put('pvgis tmy', lambda p: iotools.read_pvgis_tmy(
            p, pvgis_format='json'), I01.pvgis_tmy_texts(
                st[:3], tb[:3], [2016] * 12)[0])
        for name, call, body in texts:
            for k in range(len(body)):
                ctx.state()
                path = s.put('cut.json', body[:k])
                out = run(Net(quietnet), call, path)
                ctx.step()
                ctx.expect(not out.ok and isinstance(out.error, Exception),
                           'cut answer is refused', f'{name} at {k}')
        span = ('2020-01-01', '2020-01-02')
        nets = [
            ('nasa', lambda: iotools.get_nasa_power(
                44.76, 7.64, *span, parameters=['ghi', 'temp_air']),
             {'properties': {'parameter': {
                 'ALLSKY_SFC_SW_DWN': {'2020010100': 0.0,
                                       '2020010101': 5.5},
                 'T2M': {'2020010100': 1.25, '2020010101': -3.5}}},
              'header': {'fill_value': -999.0}, 'times': {}, 'parameters': {},
              'geometry': {'coordinates': [7.64, 44.76, 440.0]}}),
            ('solcast', lambda: iotools.get_solcast_live(
                44.0, -73.0, 'KEY'),
             {'estimated_actuals': [
                 {'ghi': 5.5, 'air_temp': 3, 'period':
                  'PT30M', 'period_end': '2020-01-01T00:30:00Z'},
                 {'ghi': 7.5, 'air_temp': 4, 'period':
                  'PT30M', 'period_end': '2020-01-01T01:00:00Z'}]}),
            ('pvgis hourly', lambda: iotools.get_pvgis_hourly(45, 8),
             hourly),
            ('horizon', lambda: iotools.get_pvgis_horizon(45, 8),
             {'outputs': {'horizon_profile': [
                 {'A': a, 'H_hor': abs(a) / 10} for a in
                 range(-180, 181, 45)]}, 'meta': {}}),
            ]
        for name, call, body in nets:
            body = body if isinstance(body, str) else json.dumps(body)
            out = run(Net(script([Answer(200, body,
                                         ctype='application/json')])), call)
            if not must_return(ctx, out, 'whole ' + name):
                continue
            for k in range(len(body)):
                ctx.state()
                out = run(Net(script([Answer(200, body[:k],
                                             ctype='application/json')])),
                          call)
                ctx.step()
                ctx.expect(not out.ok and isinstance(out.error, Exception),
                           'cut answer is refused', f'get {name} at {k}')
