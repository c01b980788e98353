"""Every (or, in the quick tier, a covering set of) grid cell, its interior and
its edges, x every day of leap and common years x time-zone representations,
on a synthetic data file whose cells carry identifiable values, against a
scalar model of the grid and of the mid-month interpolation."""
import atexit
import calendar
import os
import shutil
import tempfile

import h5py
import numpy as np
import pandas as pd

from mc.core import case, quiet
from pvlib import clearsky, tools

CASES = []
NLAT, NLON = 2160, 4320
_cache = {}


def val(i, j):
    """The 12 stored values of cell (i, j)."""
    m = np.arange(12)
    return (20 + (i * 7 + j * 13 + (i // 97) * 5 + (j // 89) * 3 + m * m * 5 + (i + j) % 3 * m) % 211).astype('uint8')


def datafile():
    if 'f' not in _cache:
        d = tempfile.mkdtemp(prefix='linke')
        atexit.register(shutil.rmtree, d, True)
        f = os.path.join(d, 'lt.h5')
        i = np.arange(NLAT)[:, None, None]
        j = np.arange(NLON)[None, :, None]
        m = np.arange(12)[None, None, :]
        a = ((i * 7 + (i // 97) * 5).astype('int16') + (j * 13 + (j // 89) * 3).astype('int32'))
        a = 20 + (a + m * m * 5 + (i + j) % 3 * m) % 211
        with h5py.File(f, 'w') as h:
            h['LinkeTurbidity'] = a.astype('uint8')
        _cache['f'] = f
        _cache['d'] = d
        assert (a[5, 7] == val(5, 7)).all() and (a[-1, -1] == val(NLAT - 1, NLON - 1)).all()
    return _cache['f']


def done():
    shutil.rmtree(_cache.pop('d', '/nonexistent'), True)
    _cache.pop('f', None)


def expected(i, j, t, interp):
    """Scalar model at one naive-UTC timestamp."""
    v = [float(x) for x in val(i, j)]
    if not interp:
        return v[t.month - 1] / 20
    feb = 29 if calendar.isleap(t.year) else 28
    days = [31, feb, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
    doy = t.timetuple().tm_yday
    mids = []
    s = 0
    for d in days:
        mids.append(s + d / 2)
        s += d
    if doy < mids[0]:
        x0, x1, y0, y1 = -31 / 2, mids[0], v[11], v[0]
    elif doy >= mids[11]:
        x0, x1, y0, y1 = mids[11], s + 31 / 2, v[11], v[0]
    else:
        k = max(i for i in range(12) if mids[i] <= doy)
        x0, x1, y0, y1 = mids[k], mids[k + 1], v[k], v[k + 1]
    return (y0 + (y1 - y0) * (doy - x0) / (x1 - x0)) / 20


def check(ctx, lat, lon, cells, times, interp, key):
    """cells: admissible (row, column) pairs."""
    ctx.step()
    try:
        g = quiet(clearsky.lookup_linke_turbidity, times, lat, lon, filepath=datafile(),
                  interp_turbidity=interp)
    except Exception as e:   # noqa
        ctx.fail(f'{key}/exception', f'{type(e).__name__}: {e} at {lat}, {lon}')
        return
    utc = times.tz_convert('UTC').tz_localize(None) if times.tz is not None else times
    ctx.expect(isinstance(g, pd.Series) and g.index.equals(times), f'{key}/index')
    a = np.asarray(g, float)
    ctx.expect(np.isfinite(a).all(), f'{key}/finite')
    ok = False
    for c in cells:
        e = np.array([expected(*c, t, interp) for t in utc])
        ok = ok or (a.shape == e.shape and (np.abs(a - e) <= 1e-9).all())
    ctx.expect(ok, f'{key}/value', f'{a[:3]} instead of {e[:3]} at latitude {lat}, longitude {lon}')


T3 = pd.DatetimeIndex(['2021-01-20 12:00', '2021-06-30 12:00', '2020-12-20']).tz_localize('UTC')


def _rows(ctx, which):
    def f(ctx):
        n = NLAT if which == 'lat' else NLON
        step = ctx.pick(41 if which == 'lat' else 83, 1)
        ks = sorted(set(range(0, n, step)) | {0, 1, 2, n // 2 - 1, n // 2, n // 2 + 1, n - 3, n - 2, n - 1})
        w = 1 / 12
        for k in ks:
            for off in (0.5, 0.02, 0.98) if not ctx.thorough else (0.5, 0.01, 0.25, 0.75, 0.99):
                ctx.state((which, k, off))
                if which == 'lat':
                    lat, lon, c = 90 - (k + off) * w, 10.01, (k, int((10.01 + 180) * 12))
                else:
                    lat, lon, c = 31.02, -180 + (k + off) * w, (int((90 - 31.02) * 12), k)
                check(ctx, lat, lon, [c], T3, bool(k % 2), f'cell-{which}')
            # the boundary between two cells belongs to either of them
            ctx.state((which, k, 'edge'))
            if which == 'lat':
                cs = [(max(k - 1, 0), c[1]), (k, c[1])]
                check(ctx, 90 - k * w, lon, cs, T3, False, 'edge-lat')
            else:
                cs = [(c[0], max(k - 1, 0)), (c[0], k)]
                check(ctx, lat, -180 + k * w, cs, T3, False, 'edge-lon')
        ctx.outcome((which, len(ks)))
        done()
    return f


CASES.append(('latitudes', _rows(None, 'lat'), False))
CASES.append(('longitudes', _rows(None, 'lon'), False))


@case(CASES)
def corners_and_rejection(ctx):
    for lat, i in ((90, 0), (90 - 1e-9, 0), (-90, NLAT - 1), (-90 + 1e-9, NLAT - 1), (89.95, 0), (-89.95, NLAT - 1)):
        for lon, j in ((-180, 0), (-180 + 1e-9, 0), (180, NLON - 1), (180 - 1e-9, NLON - 1),
                       (-179.95, 0), (179.95, NLON - 1)):
            for interp in (True, False):
                for form in (float, int, np.float64):
                    if form is int and (lat != int(lat) or lon != int(lon)):
                        continue
                    ctx.state((lat, lon, interp, form.__name__))
                    check(ctx, form(lat), form(lon), [(i, j)], T3, interp, 'corner')
    f = datafile()
    for lat, lon in ((90.01, 0), (-90.01, 0), (0, 180.01), (0, -180.01), (200, 0), (0, 360), (91, 181), (-1e6, 0)):
        ctx.state((lat, lon))
        ctx.raises(ValueError, lambda: clearsky.lookup_linke_turbidity(T3, lat, lon, filepath=f),
                   f'reject/{lat}/{lon}')
    # the exported cell lookup on every quarter cell of both axes
    if hasattr(tools, '_degrees_to_index'):
        for which, n in (('latitude', NLAT), ('longitude', NLON)):
            for k in range(n):
                for off in (0.02, 0.35, 0.65, 0.98):
                    ctx.states += 1
                    ctx.step()
                    d = 90 - (k + off) / 12 if which == 'latitude' else -180 + (k + off) / 12
                    g = tools._degrees_to_index(d, which)
                    if g != k:
                        ctx.fail(f'index/{which}', f'{d} gives {g} instead of {k}')
                    ctx.traces += 1
        ctx.raises(Exception, lambda: tools._degrees_to_index(0, 'altitude'), 'index/bad-coordinate')
    done()


TZS = ['UTC', None, 'Etc/GMT+12', 'Etc/GMT-14', 'US/Eastern', 'Asia/Kathmandu', 'Europe/London']


@case(CASES)
def every_day(ctx):
    c = (int((90 - 40.125) * 12), int((180 - 105.2) * 12))
    years = ctx.pick([2019, 2020, 1900, 2100], [1900, 1996, 1999, 2000, 2015, 2016, 2019, 2020, 2023, 2024, 2100])
    for y in years:
        for tz in TZS if y in (2019, 2020) or ctx.thorough else ['UTC']:
            for interp in (True, False):
                t = pd.date_range(f'{y}-01-01 00:30', f'{y}-12-31 23:30', freq='12h', tz=tz)
                ctx.state((y, tz, interp))
                ctx.states += len(t)
                check(ctx, 40.125, -105.2, [c], t, interp, f'day/{tz}/{interp}')
    # month and year ends, minute by minute, across zones
    t = pd.DatetimeIndex([f'{a} {b}' for a in ('2019-12-31', '2020-01-01', '2020-02-28', '2020-02-29', '2020-03-01',
                                               '2021-02-28', '2021-03-01', '2020-12-31', '2021-01-01', '2020-06-30')
                          for b in ('00:00', '05:59', '12:00', '18:01', '23:59:59')])
    for tz in TZS:
        for order in (t, t[::-1], t[[3, 3, 0, 7]], t[:1]):
            for interp in (True, False):
                tt = order if tz is None else order.tz_localize(tz)
                ctx.state((tz, len(order), interp, order[0]))
                check(ctx, 40.125, -105.2, [c], tt, interp, f'ends/{tz}/{interp}')
                check(ctx, 40.125, -105.2, [c], tt.as_unit('s'), interp, f'ends-s/{tz}/{interp}')
    e = clearsky.lookup_linke_turbidity(t[:0], 40, -105, filepath=datafile())
    ctx.expect(len(e) == 0, 'empty')
    # default is interpolation
    a = clearsky.lookup_linke_turbidity(t, 40, -105, filepath=datafile())
    b = clearsky.lookup_linke_turbidity(t, 40, -105, filepath=datafile(), interp_turbidity=True)
    ctx.expect(a.equals(b), 'default-interp')
    done()
