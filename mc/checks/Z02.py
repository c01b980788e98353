"""The shared numeric and time helpers over their whole (discretised) domain:
every quarter degree for the trigonometry, every day of leap, century and
common years x zones x sub-second offsets for the time conversions, every cell
(and cell edge) of both coordinate grids, every sampling interval up to an hour
and several beyond x window lengths, all words of unimodal functions x brackets
for the maximiser, and all small matrices for the normalisation.  Private
helpers that a refactoring removes are skipped; what they are for is checked
through their public users in C03, C02, G01 and V02."""
import datetime as dt
import itertools
import math
import warnings
import zoneinfo
from fractions import Fraction

import numpy as np
import pandas as pd

from mc.core import case, quiet, same_value, deepcopy
from pvlib import tools

TECHNIQUE = ('explicit-state bounded model checking: exhaustive enumeration of helper inputs (angle grid, every day, every '
             'grid cell, every sampling interval, words of unimodal functions) against exact references')
CASES = []
nan, inf = math.nan, math.inf


def helper(name):
    return getattr(tools, name, None)


EXACT = {0: 0., 30: .5, 90: 1., 150: .5, 180: 0., 210: -.5, 270: -1., 330: -.5}


@case(CASES)
def trigonometry(ctx):
    """sind cosd tand asind acosd atand: every quarter degree of four turns, every form."""
    step = .25 if not ctx.thorough else .05
    x = np.arange(-720, 720 + step, step)
    ctx.state(n=x.size * 6)
    # exact references by reduction to the first octant in exact degrees

    def ref(name, d):
        d = d % 360
        s = math.sin(math.radians(d)) if d <= 45 else (math.cos(math.radians(90 - d)) if d <= 135 else
                                                       math.sin(math.radians(180 - d)) if d <= 225 else
                                                       -math.cos(math.radians(270 - d)) if d <= 315 else
                                                       math.sin(math.radians(d - 360)))
        if name == 'sind':
            return s
        return ref('sind', 90 - d)
    for name in ('sind', 'cosd'):
        f = getattr(tools, name)
        exp = np.array([ref(name, v) for v in x])
        ctx.step(x.size)
        ctx.close(f(x), exp, name + ':array', rtol=0, atol=1e-14)
        s = pd.Series(x, index=pd.RangeIndex(5, 5 + x.size))
        r = f(s)
        ctx.close(np.asarray(r), exp, name + ':series', rtol=0, atol=1e-14)
        ctx.expect(isinstance(r, pd.Series) and r.index.equals(s.index), name + ':index')
        ctx.close([f(float(v)) for v in x[::7]], exp[::7], name + ':scalar', rtol=0, atol=1e-14)
        xi = np.arange(-720, 721, 5)
        ctx.close(f(xi), [ref(name, int(v)) for v in xi], name + ':int', rtol=0, atol=1e-14)
        ctx.close([f(int(v)) for v in xi], [ref(name, int(v)) for v in xi], name + ':int-scalar', rtol=0, atol=1e-14)
        ctx.expect(math.isnan(f(nan)), name + ':nan')
        for k, v in EXACT.items():
            ctx.close(f(k if name == 'sind' else k - 90), v, name + ':exact', rtol=0, atol=1e-15)
    sc = np.array([v for v in x if abs(v % 180 - 90) > .2])
    ctx.close(tools.tand(sc), [ref('sind', v) / ref('cosd', v) for v in sc], 'tand:array', rtol=1e-10, atol=1e-14)
    ctx.close(np.asarray(tools.tand(pd.Series(sc))), [ref('sind', v) / ref('cosd', v) for v in sc], 'tand:series', rtol=1e-10,
              atol=1e-14)
    for name, lo, hi, fwd in (('asind', -90, 90, 'sind'), ('acosd', 0, 180, 'cosd')):
        f = getattr(tools, name)
        a = np.arange(lo, hi + step, step)
        a = a[a <= hi]
        v = np.clip(np.array([ref(fwd, d) for d in a]), -1, 1)
        # slope is infinite at the ends
        tol = np.maximum(1e-12, 4e-16 / np.maximum(1e-8, np.sqrt(1 - v**2)) * 100)
        ctx.step(a.size)
        g = np.asarray(f(v))
        ctx.expect(bool((np.abs(g - a) <= np.maximum(tol, 2e-6 * (np.abs(v) > 1 - 1e-13))).all()), name + ':array',
                   f'{np.abs(g - a).max()}')
        ctx.close(np.asarray(f(pd.Series(v))), g, name + ':series', rtol=0, atol=0)
        ctx.close([f(float(q)) for q in v], g, name + ':scalar', rtol=1e-14, atol=1e-14)
        for q, e in ((-1, lo if name == 'asind' else 180), (0, 0 if name == 'asind' else 90), (1, 90 if name == 'asind' else 0)):
            ctx.close(f(q), e, name + ':int', rtol=0, atol=1e-13)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for q in (1.0001, -1.5, nan):
                ctx.expect(math.isnan(f(q)), name + ':outside', f'{q}')
    a = np.arange(-89.75, 90, .25)
    t = np.array([ref('sind', v) / ref('cosd', v) for v in a])
    ctx.close(tools.atand(t), a, 'atand:array', rtol=1e-12, atol=1e-12)
    for q, e in ((0, 0), (1, 45), (-1, -45), (inf, 90), (-inf, -90)):
        ctx.close(tools.atand(q), e, 'atand:exact', rtol=0, atol=1e-13)


ZONES = ('UTC', 'America/Denver', 'Europe/Berlin', 'Asia/Kolkata', 'Australia/Lord_Howe', 'Pacific/Kiritimati',
         'Pacific/Niue', 'Etc/GMT+12', 'America/St_Johns', 'Africa/Casablanca')
YEARS = (1900, 1999, 2000, 2020, 2023, 2100)
DJD0 = dt.datetime(1899, 12, 31, 12)


def year_days(y, step=1):
    d = dt.datetime(y, 1, 1)
    while d.year == y:
        yield d
        d += dt.timedelta(days=step)


@case(CASES)
def dublin(ctx):
    """datetime_to_djd / djd_to_datetime: every day of six years x time of day x zone, both directions."""
    tods = [(0, 0, 0, 0), (12, 0, 0, 0), (23, 59, 59, 999999), (6, 30, 15, 250000)]
    day = 86400 * 10**6
    for y in YEARS:
        for d in year_days(y, ctx.pick(3, 1)):
            for h, m, s, us in tods:
                naive = d.replace(hour=h, minute=m, second=s, microsecond=us)
                delta = naive - DJD0
                exact = Fraction(delta.days * day + delta.seconds * 10**6 + delta.microseconds, day)
                ctx.state()
                ctx.step(2)
                ctx.close(tools.datetime_to_djd(naive), float(exact), 'to_djd:naive', rtol=0, atol=2e-11, t=str(naive))
                zn = ZONES[(d.toordinal() + h) % len(ZONES)]
                z = zoneinfo.ZoneInfo(zn)
                aware = naive.replace(tzinfo=dt.timezone.utc).astimezone(z)
                ctx.close(tools.datetime_to_djd(aware), float(exact), 'to_djd:aware', rtol=0, atol=2e-11, t=str(aware))
                back = tools.djd_to_datetime(float(exact), tz=zn)
                ctx.expect(abs(back - aware) <= dt.timedelta(microseconds=2), 'from_djd', f'{back} instead of {aware}')
                ctx.expect(back.utcoffset() == aware.utcoffset() and str(back.tzinfo) == zn, 'from_djd:zone',
                           f'{back!r} instead of {aware!r}')
    for v, e in ((0, DJD0), (0.5, DJD0 + dt.timedelta(hours=12)), (-1, DJD0 - dt.timedelta(days=1)),
                 (36525, dt.datetime(2000, 1, 1, 12) - dt.timedelta(days=1) + dt.timedelta(days=1))):
        r = tools.djd_to_datetime(v)
        ctx.step()
        ctx.expect(r.replace(tzinfo=None) - e == dt.timedelta(days=0) or abs(r.replace(tzinfo=None) - e) <
                   dt.timedelta(microseconds=2), 'from_djd:known', f'{v}: {r} instead of {e}')
        ctx.expect(r.utcoffset() == dt.timedelta(0), 'from_djd:default-zone', str(r))


@case(CASES)
def day_of_year(ctx):
    """Day of year in UTC: every day of leap/common years x zones x container; and the inverse."""
    f = helper('_pandas_to_doy')
    fu = helper('_pandas_to_utc')
    g = helper('_datetimelike_scalar_to_doy')
    gi = helper('_datetimelike_scalar_to_datetimeindex')
    inv = helper('_doy_to_datetimeindex')
    for y in YEARS:
        for zn in (None,) + ZONES:
            ix = pd.date_range(f'{y}-01-01 00:30', f'{y}-12-31 23:30', freq='7h' if not ctx.thorough else '1h')
            exp = ix.to_pydatetime()
            doy = np.array([t.timetuple().tm_yday for t in exp])
            t = ix if zn is None else ix.tz_localize('UTC').tz_convert(zn)
            ctx.state(('doy', y, zn), n=len(ix))
            if f:
                ctx.step()
                ctx.close(np.asarray(f(t)), doy, 'doy:index', rtol=0, atol=0, year=y, zone=str(zn))
                for i in range(0, len(t), 61):
                    ctx.close(f(t[i]), doy[i], 'doy:stamp', rtol=0, atol=0, t=str(t[i]))
            if fu:
                u = fu(t)
                ctx.expect(u.equals(ix if zn is None else ix.tz_localize('UTC')), 'utc:index', f'{y} {zn}')
            if g:
                for i in range(0, len(t), 61):
                    for obj in (t[i], t[i].to_pydatetime(), t[i].tz_convert('UTC').tz_localize(None).to_datetime64()
                                if zn else t[i].to_datetime64()):
                        ctx.close(np.asarray(g(obj)), [doy[i]], 'doy:scalar', rtol=0, atol=0, t=str(obj))
            if gi:
                for i in range(0, len(t), 173):
                    r = gi(t[i])
                    ctx.expect(isinstance(r, pd.DatetimeIndex) and len(r) == 1 and r[0] == t[i] and
                               str(r.tz) == str(t.tz), 'index:scalar', f'{r}')
                ctx.expect(gi(dt.date(y, 3, 1))[0] == pd.Timestamp(y, 3, 1), 'index:date', '')
        if inv:
            n = 366 if y % 4 == 0 and (y % 100 or y % 400 == 0) else 365
            d = np.arange(1, n + 1)
            for x in (d, d.astype(float), list(map(int, d)), pd.Series(d)):
                r = inv(x, epoch_year=y)
                ctx.step()
                ctx.expect(isinstance(r, pd.DatetimeIndex) and len(r) == n and list(r) ==
                           [pd.Timestamp(y, 1, 1) + pd.Timedelta(days=i) for i in range(n)], 'from_doy', f'{y}')
            ctx.expect(inv(60, epoch_year=y)[0] == pd.Timestamp(y, 1, 1) + pd.Timedelta(days=59), 'from_doy:scalar', f'{y}')
            ctx.expect(inv(1.5, epoch_year=y)[0] == pd.Timestamp(y, 1, 1, 12), 'from_doy:fraction', f'{y}')
    if inv:
        ctx.expect(inv(1)[0] == pd.Timestamp('2014-01-01'), 'from_doy:default-year', '')


@case(CASES)
def localization(ctx):
    """localize_to_utc: naive and aware times x location zones x containers, around every clock change of two years."""
    from pvlib.location import Location
    for zn in ZONES:
        loc = Location(10, 20, tz=zn)
        z = zoneinfo.ZoneInfo(zn)
        # unambiguous existing local times every 5 h
        utc = pd.date_range('2020-12-30', '2022-01-03' if ctx.thorough else '2021-11-20', freq='5h', tz='UTC')
        local = utc.tz_convert(zn)
        naive = local.tz_localize(None)
        ok = np.array([(n.to_pydatetime().replace(tzinfo=z, fold=0).utcoffset() ==
                        n.to_pydatetime().replace(tzinfo=z, fold=1).utcoffset()) for n in naive])
        utc, local, naive = utc[ok], local[ok], naive[ok]
        ctx.state(('loc', zn), n=len(utc))
        for name, obj in (('naive', naive), ('local', local), ('utc', utc), ('other', utc.tz_convert('Asia/Tokyo'))):
            r = tools.localize_to_utc(obj, loc)
            ctx.step()
            ctx.expect(isinstance(r, pd.DatetimeIndex) and (r == utc).all() and str(r.tz) == 'UTC', f'index:{name}', zn)
            keep = pd.Series(np.arange(len(obj)), index=obj)
            s = keep.copy()
            r = tools.localize_to_utc(s, loc)
            ctx.expect((r.index == utc).all() and str(r.index.tz) == 'UTC' and (r.to_numpy() == s.to_numpy()).all(),
                       f'series:{name}', zn)
            ctx.expect(same_value(s, keep), f'series:{name}:mutated', zn)
            r = tools.localize_to_utc(s.to_frame('a'), loc)
            ctx.expect((r.index == utc).all() and (r['a'].to_numpy() == s.to_numpy()).all(), f'frame:{name}', zn)
            for i in range(0, len(obj), 3):
                ctx.step(2)
                for t in (obj[i], obj[i].to_pydatetime()):
                    r = tools.localize_to_utc(t, loc)
                    ctx.expect(r == utc[i] and r.utcoffset() == dt.timedelta(0), f'scalar:{name}', f'{t} in {zn}: {r}')


# ------------------------------------------------------------------------------------ maximiser
FUNCS = {
    # name: f(x, c) with its maximum at c
    'parabola': lambda x, c: -(x - c)**2,
    'tent': lambda x, c: -abs(x - c),
    'skew': lambda x, c: -np.where(x < c, 5 * (c - x), .3 * (x - c)**2),
    'quartic': lambda x, c: 3 - (x - c)**2 - .1 * (x - c)**4,
    'bell': lambda x, c: np.exp(-(x - c)**2),
    'skewbell': lambda x, c: np.exp(-np.where(x < c, 2., .2) * abs(x - c)),
    'negative': lambda x, c: -10 - abs(x - c)**1.5,
}
CS = (-3., -.5, 0., .25, 1 / 3, 1., 2., 7.)
BRACKETS = ((-1., 1.), (0., 1.), (0., 0.), (-5., 10.), (1., 2.), (.25, .25), (0., 100.), (-2., -1.), (nan, 1.), (0., nan),
            (nan, nan))


def _golden(fname):
    def run(ctx):
        G = helper('_golden_sect_DataFrame')
        if G is None:
            ctx.sample('helper absent')
            return
        fn = FUNCS[fname]

        def func(df, loc):
            return fn(df[loc], df['c'])
        rows = [(c, lo, hi) for c in CS for lo, hi in BRACKETS]
        exp = [nan if lo != lo or hi != hi else min(max(c, lo), hi) for c, lo, hi in rows]
        pairs = [(i, (i * k + 3) % len(rows)) for i in range(len(rows)) for k in (ctx.pick((), (5, 7, 11, 13, 17, 19)))]
        tol = 2e-7 if fname in ('parabola', 'quartic', 'bell', 'skew') else 3e-8
        for idx in [(i,) for i in range(len(rows))] + pairs + [tuple(range(len(rows))), tuple(range(len(rows)))[::-1]]:
            ctx.state()
            ctx.step()
            p = pd.DataFrame({'c': [rows[i][0] for i in idx]})
            lo = pd.Series([rows[i][1] for i in idx])
            hi = pd.Series([rows[i][2] for i in idx])
            keep = (p.copy(), lo.copy(), hi.copy())
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                v, x = G(p, lo, hi, func)
            e = np.array([exp[i] for i in idx])
            x, v = np.asarray(x, dtype=float), np.asarray(v, dtype=float)
            ctx.close(x, e, f'max:{fname}:x', rtol=1e-8, atol=tol, rows=[rows[i] for i in idx][:3])
            fe = np.array([float(fn(np.float64(a), rows[i][0])) if a == a else nan for a, i in zip(e, idx)])
            ctx.close(v, fe, f'max:{fname}:value', rtol=1e-7, atol=1e-6)
            ok = ~np.isnan(e)
            ctx.expect(bool(((x[ok] >= lo[ok] - 1e-12) & (x[ok] <= hi[ok] + 1e-12)).all()), f'max:{fname}:inside',
                       f'{x} outside [{list(lo)}, {list(hi)}]')
            ctx.expect(p.equals(keep[0]) and lo.equals(keep[1]) and hi.equals(keep[2]), 'max:mutated', '')
    run.__name__ = 'golden_' + fname
    run.__doc__ = 'every location of the maximum x bracket (empty and missing ones included), alone and in batches'
    return run


for _f in FUNCS:
    case(CASES, name='golden_' + _f)(_golden(_f))


@case(CASES)
def golden_edges(ctx):
    """Wrong brackets, missing function values, tolerances."""
    G = helper('_golden_sect_DataFrame')
    if G is None:
        return

    def hole(df, loc):          # missing wherever the parameter is missing
        return -(df[loc] - df['c'])**2
    for word in itertools.product((0., 1., nan), repeat=3):
        p = pd.DataFrame({'c': list(word)})
        v, x = G(p, pd.Series([0.] * 3), pd.Series([4.] * 3), hole)
        ctx.state()
        ctx.step()
        ctx.close(np.asarray(x), word, 'max:missing-value', rtol=0, atol=2e-7)
    for lo, hi in itertools.product((0., 1., 2., nan), repeat=2):
        if lo > hi:
            for extra in ((), ((0., 1.),), ((nan, 1.),)):
                L = pd.Series([lo] + [a for a, _ in extra])
                H = pd.Series([hi] + [b for _, b in extra])
                ctx.raises(ValueError, lambda: G(pd.DataFrame({'c': [0.] * len(L)}), L, H, hole), 'max:swapped')
    for tol in (1e-2, 1e-4, 1e-6):
        v, x = G(pd.DataFrame({'c': [1 / 3, 2.]}), pd.Series([0., 0.]), pd.Series([1., 9.]), hole, atol=tol)
        ctx.close(np.asarray(x), [1 / 3, 2.], 'max:atol', rtol=0, atol=3 * tol)


# ------------------------------------------------------------------------------------ grid index
@case(CASES)
def grid_index(ctx):
    """Every cell centre, points on both sides of every cell edge, the domain ends and beyond, for both axes."""
    f = helper('_degrees_to_index')
    if f is None:
        return
    for coord, n, first, last in (('latitude', 2160, 90, -90), ('longitude', 4320, -180, 180)):
        w = Fraction(last - first, n)
        for i in range(0, n, ctx.pick(3, 1)):
            c = first + w * (i + Fraction(1, 2))
            ctx.state()
            for off in (0, Fraction(49, 100), Fraction(-49, 100), Fraction(1, 4)):
                ctx.step()
                r = f(float(c + w * off), coord)
                ctx.expect(r == i and isinstance(int(r), int), f'cell:{coord}', f'{float(c + w * off)} -> {r} instead of {i}')
        for k in range(min(first, last), max(first, last) + 1):     # whole degrees, as ints: one of the two adjacent cells
            r = f(k, coord)
            pos = (k - first) / w
            ctx.expect(r in (max(0, math.ceil(pos) - 1), min(n - 1, math.floor(pos))), f'edge:{coord}', f'{k} -> {r}')
        for v, i in ((first, 0), (last, n - 1), (float(first), 0), (float(last), n - 1)):
            ctx.expect(f(v, coord) == i, f'end:{coord}', f'{v} -> {f(v, coord)}')
        for v in (max(first, last) + .01, min(first, last) - .01, 400, -400, 1e9):
            ctx.raises(ValueError, lambda: f(v, coord), f'range:{coord}', value=v)
        ctx.raises(ValueError, lambda: f(nan, coord), f'nan:{coord}')
    for bad in ('lat', '', 'Latitude', None, 'altitude'):
        ctx.raises(ValueError, lambda: f(10, bad), 'coordinate')


# ------------------------------------------------------------------------------------ sampling interval
@case(CASES)
def sample_intervals(ctx):
    """Every whole-second interval up to an hour and longer ones x window lengths x zones; every single gap,
    duplicate or shifted label in a short index is refused."""
    f = helper('_get_sample_intervals')
    if f is None:
        return
    secs = sorted(set(range(1, 61)) | set(range(60, 3601, ctx.pick(30, 1))) | {5400, 7200, 21600, 43200, 86400, 129600, 172800,
                                                                               604800})
    start = pd.Timestamp('2021-06-01')
    for s in secs:
        for zn in (None, 'UTC') + (('America/Denver',) if s < 3600 or ctx.thorough else ()):
            ix = pd.DatetimeIndex([start + pd.Timedelta(seconds=s * i) for i in range(4)]).tz_localize(zn)
            for w in (1, 2, 10, 23, 31, 60, 90, 120) if not ctx.thorough else range(1, 121):
                ctx.state()
                ctx.step()
                a, b = f(ix, w)
                ctx.expect(abs(a - s / 60) <= 1e-12 * s, 'interval', f'{s} s gave {a} min')
                ctx.expect(b == (60 * w) // s and b == int(b), 'samples', f'{w} min of {s} s gave {b} samples')
    for ms in (1, 10, 100, 250, 500, 1500):
        ix = pd.DatetimeIndex([start + pd.Timedelta(milliseconds=ms * i) for i in range(5)])
        a, b = f(ix, 2)
        ctx.expect(abs(a - ms / 60000) < 1e-15 + 1e-12 * a and b == 120000 // ms, 'interval:subsecond', f'{ms} ms: {a} {b}')
    for s in (1, 60, 300, 900, 3600, 86400):
        base = [i * s for i in range(6)]
        for i in range(6):
            gap = base[:i] + base[i + 1:]
            variants = [('dup', sorted(base + [base[i]])), ('shift', base[:i] + [base[i] + s // 2 + (s == 1)] + base[i + 1:]),
                        ('swap', base[:i] + base[i + 1:i + 2] + [base[i]] + base[i + 2:] if i < 5 else None)]
            if 0 < i < 5:
                variants.append(('gap', gap))
            for nm, b in variants:
                if b is None or b == base:
                    continue
                if nm == 'shift' and s == 1:
                    continue
                ctx.state()
                ctx.raises(NotImplementedError,
                           lambda: f(pd.DatetimeIndex([start + pd.Timedelta(seconds=v) for v in b]), 10), 'irregular:' + nm,
                           secs=b)


# ------------------------------------------------------------------------------------ small helpers
@case(CASES)
def normalisation(ctx):
    """normalize_max2one: all matrices up to 2x3 over a small alphabet x arrays, series, frames; inputs unchanged."""
    A = (0, 1, -2, .5) if not ctx.thorough else (0, 1, -2, .5, 4)

    def ref(v):
        m = max(abs(q) for q in v)
        return [q / m if m else nan for q in v]
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        for n in (1, 2, 3, 4):
            for v in itertools.product(A, repeat=n):
                ctx.state()
                ctx.step(3)
                for mk in (np.array, lambda q: np.array(q, dtype=float), lambda q: list(q),
                           lambda q: pd.Series(q, index=[f'i{j}' for j in range(len(q))])):
                    x = mk(v)
                    k = deepcopy(x)
                    try:
                        r = tools.normalize_max2one(x)
                    except Exception as e:    # noqa
                        ctx.fail('normalise:1d:error', f'{type(x).__name__}: {e!r}')
                        continue
                    ctx.close(np.asarray(r, dtype=float), ref(v), 'normalise:1d', rtol=1e-14, atol=0)
                    ctx.expect(same_value(x, k), 'normalise:mutated', type(x).__name__)
                    if isinstance(x, pd.Series):
                        ctx.expect(isinstance(r, pd.Series) and r.index.equals(x.index), 'normalise:index', '')
        for v in itertools.product(A[:4], repeat=4):
            m = np.array(v, dtype=float).reshape(2, 2)
            ctx.state()
            ctx.close(tools.normalize_max2one(m), [ref(list(q)) for q in m], 'normalise:rows', rtol=1e-14, atol=0)
            d = tools.normalize_max2one(pd.DataFrame(m, columns=['a', 'b'], index=[5, 3]))
            ctx.close(d.to_numpy(), np.array([ref(list(q)) for q in m.T]).T, 'normalise:columns', rtol=1e-14, atol=0)
            ctx.expect(list(d.columns) == ['a', 'b'] and list(d.index) == [5, 3], 'normalise:frame', '')
        t = np.arange(-6., 6).reshape(2, 2, 3)
        ctx.close(tools.normalize_max2one(t), t / np.abs(t).max(axis=-1, keepdims=True), 'normalise:3d', rtol=1e-14, atol=0)
        for word in itertools.product((1., -4., nan), repeat=3):
            d = tools.normalize_max2one(pd.Series(word))
            m = np.nanmax(np.abs(word)) if not np.isnan(word).all() else nan
            ctx.close(d.to_numpy(), np.array(word) / m, 'normalise:series-missing', rtol=1e-14, atol=0)


@case(CASES)
def small(ctx):
    """get_pandas_index, argument builders, scalar and array outputs, the centred difference."""
    s1, s2 = pd.Series([1, 2], index=[4, 5]), pd.Series([1, 2], index=[7, 8])
    d1 = pd.DataFrame({'a': [1, 2]}, index=[9, 10])
    objs = [1, None, np.array([1, 2]), 'x', s1, s2, d1, pd.Index([3])]
    for n in range(4):
        for word in itertools.product(range(len(objs)), repeat=n):
            a = [objs[i] for i in word]
            ctx.state()
            ctx.step()
            r = tools.get_pandas_index(*a)
            exp = next((o.index for o in a if isinstance(o, (pd.Series, pd.DataFrame))), None)
            ctx.expect(r is None if exp is None else (r is not None and r.equals(exp)), 'pandas_index', f'{word}: {r}')
    bk, ba = helper('_build_kwargs'), helper('_build_args')
    for keys in itertools.chain.from_iterable(itertools.permutations('abc', n) for n in range(4)):
        for have in itertools.chain.from_iterable(itertools.combinations('abcd', n) for n in range(5)):
            dct = {k: k.upper() for k in have}
            ctx.state()
            if bk:
                # any value present is passed, empty ones as well
                for odd in (0, 0., None, False, '', nan, (), np.array([0., 1.])):
                    g = bk(list(keys), dict(dct, **{k: odd for k in have[:1]}))
                    ctx.expect(set(g) == set(keys) & set(have) and all(g[k] is odd for k in set(have[:1]) & set(keys)), 'build_kwargs: empty values', f'{keys} {have} {odd!r}')
                ctx.expect(bk(list(keys), dct) == {k: k.upper() for k in keys if k in have} and
                           dct == {k: k.upper() for k in have}, 'build_kwargs', f'{keys} {have}')
            if ba:
                if set(keys) <= set(have):
                    ctx.expect(list(ba(list(keys), dct, 'n')) == [k.upper() for k in keys], 'build_args', f'{keys} {have}')
                else:
                    ctx.raises(KeyError, lambda: ba(list(keys), dct, 'n'), 'build_args:missing')
    so, ao = helper('_scalar_out'), helper('_array_out')
    if so:
        for v in (1, 2.5, np.float64(3), np.array(4.), np.array([5.]), pd.Series([6.]), np.array([[7]])):
            r = so(v)
            ctx.expect(np.isscalar(r) and r == np.asarray(v).ravel()[0], 'scalar_out', f'{v!r}')
    if ao:
        for v in (1, np.array([1, 2.]), pd.Series([1, 2.], index=[5, 6])):
            r = ao(v)
            ctx.expect(not isinstance(r, pd.Series) and np.array_equal(r, np.asarray(v)), 'array_out', f'{v!r}')
    fd = helper('_first_order_centered_difference')
    if fd:
        for name, f, df in (('sin', math.sin, math.cos), ('cube', lambda x: x**3, lambda x: 3 * x * x),
                            ('line', lambda x: 4 - 3 * x, lambda x: -3), ('exp', math.exp, math.exp)):
            for x in (-2., -.5, 0., 1., 3.):
                ctx.state()
                ctx.step()
                ctx.close(fd(f, x), df(x), 'difference:' + name, rtol=1e-8, atol=1e-8)
        ctx.close(fd(lambda x, a, b: a * x + b, 2., args=(5., 7.)), 5., 'difference:args', rtol=1e-8, atol=1e-8)
        ctx.close(fd(lambda x: abs(x)**1.5, 1., dx=1e-4), 1.5, 'difference:dx', rtol=1e-6, atol=1e-6)
