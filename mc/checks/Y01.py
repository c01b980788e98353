"""All short series (words over a small alphabet, missing values included) x
plant layouts x cloud speeds x sampling intervals x input forms against an
independent wavelet model written from the definition (successive moving
averages of the mirrored series, variability reduction from the full pairwise
correlation matrix), plus the invariants: the wavelets add up to the series,
constant series and coincident points change nothing, N far-apart points divide
by the square root of N, and permuting, moving, rotating or jointly rescaling
the layout changes nothing.  Coordinate conversion is checked on the whole
latitude/longitude lattice."""
import itertools
import math

import numpy as np
import pandas as pd

from mc.core import case, same_value, deepcopy
from pvlib import scaling

TECHNIQUE = ('explicit-state bounded model checking: exhaustive enumeration of series words, layouts and call forms on the '
             'real code against an independent wavelet model')
CASES = []
nan = math.nan
R_EARTH = 6371008.7714


def mean(v):
    v = [q for q in v if q == q]
    return math.fsum(v) / len(v) if v else nan


def scales(dt):
    return [dt * 2**i for i in range(13 - math.ceil(math.log2(dt) - 1e-12))]


def wavelets(x, dt):
    n = len(x)
    long = list(x[::-1]) + list(x) + list(x[::-1])
    m = len(scales(dt))
    avg = [long]
    for i in range(1, m):
        w = 2**i
        # running mean over w samples: from w/2 - 1 before to w/2 after
        row = []
        for k in range(3 * n):
            row.append(mean(long[max(0, k - w // 2 + 1):min(3 * n, k + w // 2 + 1)]))
        # gaps take the next, at the end the previous, available average
        raw = row[:]
        for k in range(3 * n - 1, -1, -1):
            if raw[k] != raw[k] and k + 1 < 3 * n:
                raw[k] = raw[k + 1]
        for k in range(1, 3 * n):
            if raw[k] != raw[k]:
                raw[k] = raw[k - 1]
        avg.append(raw)
    out = [[a - b for a, b in zip(avg[i], avg[i + 1])] for i in range(m - 1)] + [avg[-1]]
    return np.array([r[n:2 * n] for r in out])


def reduction(pts, speed, tms):
    n = len(pts)
    out = []
    for t in tms:
        s = 0.
        for a in pts:
            for b in pts:
                d = math.hypot(*[p - q for p, q in zip(a, b)])
                s += math.exp(-d / (t * speed / 2))
        out.append(n * n / s)
    return out


def model(x, pts, speed, dt):
    w = wavelets(x, dt)
    vr = reduction(pts, speed, scales(dt))
    f = [1 / math.sqrt(v) for v in vr[:-1]] + [1.]
    return (w * np.array(f)[:, None]).sum(axis=0), w


LAYOUTS = {
    'one': [(0., 0.)], 'far one': [(5e4, -3e4)],
    'pair': [(0., 0.), (100., 0.)], 'same': [(3., 4.)] * 3, 'line': [(0., 0.), (50., 0.), (150., 0.)],
    'square': [(0., 0.), (0., 300.), (300., 0.), (300., 300.)], 'mixed': [(0., 0.), (0., 0.), (2000., -700.), (40., 9.)],
    'grid': [(90. * i, 35. * j) for i in range(3) for j in range(3)],
    'distant': [(1e7 * i, 0.) for i in range(4)], 'int': [(0, 0), (120, 50), (-30, 700)],
    'many': [(13. * i, (i * i) % 17 * 20.) for i in range(23)],
}
DTS = (1, 0.5, 3, 5, 60, 3600)


def series(word, dt, kind):
    if kind == 'time':
        return pd.Series(word, index=pd.DatetimeIndex([pd.Timestamp('2021-03-01 12:00') + pd.Timedelta(seconds=dt * i)
                                                       for i in range(len(word))]))
    if kind == 'zoned':
        return pd.Series(word, index=pd.DatetimeIndex([pd.Timestamp('2021-10-31 00:30') + pd.Timedelta(seconds=dt * i)
                                                       for i in range(len(word))]).tz_localize('UTC')
                         .tz_convert('Europe/Berlin'), name='csi')
    if kind == 'delta':
        return pd.Series(word, index=pd.to_timedelta([dt * i + 7 for i in range(len(word))], unit='s'))
    if kind == 'numeric':
        return pd.Series(word, index=pd.Index([dt * i + 3 for i in range(len(word))]))
    if kind == 'frame':
        return pd.DataFrame({'a': word}, index=pd.Index([dt * i + 3 for i in range(len(word))]))
    return np.array(word)


def call(ctx, x, pos, speed, dt=None):
    ctx.step()
    kx, kp = deepcopy(x), deepcopy(pos)
    r = scaling.wvm(x, pos, speed) if dt is None else scaling.wvm(x, pos, speed, dt)
    ctx.expect(same_value(x, kx) and same_value(pos, kp), 'mutated', 'an argument was changed')
    return r


@case(CASES)
def words(ctx):
    """Every word over {0, 1, .4, missing} x sampling interval, one layout each in turn."""
    names = list(LAYOUTS)
    n = 0
    for L in range(2, ctx.pick(5, 6)):
        for word in itertools.product((0., 1., .4, nan), repeat=L):
            for dt in DTS if L < 4 or ctx.thorough else (60,):
                n += 1
                lay = LAYOUTS[names[n % len(names)]]
                speed = (2., 15., 40.)[n % 3]
                kind = ('time', 'zoned', 'numeric', 'array')[n // 3 % 4]
                ctx.state()
                if all(v != v for v in word):
                    continue
                x = series(list(word), dt, kind)
                exp, w = model(list(word), lay, speed, dt)
                s, wg, tm = call(ctx, x, np.array(lay) if n % 2 else lay, speed, dt if kind == 'array' else None)
                ctx.close(tm, scales(dt), 'words:scales', rtol=1e-12, dt=dt)
                ctx.close(wg, w, 'words:wavelet', rtol=1e-10, atol=1e-10, word=list(word), dt=dt)
                ctx.close(np.asarray(s), exp, 'words:smoothed', rtol=1e-9, atol=1e-9, word=list(word), dt=dt, layout=lay)
                ctx.close(np.nansum(wg, axis=0)[~np.isnan(word)], np.array(word)[~np.isnan(word)], 'words:sum', atol=1e-10)
                if kind != 'array':
                    ctx.expect(isinstance(s, pd.Series) and s.index.equals(x.index), 'words:index', kind)


LONG = [.9, 1., .2, .3, .3, 1.1, 0., .5, .8, .8, .1, 1.2, .7, .6, .95, .4, .05, 1., 1., .33]


@case(CASES)
def layouts(ctx):
    """Every layout x speed x sampling interval on a 20-sample series, and every transformation of the layout."""
    for (name, lay), speed, dt in itertools.product(LAYOUTS.items(), (.5, 2, 15., 60.), DTS):
        ctx.state((name, speed, dt))
        exp, w = model(LONG, lay, speed, dt)
        s, wg, tm = call(ctx, np.array(LONG), lay, speed, dt)
        ctx.close(s, exp, 'layouts:smoothed', rtol=1e-9, atol=1e-9, layout=name, speed=speed, dt=dt)
        ctx.close(wg, w, 'layouts:wavelet', rtol=1e-10, atol=1e-10)
        ctx.close(wg.sum(axis=0), LONG, 'layouts:sum', atol=1e-10)
        if name in ('one', 'far one', 'same'):
            ctx.close(s, LONG, 'layouts:unchanged', atol=1e-9, layout=name)
        if name == 'distant':
            ctx.close(s, (wg[:-1] / 2).sum(axis=0) + wg[-1], 'layouts:independent', atol=1e-9)
        c = math.cos(.7), math.sin(.7)
        for tname, tl in (('shift', [(a + 1e3, b - 2e3) for a, b in lay]),
                          ('rotate', [(a * c[0] - b * c[1], a * c[1] + b * c[0]) for a, b in lay]),
                          ('mirror', [(-a, b) for a, b in lay]), ('swap', [(b, a) for a, b in lay]),
                          ('reverse', lay[::-1])):
            s2, _, _ = call(ctx, np.array(LONG), tl, speed, dt)
            ctx.close(s2, s, 'layouts:' + tname, rtol=1e-9, atol=1e-9, layout=name)
        s2, _, _ = call(ctx, np.array(LONG), [(3 * a, 3 * b) for a, b in lay], 3 * speed, dt)
        ctx.close(s2, s, 'layouts:rescale', rtol=1e-9, atol=1e-9, layout=name)
        # variability never grows, and grows towards the single point as the clouds move faster
        if len(lay) > 1 and name not in ('same', 'distant'):
            s3, _, _ = call(ctx, np.array(LONG), lay, speed * 1e9, dt)
            ctx.close(s3, LONG, 'layouts:fast', atol=1e-4, layout=name)


@case(CASES)
def orders(ctx):
    """Every permutation of four points, every sublist; containers of positions."""
    base = LAYOUTS['mixed']
    ref, _, _ = call(ctx, np.array(LONG), base, 12., 10)
    for p in itertools.permutations(range(4)):
        ctx.state(('perm', p))
        s, _, _ = call(ctx, np.array(LONG), [base[i] for i in p], 12., 10)
        ctx.close(s, ref, 'orders:permutation', rtol=1e-12, atol=1e-12)
    for n in range(1, 5):
        for word in itertools.product(range(4), repeat=n):
            ctx.state(('sub', word))
            lay = [base[i] for i in word]
            s, _, _ = call(ctx, np.array(LONG), lay, 12., 10)
            ctx.close(s, model(LONG, lay, 12., 10)[0], 'orders:subset', rtol=1e-9, atol=1e-9)
    for pos in (np.array(base), [list(p) for p in base], tuple(base), pd.DataFrame(base)):
        s, _, _ = call(ctx, np.array(LONG), pos, 12., 10)
        ctx.close(s, ref, 'orders:container', rtol=1e-12, atol=1e-12)


@case(CASES)
def forms(ctx):
    """Constant series and every input form; wrong input is refused."""
    for v in (0., 1., .37, 1.3):
        for dt in DTS:
            for (name, lay) in LAYOUTS.items():
                ctx.state((v, dt, name))
                s, w, tm = call(ctx, np.full(5, v), lay, 10., dt)
                ctx.close(s, [v] * 5, 'forms:constant', atol=1e-10)
    lay = LAYOUTS['square']
    for dt in (1, 3, 60, 3600, 7):
        exp, w = model(LONG, lay, 9., dt)
        for kind in ('time', 'zoned', 'delta', 'numeric', 'array', 'frame'):
            ctx.state((dt, kind))
            x = series(LONG, dt, kind)
            s, wg, tm = call(ctx, x, lay, 9., dt if kind == 'array' else None)
            ctx.close(np.asarray(s), exp, f'forms:{kind}', rtol=1e-9, atol=1e-9, dt=dt)
            ctx.close(tm, scales(dt), f'forms:{kind}:scales', rtol=1e-12)
            if kind != 'array':
                ctx.expect(isinstance(s, pd.Series) and s.index.equals(x.index), f'forms:{kind}:index', '')
            else:
                ctx.expect(isinstance(s, np.ndarray), 'forms:array:type', type(s).__name__)
    ctx.raises(ValueError, lambda: scaling.wvm(np.array(LONG), lay, 9.), 'forms:no-dt')
    ints = np.array([1, 0, 1, 1, 0, 2])
    ctx.close(call(ctx, ints, lay, 9., 60)[0], model([1., 0, 1, 1, 0, 2], lay, 9., 60)[0], 'forms:int', rtol=1e-9, atol=1e-9)
    # a gap of whole days between samples is not an interval of its remainder
    for days, rest in ((1, 60), (2, 1)):
        x = pd.Series(LONG, index=pd.DatetimeIndex([pd.Timestamp('2021-03-01') + i * pd.Timedelta(days=days, seconds=rest)
                                                    for i in range(len(LONG))]))
        try:
            s, w, tm = scaling.wvm(x, lay, 9.)
        except (ValueError, IndexError, OverflowError):
            continue
        ctx.expect(tm[0] == days * 86400 + rest, 'forms:days', f'interval of {days} d {rest} s taken as {tm[0]} s')


@case(CASES)
def coordinates(ctx):
    """Every latitude/longitude pair of the lattice x offsets: distances, axes, order, forms."""
    lats = np.arange(-80., 81., ctx.pick(20, 5))
    lons = np.arange(-170., 171., ctx.pick(34, 10))
    k = R_EARTH * math.pi / 180
    for la, lo in itertools.product(lats, lons):
        ctx.state((la, lo))
        for dla, dlo in itertools.product((0., .01, -.3), (0., .02, -.5)):
            pts = [(la, lo), (la + dla, lo + dlo)]
            m = la + dla / 2
            exp = [[q * k * math.cos(math.radians(m)), p * k] for p, q in pts]
            ctx.step(2)
            for c in (pts, np.array(pts), [list(p) for p in pts]):
                ctx.close(scaling.latlon_to_xy(c), exp, 'coordinates:pair', rtol=1e-9, atol=1e-6)
            a = scaling.latlon_to_xy(np.array(pts[::-1]))
            ctx.close(a[::-1], exp, 'coordinates:order', rtol=1e-9, atol=1e-6)
            b = scaling.latlon_to_xy(np.array([(p, q + 5) for p, q in pts]))
            ctx.close(np.diff(b, axis=0), np.diff(np.array(exp), axis=0), 'coordinates:shift', rtol=1e-6, atol=1e-6)
        one = [lo * k * math.cos(math.radians(la)), la * k]
        ctx.close(scaling.latlon_to_xy(np.array([la, lo])), one, 'coordinates:single', rtol=1e-9, atol=1e-6)
        ctx.close(scaling.latlon_to_xy((la, lo)), one, 'coordinates:single-tuple', rtol=1e-9, atol=1e-6)
        ctx.close(scaling.latlon_to_xy([(la, lo)]), [one], 'coordinates:one-row', rtol=1e-9, atol=1e-6)
    tri = [(40., -105.), (41., -104.), (39.5, -106.)]
    m = math.cos(math.radians(sum(p for p, _ in tri) / 3))
    for p in itertools.permutations(tri):
        ctx.close(scaling.latlon_to_xy(list(p)), [[q * k * m, a * k] for a, q in p], 'coordinates:three', rtol=1e-9, atol=1e-6)
