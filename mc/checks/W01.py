"""All histories of snowfall, melt and ground-snow events up to the bound x
sampling intervals x tilts x initial coverage, plus one long history containing
every word over the alphabet, replayed on the real code against a step machine;
lattice for the loss equations."""
import itertools
import math

import numpy as np
import pandas as pd

from mc.core import case, lattice, quiet, same_value, deepcopy
from pvlib import snow as S

TECHNIQUE = ('explicit-state bounded model checking: exhaustive enumeration of event histories replayed on the real '
             'code against a reference step machine')
CASES = []
nan = math.nan
D = math.pi / 180

INDEX = {
    '1h': lambda n: pd.date_range('2020-02-28 21:00', periods=n, freq='1h', tz='Etc/GMT+7'),
    '15min': lambda n: pd.date_range('2020-12-31 23:30', periods=n, freq='15min'),
    '6h dst': lambda n: pd.date_range('2020-03-08 00:00', periods=n, freq='6h', tz='America/Denver'),
    '1D': lambda n: pd.date_range('2019-12-30', periods=n, freq='1D', tz='UTC'),
    'irregular': lambda n: pd.Timestamp('2020-01-01 00:00') + pd.to_timedelta(np.cumsum([60, 30, 90, 15, 240, 60, 45][:n] if n <= 7 else
                                                                                       [60 + 15 * (i % 5) for i in range(n)]), unit='min'),
    'month ends': lambda n: pd.DatetimeIndex([pd.Timestamp(2019 + (i + 10) // 12, (i + 10) % 12 + 1, 1) for i in range(n)]),
}


def hours(idx):
    t = idx.tz_convert('UTC').tz_localize(None) if idx.tz is not None else idx
    s = [(b - a).total_seconds() / 3600 for a, b in zip(t[:-1], t[1:])]
    return [s[0] if s and len(set(s)) == 1 else None] + s


def covered_ref(fall, depth, hrs, thr, thd):
    out = []
    for i, (f, h) in enumerate(zip(fall, hrs)):
        c = h is not None and f / h > thr
        if depth is not None:
            c = c and depth[i] >= thd
        out.append(bool(c))
    return out


def machine(fall, poa, temp, tilt, depth, hrs, init, thr, thd, m, amount):
    """Row coverage step by step."""
    new = covered_ref(fall, depth, hrs, thr, thd)
    cov, out = None, []
    for i in range(len(fall)):
        if new[i]:
            cov = 1.
        elif i == 0:
            cov = init
            if depth is not None and depth[0] < thd:
                cov = cov - 1
        elif depth is not None and depth[i] < thd:
            cov = cov - 1
        elif temp[i] > poa[i] / m:
            t = tilt[i] if isinstance(tilt, (list, tuple)) else tilt
            cov = cov - amount * math.sin(t * D) * hrs[i]
        # coverage below zero stays zero until the next covering snowfall
        cov = max(cov, 0.)
        out.append(cov)
    return out


# fall is per hour, scaled by the interval: below, at, above the threshold
FALL = (0., 1., 1.25, nan)
# melt letters: (poa, temp): no melt, melt in the cold with sun, at the limit, missing
MELT = ((100., -5.), (800., -2.), (400., -5.), (100., 3.), (nan, 3.), (100., nan))
DEPTH = (0., 1., 5., nan)


def run(ctx, key, fall, poa, temp, tilt, depth, idx, init=0, thr=1., thd=1., m=-80., amount=.197, **kw):
    sr = lambda v: None if v is None else pd.Series(np.array(v, dtype=float), index=idx)   # noqa
    args = [sr(fall), sr(poa), sr(temp), (pd.Series(list(tilt), index=idx) if isinstance(tilt, (list, tuple)) else tilt), sr(depth)]
    before = [deepcopy(a) for a in args]
    try:
        got = quiet(S.coverage_nrel, args[0], args[1], args[2], args[3], snow_depth=args[4], initial_coverage=init, **kw)
        new = quiet(S.fully_covered_nrel, args[0], args[4], **{k: v for k, v in kw.items() if k.startswith('threshold')})
    except Exception as e:    # noqa
        ctx.fail(f'{key}/exception', f'{type(e).__name__}: {e}', n=len(fall), idx=str(idx[:3]))
        return
    hrs = hours(idx)
    exp = machine(fall, poa, temp, tilt, depth, hrs, init, thr, thd, m, amount)
    ctx.step(len(fall))
    ctx.expect(isinstance(got, pd.Series) and got.index.equals(idx), f'{key}/index', '')
    ctx.close(got, exp, f'{key}/coverage', atol=1e-9, fall=fall[:8], poa=poa[:8], temp=temp[:8], depth=depth[:8] if depth else None,
              idx=str(idx[:4]), init=init)
    g = np.asarray(got, dtype=float)
    ctx.expect(bool(((g >= 0) & (g <= 1)).all()), f'{key}/range', str(g[:8]))
    nw = covered_ref(fall, depth, hrs, thr, thd)
    ctx.expect(list(np.asarray(new)) == nw and new.index.equals(idx), f'{key}/new snow', f'{list(new)[:8]} {nw[:8]}')
    up = [i for i in range(1, len(g)) if g[i] > g[i - 1] + 1e-12 and not nw[i]]
    ctx.expect(not up, f'{key}/never grows without new snow', str(up[:3]))
    for a, b in zip(args, before):
        ctx.expect(same_value(a, b), f'{key}/mutated', '')
    ctx.outcome(tuple(np.round(g[-2:], 3)))


def rate(word, idx, base=1.):
    """Snow per interval for an hourly rate; the first interval defaults to the
    common one."""
    h = hours(idx)
    h[0] = h[0] if h[0] is not None else (h[1] if len(h) > 1 else 1.)
    return [f * base * x for f, x in zip(word, h)]


@case(CASES)
def event_histories(ctx):
    """All histories of (snowfall, melt) events."""
    letters = [(f, p, t) for f in (0., 1.25) for p, t in MELT[:4]] + [(1., 800., -2.), (nan, 800., -2.), (0., nan, 3.), (0., 100., nan)]
    n = 0
    for length in range(1, ctx.pick(4, 5)):
        for w in itertools.product(letters, repeat=length):
            ctx.state()
            n += 1
            idx = INDEX[('1h', '15min', '6h dst')[n % 3] if length > 2 else '1h'](length)
            f, p, t = zip(*w)
            run(ctx, f'history', rate(f, idx), p, t, (45., 20., 90.)[n % 3], None, idx, init=(0, .5, 1)[n // 3 % 3])
    # thresholds below, at and above the snowfall of the first sample, whose
    # interval is unknown when the spacing is uneven
    for lay, thr, fs in itertools.product(INDEX, (0., .5, 1., 1.25, 2.), itertools.product((0., .75, 1.25, 2.), repeat=3)):
        ctx.state()
        idx = INDEX[lay](3)
        run(ctx, 'first sample', rate(fs, idx), (800.,) * 3, (-2.,) * 3, 45., None, idx, init=.5, thr=thr, threshold_snowfall=thr)
    small = [(0., 100., -5.), (0., 800., -2.), (1.25, 100., -5.), (1.25, 800., -2.)]
    for w in itertools.product(small[:3] if not ctx.thorough else small, repeat=ctx.pick(6, 6)):
        ctx.state()
        f, p, t = zip(*w)
        idx = INDEX['1h'](len(w))
        run(ctx, 'long history', rate(f, idx), p, t, 60., None, idx, init=.75)


@case(CASES)
def depth_histories(ctx):
    """Ground-snow depth gates covering and clears the row."""
    letters = [(f, p, t, d) for f in (0., 1.25) for p, t in (MELT[0], MELT[1]) for d in DEPTH]
    n = 0
    for length in (1, 2, 3) if ctx.thorough else (1, 2):
        for w in itertools.product(letters, repeat=length):
            n += 1
            ctx.state()
            f, p, t, d = zip(*w)
            idx = INDEX['1h'](length)
            run(ctx, 'depth', rate(f, idx), p, t, 30., d, idx, init=(.5, 1., 0.)[n % 3])
    tiny = [(0., 100., -5., 0.), (0., 800., -2., 5.), (1.25, 100., -5., 5.), (1.25, 100., -5., 0.), (0., 100., -5., 5.)]
    for w in itertools.product(tiny, repeat=ctx.pick(4, 5)):
        ctx.state()
        f, p, t, d = zip(*w)
        idx = INDEX['15min'](len(w))
        run(ctx, 'depth long', rate(f, idx), p, t, 0., d, idx, init=1.)


def word_sequence(k, n):
    """De Bruijn sequence: every word of length n over k letters."""
    a, seq = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq + seq[:n - 1]


@case(CASES)
def every_word(ctx):
    """One history containing every word over the full alphabet, in every
    sampling interval, parameter set and tilt form."""
    full = [(f, p, t) for f in FALL for p, t in MELT]
    q = word_sequence(len(full), 2)
    fulld = [(f, p, t, d) for f in (0., 1.25) for p, t in MELT[:4] for d in DEPTH[:3]]
    qd = word_sequence(len(fulld), ctx.pick(2, 3))
    qs = word_sequence(4, ctx.pick(5, 7))
    small = [(0., 100., -5.), (0., 800., -2.), (1.25, 100., -5.), (0., 100., 3.)]
    for name, mk in INDEX.items():
        for tilt in (0., 15., 45., 90., 'series'):
            for init in (0, .3, 1.):
                for kw in ({}, dict(threshold_snowfall=1.5), dict(can_slide_coefficient=-160., slide_amount_coefficient=.05), dict(threshold_depth=4.)):
                    thr, thd = kw.get('threshold_snowfall', 1.), kw.get('threshold_depth', 1.)
                    m, am = kw.get('can_slide_coefficient', -80.), kw.get('slide_amount_coefficient', .197)
                    for q_, al in ((q, full), (qd, fulld), (qs, small)):
                        if q_ is q and name not in ('1h', '6h dst', 'irregular') and not ctx.thorough:
                            continue
                        w = [al[i] for i in q_]
                        idx = mk(len(w))
                        c = list(zip(*w))
                        tl = [(10., 30., 80.)[i % 3] for i in range(len(w))] if tilt == 'series' else tilt
                        # the exact threshold is exact only where f/h*h is
                        ctx.state(n=len(w))
                        run(ctx, f'words {name}', rate(c[0], idx), c[1], c[2], tl, c[3] if len(c) > 3 else None, idx, init, thr, thd, m, am, **kw)


@case(CASES)
def short_and_daily(ctx):
    """One or two records, daily and monthly records, first-interval rule."""
    for name, mk in INDEX.items():
        for n in (1, 2, 3):
            idx = mk(n)
            for word in itertools.product((0., .99, 1.01, 30.), repeat=n):
                for init in (0, .5):
                    ctx.state()
                    run(ctx, f'short {name}', rate(word, idx), [500.] * n, [2.] * n, 30., None, idx, init)
                    run(ctx, f'short depth {name}', rate(word, idx), [500.] * n, [-20.] * n, 30., [2.] * n, idx, init)


@case(CASES)
def dc_loss(ctx):
    lattice(ctx, 'dc_loss_nrel', S.dc_loss_nrel,
            lambda snow_coverage, num_strings: nan if snow_coverage != snow_coverage else
            next(k for k in range(int(num_strings) + 1) if snow_coverage * num_strings <= k) / num_strings,
            dict(snow_coverage=[0., .01, .125, .24, .25, .2501, .26, .375, .4999, .5, .50004, .51, .75, .8, .99, .99999, 1.], num_strings=[1, 2, 3, 4, 6, 8]),
            nan=['snow_coverage'], forms=('array', 'series', 'scalar', 'int', 'mixed', 'len1'))
    c = pd.Series([1., .7, .4, .1, 0.], pd.date_range('2020-01-01', periods=5, freq='h'))
    ctx.close(S.dc_loss_nrel(c, num_strings=8), np.array([8, 6, 4, 1, 0]) / 8, 'dc loss of a sliding row')


def townsend(months, tilt, slant, height, sf=1., repose=40., front=1.):
    """months: list of (snow cm, events, rh %, degC, Wh/m2)."""
    def eff(s, n):
        return 0. if n <= 0 else .5 * s / 2.54 * (1 + 1 / max(n, 1.))
    out = []
    for i, (s, n, rh, ta, g) in enumerate(months):
        p = months[i - 1]
        se = eff(p[0], p[1]) / 3 + 2 * eff(s, n) / 3
        dist = max((height * 39.37) ** 2 - se ** 2, .1)
        gamma = slant * 39.37 * se * math.cos(tilt * D) / (dist / (2 * math.tan(repose * D)))
        git = 1 - .51 * math.exp(-gamma)
        f = front[i] if isinstance(front, (list, tuple)) else front
        loss = 57000. * se * math.cos(tilt * D) ** 2 * git * rh / 100 / (ta + 273.15) ** 2 / (g / 1000) ** .67 * sf * f
        out.append(min(1., max(0., loss)))
    return out


@case(CASES)
def townsend_loss(ctx):
    """All yearly histories over a small month alphabet (the previous month
    matters, the year wraps around) x geometry."""
    months = [(0., 0., 70., 5., 120000.), (30., 4., 80., -6., 60000.), (254., 10., 90., -12., 30000.), (50., .5, 60., 0., 90000.), (20., 0., 75., -1., 80000.), (1e4, 30., 100., -20., 1000.), (15., 3., 100., -3., 110000.), (15., 1., 4., -30., 250000.)]
    geo = list(itertools.product((0., 20., 70.), (1.7, 4.), (.3, 1.5), (1., .75)))
    n = 0
    for length in (1, 2, 3, 4) if ctx.thorough else (1, 2, 3):
        for w in itertools.product(months, repeat=length):
            n += 1
            ctx.state()
            for tilt, slant, height, sf in (geo if length < 3 else [geo[n % len(geo)]]):
                a = [np.array(c) for c in zip(*w)]
                ctx.step(length)
                got = quiet(S.loss_townsend, a[0], a[1], tilt, a[2], a[3], a[4], slant, height, sf)
                ctx.close(got, townsend(w, tilt, slant, height, sf), 'townsend loss', rtol=1e-9, w=w, g=(tilt, slant, height, sf))
                ctx.expect(bool(((np.asarray(got) >= 0) & (np.asarray(got) <= 1)).all()), 'townsend range', str(got))
    for w in itertools.product(months[:3], repeat=2):
        year = list(w) * 6
        a = [np.array(c) for c in zip(*year)]
        for rep, fr in itertools.product((25., 40., 55.), (1., .9, tuple(1 - .05 * i for i in range(12)))):
            ctx.state()
            ctx.step(12)
            e = townsend(year, 25., 1.7, 1., 1., rep, fr)
            kw = dict(angle_of_repose=rep, front_side_fraction=np.array(fr) if isinstance(fr, tuple) else fr)
            ctx.close(quiet(S.loss_townsend, a[0], a[1], 25., a[2], a[3], a[4], 1.7, 1., **kw), e, 'townsend options')
            b = [v.copy() for v in a]
            quiet(S.loss_townsend, *[a[0], a[1], 25., a[2], a[3], a[4]], 1.7, 1.)
            ctx.expect(all(same_value(x, y) for x, y in zip(a, b)), 'townsend mutated', '')
            # integer counts and Series
            ai = [v.astype(int) for v in a]
            ef = townsend([tuple(float(int(x)) for x in m) for m in year], 25., 1.7, 1., 1., rep, fr)
            ctx.close(quiet(S.loss_townsend, ai[0], ai[1], 25, ai[2], ai[3], ai[4], 1.7, 1., **kw), ef, 'townsend integers')
            idx = pd.date_range('2020-07-01', periods=12, freq='MS')
            ser = [pd.Series(v, index=idx) for v in a]
            got = quiet(S.loss_townsend, ser[0], ser[1], 25., ser[2], ser[3], ser[4], 1.7, 1., **kw)
            ctx.close(got, e, 'townsend series')
    # a trace of snow below panels that touch the ground: the pile meets the edge
    tiny = [(.02, 1., 80., -5., 40000.), (.05, 2., 90., -8., 30000.), (0., 0., 60., 1., 90000.)]
    for w in itertools.product(tiny, repeat=2):
        for slant, height in itertools.product((.1, .3), (0., .0005, .01)):
            ctx.state()
            ctx.step(2)
            a = [np.array(c) for c in zip(*w)]
            got = quiet(S.loss_townsend, a[0], a[1], 20., a[2], a[3], a[4], slant, height)
            ctx.close(got, townsend(w, 20., slant, height), 'townsend small edge', rtol=1e-9, atol=0, w=w, g=(slant, height))
    # missing month: only it and the following one are affected
    year = [months[1], months[2], months[0], months[1]] * 3
    a = [np.array(c) for c in zip(*year)]
    for k in range(5):
        b = [v.copy() for v in a]
        b[k][4] = nan
        got = quiet(S.loss_townsend, b[0], b[1], 25., b[2], b[3], b[4], 1.7, 1.)
        e = np.array(townsend(year, 25., 1.7, 1.))
        aff = [4, 5] if k < 2 else [4]
        keep = [i for i in range(12) if i not in aff]
        ctx.close(np.asarray(got)[keep], e[keep], f'townsend missing input {k} elsewhere')
        if k != 1:
            ctx.expect(bool(np.isnan(np.asarray(got)[4])), f'townsend missing input {k}', str(got))
