"""All measured series over a small alphabet of per-sample deviations (every
history of the given length), x window lengths, sample intervals and
threshold sets, against a window-by-window model of the five criteria and of
the scaling iteration; containers, missing values and rejections."""
import itertools
import math

import numpy as np
import pandas as pd

from mc.core import case, quiet, same_value
from pvlib import clearsky, tools

CASES = []
nan = float('nan')
DEF = dict(mean_diff=75, max_diff=75, lower_line_length=-5, upper_line_length=10, var_diff=0.005, slope_dev=8)


def window_stats(x, dt):
    n = len(x)
    if any(v != v for v in x):
        return None
    d = [b - a for a, b in zip(x, x[1:])]
    s = [v / dt for v in d]
    mean = sum(x) / n
    ms = sum(s) / len(s)
    sd = math.sqrt(sum((v - ms) ** 2 for v in s) / (len(s) - 1)) if len(s) > 1 else nan
    return mean, max(x), sum(math.sqrt(v * v + dt * dt) for v in d), (sd / mean if mean else nan), d


def model(meas, clear, dt, w, p, max_iter=20):
    n = len(meas)
    alpha = 1.
    for it in range(max_iter):
        flags = [False] * n
        for k in range(n - w + 1):
            a = window_stats(meas[k:k + w], dt)
            c = window_stats(clear[k:k + w], dt)
            if a is None or c is None or c[0] == 0:
                continue
            cl = sum(math.sqrt((alpha * v) ** 2 + dt * dt) for v in c[4])
            dev = max(abs(u - alpha * v) for u, v in zip(a[4], c[4]))
            if (abs(a[0] - alpha * c[0]) < p['mean_diff'] and abs(a[1] - alpha * c[1]) < p['max_diff']
                    and p['lower_line_length'] < a[2] - cl < p['upper_line_length']
                    and a[3] < p['var_diff'] and dev < p['slope_dev']):
                for i in range(k, k + w):
                    flags[i] = True
        prev = alpha
        C = sum(c * c for c, f in zip(clear, flags) if f)
        if C:
            alpha = sum(m * c for m, c, f in zip(meas, clear, flags) if f) / C
        if round(alpha * 10000) == round(prev * 10000):
            return flags, alpha, True
    return flags, alpha, False


def limits(dt):
    x = [1, 5, 15, 30]
    f = lambda y: float(np.interp(dt, x, y))    # noqa
    return f([50, 60, 90, 120]), dict(mean_diff=75., max_diff=f([60, 65, 75, 90]), lower_line_length=-45.,
                                      upper_line_length=80., var_diff=f([0.005, 0.01, 0.032, 0.07]),
                                      slope_dev=f([50, 60, 75, 96]))


def clear_curve(n, dt, base=700.):
    return [base + 3.1 * dt * i - 0.07 * (dt * i) ** 2 / dt for i in range(n)]


def run(ctx, meas, clear, dt, win, p, key, **kw):
    times = pd.date_range('2021-06-21 10:00', periods=len(meas), freq=pd.Timedelta(minutes=dt), tz='Etc/GMT+7')
    ctx.step()
    out = quiet(clearsky.detect_clearsky, pd.Series(meas, times), pd.Series(clear, times), window_length=win,
                return_components=True, **p, **kw)
    return out, times


# threshold sets in which one criterion at a time decides
SETS = {
    'default': (DEF, (0., 2.3, -40.7)),
    'mean': (dict(mean_diff=11, max_diff=1e4, lower_line_length=-1e4, upper_line_length=1e4, var_diff=10,
                  slope_dev=1e4), (0., 26.3, -14.7)),
    'max': (dict(mean_diff=1e4, max_diff=13, lower_line_length=-1e4, upper_line_length=1e4, var_diff=10,
                 slope_dev=1e4), (0., 20.3, -14.7)),
    'line': (dict(mean_diff=1e4, max_diff=1e4, lower_line_length=-3.1, upper_line_length=9.3, var_diff=10,
                  slope_dev=1e4), (0., 7.3, -4.7)),
    'line-low': (dict(mean_diff=1e4, max_diff=1e4, lower_line_length=0.13, upper_line_length=1e4, var_diff=10,
                      slope_dev=1e4), (0., 3.3, -4.7)),
    'var': (dict(mean_diff=1e4, max_diff=1e4, lower_line_length=-1e4, upper_line_length=1e4, var_diff=0.0131,
                 slope_dev=1e4), (0., 16.3, -14.7)),
    'slope': (dict(mean_diff=1e4, max_diff=1e4, lower_line_length=-1e4, upper_line_length=1e4, var_diff=10,
                   slope_dev=17.7), (0., 16.3, -9.9)),
    'mixed': (dict(mean_diff=15, max_diff=22, lower_line_length=-6, upper_line_length=9, var_diff=0.0171,
                   slope_dev=14), (0., 9.3, -33.)),
}


def diagnostics(ctx, comp, meas, clear, dt, w, alpha, key):
    """The returned statistics are those of the windows (in window order)."""
    a = [window_stats(meas[k:k + w], dt) for k in range(len(meas) - w + 1)]
    c = [window_stats(clear[k:k + w], dt) for k in range(len(meas) - w + 1)]
    ll = [sum(math.sqrt((alpha * v) ** 2 + dt * dt) for v in y[4]) for y in c]
    exp = dict(mean_diff=[abs(x[0] - alpha * y[0]) for x, y in zip(a, c)],
               max_diff=[abs(x[1] - alpha * y[1]) for x, y in zip(a, c)],
               line_length=[x[2] - q for x, q in zip(a, ll)],
               slope_nstd=[x[3] for x in a],
               slope_max=[max(abs(u - alpha * v) for u, v in zip(x[4], y[4])) for x, y in zip(a, c)])
    for k, e in exp.items():
        g = np.asarray(comp[k], float)
        g = g[~np.isnan(g)]
        # the last rescaling may change alpha by up to 1e-4
        ctx.expect(len(g) == len(e) and np.allclose(g, e, rtol=1e-6, atol=1e-3 * (100 if k != 'slope_nstd' else 1e-6)),
                   f'{key}/component/{k}', f'{list(g)} instead of {e}')


def _hist(name):
    def f(ctx):
        p, dev = SETS[name]
        n = ctx.pick(6, 7)
        for dt, w in (((1, 3),) if not ctx.thorough else ((1, 3), (2, 4), (5, 3))):
            clear = clear_curve(n, dt)
            for h in itertools.product(dev, repeat=n):
                ctx.state((dt, w, h))
                meas = [1.02 * c + d for c, d in zip(clear, h)]
                (flags, comp, alpha), times = run(ctx, meas, clear, dt, w * dt, p, name)
                ef, ea, conv = model(meas, clear, dt, w, p)
                ctx.expect(list(np.asarray(flags)) == ef, f'{name}/{dt}/{w}/flags',
                           f'{list(np.asarray(flags))} instead of {ef}', deviations=h)
                ctx.expect(abs(alpha - ea) < 1e-9, f'{name}/{dt}/{w}/alpha', f'{alpha} instead of {ea}', deviations=h)
                ctx.expect(isinstance(flags, pd.Series) and flags.index.equals(times) and flags.dtype == bool,
                           f'{name}/container')
                diagnostics(ctx, comp, meas, clear, dt, w, alpha, f'{name}/{dt}/{w}')
                ctx.outcome((dt, w, tuple(ef)))
        ctx.sample(dict(deviations=h, flags=ef))
    return f


for _s in SETS:
    CASES.append((f'histories_{_s}', _hist(_s), False))


@case(CASES)
def longer_series(ctx):
    """Window lengths and sample intervals on longer series with one or two
    disturbances at every position (pairs)."""
    for dt, win in ((1, 10), (1, 7), (3, 10), (5, 30), (0.5, 3)) if not ctx.thorough else (
            (1, 10), (1, 7), (1, 3), (3, 10), (5, 30), (0.5, 3), (15, 60), (0.25, 2), (2, 11), (1.5, 6)):
        w = int(win / dt)
        n = w + 7
        clear = clear_curve(n, dt, 500.)
        for i, j in itertools.combinations_with_replacement(range(n), 2):
            for mag in (60., -300., nan):
                ctx.state((dt, win, i, j, mag))
                meas = [0.97 * c for c in clear]
                meas[i] += mag
                if j != i:
                    meas[j] += mag
                (flags, comp, alpha), _ = run(ctx, meas, clear, dt, win, DEF, 'long')
                ef, ea, _c = model(meas, clear, dt, w, DEF)
                ctx.expect(list(np.asarray(flags)) == ef, f'long/{dt}/{win}/flags', f'positions {i},{j} by {mag}')
                ctx.expect(abs(alpha - ea) < 1e-9, f'long/{dt}/{win}/alpha', f'{alpha} {ea}')
                ctx.outcome((dt, win, sum(ef)))


@case(CASES)
def night_and_missing(ctx):
    """Zero or missing clear-sky values at every subset of positions."""
    n, w = 8, 3
    for z in (0., nan):
        for pat in itertools.product((0, 1), repeat=n):
            if not ctx.thorough and sum(pat) > 4:
                continue
            ctx.state((z, pat))
            base = clear_curve(n, 1)
            clear = [z if b else c for b, c in zip(pat, base)]
            meas = [0. if (b and z == 0) else c for b, c in zip(pat, base)]
            p = dict(DEF, slope_dev=1e4, var_diff=10, upper_line_length=1e4, lower_line_length=-1e4,
                     mean_diff=1e4, max_diff=1e4)
            (flags, comp, alpha), _ = run(ctx, meas, clear, 1, 3, p, 'night')
            ef, ea, _c = model(meas, clear, 1, w, p)
            ctx.expect(list(np.asarray(flags)) == ef, f'night/{z}/flags', f'pattern {pat}')
            ctx.expect(abs(alpha - ea) < 1e-9, f'night/{z}/alpha')


@case(CASES)
def signed_values(ctx):
    """Every clear-sky word over {-1, 0, 1}: windows whose mean is zero without being empty are not judged."""
    p = dict(DEF, slope_dev=1e4, var_diff=10, upper_line_length=1e4, lower_line_length=-1e4, mean_diff=1e4, max_diff=1e4)
    for level in (5., 0.25):
        for word in itertools.product((-1., 0., 1.), repeat=ctx.pick(6, 7)):
            ctx.state((level, word))
            meas = [level] * len(word)
            (flags, comp, alpha), _ = run(ctx, meas, list(word), 1, 3, p, 'signed')
            ef, ea, _c = model(meas, list(word), 1, 3, p)
            ctx.expect(list(np.asarray(flags)) == ef, 'signed/flags', f'{word}: {list(np.asarray(flags))} instead of {ef}')
            ctx.expect(abs(alpha - ea) < 1e-9, 'signed/alpha', f'{word}: {alpha} instead of {ea}')


@case(CASES)
def inferred_limits(ctx):
    for dt in (1, 2, 3, 5, 10, 15, 20, 30):
        win, p = limits(dt)
        w = int(win / dt)
        n = w + 4
        x = np.arange(n)
        clear = list(400 + 30. * dt * np.sin(x / n * 3))
        for i in range(n):
            for mag in (0., 30., 45., 55., 58., 63., 68., 74., 85., 92., 130., -400.):
                ctx.state((dt, i, mag))
                ctx.step()
                meas = [1.01 * c for c in clear]
                meas[i] += mag
                times = pd.date_range('2021-06-21', periods=n, freq=f'{dt}min', tz='UTC')
                f = quiet(clearsky.detect_clearsky, pd.Series(meas, times), pd.Series(clear, times),
                          infer_limits=True)
                ef, _a, _c = model(meas, clear, dt, w, p)
                ctx.expect(list(f) == ef, f'infer/{dt}', f'position {i} by {mag}')
                ctx.outcome((dt, sum(ef)))
    # with inferred limits, those given (and the window given) do not count
    for dt in (1, 5, 15, 30):
        win, p = limits(dt)
        w = int(win / dt)
        for n in (w, w + 1, w + 30):
            clear = list(500 + 3. * dt * np.sin(np.arange(n) / n * 3))
            times = pd.date_range('2021-06-21', periods=n, freq=f'{dt}min', tz='UTC')
            for i in (0, n // 2, n - 1):
                meas = [1.01 * c for c in clear]
                meas[i] += 130.
                ef, _a, _c = model(meas, clear, dt, w, p)
                for kw in ({}, dict(window_length=win + 25 * dt), dict(window_length=3 * dt), dict(window_length=dt), dict(mean_diff=1e-3, max_diff=1e-3),
                           dict(lower_line_length=5, upper_line_length=6), dict(var_diff=0, slope_dev=0)):
                    ctx.state((dt, n, i, str(kw)))
                    ctx.step()
                    f = quiet(clearsky.detect_clearsky, pd.Series(meas, times), pd.Series(clear, times), infer_limits=True, **kw)
                    ctx.expect(list(f) == ef, f'infer/given/{kw}', f'dt {dt}, n {n}, position {i}')
    for dt in (0.5, 31, 60):
        t = pd.date_range('2021-06-21', periods=300, freq=pd.Timedelta(minutes=dt), tz='UTC')
        s = pd.Series(500., t)
        ctx.state(dt)
        ctx.raises(ValueError, lambda: clearsky.detect_clearsky(s, s, infer_limits=True, window_length=200),
                   f'infer/reject/{dt}')


@case(CASES)
def exact_thresholds(ctx):
    """A criterion met exactly at its threshold is not met; series of exactly one window."""
    off = dict(mean_diff=1e9, max_diff=1e9, lower_line_length=-1e9, upper_line_length=1e9, var_diff=1e9, slope_dev=1e9)
    for n in (3, 4, 6):
        for delta in (-64., 0., 16., 64.):
            for thr in (64., 63.5, 64.5, 16., 16.25, 0., .25):
                for k in ('mean_diff', 'max_diff'):
                    ctx.state((n, delta, thr, k))
                    clear, meas = [512.] * n, [512. + delta] * n
                    p = dict(off, **{k: thr})
                    (flags, comp, alpha), _ = run(ctx, meas, clear, 1, 3, p, 'exact')
                    ef, ea, _c = model(meas, clear, 1, 3, p)
                    ctx.expect(list(np.asarray(flags)) == ef, f'exact/{k}', f'{n} {delta} {thr}')
                    ctx.expect(abs(alpha - ea) < 1e-9, f'exact/{k}/alpha')
        ramp = [500. + 4 * i for i in range(n)]
        for lo, hi in ((0., 1e9), (-1e-6, 1e9), (-1e9, 0.), (-1e9, 1e-6), (1e-6, 1e9), (-1., 1.)):
            ctx.state((n, lo, hi))
            p = dict(off, lower_line_length=lo, upper_line_length=hi)
            for meas in (ramp, [v + 8. for v in ramp]):
                (flags, comp, alpha), _ = run(ctx, meas, ramp, 1, 3, p, 'exact')
                ef, ea, _c = model(meas, ramp, 1, 3, p)
                ctx.expect(list(np.asarray(flags)) == ef, 'exact/line', f'{n} {lo} {hi}')
        for s in (4., 3.75, 4.25):
            ctx.state((n, 'slope', s))
            flat, p = [512.] * n, dict(off, slope_dev=s, max_diff=1e9)
            meas = [512. + 4 * i for i in range(n)]
            (flags, comp, alpha), _ = run(ctx, meas, flat, 1, 3, p, 'exact')
            ef, ea, _c = model(meas, flat, 1, 3, p)
            ctx.expect(list(np.asarray(flags)) == ef, 'exact/slope', f'{n} {s}')
    for n, w in ((3, 3), (10, 10), (7, 5)):
        for i in range(n):
            ctx.state((n, w, i))
            clear = clear_curve(n, 1)
            meas = [1.01 * c for c in clear]
            meas[i] += 3.
            (flags, comp, alpha), _ = run(ctx, meas, clear, 1, w, DEF, 'one window')
            ef, ea, _c = model(meas, clear, 1, w, DEF)
            ctx.expect(list(np.asarray(flags)) == ef and abs(alpha - ea) < 1e-9, 'one window', f'{n} {w} {i}')


@case(CASES)
def slow_scaling(ctx):
    """The scaling is refined until it no longer changes in the fourth decimal."""
    off = dict(max_diff=1e9, lower_line_length=-1e9, upper_line_length=1e9, var_diff=1e9, slope_dev=1e9)
    n = 40
    for r0, r1 in itertools.product((1., 1.0002, .9995), (1.0003, 1.001, 1.003, 1.01, 0.998)):
        for lim in (.05, .1, .2, .3, .5, .75, 1., 2.):
            for most in (20, 5, 2):
                ctx.state((r0, r1, lim, most))
                clear = [600. + 2.1 * i for i in range(n)]
                meas = [c * (r0 + (r1 - r0) * i / n) for i, c in enumerate(clear)]
                p = dict(off, mean_diff=lim)
                (flags, comp, alpha), _ = run(ctx, meas, clear, 1, 3, p, 'slow', max_iterations=most)
                ef, ea, _c = model(meas, clear, 1, 3, p, most)
                ctx.expect(list(np.asarray(flags)) == ef, 'slow/flags', f'{r0} {r1} {lim} {most}')
                ctx.expect(abs(alpha - ea) < 1e-9, 'slow/alpha', f'{alpha} {ea}')
                ctx.outcome((most, sum(ef)))


@case(CASES)
def containers(ctx):
    n = 12
    clear = np.array(clear_curve(n, 1))
    meas = 1.03 * clear
    meas[3] += 55
    meas[9] -= 20
    imeas, iclear = np.round(meas).astype(int), np.round(clear).astype(int)
    for ints in (False, True):
        m, c = (imeas, iclear) if ints else (meas, clear)
        ef, ea, _ = model([float(v) for v in m], [float(v) for v in c], 1, 3, DEF)
        for tz, start in ((None, '2021-06-21 10:00'), ('UTC', '2021-06-21 10:00'), ('US/Eastern', '2021-03-14 01:55'),
                          ('US/Eastern', '2021-11-07 00:55'), ('Asia/Kathmandu', '2020-02-29 23:55')):
            t = pd.date_range(start, periods=n, freq='1min', tz=tz)
            ms, cs = pd.Series(m, t, name='a'), pd.Series(c, t, name='b')
            forms = dict(series=(ms, cs, None), series_times=(ms, cs, t), array=(m.copy(), c.copy(), t),
                         mixed=(ms, c.copy(), None), mixed2=(m.copy(), cs, t), lists=(list(m), list(c), t))
            for f, (a, b, tt) in forms.items():
                ctx.state((ints, tz, start, f))
                ctx.step()
                a0 = a.copy() if hasattr(a, 'copy') else a
                b0 = b.copy() if hasattr(b, 'copy') else b
                try:
                    g = quiet(clearsky.detect_clearsky, a, b, times=tt, window_length=3)
                    g2, comp, al = quiet(clearsky.detect_clearsky, a, b, times=tt, window_length=3,
                                         return_components=True)
                except Exception as e:    # noqa
                    ctx.fail(f'container/{f}/{ints}', f'{type(e).__name__}: {e}')
                    continue
                ctx.expect(list(np.asarray(g)) == ef and list(np.asarray(g2)) == ef, f'container/{f}/{ints}/flags')
                ctx.expect(abs(al - ea) < 1e-9, f'container/{f}/alpha')
                if f.startswith('series') or f == 'mixed':
                    ctx.expect(isinstance(g, pd.Series) and g.index.equals(t), f'container/{f}/index')
                else:
                    ctx.expect(isinstance(g, np.ndarray), f'container/{f}/type', type(g).__name__)
                ctx.expect(same_value(a, a0) and same_value(b, b0), f'container/{f}/mutated')
                for k in ('mean_diff_flag', 'max_diff_flag', 'line_length_flag', 'slope_nstd_flag',
                          'slope_max_flag', 'mean_nan_flag', 'windows', 'mean_diff', 'max_diff', 'line_length',
                          'slope_nstd', 'slope_max'):
                    ctx.expect(k in comp and len(comp[k]) == n, f'container/{f}/component/{k}')
                # the window flag is the conjunction of the criteria
                w = np.logical_and.reduce([np.asarray(comp[k], bool) for k in (
                    'mean_diff_flag', 'max_diff_flag', 'line_length_flag', 'slope_nstd_flag', 'slope_max_flag',
                    'mean_nan_flag')])
                ctx.expect((w == np.asarray(comp['windows'], bool)).all(), f'container/{f}/windows')
    t = pd.date_range('2021-06-21', periods=n, freq='1min', tz='UTC')
    s = pd.Series(clear, t)
    ctx.raises(ValueError, lambda: clearsky.detect_clearsky(clear, clear), 'reject/no-times')
    ctx.raises(ValueError, lambda: clearsky.detect_clearsky(s, s, window_length=2), 'reject/short-window')
    ctx.raises(ValueError, lambda: clearsky.detect_clearsky(s, s, window_length=13), 'reject/few-samples')
    for drop in range(1, n - 1):
        ctx.state(('gap', drop))
        q = s.drop(s.index[drop])
        ctx.raises(NotImplementedError, lambda: clearsky.detect_clearsky(q, q, window_length=3), 'reject/unequal')
    # non-converging scaling: a warning, and the flags of the last iteration
    import warnings
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        g = clearsky.detect_clearsky(1.03 * s, s, window_length=3, max_iterations=1)
    ef, ea, conv = model([1.03 * v for v in clear], list(clear), 1, 3, DEF, 1)
    ctx.expect(not conv and any(issubclass(r.category, RuntimeWarning) for r in rec), 'max-iterations/warning')
    ctx.expect(list(g) == ef, 'max-iterations/flags')


@case(CASES)
def sample_intervals(ctx):
    """Any regular interval from seconds to days."""
    for unit, per in (('100ms', 1 / 600), ('1500ms', .025), ('6s', .1), ('90s', 1.5), ('1min', 1), ('7min', 7),
                      ('1h', 60), ('6h', 360), ('1D', 1440), ('36h', 2160), ('2D', 2880)):
        for k in (3, 4, 5):
            n = k + 5
            t = pd.date_range('2021-06-21', periods=n, freq=unit, tz='UTC')
            clear = 700 + 5.3 * np.arange(n)
            meas = 1.01 * clear
            meas[1] += 90
            s, c = pd.Series(meas, t), pd.Series(clear, t)
            win = (k + 0.01) * per
            ctx.state((unit, k))
            ctx.step()
            p = dict(DEF, var_diff=1e9, lower_line_length=-1e9, upper_line_length=1e9, slope_dev=1e9)
            try:
                g, _, al = quiet(clearsky.detect_clearsky, s, c, window_length=win, return_components=True, **p)
            except Exception as e:   # noqa
                ctx.fail(f'interval/{unit}', f'{type(e).__name__}: {e}')
                continue
            ef, ea, _ = model(list(meas), list(clear), per, k, p)
            ctx.expect(list(g) == ef, f'interval/{unit}/flags', f'{list(g)} {ef}')
            ctx.expect(abs(al - ea) < 1e-9, f'interval/{unit}/alpha')
