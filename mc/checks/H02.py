"""Every history of samples over a small alphabet of (irradiance, air
temperature, wind) up to the bound, on regular, irregular and DST-crossing
clocks, for the two transient temperature models; oracle: independent scalar
step rules, causality by comparing every history with its prefixes."""
import itertools
import math
import warnings

import numpy as np
import pandas as pd

from mc.core import case, quiet, same_value
from pvlib import temperature as T

CASES = []
nan = math.nan


def hconv_f(tave, wind, dt, xlen, tilt, reynold_test):
    rho = .003484 * 101325 / tave
    vis = .24237e-6 * tave ** .76 / rho
    cond = 2.1695e-4 * tave ** .84
    re = wind * xlen / vis
    if reynold_test and re > 1.2e5:
        forced = .0282 / re ** .2 * rho * wind * 1007 / .71 ** .4
    else:
        forced = .86 / re ** .5 * rho * wind * 1007 / .71 ** .67
    gr = 9.8 / tave * dt * xlen ** 3 / vis ** 2 * math.sin(math.radians(tilt))
    free = .21 * (gr * .71) ** .32 * cond / xlen
    return (free ** 3 + forced ** 3) ** (1 / 3)


def fuentes_ref(samples, hours, noct, height=5, wind_height=9.144, emis=.84, absn=.83, tilt=30, width=.31579, length=1.2):
    """Fuentes (1987) appendix A; hours: elapsed time before each sample."""
    B = 5.669e-8
    xlen = 2 * width * length / (width + length)
    tin, t0 = noct + 273.15, 293.15
    hc = hconv_f((tin + t0) / 2, 1., tin - t0, xlen, tilt, False)
    hg = emis * B * (tin ** 2 + t0 ** 2) * (tin + t0)
    backrat = (absn * 800 - emis * B * (tin ** 4 - 282.21 ** 4) - hc * (tin - t0)) / ((hg + hc) * (tin - t0))
    tg = tin ** 4 - backrat * (tin ** 4 - t0 ** 4)
    tg = tg ** .25 if tg >= 0 else nan
    tg = min(max(tg, t0), tin)
    tgrat = (tg - t0) / (tin - t0)
    convrat = (absn * 800 - emis * B * (2 * tin ** 4 - 282.21 ** 4 - tg ** 4)) / (hc * (tin - t0))
    cap = 11000 * (1 + (tin - 321.15) / 12 if tin > 321.15 else 1)
    state, sun0, out = t0, 0., []
    for (g, ta, w), h in zip(samples, hours):
        tamb, sun = ta + 273.15, g * absn
        sky = .68 * .0552 * tamb ** 1.5 + .32 * tamb
        wind = w * (height / wind_height) ** .2 + .0001
        tm = state
        for _ in range(10):
            c = convrat * hconv_f((tm + tamb) / 2, wind, abs(tm - tamb), xlen, tilt, True)
            s = emis * B * (tm ** 2 + sky ** 2) * (tm + sky)
            gr = tamb + tgrat * (tm - tamb)
            q = emis * B * (tm ** 2 + gr ** 2) * (tm + gr)
            tot = c + s + q
            e = -tot / cap * h * 3600
            ex = math.exp(e) if e > -10 else 0.
            tm = state * ex + ((1 - ex) * (c * tamb + s * sky + q * gr + sun0 + (sun - sun0) / e) + sun - sun0) / tot
        out.append(tm - 273.15)
        state, sun0 = tm, sun
    return out


def elapsed(idx):
    """Elapsed hours before each sample; the first takes the second's."""
    t = [x.timestamp() for x in idx]
    d = [(b - a) / 3600 for a, b in zip(t, t[1:])]
    return [d[0]] + d


A = {'n': (0., -5., 0.), 'd': (850., 30.25, 6.), 'm': (300.5, 12., 1.5), 'x': (1100., 45., 0.), 'c': (40, -20.5, 25.)}
CLOCKS = {
    'hour': lambda n: pd.date_range('2021-06-21 05:00', periods=n, freq='h', tz='UTC'),
    'min': lambda n: pd.date_range('2021-06-21 05:00', periods=n, freq='1min', tz='Etc/GMT+7'),
    'day': lambda n: pd.date_range('2021-06-21', periods=n, freq='D', tz='UTC'),
    'naive': lambda n: pd.date_range('2021-06-21 05:00', periods=n, freq='15min'),
    'second': lambda n: pd.date_range('2021-06-21 05:00', periods=n, freq='500ms', tz='UTC'),
    'gap': lambda n: pd.DatetimeIndex((pd.Timestamp('2021-06-21 05:00', tz='UTC') + pd.to_timedelta(
        np.cumsum([0, 60, 3600, 26 * 3600, 300, 1800, 86400, 7200, 1, 600])[:n], unit='s'))),
    'dst': lambda n: pd.date_range('2021-03-14 00:00', periods=n, freq='h', tz='America/Denver'),
    'fall': lambda n: pd.date_range('2021-11-07 00:00', periods=n, freq='30min', tz='America/Denver'),
}


def frame(seq, idx, dtype=float):
    g, t, w = zip(*seq)
    return [pd.Series(np.array(x), index=idx) for x in (g, t, w)]


def run_f(seq, idx, noct, **kw):
    a = frame(seq, idx)
    before = [x.copy() for x in a]
    r = quiet(T.fuentes, *a, noct, **kw)
    return r, all(same_value(x, y) for x, y in zip(a, before))


@case(CASES)
def fuentes_histories(ctx):
    depth = ctx.pick(4, 6)
    for clk in CLOCKS:
        letters = 'ndm' if clk not in ('hour', 'gap') or ctx.thorough else 'ndmx'
        L = depth if clk in ('hour', 'gap') else depth - 1
        pre = {}
        for n in range(2, L + 1):
            idx = CLOCKS[clk](n)
            h = elapsed(idx)
            for word in itertools.product(letters, repeat=n):
                seq = [A[c] for c in word]
                ctx.state((clk, word))
                ctx.step(n)
                r, same = run_f(seq, idx, 45.)
                ctx.expect(same, 'fuentes modified its input')
                ctx.close(r, fuentes_ref(seq, h, 45.), f'fuentes {clk}', rtol=1e-8, atol=1e-7, word=''.join(word))
                ctx.expect(isinstance(r, pd.Series) and r.index.equals(idx), 'fuentes index')
                v = tuple(np.asarray(r))
                if n > 2:
                    ctx.expect(v[:-1] == pre[word[:-1]], 'fuentes later sample changed an earlier one', word=''.join(word))
                pre[word] = v
        ctx.outcome((clk, round(v[-1], 3)))


OPTS = [dict(module_height=2), dict(wind_height=2), dict(emissivity=.9), dict(absorption=.9), dict(surface_tilt=0), dict(surface_tilt=75),
        dict(module_width=1., module_length=1.7), dict(module_width=1., module_length=1.), dict(module_width=3., module_length=3.), dict(module_height=10, wind_height=3, surface_tilt=10)]


@case(CASES)
def fuentes_options(ctx):
    for noct in (45, 48, 48.001, 49, 55.5, 40):
        for o in [{}] + OPTS:
            kw = dict(height=o.get('module_height', 5), wind_height=o.get('wind_height', 9.144), emis=o.get('emissivity', .84),
                      absn=o.get('absorption', .83), tilt=o.get('surface_tilt', 30), width=o.get('module_width', .31579), length=o.get('module_length', 1.2))
            for n in (2, 3):
                idx = CLOCKS['hour'](n)
                h = elapsed(idx)
                for word in itertools.product('ndxc', repeat=n):
                    if n == 3 and not ctx.thorough and word[0] != 'd':
                        continue
                    seq = [A[c] for c in word]
                    ctx.state((noct, str(o), word))
                    ctx.step(n)
                    r, _ = run_f(seq, idx, noct, **o)
                    ctx.close(r, fuentes_ref(seq, h, noct, **kw), f'fuentes option {sorted(o)}', rtol=1e-8, atol=1e-7, noct=noct)


@case(CASES)
def fuentes_long(ctx):
    """Periodic days, integer data, and steady input."""
    n = ctx.pick(72, 24 * 14)
    idx = pd.date_range('2021-06-21', periods=n, freq='h', tz='Etc/GMT+7')
    hr = np.arange(n) % 24
    seq = [(float(round(max(0, 1000 * math.sin((x - 6) / 12 * math.pi)))), float(15 + (x % 7)), float(x % 9)) for x in hr]
    ctx.state('days')
    ctx.step(n)
    r, _ = run_f(seq, idx, 49)
    exp = fuentes_ref(seq, elapsed(idx), 49)
    ctx.close(r, exp, 'fuentes days', rtol=1e-8, atol=1e-7)
    ints = [pd.Series(np.array(x).astype(int), index=idx) for x in zip(*seq)]
    ctx.close(quiet(T.fuentes, *ints, 49), exp, 'fuentes integers', rtol=1e-8, atol=1e-7)
    for c in A:
        for clk in ('min', 'hour'):
            m = 400 if clk == 'min' else 30
            idx = CLOCKS[clk](m)
            ctx.state(('steady', c, clk))
            ctx.step(m)
            r, _ = run_f([A[c]] * m, idx, 45)
            v = np.asarray(r)
            ctx.expect(abs(v[-1] - v[-2]) < 1e-3, f'fuentes does not converge {c} {clk}')
            two = np.asarray(run_f([A[c]] * 2, pd.DatetimeIndex(['2021-01-01', '2021-01-03'], tz='UTC'), 45)[0])
            if c != 'n':
                ctx.close(v[-1], two[-1], f'fuentes steady value depends on the step {c}', atol=.05)
            if A[c][0] > 200:
                ctx.expect(v[-1] > A[c][1], f'fuentes sunny module colder than air {c}')
            elif A[c][0] == 0:
                ctx.expect(v[-1] <= A[c][1] + 1e-6, f'fuentes night module warmer than air {c}')


@case(CASES)
def fuentes_missing(ctx):
    """A missing sample leaves every earlier result as it was."""
    idx = CLOCKS['hour'](5)
    base = [A[c] for c in 'dmxnd']
    ref, _ = run_f(base, idx, 45)
    for k in range(5):
        for f in range(3):
            s = [list(x) for x in base]
            s[k][f] = nan
            ctx.state((k, f))
            ctx.step(5)
            r, _ = run_f([tuple(x) for x in s], idx, 45)
            ctx.close(r.iloc[:k], ref.iloc[:k], 'fuentes missing changed the past')
            ctx.expect(math.isnan(r.iloc[k]), 'fuentes missing sample gives a number')


# --- prilliman -------------------------------------------------------------
def pril_ref(temp, wind, dt, mass=11.1, a=(.0046, .00046, -.00023, -1.6e-5)):
    """dt: sampling interval in seconds."""
    n = len(temp)
    m = min(int(math.floor(1200 / dt + 1e-9)), n)
    out = []
    for k in range(n):
        if k == 0:
            out.append(temp[0])
            continue
        p = a[0] + a[1] * wind[k] + a[2] * mass + a[3] * wind[k] * mass
        num = den = 0.
        for lag in range(1, m + 1):
            if k - lag >= 0 and temp[k - lag] == temp[k - lag]:
                wgt = math.exp(-p * lag * dt)
                num += wgt * temp[k - lag]
                den += wgt
        out.append(num / den if den else nan)
    return out


def run_p(temp, wind, idx, **kw):
    t, w = pd.Series(temp, index=idx), pd.Series(wind, index=idx)
    t0, w0 = t.copy(), w.copy()
    r = quiet(T.prilliman, t, w, **kw)
    return r, same_value(t, t0) and same_value(w, w0)


LET = [(20., 1.), (55.5, 0.), (-8., 7.), (nan, 2.), (33., nan)]


@case(CASES)
def prilliman_histories(ctx):
    """All histories over the alphabet (with missing temperature and wind), all
    sampling intervals around the window length."""
    depth = ctx.pick(5, 6)
    for dt in (300, 420, 1199, 60):
        L = depth if dt == 300 else depth - 1
        pre = {}
        for n in range(3, L + 1):
            idx = pd.date_range('2021-06-21 11:00', periods=n, freq=f'{dt}s', tz='Etc/GMT+7')
            for word in itertools.product(range(len(LET)), repeat=n):
                t, w = [LET[c][0] for c in word], [LET[c][1] for c in word]
                ctx.state((dt, word))
                ctx.step(n)
                r, same = run_p(t, w, idx)
                ctx.expect(same, 'prilliman modified its input')
                ctx.close(r, pril_ref(t, w, dt), f'prilliman {dt}', word=word)
                ctx.expect(isinstance(r, pd.Series) and r.index.equals(idx), 'prilliman index')
                v = np.asarray(r)
                if n > 3:
                    ctx.expect(np.array_equal(v[:-1], pre[word[:-1]], equal_nan=True) or np.allclose(v[:-1], pre[word[:-1]], rtol=1e-12, equal_nan=True),
                               'prilliman later sample changed an earlier one', word=word)
                pre[word] = v


@case(CASES)
def prilliman_intervals(ctx):
    """Every sampling interval (seconds) up to and beyond the window."""
    steps = ctx.pick([1, 2, 7, 10, 13, 20, 30, 45, 60, 61, 90, 100, 120, 150, 171, 180, 200, 240, 299, 300, 301, 399, 400, 401, 599, 600, 601, 900, 1199],
                     list(range(1, 1200, 1)))
    for dt in steps:
        n = min(1200 // dt + 6, ctx.pick(150, 60))
        idx = pd.date_range('2021-03-14 01:00', periods=n, freq=f'{dt}s', tz='America/Denver' if dt % 2 else 'UTC')
        t = [20 + 30 * math.sin(i * 1.7) for i in range(n)]
        w = [2 + 2 * math.cos(i * .9) for i in range(n)]
        ctx.state(dt)
        ctx.step(n)
        ctx.close(run_p(t, w, idx)[0], pril_ref(t, w, dt), 'prilliman interval', interval=dt)
    for dt in (1200, 1201, 1800, 3600, 86400):
        idx = pd.date_range('2021-06-21 11:00', periods=5, freq=f'{dt}s', tz='UTC')
        t, w = pd.Series([20., 50, nan, 10, 5], index=idx), pd.Series([1., 2, 3, 4, 5], index=idx)
        ctx.state(('coarse', dt))
        ctx.step()
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter('always')
            r = T.prilliman(t, w)
        ctx.close(r, t, 'prilliman coarse', interval=dt)
        ctx.expect(any('unchanged' in str(x.message) for x in rec), 'prilliman coarse warning')
    for bad in ([0, 60, 180, 240], [0, 300, 600, 1500], [0, 300, 300, 600]):
        idx = pd.DatetimeIndex(pd.Timestamp('2021-06-21 11:00', tz='UTC') + pd.to_timedelta(bad, unit='s'))
        ctx.state(tuple(bad))
        ctx.raises(NotImplementedError, lambda: T.prilliman(pd.Series(1., index=idx), pd.Series(1., index=idx)), 'prilliman irregular')


@case(CASES)
def prilliman_options(ctx):
    for mass, co in itertools.product((11.1, 5, 20.5), (None, [.005, 0, 0, 0], (.001, .0002, -.0001, -1e-5), (.002, -.0001, .0001, 2e-5), np.array([.0046, .00046, -.00023, -1.6e-5]))):
        for dt in (300, 120):
            for n in (3, 4, 9, 15):
                idx = pd.date_range('2021-06-21 11:00', periods=n, freq=f'{dt}s')
                t = [20 + 30 * math.sin(i * 1.7) for i in range(n)]
                w = [2 + 2 * math.cos(i * .9) for i in range(n)]
                if n == 9:
                    t[4] = nan
                ctx.state((mass, str(co), dt, n))
                ctx.step(n)
                ctx.close(run_p(t, w, idx, unit_mass=mass, coefficients=co)[0],
                          pril_ref(t, w, dt, mass, (.0046, .00046, -.00023, -1.6e-5) if co is None else tuple(co)), 'prilliman options')
    # steady input is unchanged, all-missing is missing, integers are accepted
    idx = pd.date_range('2021-06-21 11:00', periods=12, freq='5min')
    for c in (20., -3.5, 71.):
        ctx.close(run_p([c] * 12, [2.] * 12, idx)[0], [c] * 12, 'prilliman steady')
    ctx.close(run_p([nan] * 12, [2.] * 12, idx)[0], [nan] * 12, 'prilliman missing')
    t, w = [20, 30, 50, 10, 0, 5] * 2, [1, 2, 3, 0, 5, 9] * 2
    ctx.close(run_p(t, w, idx)[0], pril_ref(t, w, 300), 'prilliman integers')
    # outputs lie within the range of the window
    v = np.asarray(run_p([float(x) for x in t], w, idx)[0])
    for k in range(1, 12):
        win = t[max(0, k - 4):k]
        ctx.expect(min(win) - 1e-9 <= v[k] <= max(win) + 1e-9, 'prilliman outside the window range')
