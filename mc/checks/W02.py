"""All rain/wash histories over a small alphabet up to the bound x thresholds x
windows x sampling intervals, replayed on the real code against a reference
step machine."""
import datetime
import itertools
import math

import numpy as np
import pandas as pd

from mc.core import case, quiet, same_value, deepcopy
from mc.checks.W01 import word_sequence
from pvlib import soiling as S

TECHNIQUE = ('explicit-state bounded model checking: exhaustive enumeration of event histories replayed on the real '
             'code against a reference step machine')
CASES = []
nan = math.nan
D = math.pi / 180


def seconds(idx):
    t = idx.tz_convert('UTC').tz_localize(None) if idx.tz is not None else idx
    return [(x - t[0]).total_seconds() for x in t]


def window_sum(rain, t, i, period):
    """Rain in (t_i - period, t_i]; missing records do not count; nan when no
    record is available."""
    v = [rain[j] for j in range(i + 1) if t[j] > t[i] - period and rain[j] == rain[j]]
    return sum(v) if v else nan


def kimber_machine(rain, t, thr=6, rate=.0015, grace=14, mx=.3, wash=(), init=0, accum=24):
    step = (t[1] - t[0]) / 86400.
    s, out, last = None, [], None
    for i in range(len(rain)):
        s = init if i == 0 else s + rate * step
        if window_sum(rain, t, i, accum * 3600.) > thr:
            last = t[i]
        damp = last is not None and last > t[i] - grace * 86400.
        if damp or i in wash:
            s = 0.
        out.append(min(s, mx))
    return out


def hsu_machine(rain, t, thr, tilt, pm25, pm10, v25=.0009, v10=.004, period=3600.):
    mass, out = 0., []
    for i in range(len(rain)):
        dt = t[1] - t[0] if i == 0 else t[i] - t[i - 1]
        g = lambda p: p[i] if isinstance(p, (list, tuple, np.ndarray)) else p    # noqa
        mass += (g(pm25) * v25 + max(g(pm10) - g(pm25), 0.) * v10) * dt * math.cos(g(tilt) * D)
        if window_sum(rain, t, i, period) >= thr:
            mass = 0.
        out.append(1 - .3437 * math.erf(.17 * mass ** .8473))
    return out


INDEX = {
    '1D': lambda n: pd.date_range('2019-12-25', periods=n, freq='1D'),
    '1D utc': lambda n: pd.date_range('2020-02-20', periods=n, freq='1D', tz='UTC'),
    '12h': lambda n: pd.date_range('2020-02-26', periods=n, freq='12h', tz='Etc/GMT+5'),
    '6h dst': lambda n: pd.date_range('2020-03-07', periods=n, freq='6h', tz='America/Denver'),
    '1h': lambda n: pd.date_range('2020-12-30', periods=n, freq='1h'),
}


def kimber(ctx, key, rain, idx, wash=(), **kw):
    r = pd.Series(rain, index=idx)
    before = deepcopy(r)
    names = dict(thr='cleaning_threshold', rate='soiling_loss_rate', grace='grace_period', mx='max_soiling', init='initial_soiling', accum='rain_accum_period')
    args = {names[k]: v for k, v in kw.items()}
    if wash:
        args['manual_wash_dates'] = [idx[i].tz_localize(None).date() if idx.freqstr == 'D' else idx[i].tz_localize(None).to_pydatetime() for i in wash]
    got = quiet(S.kimber, r, **args)
    ctx.step(len(rain))
    exp = kimber_machine(list(rain), seconds(idx), wash=wash, **kw)
    ctx.expect(isinstance(got, pd.Series) and got.index.equals(idx), f'{key}/index', '')
    ctx.close(got, exp, f'{key}/soiling', atol=1e-12, rain=list(rain)[:10], idx=str(idx[:3]), wash=wash, kw=kw)
    g = np.asarray(got)
    ctx.expect(bool((g <= kw.get('mx', .3) + 1e-12).all() and (g >= -1e-12).all()), f'{key}/range', str(g[:6]))
    ctx.expect(same_value(r, before), f'{key}/mutated', '')
    ctx.outcome(round(float(g[-1]), 5))


@case(CASES)
def kimber_histories(ctx):
    """Dry, light, threshold and heavy days; every history; grace 1 to 3 days."""
    L = (0., 3., 6., 6.5)
    n = 0
    for length in range(2, ctx.pick(6, 7)):
        for w in itertools.product(L, repeat=length):
            n += 1
            ctx.state()
            kimber(ctx, 'daily', w, INDEX['1D' if n % 2 else '1D utc'](length), grace=(2, 1, 3)[n % 3], init=(0, .1, .31)[n // 3 % 3], rate=(.0015, .11)[n % 2])
    for w in itertools.product((0., 4., 6.5), repeat=ctx.pick(6, 7)):
        ctx.state()
        n += 1
        kimber(ctx, 'half days', w, INDEX['12h'](len(w)), grace=(1, .5, 1.5, .25, 1.75)[n % 5], accum=(24, 12, 36)[n % 3])


@case(CASES)
def kimber_washes(ctx):
    """Every set of manual wash dates x every wet/dry history."""
    n = ctx.pick(4, 5)
    for w in itertools.product((0., 7.), repeat=n):
        for k in range(n + 1):
            for wash in itertools.combinations(range(n), k):
                ctx.state()
                kimber(ctx, 'wash', w, INDEX[('1D', '1D utc', '12h')[(k + int(sum(w))) % 3]](n), wash=wash, grace=1, init=.2, rate=.05)


@case(CASES)
def kimber_words(ctx):
    """One history holding every word over the alphabet x intervals x options."""
    al = (0., 3., 6., 6.5, nan)
    q = [al[i] for i in word_sequence(len(al), ctx.pick(4, 5))]
    dry = [0.] * 40
    for name, mk in INDEX.items():
        for kw in ({}, dict(grace=3), dict(grace=30), dict(thr=3), dict(thr=0), dict(rate=.01, mx=.02), dict(init=.25, rate=.02), dict(accum=48), dict(accum=12, grace=1),
                   dict(mx=0.), dict(init=.5), dict(thr=1e9, rate=.004)):
            seq = (q + dry + q[:50] + dry + dry)[:ctx.pick(500, 4000)] if name != '1h' else (q + dry + q[:50])[:400]
            ctx.state(n=len(seq))
            kimber(ctx, f'words {name}', seq, mk(len(seq)), **kw)
            # sparse storms: long dry spells between single cleaning rains
            sp = []
            for gap in (1, 2, 13, 14, 15, 28, 40):
                sp += [9.] + [0.] * gap
            ctx.state(n=len(sp))
            kimber(ctx, f'sparse {name}', sp, mk(len(sp)), **kw)
    ints = pd.Series([0, 7, 0, 0, 3, 3, 0], INDEX['1D'](7))
    ctx.close(quiet(S.kimber, ints, grace_period=2), quiet(S.kimber, ints.astype(float), grace_period=2), 'integer rain', atol=1e-15)
    import inspect
    d = {k: v.default for k, v in inspect.signature(S.kimber).parameters.items()}
    for k, v in dict(cleaning_threshold=6, soiling_loss_rate=.0015, grace_period=14, max_soiling=.3, manual_wash_dates=None, initial_soiling=0, rain_accum_period=24).items():
        ctx.expect(d.get(k, 'absent') == v, f'documented default {k}', str(d.get(k)))
    # dates given in any documented sequence form
    idx = INDEX['1D'](6)
    e = quiet(S.kimber, pd.Series(0., idx), manual_wash_dates=[idx[2].date(), idx[4].date()])
    for f in ((idx[2].date(), idx[4].date()), [idx[4].date(), idx[2].date()], pd.DatetimeIndex([idx[2], idx[4]])):
        ctx.state()
        ctx.close(quiet(S.kimber, pd.Series(0., idx), manual_wash_dates=f), e, 'wash date forms')
    # zone-carrying wash times denote instants, whatever zone they are written in; plain ones are in the rain's zone
    base = pd.date_range('2020-03-08 00:00', periods=12, freq='1h', tz='UTC')
    for tz, oth in itertools.product(('Etc/GMT+5', 'UTC', 'Asia/Kolkata', 'America/Denver'), ('UTC', 'Etc/GMT-3', 'Asia/Tokyo')):
        idx = base.tz_convert(tz)
        for w in ((3,), (1, 8), (11,), (5, 6)):
            ctx.state((tz, oth, w))
            exp = kimber_machine([0.] * 12, seconds(idx), wash=w, init=.01, rate=.1)
            forms = {'aware': [idx[i].tz_convert(oth) for i in w], 'aware tuple': tuple(idx[i].tz_convert(oth).to_pydatetime() for i in w)}
            if tz != 'America/Denver':
                forms['plain'] = [idx[i].tz_localize(None) for i in w]
            for k, f in forms.items():
                ctx.step()
                got = quiet(S.kimber, pd.Series(0., idx), manual_wash_dates=f, initial_soiling=.01, soiling_loss_rate=.1)
                ctx.close(got, exp, f'wash instants {k}', atol=1e-12, tz=tz, oth=oth, w=w)


def hsu(ctx, key, rain, idx, thr, tilt, pm25, pm10, period=None, veloc=None, wrap=None):
    r = pd.Series(rain, index=idx)
    before = deepcopy(r)
    kw = {}
    if period is not None:
        kw['rain_accum_period'] = pd.Timedelta(period)
    if veloc is not None:
        kw['depo_veloc'] = dict(veloc)
    v = veloc or {'2_5': .0009, '10': .004}
    conv = (lambda p: p) if wrap is None else (lambda p: wrap(p) if isinstance(p, (list, tuple)) else p)
    a = [conv(tilt), conv(pm25), conv(pm10)]
    b = [deepcopy(x) for x in a]
    got = quiet(S.hsu, r, thr, a[0], a[1], a[2], **kw)
    ctx.step(len(rain))
    exp = hsu_machine(list(rain), seconds(idx), thr, tilt, pm25, pm10, v['2_5'], v['10'], pd.Timedelta(period or '1h').total_seconds())
    ctx.expect(isinstance(got, pd.Series) and got.index.equals(idx), f'{key}/index', '')
    ctx.close(got, exp, f'{key}/ratio', atol=1e-9, rain=list(rain)[:10], thr=thr, tilt=tilt if np.isscalar(tilt) else 'seq', period=period)
    g = np.asarray(got)
    ctx.expect(bool((g <= 1).all() and (g >= 1 - .3437 - 1e-12).all()), f'{key}/range', str(g[:6]))
    ctx.expect(same_value(r, before) and all(same_value(x, y) for x, y in zip(a, b)), f'{key}/mutated', '')
    if veloc is not None:
        ctx.expect(kw['depo_veloc'] == veloc, f'{key}/mutated velocities', '')
    ctx.outcome(round(float(g[-1]), 6))


@case(CASES)
def hsu_histories(ctx):
    """Every rain history x accumulation windows (cleaning at exactly the
    threshold) x particulate forms."""
    L = (0., .5, 1., 2.)
    n = 0
    for length in range(2, ctx.pick(6, 7)):
        for w in itertools.product(L, repeat=length):
            n += 1
            ctx.state()
            hsu(ctx, 'hourly', w, INDEX['1h'](length), (1., 1.5, .5)[n % 3], (0., 30., 60.)[n // 3 % 3], 3e-5, 8e-5, (None, '2h', '3h')[n // 2 % 3])
    irr = pd.Timestamp('2020-05-01') + pd.to_timedelta([0, 60, 90, 180, 200, 400, 460], unit='min')
    for w in itertools.product((0., .5, 1.), repeat=ctx.pick(5, 7)):
        n += 1
        ctx.state()
        hsu(ctx, 'irregular', w, irr[:len(w)], 1., 20., 3e-5, 8e-5, ('1h', '2h')[n % 2])


@case(CASES)
def hsu_words(ctx):
    al = (0., .25, .5, 1., nan)
    q = [al[i] for i in word_sequence(len(al), ctx.pick(3, 5))][:ctx.pick(700, 2000)]
    n = len(q)
    p25 = [(1e-5, 0., 4e-5, 2e-4)[i % 4] for i in range(n)]
    p10 = [(3e-5, 5e-5, 1e-5, 2e-4, 0.)[i % 5] for i in range(n)]      # also below the fine fraction
    tl = [(0., 25., 60.)[i % 3] for i in range(n)]
    for name, mk in INDEX.items():
        idx = mk(n)
        for per in ('1h', '6h', '24h', '36h'):
            for thr in (.25, .5, 1., 3., 1e9):
                for veloc in (None, {'2_5': .001, '10': .005}):
                    ctx.state(n=2 * n)
                    hsu(ctx, f'words {name}', q, idx, thr, 15., 2e-5, 5e-5, per, veloc)
                    hsu(ctx, f'words {name} varying', q, idx, thr, tl, p25, p10, per, veloc, wrap=np.array)
        hsu(ctx, f'series {name}', q, idx, .5, tl, p25, p10, '24h', None, wrap=lambda p: pd.Series(p, index=idx))
        hsu(ctx, f'coarse below fine {name}', q, idx, .5, 15., 5e-5, 2e-5, '24h')
        hsu(ctx, f'heavy dust {name}', q, idx, 1e9, 0., 5., 10., '24h')
        hsu(ctx, f'no dust {name}', q, idx, 1e9, 0., 0., 0., '24h')
        hsu(ctx, f'vertical {name}', q, idx, 1e9, 89.9, 1e-4, 2e-4, '24h')
    ints = pd.Series([0, 1, 0, 2, 0], INDEX['1h'](5))
    ctx.close(quiet(S.hsu, ints, 1, 20, 1, 2), quiet(S.hsu, ints.astype(float), 1., 20., 1., 2.), 'integers', atol=1e-15)
