"""All sequences of engine selections x entry points up to a bound; every
preemption-bounded interleaving of the worker threads on the real kernel;
every batch length x thread count on the compiled kernel; every permutation,
partition and time-zone representation of a small batch."""
import itertools
import os
import warnings

import numpy as np
import pandas as pd

from mc.core import case, quiet
from mc.ref import spa as R
from mc.sched import explore
from mc.checks.S01 import unix, COLS
from pvlib import solarposition as sp, spa

TECHNIQUE = ('stateless model checking: preemption-bounded interleavings of the real kernel threads, exhaustive '
             'engine-switch histories and batch partitions against a scalar reference model')
CASES = []
LAT, LON = 39.74, -105.18
T = pd.DatetimeIndex(['2020-02-29 15:00', '2020-12-31 23:59:59', '2021-03-20 09:37',
                      '2019-07-04 19:10:11', '2021-06-21 03:00', '2020-02-29 15:00',
                      '1995-01-01 18:00', '2030-10-10 14:14', '2021-11-07 20:30']).tz_localize('UTC')
EXP = [R.position(unix(t), LAT, LON, 100., 95000., 20.) for t in T]


def check_pos(ctx, df, ids, key, index=None):
    for c in COLS:
        e = np.array([EXP[i][c] for i in ids])
        g = np.asarray(df[c], float)
        ctx.traces += len(e)
        if g.shape != e.shape or not (np.abs(g - e) <= 3e-6).all():
            ctx.fail(f'{key}/{c}', f'{g} instead of {e}')
    if index is not None and not df.index.equals(index):
        ctx.fail(f'{key}/index', 'index changed')


DAYS = pd.DatetimeIndex(['2020-02-29 05:00', '2021-06-21 00:00', '2021-12-31 23:00']).tz_localize('Etc/GMT+7')
RTS = [R.rts(unix(pd.Timestamp(d.date())), LAT, LON) for d in DAYS]


def op(ctx, fn, how, key):
    ctx.step()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if fn == 'position':
            check_pos(ctx, sp.spa_python(T, LAT, LON, 100., 95000., 20., how=how), range(len(T)), key, T)
        elif fn == 'get':
            check_pos(ctx, sp.get_solarposition(T, LAT, LON, 100., 95000., method='NREL_' + how,
                                                temperature=20.), range(len(T)), key, T)
        elif fn == 'distance':
            g = sp.nrel_earthsun_distance(T, how=how)
            ctx.close(g, [R.geocentric(unix(t), 67.)['R'] for t in T], key, atol=1e-9)
        elif fn == 'rts':
            g = sp.sun_rise_set_transit_spa(DAYS, LAT, LON, how=how)
            for c, j in (('transit', 0), ('sunrise', 1), ('sunset', 2)):
                ctx.close([unix(t) for t in g[c]], [r[j] for r in RTS], f'{key}/{c}', rtol=0, atol=2e-3)
        elif fn == 'bad':
            try:
                sp.spa_python(T, LAT, LON, how='c')
                ctx.fail(f'{key}/accepted', 'unknown engine accepted')
            except ValueError:
                pass
    from pvlib import spa as s
    if fn != 'bad':
        ctx.expect(bool(s.USE_NUMBA) == (how == 'numba'), f'{key}/engine', 'wrong engine active')
    ctx.expect('PVLIB_USE_NUMBA' not in os.environ, f'{key}/env', 'environment left modified')


FN = ['position', 'distance', 'rts', 'get']


def _hist(pattern, idx):
    def f(ctx):
        combos = [tuple(FN[(idx + i * (1 + idx % 3)) % 4] for i in range(len(pattern)))]
        if ctx.thorough:
            combos = list(itertools.product(FN, repeat=len(pattern)))[::4]
        for fns in combos:
            h = list(zip(fns, pattern))
            ctx.state(tuple(h))
            for i, (fn, e) in enumerate(h):
                key = '>'.join(f'{a}:{b}' for a, b in h[:i + 1])
                op(ctx, fn, {'p': 'numpy', 'b': 'numba'}[e], key)
                if i == 1:
                    op(ctx, 'bad', None, key + '>bad')
                ctx.outcome((i, e))
            ctx.sample(h)
    return f


for _i, _p in enumerate(itertools.product('pb', repeat=3)):
    if 'b' in _p:
        CASES.append((f'history_{"".join(_p)}', _hist(_p, _i), False))
CASES.append(('history_bpbpb', _hist('bpbpb', 1), True))


@case(CASES)
def compiled_threads(ctx):
    """Batch length x thread count on the compiled kernel."""
    quiet(sp.spa_python, T, LAT, LON, how='numba')
    from pvlib import spa as s
    assert s.USE_NUMBA
    u = np.array([unix(t) for t in T])
    for n in range(0, 10):
        for th in range(1, 11):
            ctx.state((n, th))
            ctx.step(3)
            out = s.solar_position(u[:n], LAT, LON, 100., 950., 20., 67., 0.5667, th)
            ctx.expect(out.shape == (6, n), f'shape/{n}/{th}', str(out.shape))
            cols = ['apparent_zenith', 'zenith', 'apparent_elevation', 'elevation', 'azimuth',
                    'equation_of_time']
            check_pos(ctx, pd.DataFrame(dict(zip(cols, out))), range(n), f'threads/{n}/{th}')
            dT = np.linspace(10, 500, n)
            out = s.solar_position(u[:n], LAT, LON, 100., 950., 20., dT, 0.5667, th)
            e = [R.position(u[i], LAT, LON, 100., 95000., 20., dT[i])['zenith'] for i in range(n)]
            ctx.close(out[1], e, f'threads-dT/{n}/{th}', atol=3e-6)
            out = s.solar_position(u[:n], 0, 0, 0, 0, 0, 67., 0, th, esd=True)
            ctx.close(out[0], [R.geocentric(x, 67.)['R'] for x in u[:n]], f'esd/{n}/{th}')
            out = s.solar_position(u[:n], 0, 0, 0, 0, 0, 67., 0, th, sst=True)
            for j, k in enumerate(('nu', 'alpha', 'delta')):
                ctx.close(out[j], [R.geocentric(x, 67.)[k] for x in u[:n]], f'sst/{n}/{th}/{k}', atol=2e-6)
            if n:
                got = quiet(sp.spa_python, T[:n], LAT, LON, 100., 95000., 20., how='numba', numthreads=th)
                check_pos(ctx, got, range(n), f'api/{n}/{th}', T[:n])
                i = np.array([int(x) for x in u[:n]])
                out = s.solar_position(i, LAT, LON, 100., 950., 20., 67., 0.5667, th)
                check_pos(ctx, pd.DataFrame(dict(zip(cols, out))), range(n), f'int/{n}/{th}')
                ctx.outcome((n, th, round(float(out[0][0]), 5)))
    d = np.array([unix('2020-02-29'), unix('2021-06-21'), unix('2021-12-31')])
    for bad in (d + 1., d + np.array([0., 0., 3600.]), d - .5, d + np.array([43200., 0., 0.])):
        ctx.state(('rts date', tuple(bad)))
        ctx.step()
        try:
            quiet(s.transit_sunrise_sunset, bad, 40., LON, 67., 1)
            ctx.expect(False, 'rts/not midnight', f'{bad} accepted')
        except ValueError:
            pass
    for th in range(1, 6):
        for lat in (-60., 0., 39.74, 80.):
            ctx.state(('rts', th, lat))
            ctx.step()
            out = quiet(s.transit_sunrise_sunset, d, lat, LON, 67., th)
            e = [R.rts(x, lat, LON) for x in d]
            for j in range(3):
                ctx.close(out[j], [r[j] for r in e], f'rts/{th}/{lat}/{j}', rtol=0, atol=2e-3)


def _interleave(n, threads, bound, flags, tag):
    def f(ctx):
        assert not spa.USE_NUMBA
        u = np.array([unix(t) for t in T])[:n]
        dT = np.linspace(60, 75, n)
        real = getattr(spa, 'threading', None)
        if real is None:      # threads no longer created here: nothing to control
            ctx.state('uncontrolled')
            return
        if flags.get('esd'):
            exp = np.array([[R.geocentric(u[i], dT[i])['R'] for i in range(n)]])
        elif flags.get('sst'):
            exp = np.array([[R.geocentric(u[i], dT[i])[k] for i in range(n)]
                            for k in ('nu', 'alpha', 'delta')])
        else:
            exp = [R.position(u[i], LAT, LON, 100., 95000., 20., dT[i]) for i in range(n)]
            exp = np.array([[r[k] for r in exp] for k in
                            ('apparent_zenith', 'zenith', 'apparent_elevation', 'elevation', 'azimuth',
                             'equation_of_time')])

        def body(ns):
            spa.threading = ns
            try:
                return spa.solar_position_numba(u.copy(), LAT, LON, 100., 950., 20., dT.copy(), 0.5667,
                                                threads, **flags)
            finally:
                spa.threading = real

        seen = set()

        def check(out, choices):
            ctx.traces += exp.size
            seen.add(hash(tuple(choices)))
            if out.shape != exp.shape or not (np.abs(out - exp) <= 3e-6).all():
                ctx.fail(f'interleaving/{tag}', f'wrong result under schedule {choices}',
                         schedule=choices)
        runs, pts, longest = explore(body, spa.__file__, bound, check)
        ctx.states += len(seen)
        ctx.step(pts)
        ctx.outcome((tag, longest))
        ctx.sample(dict(threads=threads, instants=n, preemptions=bound, schedules=runs,
                        longest_schedule=longest))
    return f


for _n, _th, _b, _fl, _thor in [(2, 2, 1, {}, False), (3, 2, 1, {}, False), (2, 2, 1, {'sst': True}, False),
                                (3, 3, 1, {'esd': True}, False), (2, 2, 2, {'esd': True}, False),
                                (3, 3, 1, {}, True), (2, 2, 2, {'sst': True}, True),
                                (4, 4, 1, {'esd': True}, True), (3, 2, 2, {'esd': True}, True),
                                (2, 2, 2, {}, True), (4, 3, 1, {}, True)]:
    _tag = f'{_n}x{_th}p{_b}' + ''.join(_fl)
    CASES.append((f'interleave_{_tag}', _interleave(_n, _th, _b, _fl, _tag), _thor))

METHODS = {'nrel_numpy': 3e-6, 'ephemeris': 2e-5, 'pyephem': 1e-9}


def same(ctx, a, b, tol, key):
    for c in b.columns:
        ctx.traces += len(b)
        d = np.abs(np.asarray(a[c], float) - np.asarray(b[c], float))
        if c in ('azimuth', 'apparent_azimuth'):
            d = np.minimum(d, 360 - d)
        if len(a) != len(b) or not (d <= tol).all():
            ctx.fail(f'{key}/{c}', f'max deviation {d.max() if len(d) else 0}')


def _batch(m):
    def f(ctx):
        tol = METHODS[m]

        def run(t):
            ctx.step()
            return sp.get_solarposition(t, LAT, LON, altitude=100., pressure=95000., method=m)
        single = pd.concat([run(T[i:i + 1]) for i in range(len(T))])
        base = run(T)
        ctx.expect(base.index.equals(T), f'{m}/index')
        same(ctx, base, single, tol, f'{m}/one-by-one')
        t5 = T[:5]
        for perm in itertools.permutations(range(5)):
            ctx.state(perm)
            tt = t5[list(perm)]
            g = run(tt)
            ctx.expect(g.index.equals(tt), f'{m}/perm-index')
            same(ctx, g, base.iloc[list(perm)], tol, f'{m}/permutation')
        # every composition of 5 into contiguous batches
        for cuts in itertools.chain.from_iterable(itertools.combinations(range(1, 5), k) for k in range(5)):
            ctx.state(('cut', cuts))
            b = [0, *cuts, 5]
            g = pd.concat([run(t5[i:j]) for i, j in zip(b, b[1:])])
            same(ctx, g, base.iloc[:5], tol, f'{m}/partition')
        # repeats
        for rep in itertools.product(range(3), repeat=3):
            ctx.state(('rep', rep))
            tt = T[list(rep)]
            g = run(tt)
            ctx.expect(g.index.equals(tt) and len(g) == 3, f'{m}/repeat-index')
            same(ctx, g, base.iloc[list(rep)], tol, f'{m}/repeat')
        # time zone representations and resolutions
        for tz in ('UTC', 'Etc/GMT+7', 'Etc/GMT-14', 'US/Eastern', 'Asia/Kathmandu', 'Australia/Lord_Howe',
                   'America/St_Johns', 'Pacific/Apia', None):
            for unit in ('s', 'ms', 'us', 'ns'):
                ctx.state((tz, unit))
                tt = T.tz_localize(None).as_unit(unit) if tz is None else T.tz_convert(tz).as_unit(unit)
                g = run(tt)
                ctx.expect(g.index.equals(tt) and g.index.tz == tt.tz, f'{m}/tz-index/{tz}')
                same(ctx, g, base, tol, f'{m}/tz/{tz}/{unit}')
        # ranges with a frequency spanning DST changes, empty-free lengths
        for tz, st in (('US/Eastern', '2020-11-01'), ('US/Eastern', '2020-03-08'),
                       ('Europe/London', '2021-10-31')):
            tt = pd.date_range(st, periods=9, freq='30min', tz=tz)
            ctx.state((tz, st))
            g = run(tt)
            ctx.expect(g.index.equals(tt), f'{m}/dst-index')
            same(ctx, g, run(tt.tz_convert('UTC')), tol, f'{m}/dst')
        # scalar stamps
        for i in range(len(T)):
            g = run(T[i])
            ctx.state(('stamp', i))
            same(ctx, g, base.iloc[i:i + 1], tol, f'{m}/stamp')
            g = run(T[i].to_pydatetime())
            same(ctx, g, base.iloc[i:i + 1], tol, f'{m}/pydatetime')
        # the argument is untouched
        before = T.copy()
        run(T)
        ctx.expect(T.equals(before) and T.tz == before.tz, f'{m}/mutation')
        ctx.outcome((m, round(float(base['zenith'].sum()), 4)))
    return f


for _m in METHODS:
    CASES.append((f'batch_{_m}', _batch(_m), False))


@case(CASES)
def batch_rts(ctx):
    days = pd.date_range('2021-02-26', periods=6, freq='23h', tz='Etc/GMT+7')
    for fn in (sp.sun_rise_set_transit_spa, sp.sun_rise_set_transit_ephem):
        base = fn(days, LAT, LON)
        ctx.expect(base.index.equals(days), f'{fn.__name__}/index')
        for perm in itertools.permutations(range(4)):
            ctx.state((fn.__name__, perm))
            ctx.step()
            tt = days[list(perm)]
            g = fn(tt, LAT, LON)
            ctx.expect(g.index.equals(tt), f'{fn.__name__}/perm-index')
            for c in g:
                d = [abs((a - b).total_seconds()) for a, b in zip(g[c], base[c].iloc[list(perm)])]
                ctx.expect(max(d) < 1e-3, f'{fn.__name__}/perm/{c}', str(d))
        one = pd.concat([fn(days[i:i + 1], LAT, LON) for i in range(6)])
        ctx.step(6)
        for c in one:
            d = [abs((a - b).total_seconds()) for a, b in zip(one[c], base[c])]
            ctx.expect(max(d) < 1e-3, f'{fn.__name__}/single/{c}', str(d))


@case(CASES)
def estimated_deltat(ctx):
    """delta_t=None: the estimate belongs to the instant, not to its zone, its
    batch or the engine; instants on both sides of UTC and local month ends."""
    t = pd.DatetimeIndex(['1699-12-31 20:00', '1900-01-01 03:00', '1999-12-31 21:00', '2000-01-01 02:00',
                          '2020-06-30 23:30', '2149-12-31 22:00', '2150-01-01 01:00', '2249-12-31 19:00',
                          '2250-02-01 04:00']).tz_localize('UTC')
    how = ['numpy', 'numba'] if ctx.thorough else ['numpy']
    for h in how:
        fns = dict(position=lambda x: sp.spa_python(x, LAT, LON, 100., 95000., 20., delta_t=None, how=h),
                   get=lambda x: sp.get_solarposition(x, LAT, LON, method='nrel_' + h, delta_t=None),
                   distance=lambda x: sp.nrel_earthsun_distance(x, how=h, delta_t=None).to_frame('R'))
        for nm, fn in fns.items():
            base = quiet(fn, t)
            one = pd.concat([quiet(fn, t[i:i + 1]) for i in range(len(t))])
            same(ctx, one, base, 1e-8, f'deltat/{h}/{nm}/one-by-one')
            if nm == 'position':
                from mc.checks.S01 import COLS as C
                for i, x in enumerate(t):
                    e = R.position(unix(x), LAT, LON, 100., 95000., 20.,
                                   float(np.asarray(spa.calculate_deltat(x.year, x.month))))
                    for c in C:
                        ctx.close(base[c].iloc[i], e[c], f'deltat/{h}/{c}', rtol=0, atol=3e-6)
            for tz in ('Etc/GMT+7', 'Etc/GMT-14', 'Asia/Kathmandu', 'US/Eastern', None):
                ctx.state((h, nm, tz))
                ctx.step(len(t))
                tt = t.tz_localize(None) if tz is None else t.tz_convert(tz)
                g = quiet(fn, tt)
                ctx.expect(g.index.equals(tt), f'deltat/{h}/{nm}/index/{tz}')
                same(ctx, g, base, 1e-8, f'deltat/{h}/{nm}/tz/{tz}')
                for i in range(len(t)):
                    same(ctx, quiet(fn, tt[i:i + 1]), base.iloc[i:i + 1], 1e-8, f'deltat/{h}/{nm}/tz1/{tz}')
        ctx.outcome((h, round(float(base.iloc[0, 0]), 6)))
