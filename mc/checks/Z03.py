"""Every elementwise public model in the registry (about 200 function/model
variants) x every batch (word of rows) up to the bound over an alphabet of six
rows - clear noon, low sun, overcast, night, sun behind the plane, missing -
so that every subset, order and repetition of neighbours is visited: the value
at each position must be the value of that row alone.  Then every row x scalar
arguments, every call history of two batches, every index type, and frozen
inputs (read-only buffers, values compared before and after), one argument at a
time over extreme values, every split of the arguments into one per element and
the rest scalar, integer forms of whole numbers, and two-dimensional shapes."""
import itertools
import math
import warnings

import numpy as np
import pandas as pd

from mc.core import case, flat, same_value, deepcopy, notclose
from mc.ref import registry as G
from mc.checks.W01 import word_sequence

TECHNIQUE = ('explicit-state bounded model checking: exhaustive enumeration of input batches (words over a row alphabet), '
             'index types and call histories on the real code against single-element evaluation')
CASES = []
GROUPS = 12


def values(entry, out):
    """dict name -> float array with the element axis last."""
    res = {}
    for k, v in flat(out).items():
        if isinstance(v, pd.DataFrame):
            for c in v.columns:
                res[f'{k}.{c}'] = v[c].to_numpy()
            continue
        a = np.asarray(v)
        if a.dtype.kind == 'M':
            a = a.astype('int64').astype(float)
        elif a.dtype == object:
            a = np.array([x.timestamp() if isinstance(x, pd.Timestamp) and x is not pd.NaT
                          else (math.nan if x is pd.NaT else float(x)) for x in a.ravel()]).reshape(a.shape)
        res[k] = a.astype(float)
    return res


def index_for(entry, rows, kind='utc'):
    """An index for a batch of rows; the label is a function of the position, except for 'times' inputs."""
    n = len(rows)
    times = 'times' in entry.cols.values()
    if times:
        t = G.TIMES[list(rows)].tz_localize('UTC')
        if kind == 'zoned':
            return t.tz_convert('America/Phoenix')
        if kind == 'berlin':
            return t.tz_convert('Europe/Berlin')
        if kind == 'naive':
            return t.tz_localize(None)
        return t
    base = pd.date_range('2021-10-31 00:30', periods=n, freq='30min')
    if kind == 'utc':
        return base.tz_localize('UTC')
    if kind == 'naive':
        return base
    if kind == 'berlin':            # two equal wall times, one hour apart
        return base.tz_localize('UTC').tz_convert('Europe/Berlin')
    if kind == 'zoned':
        return base.tz_localize('Asia/Kolkata')
    if kind == 'reversed':
        return base[::-1].tz_localize('UTC')
    if kind == 'unsorted':
        return pd.Index([(7 * i) % 5 + 10 * i * (-1) ** i for i in range(n)])
    if kind == 'range':
        return pd.RangeIndex(n)
    if kind == 'offset':
        return pd.RangeIndex(100, 100 + 2 * n, 2)
    if kind == 'dup':
        return pd.Index([3] * n)
    if kind == 'dupdt':
        return pd.DatetimeIndex([base[i // 2] for i in range(n)])
    if kind == 'str':
        return pd.Index([f'r{n - i}' for i in range(n)])
    if kind == 'float':
        return pd.Index([i * .5 - 1 for i in range(n)])
    if kind == 'multi':
        return pd.MultiIndex.from_arrays([[i % 2 for i in range(n)], list(range(n))], names=['a', 'b'])
    if kind == 'named':
        return pd.Index(range(n), name='lbl')
    raise ValueError(kind)


KINDS = ('utc', 'naive', 'berlin', 'zoned', 'reversed', 'unsorted', 'range', 'offset', 'dup', 'dupdt', 'str', 'float',
         'multi', 'named')
TKINDS = ('utc', 'berlin', 'zoned')


def batches(ctx, entry, form):
    rows = entry.rows or tuple(range(G.NROW))
    bound = entry.maxword
    if form == 'series':
        bound = 2
    if ctx.thorough:
        bound += 1
    for n in range(1, bound + 1):
        yield from itertools.product(rows, repeat=n)
    # every pair and triple of neighbours once more inside one long batch, and all rows at once in both directions
    yield rows
    yield rows[::-1]
    yield tuple(rows[i] for i in word_sequence(len(rows), 3 if ctx.thorough else 2))


def freeze(a):
    if isinstance(a, np.ndarray):
        a.setflags(write=False)
    return a


def usable(entry, form):
    return form in entry.forms


def elementwise(ctx, entry):
    rows = entry.rows or tuple(range(G.NROW))
    for form in entry.forms:
        single = {}
        for r in rows:
            ix = index_for(entry, (r,)) if form == 'series' or 'times' in entry.cols.values() else None
            single[r] = values(entry, entry.fn(**G.args_of(entry, (r,), form, ix)))
        for word in batches(ctx, entry, form):
            ctx.state()
            ctx.step()
            ix = index_for(entry, word) if form == 'series' or 'times' in entry.cols.values() else None
            args = G.args_of(entry, word, form, ix)
            try:
                got = values(entry, entry.fn(**args))
            except Exception as e:   # noqa
                ctx.fail(f'{entry.name}:{form}:error', f'batch raised {type(e).__name__}: {e}', rows=list(word))
                continue
            for k in got:
                if k not in single[word[0]]:
                    ctx.fail(f'{entry.name}:{form}:{k}', 'output appears for batches only', rows=list(word))
                    continue
                exp = np.concatenate([np.atleast_1d(single[r][k]) if np.ndim(single[r][k]) <= 1 else single[r][k]
                                      for r in word], axis=-1)
                ctx.traces += max(1, exp.size)
                if got[k].shape != exp.shape:
                    ctx.fail(f'{entry.name}:{form}:{k}', f'shape {got[k].shape} for {len(word)} elements',
                             rows=list(word))
                    continue
                bad = notclose(got[k], exp, entry.rtol, entry.atol)
                if bad.any():
                    i = np.unravel_index(np.argmax(bad), bad.shape)
                    ctx.fail(f'{entry.name}:{form}:{k}', f'element {i[-1]} is {got[k][i]!r} in the batch and '
                             f'{exp[i]!r} alone', rows=list(word))


def scalars(ctx, entry):
    if not entry.scalar or 'times' in entry.cols.values() or 'array' not in entry.forms:
        return
    for r in entry.rows or range(G.NROW):
        ctx.state()
        ctx.step()
        exp = values(entry, entry.fn(**G.args_of(entry, (r,), 'array')))
        try:
            got = values(entry, entry.fn(**G.args_of(entry, (r,), 'scalar')))
        except Exception as e:    # noqa
            ctx.fail(f'{entry.name}:scalar:error', f'scalars raised {type(e).__name__}: {e}', row=r)
            continue
        for k in got:
            ctx.expect(got[k].size == 1 and k in exp, f'{entry.name}:scalar:{k}', f'shape {got[k].shape}', row=r)
            if got[k].size == 1 and k in exp:
                ctx.close(float(got[k].ravel()[0]), float(exp[k].ravel()[0]), f'{entry.name}:scalar:{k}',
                          rtol=entry.rtol, atol=entry.atol, row=r)


def indexes(ctx, entry):
    times = 'times' in entry.cols.values()
    if 'series' not in entry.forms and not times:
        return
    rows = entry.rows or tuple(range(G.NROW))
    form = 'series' if 'series' in entry.forms and (not times or len(entry.cols) > 1) else 'array'
    exp = None
    for word in (rows, rows[::-1], (rows[1], rows[0], rows[0])):
        exp = None
        for kind in (TKINDS if times else KINDS):
            ctx.state()
            ctx.step()
            ix = index_for(entry, word, kind)
            args = G.args_of(entry, word, form, ix)
            try:
                out = entry.fn(**args)
            except Exception as e:    # noqa
                ctx.fail(f'{entry.name}:index:{kind}', f'raised {type(e).__name__}: {e}')
                continue
            got = values(entry, out)
            if exp is None:
                exp = got
            elif not times or kind in ('utc',):
                for k in got:
                    ctx.close(got[k], exp[k], f'{entry.name}:index:{kind}:{k}', rtol=entry.rtol, atol=entry.atol)
            if entry.index:
                for k, v in flat(out).items():
                    if isinstance(v, (pd.Series, pd.DataFrame)):
                        ctx.expect(v.index.equals(ix) and v.index.dtype == ix.dtype, f'{entry.name}:index:{kind}:{k}',
                                   f'index of the result is {v.index[:3]} instead of {ix[:3]}')
                        if isinstance(ix, pd.DatetimeIndex):
                            ctx.expect(str(v.index.tz) == str(ix.tz), f'{entry.name}:index:{kind}:{k}:tz', 'zone changed')
                    elif form == 'series' and np.ndim(v) >= 1:
                        ctx.fail(f'{entry.name}:index:{kind}:{k}', f'Series input gave {type(v).__name__}')


def frozen(ctx, entry):
    rows = entry.rows or tuple(range(G.NROW))
    times = 'times' in entry.cols.values()
    for form in entry.forms:
        before = None
        first = None
        for word in (rows, rows[:2], rows[::-1], rows):
            ctx.state()
            ctx.step()
            ix = index_for(entry, word) if form == 'series' or times else None
            args = G.args_of(entry, word, form, ix)
            keep = deepcopy(args) if form != 'series' else {k: deepcopy(v) for k, v in args.items()}
            const = deepcopy(entry.const)
            for mode in ('plain', 'again', 'readonly'):
                if mode == 'readonly':
                    if form != 'array':
                        continue
                    for v in args.values():
                        freeze(v)
                try:
                    out = entry.fn(**args)
                    got = values(entry, out)
                except Exception as e:    # noqa
                    ctx.fail(f'{entry.name}:{form}:{mode}', f'raised {type(e).__name__}: {e}')
                    break
                for p in args:
                    ctx.expect(same_value(args[p], keep[p]), f'{entry.name}:{form}:mutated:{p}',
                               f'argument {p} was changed by the call')
                if entry.const is not None:
                    ctx.expect(same_value(entry.const, const), f'{entry.name}:{form}:mutated:const',
                               'parameters were changed by the call')
                if mode == 'plain':
                    first = got
                else:
                    for k in first:
                        ctx.close(got.get(k, np.nan), first[k], f'{entry.name}:{form}:{mode}:{k}', rtol=0, atol=0)
            if word == rows:
                if before is None:
                    before = first
                else:
                    for k in before:
                        ctx.close(first[k], before[k], f'{entry.name}:{form}:history:{k}', rtol=0, atol=0)


EXTREME = (-1e4, -400., -181., -90., -1.5, -1., -.3, -0., 0., 1e-12, .4, 1., 1.2, 7., 45., 90., 91.3, 180., 200., 359.5, 361., 1400., 1e5, math.nan, math.inf,
           -math.inf)


def extremes(ctx, entry):
    """One argument at a time over values far outside its usual range: the arguments stay as they were, and - where
    the model accepts the values at all - each element is what it is alone."""
    rows = entry.rows or tuple(range(G.NROW))
    times = 'times' in entry.cols.values()
    n = len(EXTREME)
    for r in (rows[0], rows[2 % len(rows)]):
        for col in (p for p, c in entry.cols.items() if c != 'times'):
            for form in entry.forms:
                word = (r,) * n
                ix = None
                if times:
                    ix = pd.DatetimeIndex([G.TIMES[r]] * n).tz_localize('UTC')
                elif form == 'series':
                    ix = index_for(entry, word)
                args = G.args_of(entry, word, form, ix)
                if np.asarray(args[col]).dtype.kind != 'f':
                    continue
                v = np.array(EXTREME)
                args[col] = pd.Series(v, ix) if form == 'series' else v
                ctx.state(n=n)
                ctx.step()
                keep = {k: deepcopy(x) for k, x in args.items()}
                const = deepcopy(entry.const)
                try:
                    out = values(entry, entry.fn(**args))
                except Exception:    # noqa
                    out = None
                for p in args:
                    ctx.expect(same_value(args[p], keep[p]), f'{entry.name}:{form}:extreme:mutated:{p}', f'argument {p} was changed by the call', varied=col)
                if entry.const is not None:
                    ctx.expect(same_value(entry.const, const), f'{entry.name}:{form}:extreme:mutated:const', 'parameters were changed by the call')
                if out is None or form == 'series' or ':newton' in entry.name or ':brentq' in entry.name:
                    continue          # root finders: outside their domain the iteration decides
                for i in range(n):
                    a1 = {k: (x[i:i + 1] if isinstance(x, (np.ndarray, pd.DatetimeIndex)) and np.ndim(x) == 1 else x) for k, x in keep.items()}
                    try:
                        one = values(entry, entry.fn(**a1))
                    except Exception as e:    # noqa
                        ctx.fail(f'{entry.name}:extreme:error', f'{col}={EXTREME[i]} raised {type(e).__name__} alone, accepted in a batch')
                        continue
                    for k in out:
                        if k in one and np.size(one[k]) and out[k].shape and out[k].shape[-1] == n:
                            ctx.close(out[k][..., i], np.asarray(one[k])[..., 0], f'{entry.name}:extreme:{k}', rtol=entry.rtol, atol=entry.atol, varied=col, value=EXTREME[i])


MIXED_OUT = {      # (entry prefix, column): combinations refused with an error today
    ('dni:clear', 'dni_clear'), ('singleaxis', 'apparent_zenith'), ('singleaxis', 'solar_azimuth'), ('infinite_sheds', 'ghi')}


def mixed(ctx, entry):
    """One column per element and the others scalar, and one column scalar and the others per element, against all
    of them per element."""
    rows = tuple(entry.rows or range(G.NROW))
    times = 'times' in entry.cols.values()
    cols = [p for p, c in entry.cols.items() if c != 'times']
    if len(cols) < 2 or not entry.scalar and not times:
        return
    if entry.name.endswith(':brentq'):
        return                       # brackets depend on the combination of parameters
    for form in entry.forms:
        ix = index_for(entry, rows) if form == 'series' or times else None
        full = G.args_of(entry, rows, form, ix)
        for r in rows[:2]:
            for col in cols:
                if any(entry.name.startswith(a) and col == b for a, b in MIXED_OUT):
                    continue
                for mode in ('one', 'rest'):
                    ctx.state()
                    ctx.step(2)
                    wide, narrow = {}, {}
                    for p in full:
                        if entry.cols[p] == 'times' or (p == col) == (mode == 'one'):
                            wide[p] = narrow[p] = full[p]
                            continue
                        v = np.array([G.COL[entry.cols[p]][r]] * len(rows))
                        wide[p] = pd.Series(v, ix) if form == 'series' else v
                        narrow[p] = v[0].item()
                    exp = values(entry, entry.fn(**wide))
                    try:
                        got = values(entry, entry.fn(**narrow))
                    except Exception as e:   # noqa
                        ctx.fail(f'{entry.name}:{form}:mixed:error', f'{type(e).__name__}: {e}', column=col, mode=mode)
                        continue
                    for k in exp:
                        ok = k in got and (got[k].shape == exp[k].shape or got[k].size == 1)
                        if not ctx.expect(ok, f'{entry.name}:{form}:mixed:{k}', f'shape {got[k].shape if k in got else None} '
                                          f'instead of {exp[k].shape}', column=col, mode=mode, row=r):
                            continue
                        ctx.close(np.broadcast_to(got[k], exp[k].shape) if got[k].shape != exp[k].shape else got[k], exp[k],
                                  f'{entry.name}:{form}:mixed:{k}', rtol=entry.rtol, atol=entry.atol, column=col, mode=mode, row=r)


def integers(ctx, entry):
    """Whole numbers in each column, and in all of them: integer arrays, integer Series, Python and numpy integers and
    0-d arrays give what the same numbers give as floats."""
    rows = tuple(r for r in (entry.rows or range(G.NROW)) if r != 5)
    times = 'times' in entry.cols.values()
    cols = [p for p, c in entry.cols.items() if c != 'times']
    for sel in [(c,) for c in cols] + ([tuple(cols)] if len(cols) > 1 else []):
        for how in ('int64', 'int32', 'series', 'pyint', 'npint', '0d'):
            one = how in ('pyint', 'npint', '0d')
            form = 'series' if how == 'series' else 'array'
            if form not in entry.forms or one and (not entry.scalar or times) or how == '0d' and entry.name == 'simplified_solis':
                continue
            for word in ([(r,) for r in rows] if one else [rows]):
                ix = index_for(entry, word) if form == 'series' or times else None
                base = G.args_of(entry, word, form, ix)
                whole = {p: np.round(np.asarray(base[p], float)) for p in sel}
                if not all(np.isfinite(w).all() for w in whole.values()):
                    continue
                f, g = dict(base), dict(base)
                if one:
                    f = {p: v[0].item() for p, v in base.items()}
                    g = dict(f)
                for p, w in whole.items():
                    if one:
                        f[p] = float(w[0])
                        g[p] = {'pyint': int, 'npint': np.int64, '0d': lambda x: np.array(x)}[how](w[0])
                    elif form == 'series':
                        f[p], g[p] = pd.Series(w, ix), pd.Series(w.astype('int64'), ix)
                    else:
                        f[p], g[p] = w, w.astype(how)
                ctx.state()
                ctx.step(2)
                try:
                    exp = values(entry, entry.fn(**f))
                except Exception:    # noqa   rounding left the domain (saturation current 0)
                    continue
                try:
                    got = values(entry, entry.fn(**g))
                except Exception as e:   # noqa
                    ctx.fail(f'{entry.name}:{how}:error', f'{type(e).__name__}: {e}', columns=list(sel), rows=list(word))
                    continue
                for k in exp:
                    if ctx.expect(k in got and got[k].size == exp[k].size, f'{entry.name}:{how}:{k}', 'shape differs',
                                  columns=list(sel)):
                        ctx.close(got[k].ravel(), exp[k].ravel(), f'{entry.name}:{how}:{k}', rtol=entry.rtol,
                                  atol=entry.atol, columns=list(sel))


def shapes(ctx, entry):
    """Two-dimensional and empty arrays: where they are accepted, the result has their shape and each element its value."""
    if 'times' in entry.cols.values() or 'array' not in entry.forms or entry.name in ('spectrl2',) \
            or entry.name.startswith('singlediode:'):
        return
    rows = tuple(entry.rows or range(G.NROW))
    word = (rows * 3)[:6]
    base = G.args_of(entry, word, 'array')
    exp = values(entry, entry.fn(**base))
    for shape in ((2, 3), (3, 2), (1, 6), (6, 1), (0,)):
        ctx.state()
        ctx.step()
        args = {k: v.reshape(shape) if shape != (0,) else v[:0] for k, v in base.items()}
        keep = deepcopy(args)
        try:
            got = values(entry, entry.fn(**args))
        except Exception:    # noqa
            continue
        for p in args:
            ctx.expect(same_value(args[p], keep[p]), f'{entry.name}:shape:mutated:{p}', f'argument {p} was changed by the call')
        for k in exp:
            if not ctx.expect(k in got, f'{entry.name}:shape:{k}', 'missing', shape=list(shape)):
                continue
            if shape == (0,):
                ctx.expect(got[k].size == 0, f'{entry.name}:shape:{k}', f'{got[k].shape} for empty input')
            elif ctx.expect(got[k].shape == shape, f'{entry.name}:shape:{k}', f'{got[k].shape} instead of {shape}'):
                ctx.close(got[k].ravel(), exp[k].ravel(), f'{entry.name}:shape:{k}', rtol=entry.rtol, atol=entry.atol, shape=list(shape))


def _make(group):
    def run(ctx):
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            for e in G.ENTRIES[group::GROUPS]:
                elementwise(ctx, e)
                scalars(ctx, e)
                indexes(ctx, e)
                frozen(ctx, e)
                extremes(ctx, e)
                mixed(ctx, e)
                integers(ctx, e)
                shapes(ctx, e)
                ctx.sample({'entry': e.name})
    run.__name__ = f'group{group:02d}'
    run.__doc__ = 'batches, scalars, index types, frozen inputs, extreme values, mixed and integer forms and shapes: every %dth registry entry from %d' % (GROUPS, group)
    return run


for _g in range(GROUPS):
    case(CASES, name=f'group{_g:02d}')(_make(_g))


@case(CASES)
def histories_of_integers(ctx):
    """Models that look at neighbouring samples: every word over small whole numbers as int64, int32 and float32 series
    and columns gives what it gives as float64, and leaves the inputs as they were."""
    from pvlib import clearsky, irradiance, location, modelchain, pvsystem, scaling, snow, soiling, temperature
    t = pd.date_range('2020-03-01 14:00', periods=4, freq='1h', tz='UTC')
    t10 = pd.date_range('2020-03-01', periods=12, freq='10min', tz='UTC')
    loc = location.Location(40, -105, 'Etc/GMT+7', 1600)
    arr = pvsystem.Array(pvsystem.FixedMount(20, 180), module_parameters=dict(pdc0=100., gamma_pdc=-.004),
                         temperature_model_parameters=dict(a=-3.4, b=-.07, deltaT=3))
    syst = pvsystem.PVSystem(arr, inverter_parameters=dict(pdc0=200.))

    def S(v, ix=t):
        return pd.Series(np.asarray(v, float), ix)

    def chain(w, how='run_model'):
        mc = modelchain.ModelChain(syst, loc, aoi_model='physical', spectral_model='no_loss')
        r = getattr(mc, how)(w).results
        return r.ac, r.cell_temperature, r.effective_irradiance

    up, zen = S([95, 60, 50, 40]), S([70, 60, 50, 41])
    cs = S(np.arange(12) * 3 + 702, t10)
    forms = {
        'coverage_nrel': (lambda w: (snow.coverage_nrel, (S(w), S([0, 500, 800, 0]), S([-2, -1, 2, 3]), 30)), (0, 1, 5)),
        'fully_covered_nrel': (lambda w: (snow.fully_covered_nrel, (S(w),)), (0, 1, 5)),
        'dc_loss_nrel': (lambda w: (snow.dc_loss_nrel, (S(w), 2)), (0, 1)),
        'hsu': (lambda w: (soiling.hsu, (S(w), 1, 30, S([1, 2, 3, 4]), S([10, 20, 30, 40]))), (0, 1, 3)),
        'kimber': (lambda w: (soiling.kimber, (S(w), 6)), (0, 7)),
        'fuentes': (lambda w: (temperature.fuentes, (S([0, 500, 800, 90]), S(w), S([1, 0, 3, 5]), 45)), (-5, 0, 30)),
        'fuentes-wind': (lambda w: (temperature.fuentes, (S([0, 500, 800, 90]), S([1, 3, 2, 1]), S(w), 45)), (0, 1, 9)),
        'prilliman': (lambda w: (temperature.prilliman, (S(w * 3, t10), S([1, 2, 3] * 4, t10))), (10, 25, 60)),
        'detect_clearsky': (lambda w: (P_(clearsky.detect_clearsky, window_length=40), (S(w * 3, t10) + cs, cs)), (0, 90)),
        'dirint': (lambda w: (irradiance.dirint, (S(w), zen, t)), (0, 100, 800)),
        'dirindex': (lambda w: (irradiance.dirindex, (S(w), S([300, 600, 700, 900]), S([200, 700, 800, 850]), zen, t)), (0, 100, 800)),
        'gti_dirint': (lambda w: (irradiance.gti_dirint, (S(w), zen, zen, S([90, 120, 150, 180]), t, 30, 180)), (0, 100, 800)),
        'complete_irradiance': (lambda w: (irradiance.complete_irradiance, (up, None, S([0, 50, 80, 10]), S(w))), (0, 100, 800)),
        'haurwitz': (lambda w: (clearsky.haurwitz, (S(w),)), (0, 60, 95)),
        'wvm': (lambda w: (lambda s: scaling.wvm(s, np.array([[0, 0], [1000, 10], [50, 2000]]), 4)[0], (S(w * 3, t10),)), (0, 1, 2)),
        'chain': (lambda w: (chain, (pd.DataFrame(dict(ghi=S(w), dni=S([0, 600, 0, 900]), dhi=S([10, 100, 80, 95]), temp_air=20., wind_speed=2.)),)),
                  (0, 500, 900)),
        'chain:poa': (lambda w: (P_(chain, how='run_model_from_poa'),
                                 (pd.DataFrame(dict(poa_global=S(w), poa_direct=S([0, 60, 0, 90]), poa_diffuse=S([10, 1, 80, 95]),
                                                    temp_air=20., wind_speed=2.)),)), (0, 500, 900)),
    }

    def cast(x, dt):
        return x.astype(dt) if isinstance(x, (pd.Series, pd.DataFrame)) else x

    def table(out):
        return [np.asarray(pd.DataFrame(o), float) for o in (out if isinstance(out, tuple) else (out,))]

    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        for name, (build, cells) in forms.items():
            for word in itertools.product(cells, repeat=4 if ctx.thorough else 5 - len(cells)):
                word = (word * 2)[:4]
                f, args = build(word)
                ctx.state((name, word))
                exp = table(f(*args))
                for dt in ('int64', 'int32', 'float32'):
                    ctx.step()
                    given = [cast(a, dt) for a in args]
                    keep = [x.copy() if hasattr(x, 'copy') else x for x in given]
                    got = table(f(*given))
                    loose = dt == 'float32'
                    for a, b in zip(got, exp):
                        ctx.close(a, b, f'{name}:{dt}', rtol=2e-4 if loose else 1e-9, atol=.02 if loose else 1e-9, word=word)
                    ctx.expect(all(same_value(a, b) for a, b in zip(given, keep)), f'{name}:{dt}:mutated', 'an argument was changed', word=word)


def P_(f, **kw):
    return lambda *a: f(*a, **kw)
