"""Lattice of global irradiance (zero, negative, missing, above extraterrestrial)
x zenith (night and every threshold's two sides) x day x pressure, limits and
coefficients x input forms for each decomposition model; all length-3..4
histories over an alphabet of clearness levels for DIRINT's neighbour term;
oracle: scalar published equations and closure/range invariants."""
import itertools
import math

import numpy as np
import pandas as pd

from mc.core import case, lattice, quiet, dt_index
from mc.ref import irr, irr_tables as T
from mc.checks.T02 import completion as _completion
from pvlib import irradiance as I

CASES = [('closure_dni', _completion, False)]
nan = math.nan
ZEN = [0, 20.5, 45, 60, 75, 84, 86, 86.5, 87, 87.01, 88.5, 89.9, 90, 91, 120]
GHI = [-5, 0, 1, 50, 200.5, 400, 700, 1000, 1400, 3000]
DOY = [1, 100, 172, 365]
F = ('array', 'scalar', 'int', 'len1', 'array2d')


def days_index(doys, tz='Etc/GMT+7'):
    return pd.DatetimeIndex([pd.Timestamp('2019-01-01 05:00') + pd.Timedelta(days=int(d) - 1) for d in doys]).tz_localize(tz)


def framed(ctx, name, fn, ref, pts, cols):
    """DatetimeIndex form: DataFrame on the given index."""
    doys = np.array([DOY[i % len(DOY)] for i in range(len(pts))])
    for tz in (None, 'UTC', 'Etc/GMT+7', 'Asia/Kolkata'):
        idx = days_index(doys, tz)
        d = (idx.tz_convert('UTC') if idx.tz is not None else idx).dayofyear
        S = [pd.Series(np.array([p[i] for p in pts], float), index=idx) for i in range(2)]
        before = [s.copy() for s in S]
        ctx.states += len(pts)
        ctx.step(len(pts))
        g = quiet(fn, *S, idx)
        ctx.expect(isinstance(g, pd.DataFrame) and g.index.equals(idx), f'{name}/frame')
        e = [ref(p[0], p[1], int(q)) for p, q in zip(pts, d)]
        for c in cols:
            ctx.close(g[c].to_numpy(), [x[c] for x in e], f'{name}/frame/{c}', rtol=1e-9, atol=1e-9)
        ctx.expect(all(a.equals(b) for a, b in zip(S, before)), f'{name}/mutated')
        # plain arrays with times: the frame is indexed by the times
        h = quiet(fn, S[0].to_numpy(), S[1].to_numpy(), idx)
        ctx.step(len(pts))
        ctx.expect(isinstance(h, pd.DataFrame) and h.index.equals(idx) and h.equals(g), f'{name}/frame from arrays')


def invariants(ctx, name, g, z, out, zmax=87, closed=True, above=None):
    dni, ok = np.asarray(out['dni'], float), np.isfinite(np.asarray(out['dni'], float))
    ctx.expect((dni[ok] >= 0).all(), f'{name}/dni non-negative')
    ctx.expect((dni[ok & (z > zmax)] == 0).all(), f'{name}/dni zero beyond the limit')
    if 'dhi' in out:
        dhi = np.asarray(out['dhi'], float)
        if name != 'louche':    # its published fit gives 0.002 at zero clearness
            ctx.expect((dhi[ok & (g >= 0)] >= -1e-9).all(), f'{name}/dhi non-negative')
    if closed:
        ctx.close(np.asarray(out['dhi'], float) + dni * np.cos(np.radians(z)), np.where(np.isfinite(z), g, nan), f'{name}/closure',
                  rtol=1e-9, atol=1e-7)
    if 'kt' in out:
        kt = np.asarray(out['kt'], float)
        ctx.expect(((kt >= 0) & (kt <= (2 if name == 'louche' else 1)))[np.isfinite(kt)].all(), f'{name}/kt range')


def grid():
    p = np.array(list(itertools.product(GHI, ZEN)), float)
    return p[:, 0], p[:, 1]


@case(CASES)
def erbs_family(ctx):
    g, z = grid()
    pts = list(zip(g, z))
    for name, fn, rf in (('erbs', I.erbs, irr.erbs), ('orgill_hollands', I.orgill_hollands, irr.orgill_hollands),
                         ('boland', I.boland, irr.boland), ('louche', I.louche, irr.louche), ('erbs_driesse', I.erbs_driesse, irr.erbs_driesse)):
        zn = 'zenith' if name in ('erbs', 'orgill_hollands', 'erbs_driesse') else 'solar_zenith'
        keep = None
        if name in ('erbs', 'orgill_hollands', 'erbs_driesse'):
            ed = {'erbs': (.22, .8), 'orgill_hollands': (.35, .75), 'erbs_driesse': (.216, .792)}[name]
            keep = lambda **k: not any(abs(irr.clearness(k['ghi'], k[zn], irr.extra(k['datetime_or_doy']), .065, 1) - e) < 1e-9  # noqa
                                       for e in ed)
        ax = {'ghi': GHI, zn: ZEN, 'datetime_or_doy': DOY}
        ref = lambda **k: rf(k['ghi'], k[zn], irr.extra(k['datetime_or_doy']))  # noqa
        lattice(ctx, name, lambda **k: quiet(fn, **k), ref, ax, forms=F, keep=keep, nan=['ghi', zn], ref_nan=True)
        framed(ctx, name, fn, lambda a, b, d: rf(a, b, irr.extra(d)), pts, ['dni', 'dhi', 'kt'])
        for d in DOY:
            out = quiet(fn, g, z, np.full(len(g), d))
            ctx.step(len(g))
            invariants(ctx, name, np.maximum(g, 0) if name == 'erbs_driesse' else g, z, out, 90 if name == 'louche' else 87)
        # options
        if name == 'louche':
            for zm in (60., 87., 95.):
                o = quiet(fn, g, z, 172, max_zenith=zm)
                ctx.close(o['dni'], [rf(*p, irr.extra(172), max_zenith=zm)['dni'] for p in pts], f'{name}/max_zenith')
        else:
            for mc, mz in itertools.product((0.01, 0.065, 0.3), (70, 87, 89.95)):
                ctx.state((name, mc, mz))
                ctx.step(len(g))
                o = quiet(fn, g, z, np.full(len(g), 172), min_cos_zenith=mc, max_zenith=mz)
                for c in ('dni', 'dhi', 'kt'):
                    ctx.close(o[c], [rf(*p, irr.extra(172), min_cos=mc, max_zenith=mz)[c] for p in pts], f'{name}/options/{c}')
        if name == 'boland':
            for a, b in ((8.645, .613), (8.6, .5), (5., .7)):
                o = quiet(fn, g, z, 172, a, b)
                ctx.close(o['dhi'], [rf(*p, irr.extra(172), a, b)['dhi'] for p in pts], 'boland/coefficients')
        if name in ('orgill_hollands', 'erbs_driesse'):
            for dx in (1000., 1366.1):
                o = quiet(fn, g, z, 172, dni_extra=dx)
                ctx.close(o['dni'], [rf(*p, dx)['dni'] for p in pts], f'{name}/dni_extra')
    s = pd.Series([100., 500.], index=dt_index(2))
    o = I.erbs_driesse(s, s * 0 + 40., dni_extra=1366.1)
    ctx.expect(isinstance(o, pd.DataFrame) and o.index.equals(s.index), 'erbs_driesse/series without times')
    ctx.raises(ValueError, lambda: I.erbs_driesse(100., 40.), 'erbs_driesse/no extra')


@case(CASES)
def disc(ctx):
    g, z = grid()
    pts = list(zip(g, z))
    keep = lambda **k: abs(irr.clearness(k['ghi'], k['solar_zenith'], irr.extra(k['datetime_or_doy'], 1370.), .065, 1) - .6) > 1e-9  # noqa
    lattice(ctx, 'disc', lambda **k: quiet(I.disc, **k), lambda **k: irr.disc(k['ghi'], k['solar_zenith'], k['datetime_or_doy'], k['pressure']),
            dict(ghi=GHI, solar_zenith=ZEN, datetime_or_doy=DOY, pressure=[70000, 101325]), forms=F, keep=keep,
            nan=['ghi', 'solar_zenith', 'pressure'], ref_nan=True, scalar_max=1500)
    for P in (101325., 80000., None):
        framed(ctx, 'disc', lambda a, b, t: I.disc(a, b, t, pressure=P), lambda a, b, d: irr.disc(a, b, d, P), pts, ['dni', 'kt', 'airmass'])
    for mc, mz, ma in itertools.product((0.01, .065, .3), (70, 87, 89.95), (2, 12, 50)):
        ctx.state((mc, mz, ma))
        ctx.step(len(g))
        o = quiet(I.disc, g, z, 172, 101325., mc, mz, ma)
        for c in ('dni', 'kt', 'airmass'):
            ctx.close(o[c], [irr.disc(*p, 172, 101325., mc, mz, ma)[c] for p in pts], f'disc/options/{c}')
    for d in DOY:
        o = quiet(I.disc, g, z, np.full(len(g), d))
        invariants(ctx, 'disc', g, z, o, closed=False)
        k = np.isfinite(o['airmass'])
        ctx.expect((o['airmass'][k] <= 12).all(), 'disc/airmass limit')
        ctx.close(quiet(I.disc, g, z, d)['dni'], o['dni'], 'disc/default pressure')


LV_ALL = [0, 80., 260., 480., 640., 830., 1000., nan]     # W/m2 at zenith ~30: spans the kt' bins


@case(CASES)
def dirint_histories(ctx):
    n = ctx.pick(3, 4)
    LV = ctx.pick([0, 260., 480., 830., 1000., nan], LV_ALL)
    idx = pd.date_range('2020-06-24 12:00', periods=n, freq='1h', tz='Etc/GMT+7')
    doys = [t.dayofyear for t in idx.tz_convert('UTC')]
    zs = [10., 32., 57.3, 79.5][:n]
    # every history of clearness levels of length n, options
    for h in itertools.product(LV, repeat=n):
        ctx.state(h)
        ctx.step(2)
        g = pd.Series(h, index=idx)
        z = pd.Series(zs, index=idx)
        for use in (True, False):
            v = quiet(I.dirint, g, z, idx, use_delta_kt_prime=use)
            e = irr.dirint(h, zs, doys, use_delta=use)
            if not ctx.close(v, e, f'dirint/{use}', rtol=1e-9, atol=1e-9, history=list(h)):
                return


@case(CASES)
def dirint_options(ctx):
    # options: pressure, dew point, thresholds, bins of zenith
    idx = pd.date_range('2020-06-24 12:00', periods=5, freq='1h', tz='Etc/GMT+7')
    doys = [t.dayofyear for t in idx.tz_convert('UTC')]
    for zs in ([5., 30, 50, 60, 75], [24.9, 25, 39.9, 40, 54.9], [55, 69.9, 70, 79.9, 80], [86.9, 87, 87.1, 91, 60], [10, nan, 20, 30, 40], [0, 10, 0, 0, 80.]):
        for gs in ([900., 800, 700, 300, 100], [200., 900, 60, 400, 30], [0, 0, 5, 0, 0], [1500., 1400, -3, 600, nan]):
            g, z = pd.Series(gs, index=idx, dtype=float), pd.Series(zs, index=idx, dtype=float)
            for P, td in itertools.product((101325., 75000., [101325., 90000, 80000, 70000, nan]),
                                           (None, [-40., 1.0, 0.075 / 0.07, 12, 25], [nan, 10.9, 11, 16.5, 17])):
                ctx.state((tuple(zs), tuple(gs), str(P), str(td)))
                ctx.step(3)
                pp = P if np.isscalar(P) else pd.Series(P, index=idx)
                tt = None if td is None else pd.Series(td, index=idx)
                e = irr.dirint(gs, zs, doys, P, True, td)
                v = quiet(I.dirint, g, z, idx, pp, True, tt)
                ctx.expect(isinstance(v, pd.Series) and v.index.equals(idx), 'dirint/index')
                ctx.close(v, e, 'dirint/options', rtol=1e-9, atol=1e-9, zenith=zs, ghi=gs, pressure=str(P), dew=str(td))
                if td is not None and tt is not None:
                    ctx.close(quiet(I.dirint, g, z, idx, pp, True, np.array(td)), e, 'dirint/dew array', rtol=1e-9, atol=1e-9)
                for mc, mz in ((.065, 60), (.3, 87)):
                    ctx.close(quiet(I.dirint, g, z, idx, pp, True, tt, mc, mz), irr.dirint(gs, zs, doys, P, True, td, mc, mz),
                              'dirint/limits', rtol=1e-9, atol=1e-9)
                # dirindex: ratio of two DIRINT runs times the clear-sky beam
                gc = pd.Series([950., 900, 750, 600, 300], index=idx)
                dc = pd.Series([900., 850, 0., 700, -20], index=idx)
                ec = irr.dirint(list(gc), zs, doys, P, True, td)
                want = []
                for a, b, c in zip(dc, e, ec):
                    q = irr.div(a * b, c)
                    want.append(q if irr.isnan(q) else max(q, 0.))
                v = quiet(I.dirindex, g, gc, dc, z, idx, pp, True, tt)
                ctx.close(v, want, 'dirindex', rtol=1e-9, atol=1e-9)
                ctx.expect(isinstance(v, pd.Series) and v.index.equals(idx), 'dirindex/index')
                ctx.expect((v.dropna() >= 0).all(), 'dirindex/non-negative')
                for use, mc, mz in ((False, .065, 87), (True, .3, 60), (False, .5, 80)) if (td is None) == np.isscalar(P) or ctx.thorough else ():
                    e2 = irr.dirint(gs, zs, doys, P, use, td, mc, mz)
                    ec = irr.dirint(list(gc), zs, doys, P, use, td, mc, mz)
                    want = []
                    for a, b, c in zip(dc, e2, ec):
                        q = irr.div(a * b, c)
                        want.append(q if irr.isnan(q) else max(q, 0.))
                    ctx.step()
                    ctx.close(quiet(I.dirindex, g, gc, dc, z, idx, pp, use, tt, mc, mz), want, 'dirindex/limits', rtol=1e-9, atol=1e-9)


@case(CASES)
def dirint_table(ctx):
    # every cell of the coefficient table is reachable with the right value
    cells = set()
    idx = pd.date_range('2020-06-24 12:00', periods=3, freq='1h', tz='UTC')
    dd = idx.dayofyear[1]
    for z0 in (10., 30., 50., 60., 75., 82.):
        for k0 in (.1, .3, .5, .6, .75, .9):
            for dk in (0., .02, .05, .1, .2, .35, None):
                for td in (None, -10., 5., 14., 25.):
                    # target kt' in the middle of the bin
                    am = irr.disc(100., z0, dd)['airmass']
                    f = irr.ktp_factor(am) * irr.extra(dd, 1370.) * math.cos(math.radians(z0))
                    gm = k0 * f
                    gn = (k0 - (dk or 0.)) * f if k0 >= (dk or 0.) else (k0 + dk) * f
                    if k0 * irr.ktp_factor(am) > 1 or gn / f * irr.ktp_factor(am) > 1 or gn / f > 1:
                        continue
                    h = [gn, gm, gn]
                    g, z = pd.Series(h, index=idx), pd.Series([z0] * 3, index=idx)
                    e = irr.dirint(h, [z0] * 3, list(idx.dayofyear), use_delta=dk is not None, temp_dew=None if td is None else [td] * 3)
                    ctx.state((z0, k0, dk, td))
                    ctx.step()
                    v = quiet(I.dirint, g, z, idx, use_delta_kt_prime=dk is not None, temp_dew=None if td is None else td)
                    ctx.close(v.iloc[1], e[1], 'dirint/table', rtol=1e-9, atol=1e-9)
                    cells.add((k0, z0, dk, td))
    ctx.outcome(len(cells))
    ctx.expect(len(cells) > 1000, 'harness/cells', str(len(cells)))


@case(CASES)
def clear_days(ctx):
    lattice(ctx, 'clearness', lambda **k: quiet(I.clearness_index, **k), lambda ghi, solar_zenith, extra_radiation:
            irr.clearness(ghi, solar_zenith, extra_radiation), dict(ghi=GHI, solar_zenith=ZEN, extra_radiation=[1320.5, 1400]),
            forms=('array', 'series', 'scalar', 'int', 'mixed', 'len1'))
    for mc, mk in itertools.product((.01, .065, .5), (1., 2., .8)):
        ctx.state((mc, mk))
        lattice(ctx, f'clearness/{mc}/{mk}', lambda **k: quiet(I.clearness_index, min_cos_zenith=mc, max_clearness_index=mk, **k),
                lambda ghi, solar_zenith, extra_radiation: irr.clearness(ghi, solar_zenith, extra_radiation, mc, mk),
                dict(ghi=GHI, solar_zenith=ZEN, extra_radiation=[1366]), forms=('array', 'series'))
    lattice(ctx, 'zenith_independent', lambda **k: quiet(I.clearness_index_zenith_independent, **k), lambda clearness_index, airmass:
            irr.clearness_zi(clearness_index, airmass), dict(clearness_index=[0, .2, .6, 1, 2, -1], airmass=[1, 1.5, 5, 12, 38]),
            forms=('array', 'series', 'scalar', 'int', 'mixed', 'len1'))
    for mk in (1., .7):
        g = I.clearness_index_zenith_independent(np.array([.1, .9, 2.]), np.array([1., 2, 3]), max_clearness_index=mk)
        ctx.close(g, [irr.clearness_zi(a, b, mk) for a, b in ((.1, 1), (.9, 2), (2., 3))], 'zenith_independent/max')
    inf = math.inf
    vals = [-10, 0, 1, 300, 900, 2500, nan, inf, -inf]
    lattice(ctx, 'clearsky_index', lambda **k: quiet(I.clearsky_index, **k), lambda ghi, ghi_clear: irr.clearsky_index(ghi, ghi_clear),
            dict(ghi=vals, ghi_clear=[0, 1, 450, 900, nan, inf]), forms=('array', 'series', 'int', 'len1'))
    lattice(ctx, 'clearsky_index/scalar', lambda **k: quiet(I.clearsky_index, **k), lambda ghi, ghi_clear: irr.clearsky_index(ghi, ghi_clear),
            dict(ghi=vals, ghi_clear=[0, 1, 450, 900, nan, inf]), forms=('scalar', 'mixed'))
    for mk in (1., 1.5):
        lattice(ctx, 'clearsky_index/max', lambda **k: quiet(I.clearsky_index, max_clearsky_index=mk, **k), lambda ghi, ghi_clear:
                irr.clearsky_index(ghi, ghi_clear, mk), dict(ghi=vals, ghi_clear=[1, 450, 900, nan]), forms=('array', 'series'))


@case(CASES)
def campbell_norman(ctx):
    Z = [0, 20.5, 45, 60, 84, 88, 89.5, 91, 120]
    lattice(ctx, 'campbell_norman', lambda **k: quiet(I.campbell_norman, **k), lambda zenith, transmittance, pressure, dni_extra:
            irr.campbell_norman(zenith, transmittance, pressure, dni_extra),
            dict(zenith=Z, transmittance=[0.05, .4, .7, 1], pressure=[70000, 101325], dni_extra=[1300, 1367]),
            forms=('array', 'series', 'scalar', 'mixed', 'len1'), ref_nan=True)
    z = np.arange(0, 89.9, 0.5)
    zs = pd.Series(z, index=dt_index(len(z)))
    o = quiet(I.campbell_norman, zs, .5)
    ctx.expect(isinstance(o, pd.DataFrame) and o.index.equals(zs.index), 'campbell_norman/frame')
    for t in (.1, .5, .75):
        o = I.campbell_norman(z, t)
        ctx.step(len(z))
        ctx.close(o['dhi'] + o['dni'] * np.cos(np.radians(z)), o['ghi'], 'campbell_norman/closure')
        ctx.expect((o['dni'] >= 0).all() and (o['dhi'] >= 0).all() and (np.diff(o['dni']) < 1e-9).all(), 'campbell_norman/range')
        ctx.close(o['ghi'], [irr.campbell_norman(x, t)['ghi'] for x in z], 'campbell_norman/defaults')
    lattice(ctx, 'par', I.diffuse_par_spitters, lambda daily_solar_zenith, global_diffuse_fraction:
            irr.par_spitters(daily_solar_zenith, global_diffuse_fraction),
            dict(daily_solar_zenith=[0, 20, 45, 60.5, 90], global_diffuse_fraction=[0, .2, .5, .9, 1]),
            forms=('array', 'series', 'scalar', 'int', 'mixed', 'len1'))
