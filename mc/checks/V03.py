"""Lattice of irradiance x temperature x parameter x input form for the explicit
DC models, loss stacks and scaling; oracle: scalar equations and exact linear
relations; loss Series on every pair of indexes and fill methods."""
import itertools
import math

import numpy as np
import pandas as pd

from mc.core import case, lattice, quiet, dt_index, same_value
from mc.ref import iam as RI
from pvlib import pvsystem as ps, pvarray
from pvlib.bifacial import loss_models

CASES = []
inf, nan = math.inf, math.nan
F = ('array', 'series', 'scalar', 'int', 'mixed', 'len1')
G = [0, 1e-3, 50, 199, 200, 201, 640, 999, 1000, 1001, 1400]
T = [-40, 0, 24.5, 25, 60, 90]


def grid(ctx):
    if ctx.thorough:
        return dict(effective_irradiance=sorted(set(G + list(range(0, 1500, 20)))), temp_cell=sorted(set(T + list(range(-40, 100, 5)))))
    return dict(effective_irradiance=G, temp_cell=T)


@case(CASES)
def pvwatts_dc(ctx):
    for pdc0, gam, extra in itertools.product([100., 5000], [-.0035, 0., -.02], [
            {}, dict(temp_ref=20.), dict(temp_ref=0), dict(k=.01), dict(k=.2), dict(k=-.01), dict(k=0.), dict(k=.01, cap_adjustment=True),
            dict(k=-.01, cap_adjustment=True), dict(cap_adjustment=True), dict(k=.05, temp_ref=30., cap_adjustment=True)]):
        def ref(effective_irradiance, temp_cell):
            g = effective_irradiance
            p = g / 1000 * pdc0 * (1 + gam * (temp_cell - extra.get('temp_ref', 25.)))
            k = extra.get('k')
            if k is None:
                return p
            e = k * (1 - (1 - g / 200) ** 4) if g <= 200 else k * (1000 - g) / 800
            if extra.get('cap_adjustment') and g >= 1000:
                e = 0
            return max(0., p - pdc0 * e)
        lattice(ctx, f'pvwatts_dc {pdc0} {gam} {extra}', lambda **k: ps.pvwatts_dc(**k, pdc0=pdc0, gamma_pdc=gam, **extra), ref,
                grid(ctx), forms=F, rtol=1e-9, atol=1e-9)
    # k is the relative power deficit at 200 W/m2
    for k in (.01, .04):
        ctx.close(ps.pvwatts_dc(200., 25., 300., -.004, k=k), 300 * (.2 - k), f'pvwatts_dc deficit {k}')
        ctx.close(ps.pvwatts_dc(1000., 25., 300., -.004, k=k), 300, f'pvwatts_dc unchanged at reference {k}')
    ctx.close(ps.pvwatts_dc(1000., 25., 300., -.004), 300, 'pvwatts_dc reference')
    x = np.array([10., 300., 900.])
    ctx.close(ps.pvwatts_dc(2 * x, 40., 300., -.004), 2 * ps.pvwatts_dc(x, 40., 300., -.004), 'pvwatts_dc linear', rtol=1e-12)
    ctx.state(n=4)
    ctx.step(6)
    p = inspect_scalar(ctx, 'pvwatts_dc', ps.pvwatts_dc(500., 30., 300., -.004, k=.01))
    for form in ('float', 'numpy'):
        g = 500. if form == 'float' else np.float64(500.)
        ctx.expect(np.ndim(ps.pvwatts_dc(g, 30., 300., -.004, k=.01)) == 0, f'pvwatts_dc scalar {form}')


def inspect_scalar(ctx, name, v):
    return ctx.expect(np.isscalar(v), f'{name} scalar output', repr(v))


SAPM = dict(C0=1.01284, C1=-0.0128398, C2=0.279317, C3=-7.24463, Isco=5.09115, Impo=4.54629, Voco=59.2608, Vmpo=48.3156,
            Aisc=0.000397, Aimp=0.000181, Bvoco=-0.21696, Mbvoc=0.0, Bvmpo=-0.235488, Mbvmp=0.0, N=1.4032, Cells_in_Series=96,
            IXO=4.97599, IXXO=3.18803, C4=0.996446, C5=0.003554, C6=1.15535, C7=-0.155353, FD=1,
            A0=.928385, A1=.068093, A2=-.0157738, A3=.0016606, A4=-6.93e-5, B0=1., B1=-.002438, B2=.0003103, B3=-1.246e-5,
            B4=2.11e-7, B5=-1.36e-9)
VQ = 1.380649e-23 / 1.602176634e-19


def sapm(g, t, m, tref=25., gref=1000.):
    e = g / gref
    d = m['N'] * VQ * (t + 273.15)
    n = m['Cells_in_Series']
    dt = t - tref
    o = dict(i_sc=m['Isco'] * e * (1 + m['Aisc'] * dt), i_mp=m['Impo'] * (m['C0'] * e + m['C1'] * e * e) * (1 + m['Aimp'] * dt))
    if e > 0:
        ln = math.log(e)
        o['v_oc'] = max(0., m['Voco'] + n * d * ln + (m['Bvoco'] + m['Mbvoc'] * (1 - e)) * dt)
        o['v_mp'] = max(0., m['Vmpo'] + m['C2'] * n * d * ln + m['C3'] * n * (d * ln) ** 2 + (m['Bvmpo'] + m['Mbvmp'] * (1 - e)) * dt)
    else:
        o['v_oc'] = o['v_mp'] = 0.
    o['p_mp'] = o['i_mp'] * o['v_mp']
    if all(k in m for k in ('IXO', 'C4', 'C5')):
        o['i_x'] = m['IXO'] * (m['C4'] * e + m['C5'] * e * e) * (1 + m['Aisc'] * dt)
    if all(k in m for k in ('IXXO', 'C6', 'C7')):
        o['i_xx'] = m['IXXO'] * (m['C6'] * e + m['C7'] * e * e) * (1 + m['Aimp'] * dt)
    return o


@case(CASES)
def sapm_model(ctx):
    variants = [('base', {}), ('negative C2', dict(C2=-.15)), ('zero C2', dict(C2=0.)),
                ('temperature', dict(Mbvoc=.02, Mbvmp=-.03, Aisc=.0008, Aimp=-.0004)), ('no ix', dict(IXO=None)), ('no ixx', dict(C7=None)),
                ('no c4', dict(C4=None)), ('no c6', dict(C6=None)), ('no IXXO', dict(IXXO=None)), ('no C5', dict(C5=None))]
    for nm, ch in variants:
        m = {k: v for k, v in dict(SAPM, **ch).items() if v is not None}
        for cfg in ({}, dict(temperature_ref=20., irradiance_ref=800.)):
            for mod in (m, pd.Series(m)):
                keys = list(sapm(500., 25., m))
                lattice(ctx, f'sapm {nm} {sorted(cfg)} {type(mod).__name__}', lambda **k: ps.sapm(**k, module=mod, **cfg),
                        lambda effective_irradiance, temp_cell: sapm(effective_irradiance, temp_cell, m, cfg.get('temperature_ref', 25.),
                                                                     cfg.get('irradiance_ref', 1000.)),
                        grid(ctx), forms=F, rtol=1e-9, atol=1e-9, nan=['effective_irradiance'])
                r = ps.sapm(np.array([500.]), 25., mod, **cfg)
                ctx.expect(list(r) == keys, f'sapm {nm} keys', str(list(r)))
    idx = dt_index(2)
    for g, t in itertools.product([640., np.array([0., 640.]), pd.Series([0., 640.], index=idx), pd.Series([0, 640], index=idx)],
                                  [31., np.array([31., 31.]), pd.Series([31., 31.], index=idx)]):
        r = quiet(ps.sapm, g, t, SAPM)
        ctx.state((type(g).__name__, type(t).__name__, str(getattr(g, 'dtype', ''))))
        ctx.step()
        e = sapm(640., 31., SAPM)
        for k in e:
            v = np.asarray(r[k], float).reshape(-1)
            ctx.close(v[-1], e[k], f'sapm container value {k}')
        if isinstance(g, pd.Series) or isinstance(t, pd.Series):
            ctx.expect(isinstance(r, pd.DataFrame) and r.index.equals(idx), 'sapm frame', f'{type(g)} {type(t)} gave {type(r)}')


@case(CASES)
def sapm_database(ctx):
    """Every bundled Sandia module: reference point, dark, and an ordinary point."""
    db = ps.retrieve_sam('SandiaMod')
    for n in list(db)[::ctx.pick(2, 1)]:
        m = db[n]
        md = {k: m[k] for k in m.index}
        pts = [(0., -10.), (0., 60.), (1., 25.), (300., 40.), (1000., 25.), (1000., 60.)]
        r = quiet(ps.sapm, np.array([p[0] for p in pts]), np.array([p[1] for p in pts]), m)
        for j, p in enumerate(pts):
            ctx.state((n, p))
            ctx.step()
            e = sapm(p[0], p[1], md)
            for k in e:
                ctx.close(np.asarray(r[k])[j], e[k], f'sapm database {k}', rtol=1e-9, atol=1e-9, module=n, point=p)


@case(CASES)
def sapm_effective(ctx):
    A = [SAPM[f'A{i}'] for i in range(5)]
    B = [SAPM[f'B{i}'] for i in range(6)]
    for fd in (1, .8, 0.):
        m = dict(SAPM, FD=fd)

        def ref(poa_direct, poa_diffuse, airmass_absolute, aoi):
            f1 = sum(a * airmass_absolute ** i for i, a in enumerate(A))
            f1 = 0. if f1 != f1 else max(0., f1)
            return f1 * (poa_direct * RI.sapm(aoi, B) + fd * poa_diffuse)
        lattice(ctx, f'sapm_effective_irradiance FD={fd}', lambda **k: ps.sapm_effective_irradiance(**k, module=m), ref,
                dict(poa_direct=[0, 300, 900], poa_diffuse=[0, 120], airmass_absolute=[.8, 1.5, 5, 40], aoi=[0, 30, 60, 85, 95]),
                forms=F, nan=['poa_direct', 'poa_diffuse', 'aoi'])
        r = ps.sapm_effective_irradiance(500., 100., nan, 20., m)
        ctx.state(('nan airmass', fd))
        ctx.close(r, 0., 'sapm_effective_irradiance without sun')


@case(CASES)
def adr(ctx):
    def ref(effective_irradiance, temp_cell, k_a, k_d, tc_d, k_rs, k_rsh):
        s = effective_irradiance / 1000
        v = math.log(s / 10 ** (k_d + (temp_cell - 25) * tc_d) + 1) / math.log(1 / 10 ** k_d + 1)
        return k_a * ((1 + k_rs + k_rsh) * v - k_rs * s - k_rsh * v * v)
    ax = dict(grid(ctx), k_a=[100, .2], k_d=[-6, -3.5], tc_d=[0, .02], k_rs=[0, .06], k_rsh=[0, .2])
    lattice(ctx, 'pvefficiency_adr', pvarray.pvefficiency_adr, ref, ax, forms=('array', 'int', 'mixed', 'len1', 'scalar'),
            rtol=1e-9, atol=1e-12, scalar_max=300)
    par = dict(k_a=100., k_d=-6., tc_d=.02, k_rs=.05, k_rsh=.1)
    lattice(ctx, 'pvefficiency_adr series', lambda **k: pvarray.pvefficiency_adr(**k, **par), lambda **k: ref(**k, **par), grid(ctx),
            forms=F, rtol=1e-9, atol=1e-12)
    ctx.close(pvarray.pvefficiency_adr(1000, 25, **par), 100., 'adr reference')
    # one parameter set per element, in any container
    rows = [dict(k_a=100., k_d=-6., tc_d=.02, k_rs=.05, k_rsh=.1), dict(k_a=.2, k_d=-7., tc_d=.01, k_rs=.02, k_rsh=.2), dict(k_a=1., k_d=-5., tc_d=-.02, k_rs=.1, k_rsh=.0)]
    gs, ts = [200., 800., 1000.], [10., 45., 25.]
    e = [ref(g, t, **r) for g, t, r in zip(gs, ts, rows)]
    for conv in (list, tuple, np.array, pd.Series):
        ctx.state(conv.__name__)
        ctx.step()
        cols = {k: conv([r[k] for r in rows]) for k in rows[0]}
        ctx.close(np.asarray(pvarray.pvefficiency_adr(conv(gs), conv(ts), **cols)), e, f'adr parameters as {conv.__name__}')
        ctx.close(np.asarray(pvarray.pvefficiency_adr(1000., 40., **cols)), [ref(1000., 40., **r) for r in rows], f'adr parameters as {conv.__name__}, one condition')
    ctx.close(pvarray.pvefficiency_adr([0., 1000.], 25, **par), [0., 100.], 'adr list')


HULD = {'pvgis5': {'csi': (-0.017237, -0.040465, -0.004702, 0.000149, 0.000170, 0.000005),
                   'cis': (-0.005554, -0.038724, -0.003723, -0.000905, -0.001256, 0.000001),
                   'cdte': (-0.046689, -0.072844, -0.002262, 0.000276, 0.000159, -0.000006)},
        'pvgis6': {'csi': (-0.0067560, -0.016444, -0.003015, -0.000045, -0.000043, 0.0),
                   'cis': (-0.011001, -0.029734, -0.002887, 0.000217, -0.000163, 0.0),
                   'cdte': (-0.020644, -0.035136, -0.003406, 0.000073, -0.000141, 0.000002)}}


@case(CASES)
def huld(ctx):
    def eq(g, t, p, k):
        if not g > 0:
            return 0. * t
        g, t = g / 1000, t - 25
        ln = math.log(g)
        return g * (p + k[0] * ln + k[1] * ln ** 2 + k[2] * t + k[3] * t * ln + k[4] * t * ln ** 2 + k[5] * t * t)
    for pdc0 in (1., 250):
        for kw, kk in [(dict(cell_type=c), [x * pdc0 for x in HULD['pvgis5'][c.lower()]]) for c in ('cSi', 'CIS', 'CdTe', 'csi', 'CDTE')] + \
                [(dict(cell_type=c, k_version=v), [x * pdc0 for x in HULD[v.lower()][c.lower()]])
                 for c in ('cSi', 'CIS', 'CdTe') for v in ('pvgis5', 'pvgis6', 'PVGIS6')] + \
                [(dict(k=(-4., -10., -1.2, .03, .04, .001)), (-4., -10., -1.2, .03, .04, .001)),
                 (dict(k=(-4., -10., -1.2, .03, .04, .001), cell_type='cis'), (-4., -10., -1.2, .03, .04, .001))]:
            ax = dict(effective_irradiance=grid(ctx)['effective_irradiance'], temp_mod=grid(ctx)['temp_cell'])
            lattice(ctx, f'huld {pdc0} {kw}', lambda **k: pvarray.huld(**k, pdc0=pdc0, **kw),
                    lambda effective_irradiance, temp_mod: eq(effective_irradiance, temp_mod, pdc0, kk), ax, forms=F, atol=1e-9)
            ctx.close(pvarray.huld(1000., 25., pdc0, **kw), pdc0, f'huld reference {kw}')
    ctx.raises(ValueError, lambda: pvarray.huld(1000., 25., 100.), 'huld without coefficients')
    ctx.raises(ValueError, lambda: pvarray.huld(1000., 25., 100., cell_type='csi', k_version='pvgis7'), 'huld unknown version')
    ctx.raises(KeyError, lambda: pvarray.huld(1000., 25., 100., cell_type='gaas'), 'huld unknown cell')
    ctx.state(n=3)


LOSS = dict(soiling=2, shading=3, snow=0, mismatch=2, wiring=2, connections=.5, lid=1.5, nameplate_rating=1, age=0, availability=3)


@case(CASES)
def pvwatts_losses(ctx):
    """Every subset of the ten losses overridden, by value and by Series."""
    def ref(d):
        p = 1.
        for v in d.values():
            p = p * (1 - np.asarray(v, float) / 100)
        return 100 * (1 - p)
    names = list(LOSS)
    alt = dict(zip(names, [5, 0, 12.5, 7, 1, 0, 30, 100, 4, 50]))
    alt['nameplate_rating'] = -2
    for r in range(len(names) + 1):
        for sub in itertools.combinations(names, r):
            if not ctx.thorough and 3 < r < 8:
                continue
            d = dict(LOSS, **{n: alt[n] for n in sub})
            ctx.state(sub)
            ctx.step()
            ctx.close(ps.pvwatts_losses(**{n: alt[n] for n in sub}), ref(d), 'pvwatts_losses', rtol=1e-12, atol=1e-10, subset=sub)
    ctx.close(ps.pvwatts_losses(*list(alt.values())), ref(alt), 'pvwatts_losses positional', atol=1e-10)
    for n in names:
        for mk in (np.array, lambda v: pd.Series(v, index=dt_index(3))):
            x = mk([0., 10., 100.])
            keep = x.copy()
            ctx.state((n, type(x).__name__))
            r = ps.pvwatts_losses(**{n: x})
            ctx.step(3)
            ctx.close(np.asarray(r), ref(dict(LOSS, **{n: [0., 10., 100.]})), f'pvwatts_losses array {n}', atol=1e-10)
            ctx.expect(same_value(x, keep), f'pvwatts_losses changed {n}')
            if isinstance(x, pd.Series):
                ctx.expect(isinstance(r, pd.Series) and r.index.equals(x.index), f'pvwatts_losses index {n}')
    ctx.close(ps.pvwatts_losses(**{n: 0 for n in names}), 0., 'pvwatts_losses none', atol=1e-12)


@case(CASES)
def ohmic(ctx):
    ax = dict(vmp_ref=[30, 41.5], imp_ref=[4, 9.2], dc_ohmic_percent=[0, 1.5, 3], modules_per_string=[1, 12], strings=[1, 7])
    lattice(ctx, 'dc_ohms_from_percent', ps.dc_ohms_from_percent,
            lambda vmp_ref, imp_ref, dc_ohmic_percent, modules_per_string, strings:
            dc_ohmic_percent / 100 * modules_per_string * vmp_ref / (strings * imp_ref), ax, forms=('scalar', 'array', 'int'))
    ctx.close(ps.dc_ohms_from_percent(40., 8., 2.), .1, 'dc_ohms defaults')
    ctx.close(ps.dc_ohms_from_percent(40., 8., 2., 10), 1., 'dc_ohms one string')
    lattice(ctx, 'dc_ohmic_losses', ps.dc_ohmic_losses, lambda resistance, current: resistance * current ** 2,
            dict(resistance=[0, .05, 2], current=[0, 3, 9.5]), forms=F)
    # the loss at the reference point is the stated percentage of the power
    for n, s in ((1, 1), (10, 3)):
        r = ps.dc_ohms_from_percent(40., 8., 2., n, s)
        ctx.close(ps.dc_ohmic_losses(r, 8. * s), .02 * 40 * n * 8 * s, f'ohmic percent {n} {s}')
        ctx.state((n, s))


@case(CASES)
def scaling(ctx):
    cols = ['i_sc', 'v_oc', 'i_mp', 'v_mp', 'p_mp', 'i_x', 'i_xx']
    data = pd.DataFrame(np.arange(1., 22.).reshape(3, 7) + .5, columns=cols, index=dt_index(3))
    fac = {c: ('v' if c[0] == 'v' else 'i' if c[0] == 'i' else 'p') for c in cols}
    subs = [tuple(cols), tuple(reversed(cols))] + [c for r in range(1, 7) for c in itertools.combinations(cols, r)]
    for sub in subs:
        for v, i in itertools.product((1, 2, 12.5, 0), (1, 3, 7)):
            d = data[list(sub)].copy()
            ctx.state((sub, v, i))
            ctx.step()
            r = ps.scale_voltage_current_power(d, voltage=v, current=i)
            ctx.expect(list(r.columns) == list(sub) and r.index.equals(d.index), 'scale columns', str(list(r.columns)))
            ctx.expect(d.equals(data[list(sub)]), 'scale changed its input')
            for c in sub:
                f = {'v': v, 'i': i, 'p': v * i}[fac[c]]
                ctx.close(r[c], data[c].to_numpy() * f, f'scale {c}', rtol=1e-12)
    r = ps.scale_voltage_current_power(data)
    ctx.expect(r.equals(data), 'scale default')


@case(CASES)
def combined_losses(ctx):
    """All combinations of up to three loss series on differing indexes and fill methods."""
    base = pd.date_range('2020-01-01', periods=6, freq='h', tz='Etc/GMT+7')
    srcs = {'full': pd.Series([0., .1, .2, .05, 1., .3], index=base),
            'sparse': pd.Series([.5, .1], index=base[[1, 4]]),
            'outside': pd.Series([.25, .4], index=base[[0, 5]] + pd.Timedelta('-10min')),
            'late': pd.Series([.3], index=base[[3]] + pd.Timedelta('10min')),
            'zero': pd.Series([0.], index=base[[0]]),
            'gap': pd.Series([.2, nan, .1], index=base[[0, 2, 4]])}

    def fill(s, t, how):
        ts, vs = list(s.index), list(s)
        if how == 'ffill':
            c = [v for a, v in zip(ts, vs) if a <= t]
            return c[-1] if c else nan
        if how == 'bfill':
            c = [v for a, v in zip(ts, vs) if a >= t]
            return c[0] if c else nan
        k = min(range(len(ts)), key=lambda i: (abs(ts[i] - t), -i))
        return vs[k]
    targets = {'base': base, 'half': base[:-1] + pd.Timedelta('25min'), 'one': base[2:3]}
    for r in (1, 2, 3):
        for names in itertools.product(srcs, repeat=r):
            if r == 3 and not ctx.thorough and len(set(names)) != 3:
                continue
            for tn, tgt in targets.items():
                for how in (None, 'ffill', 'bfill', 'nearest'):
                    ctx.state((names, tn, how))
                    ctx.step()
                    kw = {} if how is None else dict(fill_method=how)
                    got = ps.combine_loss_factors(tgt, *[srcs[n] for n in names], **kw)
                    exp = [1 - np.prod([1 - fill(srcs[n], t, how or 'ffill') for n in names]) for t in tgt]
                    ctx.close(got, exp, f'combine_loss_factors {how}', rtol=1e-12, atol=1e-12, names=names, target=tn)
                    ctx.expect(isinstance(got, pd.Series) and got.index.equals(tgt), 'combine index')
    ctx.expect(srcs['full'].tolist() == [0., .1, .2, .05, 1., .3], 'combine changed an input')


@case(CASES)
def mismatch(ctx):
    P = np.polynomial.Polynomial
    for coef, kw in itertools.product([None, (0, .142, 3.2), (.1, 0, 0, 2.), [.05, .2], 'poly', 'domain'], [
            {}, dict(fill_factor=.65), dict(fill_factor=.65, fill_factor_reference=.8), dict(fill_factor_reference=.8)]):
        c = (0, .142, 3.2) if coef is None else (0., .3, 1.5) if coef in ('poly', 'domain') else coef
        a = dict(kw)
        if coef is not None:
            a['coefficients'] = P(c) if coef in ('poly', 'domain') else coef
        f = kw['fill_factor'] / kw.get('fill_factor_reference', .79) if 'fill_factor' in kw else 1.

        def ref(rmad):
            return f * sum(k * rmad ** i for i, k in enumerate(c))
        lattice(ctx, f'power_mismatch_deline {coef} {kw}', lambda rmad: loss_models.power_mismatch_deline(rmad, **a), ref,
                dict(rmad=[0, .01, .05, .1, .5, 1]), forms=('array', 'series', 'scalar', 'len1', 'int'))
    x = pd.Series([.1, .2], index=[5, 9])
    r = loss_models.power_mismatch_deline(x)
    ctx.expect(isinstance(r, pd.Series) and list(r.index) == [5, 9], 'mismatch index')
    ctx.close(loss_models.power_mismatch_deline([.1, .2]), [.142 * .1 + 3.2 * .01, .142 * .2 + 3.2 * .04], 'mismatch list')
