"""Lattice of irradiance x temperature x module parameters x input form for the
parameter translations (De Soto, CEC, PVsyst) and the explicit model built on
them; oracle: scalar forms of the published equations."""
import itertools
import math

import numpy as np
import pandas as pd
from scipy.special import lambertw

from mc.core import case, lattice, quiet, dt_index
from pvlib import pvsystem as ps, pvarray, singlediode as sd

CASES = []
inf, nan = math.inf, math.nan
K_EV = 1.380649e-23 / 1.602176634e-19
F = ('array', 'series', 'scalar', 'int', 'mixed', 'len1')
NAMES = ['0', '1', '2', '3', '4']


def desoto(g, t, alpha, a_ref, il, io, rsh, rs, eg=1.121, deg=-0.0002677, gref=1000., tref=25.):
    tk, rk = t + 273.15, tref + 273.15
    e = eg * (1 + deg * (tk - rk))
    return dict(zip(NAMES, (g / gref * (il + alpha * (tk - rk)), io * (tk / rk) ** 3 * math.exp((eg / rk - e / tk) / K_EV), rs,
                            rsh * gref / g if g else inf, a_ref * tk / rk)))


def pvsyst(g, t, alpha, gam, mu, il, io, rsh, rsh0, rs, n, ex=5.5, eg=1.121, gref=1000., tref=25.):
    tk, rk = t + 273.15, tref + 273.15
    gm = gam + mu * (t - tref)
    base = max(0., (rsh - rsh0 * math.exp(-ex)) / (1 - math.exp(-ex)))
    return dict(zip(NAMES, (g / gref * (il + alpha * (tk - rk)),
                            io * (tk / rk) ** 3 * math.exp(eg / (K_EV * gm) * (1 / rk - 1 / tk)), rs,
                            base + (rsh0 - base) * math.exp(-ex * g / gref), gm * K_EV * n * tk)))


G = [0, 1e-3, 50, 200, 999.5, 1000, 1100, 1400]
T = [-60, -40, 0, 24.5, 25, 60, 90]
DS = dict(alpha_sc=.0045, a_ref=1.8, I_L_ref=9.2, I_o_ref=3e-10, R_sh_ref=300., R_s=.35)
PV = dict(alpha_sc=.0045, gamma_ref=1.05, mu_gamma=-.0003, I_L_ref=9.2, I_o_ref=3e-10, R_sh_ref=300., R_sh_0=1000., R_s=.35,
          cells_in_series=60)


def grid(ctx):
    if ctx.thorough:
        return dict(effective_irradiance=sorted(set(G + list(range(0, 1500, 25)))), temp_cell=sorted(set(T + list(range(-40, 100, 5)))))
    return dict(effective_irradiance=G, temp_cell=T)


def tup(fn, kw):
    def f(**k):
        return tuple(fn(**k, **kw))
    return f


def nan_rows(ctx, name, fn, kw):
    """A missing irradiance or temperature leaves what depends on it missing, other rows intact."""
    idx = dt_index(3)
    for g, t, dep in (([800., nan, 0.], [25., 25., 25.], (0, 3)), ([800., 700., 0.], [25., nan, 25.], (0, 1, 4))):
        for mk in (np.array, lambda v: pd.Series(v, index=idx)):
            r = quiet(fn, mk(g), mk(t), **kw)
            ctx.state((name, 'nan', dep))
            ctx.step(3)
            for j in range(5):
                v = np.asarray(r[j], float)
                if j in dep:
                    ctx.expect(np.isnan(v[1]), f'{name} missing {j}', repr(v))
                ctx.expect(not np.isnan(v[0]) and not np.isnan(v[2]), f'{name} others {j}', repr(v))


def containers(ctx, name, fn, kw, ref):
    """Scalars stay scalars; arrays broadcast; a Series input gives unnamed Series with its index."""
    idx = dt_index(2)
    g, t = [0., 640.], [12., 48.]
    forms = dict(s=lambda v: v[1], a=np.array, p=lambda v: pd.Series(v, index=idx, name='x'), i=lambda v: np.array(v).astype(int))
    for x, y in itertools.product(forms, repeat=2):
        r = quiet(fn, forms[x](g), forms[y](t), **kw)
        ctx.state((name, x, y))
        ctx.step()
        ctx.expect(len(r) == 5, f'{name} length')
        for j, v in enumerate(r):
            gg = [g[1]] * 2 if x == 's' else g
            tt = [t[1]] * 2 if y == 's' else t
            e = [ref(gg[q], tt[q])[NAMES[j]] for q in (0, 1)]
            if x == 's' and y == 's':
                ctx.expect(np.isscalar(v), f'{name} scalar output {j}', repr(v))
                ctx.close(v, e[1], f'{name} scalar value {j}')
                continue
            ctx.close(np.asarray(v, float), e, f'{name} {x}{y} value {j}')
            if 'p' in (x, y):
                ctx.expect(isinstance(v, pd.Series) and v.index.equals(idx) and v.name is None, f'{name} {x}{y} series {j}', repr(v))
            else:
                ctx.expect(isinstance(v, np.ndarray), f'{name} {x}{y} array {j}', repr(type(v)))


@case(CASES)
def de_soto(ctx):
    for extra in ({}, dict(EgRef=1.475, dEgdT=-.0003), dict(irrad_ref=800, temp_ref=20), dict(EgRef=1.3, dEgdT=0.), dict(temp_ref=0), dict(temp_ref=-10.)):
        kw = dict(DS, **extra)
        cfg = (extra.get('EgRef', 1.121), extra.get('dEgdT', -0.0002677), extra.get('irrad_ref', 1000.), extra.get('temp_ref', 25.))

        def ref(effective_irradiance, temp_cell):
            return desoto(effective_irradiance, temp_cell, *DS.values(), *cfg)
        lattice(ctx, f'calcparams_desoto {sorted(extra)}', tup(ps.calcparams_desoto, kw), ref, grid(ctx), forms=F, nan=False,
                rtol=1e-9, atol=0)
        r = ps.calcparams_desoto(cfg[2], cfg[3], **kw)
        ctx.close(r, [DS['I_L_ref'], DS['I_o_ref'], DS['R_s'], DS['R_sh_ref'], DS['a_ref']], f'desoto reference {sorted(extra)}', rtol=1e-12)
        ctx.step()
        if not extra:
            containers(ctx, 'desoto', ps.calcparams_desoto, kw, lambda g, t: ref(g, t))
            nan_rows(ctx, 'desoto', ps.calcparams_desoto, kw)
    # module parameters on the lattice, one irradiance and temperature
    ax = dict(alpha_sc=[-.001, 0, .006], a_ref=[.9, 1.8], I_L_ref=[4, 9.2], I_o_ref=[1e-12, 1e-7], R_sh_ref=[50, 300], R_s=[0, .35])
    for g, t in ((0., 10.), (640., 47.)):
        lattice(ctx, f'desoto parameters at {g}', lambda **k: tuple(ps.calcparams_desoto(g, t, **k)),
                lambda **k: desoto(g, t, *k.values()), ax, forms=('scalar',), nan=False, rtol=1e-9, atol=0)


@case(CASES)
def cec(ctx):
    for adj in (-10., 0., 8., 25):
        for extra in ({}, dict(EgRef=1.2, dEgdT=-.0004, irrad_ref=900, temp_ref=30), dict(temp_ref=0), dict(dEgdT=0)):
            kw = dict(DS, Adjust=adj, **extra)
            cfg = (extra.get('EgRef', 1.121), extra.get('dEgdT', -0.0002677), extra.get('irrad_ref', 1000.), extra.get('temp_ref', 25.))

            def ref(effective_irradiance, temp_cell):
                return desoto(effective_irradiance, temp_cell, DS['alpha_sc'] * (1 - adj / 100), *list(DS.values())[1:], *cfg)
            lattice(ctx, f'calcparams_cec {adj} {sorted(extra)}', tup(ps.calcparams_cec, kw), ref, grid(ctx), forms=F, nan=False, atol=0)
            if not extra and adj == 8.:
                containers(ctx, 'cec', ps.calcparams_cec, kw, lambda g, t: ref(g, t))
                nan_rows(ctx, 'cec', ps.calcparams_cec, kw)


@case(CASES)
def pvsyst_params(ctx):
    for extra in ({}, dict(R_sh_exp=3.), dict(EgRef=1.4), dict(irrad_ref=800, temp_ref=20), dict(temp_ref=0), dict(R_sh_ref=2., R_sh_0=2000.),
                  dict(mu_gamma=.001, cells_in_series=72), dict(R_sh_ref=1000., R_sh_0=1000.), dict(R_sh_ref=400., R_sh_0=100.)):
        kw = dict(PV, **extra)
        base = [kw[k] for k in PV]
        cfg = (kw.get('R_sh_exp', 5.5), kw.get('EgRef', 1.121), kw.get('irrad_ref', 1000.), kw.get('temp_ref', 25.))

        def ref(effective_irradiance, temp_cell):
            return pvsyst(effective_irradiance, temp_cell, *base, *cfg)
        lattice(ctx, f'calcparams_pvsyst {sorted(extra)}', tup(ps.calcparams_pvsyst, kw), ref, grid(ctx), forms=F, nan=False, atol=0)
        r = ps.calcparams_pvsyst(cfg[2], cfg[3], **kw)
        ctx.close(r[:3], [kw['I_L_ref'], kw['I_o_ref'], kw['R_s']], f'pvsyst reference {sorted(extra)}', rtol=1e-12)
        if kw['R_sh_ref'] > 10:
            ctx.close(r[3], kw['R_sh_ref'], f'pvsyst shunt at reference {sorted(extra)}', rtol=1e-9)
        ctx.close(ps.calcparams_pvsyst(0., 25., **kw)[3], kw['R_sh_0'], f'pvsyst dark shunt {sorted(extra)}', rtol=1e-12)
        ctx.step(2)
        if not extra:
            containers(ctx, 'pvsyst', ps.calcparams_pvsyst, kw, lambda g, t: ref(g, t))
            nan_rows(ctx, 'pvsyst', ps.calcparams_pvsyst, kw)


@case(CASES)
def database(ctx):
    """Every entry of the bundled CEC modules that is installed: reference conditions reproduce the entry."""
    try:
        db = ps.retrieve_sam('CECMod')
    except FileNotFoundError:
        db = None
    names = list(db)[::ctx.pick(400, 40)] if db is not None else []
    for n in names:
        m = db[n]
        r = ps.calcparams_cec(1000., 25., m['alpha_sc'], m['a_ref'], m['I_L_ref'], m['I_o_ref'], m['R_sh_ref'], m['R_s'], m['Adjust'])
        ctx.state(n)
        ctx.step()
        ctx.close(r, [m['I_L_ref'], m['I_o_ref'], m['R_s'], m['R_sh_ref'], m['a_ref']], f'cec database {n}', rtol=1e-12)
    ctx.state('database looked up')


BZ = dict(v_mp=42.57, i_mp=15.27, v_oc=50.26, i_sc=15.98, alpha_sc=.007351, beta_voc=-.120624)
BZ2 = dict(v_mp=30.1, i_mp=8.3, v_oc=38.0, i_sc=8.9, alpha_sc=.0045, beta_voc=-.11)


def batz(g, t, v_mp, i_mp, v_oc, i_sc, alpha_sc, beta_voc):
    al, be = alpha_sc / i_sc, beta_voc / v_oc
    t0 = 298.15
    dt, lam, g = t - 25., (t + 273.15) / t0, g / 1000.
    d0 = (1 - be * t0) / (50.1 - al * t0)
    w0 = lambertw(math.exp(1 / d0 + 1)).real
    aimp = al + (be - 1 / t0) / (w0 - 1)
    bvmp = v_oc / v_mp * (be / (1 + d0) + (d0 * (w0 - 1) - 1 / (1 + d0)) / t0)
    e0 = d0 / (1 + d0) * v_oc / v_mp
    e1 = d0 * (w0 - 1) * v_oc / v_mp - 1
    isc = g * i_sc * (1 + al * dt)
    imp = g * i_mp * (1 + aimp * dt)
    ln = math.log(g) if g > 0 else -inf
    voc = max(0., v_oc * (1 + d0 * lam * ln + be * dt))
    vmp = max(0., v_mp * (1 + e0 * lam * ln + e1 * (1 - g) + bvmp * dt))
    return dict(p_mp=vmp * imp, i_mp=imp, v_mp=vmp, i_sc=isc, v_oc=voc)


@case(CASES)
def batzelis_array(ctx):
    for nm, kw in (('a', BZ), ('b', BZ2)):
        ax = grid(ctx)
        ax['effective_irradiance'] = sorted(set(ax['effective_irradiance']) | {1e-10})
        lattice(ctx, f'pvarray.batzelis {nm}', lambda **k: pvarray.batzelis(**k, **kw),
                lambda effective_irradiance, temp_cell: batz(effective_irradiance, temp_cell, **kw), ax, forms=F, nan=True, atol=1e-9)
        r = pvarray.batzelis(1000., 25., **kw)
        ctx.close([r[k] for k in ('v_mp', 'i_mp', 'v_oc', 'i_sc')], [kw[k] for k in ('v_mp', 'i_mp', 'v_oc', 'i_sc')], f'batzelis reference {nm}')
        g, t = np.meshgrid(ax['effective_irradiance'], ax['temp_cell'])
        r = quiet(pvarray.batzelis, g.ravel(), t.ravel(), **kw)
        ctx.step(g.size)
        eps = 1e-9
        ctx.expect(bool((r['v_mp'] <= r['v_oc'] + eps).all() and (r['v_mp'] >= 0).all()), f'batzelis voltage order {nm}')
        ctx.expect(bool((r['i_mp'] <= r['i_sc'] + eps).all() and (r['i_mp'] >= 0).all()), f'batzelis current order {nm}')
        ctx.close(r['p_mp'], r['v_mp'] * r['i_mp'], f'batzelis power {nm}')
        r = quiet(pvarray.batzelis, 700., pd.Series([10., 40.], index=dt_index(2)), **kw)
        ctx.expect(isinstance(r, pd.DataFrame) and r.index.equals(dt_index(2)), f'batzelis frame {nm}')
        r = quiet(pvarray.batzelis, pd.Series([0., 400.], index=dt_index(2)), 30., **kw)
        ctx.expect(isinstance(r, pd.DataFrame) and r.index.equals(dt_index(2)), f'batzelis frame2 {nm}')


def batz_sd(IL, I0, Rs, Rsh, a):
    if not IL > 0:
        return dict(p_mp=0., i_mp=0., v_mp=0., i_sc=0., v_oc=0.)
    w = lambertw(math.e * IL / I0).real
    imp = IL * (1 - 1 / w) - a * (w - 1) / Rsh
    vmp = a * (w - 1) - Rs * imp
    return dict(p_mp=imp * vmp, i_mp=imp, v_mp=vmp, i_sc=IL / (Rs / Rsh + 1), v_oc=a * math.log(IL / I0))


@case(CASES)
def batzelis_singlediode(ctx):
    ax = dict(photocurrent=ctx.pick([0, .05, 1, 8.7], [0, 1e-3, .05, .5, 1, 4, 8.7, 15]), saturation_current=[1e-12, 1e-7],
              resistance_series=[0, .3], resistance_shunt=[50, 400, inf], nNsVth=[.9, 1.7, 3])

    def ref(**k):
        return batz_sd(*[float(k[n]) for n in ax])
    lattice(ctx, 'singlediode.batzelis', sd.batzelis, ref, ax, forms=F, nan=False, rtol=1e-7, atol=1e-9)
    for pos in range(5):
        args = [np.array([8.7, 8.7]), 1e-9, .3, 400., 1.7]
        args[pos] = pd.Series(np.broadcast_to(args[pos], 2).copy(), index=dt_index(2))
        r = sd.batzelis(*args)
        ctx.state(('frame', pos))
        ctx.step()
        ctx.expect(isinstance(r, pd.DataFrame) and r.index.equals(dt_index(2)), f'singlediode.batzelis frame {pos}')
    # close to the exact solution where the approximation is documented to hold
    for il in (2., 5., 9.):
        e = ps.singlediode(il, 1e-9, .3, 400., 1.7)
        r = sd.batzelis(il, 1e-9, .3, 400., 1.7)
        for k in r:
            ctx.close(float(r[k]), e[k], f'singlediode.batzelis accuracy {k}', rtol=.02)
