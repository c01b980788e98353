"""Lattice irradiance x air temperature x wind x parameters x input form for
every steady-state temperature model, all use/to conversion histories of the
generic linear model; oracle: scalar heat balance and an abstract state."""
import itertools
import math

import numpy as np
import pandas as pd

from mc.core import case, lattice, quiet, dt_index
from pvlib import temperature as T

CASES = []
nan = math.nan
F = ('array', 'series', 'scalar', 'int', 'mixed', 'len1', 'array2d')
SB = 5.670374419e-08
G = [0, 1, 0.5, -4, 200, 800, 1000, 1361.7]
GT = [0, 1, 0.5, 50, 123.4, 200, 400, 650, 800, 1000, 1111, 1361.7, -4]
TA = [-40.5, -10, 0, 20, 48.25]
TT = [-60.25, -40.5, -20, -10, 0, 5, 10.5, 20, 25, 30, 48.25, 55]
W = [0, 1, 0.25, 5.4, 20]
WT = [0, 1, 0.25, 1.4, 2, 3.3, 5.4, 8, 12.5, 20, 40]


def axes(ctx, wind=True):
    a = dict(poa_global=ctx.pick(G, GT), temp_air=ctx.pick(TA, TT))
    if wind:
        a['wind_speed'] = ctx.pick(W, WT)
    return a


def physical(ctx, name, fn, dark=True):
    """Invariants: dark cell at air temperature, monotone in sun and wind."""
    g, t, w = ctx.pick(G, GT), ctx.pick(TA, TT), ctx.pick(W, WT)
    g = sorted(x for x in g if x >= 0)
    w = sorted(w)
    cube = np.array([[[quiet(fn, gg, tt, ww) for ww in w] for gg in g] for tt in t], dtype=float)
    ctx.step(cube.size)
    if dark:
        ctx.close(cube[:, 0, :], np.repeat(np.array(t, dtype=float)[:, None], len(w), 1), f'{name} dark')
    ctx.expect(bool((np.diff(cube, axis=1) > 0).all()), f'{name} does not rise with irradiance')
    d = np.diff(cube[:, 1:, :], axis=2)
    ctx.expect(bool((d <= 1e-12).all()), f'{name} does not fall with wind')


SAPM = {'open_rack_glass_glass': (-3.47, -.0594, 3), 'close_mount_glass_glass': (-2.98, -.0471, 1),
        'open_rack_glass_polymer': (-3.56, -.0750, 3), 'insulated_back_glass_polymer': (-2.81, -.0455, 0)}
PVSYST = {'freestanding': (29.0, 0), 'insulated': (15.0, 0), 'semi_integrated': (20.0, 0)}


@case(CASES)
def parameter_sets(ctx):
    P = T.TEMPERATURE_MODEL_PARAMETERS
    for k, v in SAPM.items():
        ctx.state(('sapm', k))
        ctx.step()
        p = P['sapm'][k]
        ctx.expect((p['a'], p['b'], p['deltaT']) == v, f'sapm set {k}')
    for k, v in PVSYST.items():
        ctx.state(('pvsyst', k))
        ctx.step()
        if k in P['pvsyst']:
            p = P['pvsyst'][k]
            ctx.expect((p['u_c'], p['u_v']) == v, f'pvsyst set {k}')


@case(CASES)
def sapm(ctx):
    for a, b, dt in list(SAPM.values()) + [(-3, 0., 2.5)]:
        mod = lambda poa_global, temp_air, wind_speed: poa_global * math.exp(a + b * wind_speed) + temp_air   # noqa
        for ref_i in (1000., 800):
            lattice(ctx, f'sapm_cell {a} {ref_i}', lambda **k: T.sapm_cell(**k, a=a, b=b, deltaT=dt, irrad_ref=ref_i),
                    lambda **k: mod(**k) + k['poa_global'] / ref_i * dt, axes(ctx), forms=F if ref_i == 800 else ('array',))
        lattice(ctx, f'sapm_cell {a}', lambda **k: T.sapm_cell(**k, a=a, b=b, deltaT=dt), lambda **k: mod(**k) + k['poa_global'] / 1000 * dt,
                axes(ctx), forms=F)
        lattice(ctx, f'sapm_module {a}', lambda **k: T.sapm_module(**k, a=a, b=b), mod, axes(ctx), forms=F)
        physical(ctx, f'sapm_module {a}', lambda g, t, w: T.sapm_module(g, t, w, a, b))
        physical(ctx, f'sapm_cell {a}', lambda g, t, w: T.sapm_cell(g, t, w, a, b, dt))
    lattice(ctx, 'cell_from_module', lambda **k: T.sapm_cell_from_module(**k),
            lambda module_temperature, poa_global, deltaT: module_temperature + poa_global / 1000 * deltaT,
            dict(module_temperature=TA, poa_global=G, deltaT=[0, 3, 1.5]), forms=F)
    lattice(ctx, 'cell_from_module ref', lambda **k: T.sapm_cell_from_module(**k),
            lambda module_temperature, poa_global, deltaT, irrad_ref: module_temperature + poa_global / irrad_ref * deltaT,
            dict(module_temperature=TA, poa_global=G, deltaT=[0, 3], irrad_ref=[1000, 900.5]), forms=F)


@case(CASES)
def pvsyst(ctx):
    lattice(ctx, 'pvsyst defaults', T.pvsyst_cell, lambda poa_global, temp_air: temp_air + .9 * poa_global * .9 / 29,
            axes(ctx, False), forms=F)
    for uc, uv, eta, al in itertools.product((29., 15, 20), (0, 6.5, 1), (.1, 0, .21), (.9, 1)):
        lattice(ctx, f'pvsyst {uc} {uv} {eta} {al}',
                lambda **k: T.pvsyst_cell(**k, u_c=uc, u_v=uv, module_efficiency=eta, alpha_absorption=al),
                lambda poa_global, temp_air, wind_speed: temp_air + al * poa_global * (1 - eta) / (uc + uv * wind_speed),
                axes(ctx), forms=F if (uc, al) == (15, 1) else ('array', 'series'))
    lattice(ctx, 'pvsyst arrays', T.pvsyst_cell,
            lambda poa_global, temp_air, u_c, u_v, module_efficiency: temp_air + .9 * poa_global * (1 - module_efficiency) / (u_c + u_v),
            dict(poa_global=[0, 500, 1000.5], temp_air=[0, 20.5], u_c=[29, 15], u_v=[0, 2.5], module_efficiency=[0, .2]), forms=F)
    physical(ctx, 'pvsyst', lambda g, t, w: T.pvsyst_cell(g, t, w, u_v=2.))


@case(CASES)
def faiman(ctx):
    lattice(ctx, 'faiman defaults', T.faiman, lambda poa_global, temp_air: temp_air + poa_global / (25 + 6.84), axes(ctx, False), forms=F)
    for u0, u1 in ((25., 6.84), (30, 0), (18, 5)):
        lattice(ctx, f'faiman {u0}', lambda **k: T.faiman(**k, u0=u0, u1=u1),
                lambda poa_global, temp_air, wind_speed: temp_air + poa_global / (u0 + u1 * wind_speed), axes(ctx), forms=F)
    lattice(ctx, 'faiman coefficients', lambda **k: T.faiman(**k),
            lambda poa_global, temp_air, wind_speed, u0, u1: temp_air + poa_global / (u0 + u1 * wind_speed),
            dict(poa_global=[0, 700], temp_air=[-5.5, 20], wind_speed=[0, 3], u0=[25, 20.5], u1=[0, 6]), forms=F)
    physical(ctx, 'faiman', T.faiman)


@case(CASES)
def faiman_rad(ctx):
    def ref(u0=25., u1=6.84, svf=1., em=.88):
        def f(poa_global, temp_air, wind_speed, ir_down=None):
            q = 0 if ir_down is None else em * svf * (SB * (temp_air + 273.15) ** 4 - ir_down)
            return temp_air + (poa_global - q) / (u0 + u1 * wind_speed)
        return f
    lattice(ctx, 'rad none', T.faiman_rad, ref(), axes(ctx), forms=F, rtol=1e-9)
    ax = dict(axes(ctx), ir_down=ctx.pick([0, 200, 350.5], [0, 100, 200, 350.5, 500]))
    lattice(ctx, 'rad', T.faiman_rad, ref(), ax, forms=F, rtol=1e-8, atol=1e-8)
    for u0, u1, svf, em in itertools.product((25., 30), (6.84, 0), (1, .5, 0), (.88, 1, 0)):
        lattice(ctx, f'rad {u0} {u1} {svf} {em}', lambda **k: T.faiman_rad(**k, u0=u0, u1=u1, sky_view=svf, emissivity=em),
                ref(u0, u1, svf, em), ax, forms=('array', 'series'), rtol=1e-8, atol=1e-8)
    lattice(ctx, 'rad parameters', T.faiman_rad,
            lambda poa_global, temp_air, ir_down, u0, sky_view, emissivity: temp_air + (
                poa_global - emissivity * sky_view * (SB * (temp_air + 273.15) ** 4 - ir_down)) / (u0 + 6.84),
            dict(poa_global=[0, 800], temp_air=[-5, 25.5], ir_down=[250, 380.5], u0=[25, 18.5], sky_view=[0, .7, 1], emissivity=[0, .9]),
            forms=F, rtol=1e-8, atol=1e-8)
    # black-body sky at air temperature: no net exchange; clear cold sky cools below air
    for t in TA:
        bb = SB * (t + 273.15) ** 4
        ctx.step(2)
        ctx.close(T.faiman_rad(0, t, 1, bb), t, 'rad balance', atol=1e-6)
        ctx.expect(T.faiman_rad(0, t, 1, bb - 50) < t < T.faiman_rad(0, t, 1, bb + 50), 'rad sky exchange direction')
    physical(ctx, 'faiman_rad no ir', T.faiman_rad)
    g, w = sorted(x for x in G if x >= 0), 3
    r = np.array([T.faiman_rad(x, 20, w, 300) for x in g])
    ctx.expect(bool((np.diff(r) > 0).all()), 'rad rises with irradiance')


@case(CASES)
def ross(ctx):
    for noct in (45, 50.5, 20):
        lattice(ctx, f'ross noct {noct}', lambda **k: T.ross(**k, noct=noct),
                lambda poa_global, temp_air: temp_air + (noct - 20) / 80 * poa_global / 10, axes(ctx, False), forms=F)
    for k_ in (.03, 0, .0208):
        lattice(ctx, f'ross k {k_}', lambda **k: T.ross(**k, k=k_),
                lambda poa_global, temp_air: temp_air + k_ * poa_global, axes(ctx, False), forms=F)
    lattice(ctx, 'ross noct array', T.ross, lambda poa_global, temp_air, noct: temp_air + (noct - 20) / 800 * poa_global,
            dict(axes(ctx, False), noct=[45, 50.5]), forms=F)
    lattice(ctx, 'ross k array', T.ross, lambda poa_global, temp_air, k: temp_air + k * poa_global,
            dict(axes(ctx, False), k=[0, .03]), forms=F)
    for g in (0, 800., np.array([0, 800.]), pd.Series([0, 800.])):
        ctx.raises(ValueError, lambda: T.ross(g, 20), 'ross without parameter')
        for n, k in ((45, .03), (0, 0), (45, 0)):
            ctx.raises(ValueError, lambda: T.ross(g, 20, noct=n, k=k), 'ross with both parameters')
    physical(ctx, 'ross', lambda g, t, w: T.ross(g, t, noct=47))


def standoff(x):
    if x <= 0:
        return 0
    if x < .5:
        return 18
    if x < 1.5:
        return 11
    if x < 2.5:
        return 6
    return 2 if x <= 3.5 else 0


def noct_ref(noct, eta, ta=.9, h=1, so=4, ratio=False):
    def f(poa_global, temp_air, wind_speed, effective_irradiance=None):
        k = {1: .51, 2: .61}[h]
        adj = noct + standoff(so)
        heat = poa_global / 800 * (adj - 20)
        if effective_irradiance is None:
            e = eta / ta
        elif poa_global == 0:
            return temp_air if effective_irradiance == effective_irradiance and effective_irradiance >= 0 else nan
        else:
            e = eta * poa_global / (ta * effective_irradiance)
        return temp_air + heat * (1 - e) * 9.5 / (5.7 + 3.8 * k * wind_speed)
    return f


STAND = [-1, -0., 0, 1e-9, .25, .499999, .5, 1, 1.499999, 1.5, 2, 2.499999, 2.5, 3, 3.5, 3.500001, 4, 10]


@case(CASES)
def noct_sam(ctx):
    lattice(ctx, 'noct defaults', lambda **k: T.noct_sam(**k, noct=45, module_efficiency=.2), noct_ref(45, .2), axes(ctx), forms=F)
    for h, so in itertools.product((1, 2), STAND):
        lattice(ctx, f'noct {h} {so}', lambda **k: T.noct_sam(**k, noct=48.5, module_efficiency=.17, array_height=h, mount_standoff=so),
                noct_ref(48.5, .17, h=h, so=so), axes(ctx), forms=('array', 'scalar') if so in (.5, 0) else ('array', 'series'))
    for noct, eta, ta in itertools.product((45, 50.), (.2, 0), (.9, .8, 1)):
        lattice(ctx, f'noct ta {noct} {eta} {ta}',
                lambda **k: T.noct_sam(**k, noct=noct, module_efficiency=eta, transmittance_absorptance=ta),
                noct_ref(noct, eta, ta), axes(ctx), forms=('array', 'series', 'scalar'))
    # effective irradiance: never more than the plane-of-array irradiance x 1.1, zero only in the dark
    keep = lambda **k: (k['effective_irradiance'] > 0) or k['poa_global'] == 0    # noqa
    ax = dict(axes(ctx), effective_irradiance=[0, 1, 190.5, 780, 1000])
    for h, so in ((1, 4), (2, 1)):
        lattice(ctx, f'noct effective {h}', lambda **k: T.noct_sam(**k, noct=45, module_efficiency=.2, array_height=h, mount_standoff=so),
                noct_ref(45, .2, h=h, so=so), ax, forms=F, keep=keep)
    lattice(ctx, 'noct effective zero efficiency', lambda **k: T.noct_sam(**k, noct=45, module_efficiency=0.),
            noct_ref(45, 0.), ax, forms=('array', 'scalar'), keep=keep, nan=False)
    # the effective irradiance equal to the plane irradiance changes nothing
    g, t, w = (x.ravel() for x in np.meshgrid([x for x in GT if x >= 0], TA, W))
    ctx.close(quiet(T.noct_sam, g, t, w, 45, .2, effective_irradiance=g), T.noct_sam(g, t, w, 45, .2), 'noct full ratio')
    for h in (0, 3, 1.5, -1, None, 'x'):
        for g in (800., np.array([800.])):
            ctx.raises(ValueError, lambda: T.noct_sam(g, 20, 1, 45, .2, array_height=h), 'noct array height accepted')
    physical(ctx, 'noct', lambda g, t, w: T.noct_sam(g, t, w, 45, .2))
    physical(ctx, 'noct2', lambda g, t, w: T.noct_sam(g, t, w, 45, .2, effective_irradiance=g * .95, array_height=2))


@case(CASES)
def generic(ctx):
    for uc, dw, eta, ab in itertools.product((11.04, 20), (0, 5.52, 2), (0, .19), (.88, 1)):
        lattice(ctx, f'generic {uc} {dw} {eta} {ab}',
                lambda **k: T.generic_linear(**k, u_const=uc, du_wind=dw, module_efficiency=eta, absorptance=ab),
                lambda poa_global, temp_air, wind_speed: temp_air + poa_global * (ab - eta) / (uc + dw * wind_speed), axes(ctx),
                forms=F if (uc, ab) == (20, 1) else ('array',))
    lattice(ctx, 'generic arrays', lambda **k: T.generic_linear(**k, absorptance=.9),
            lambda poa_global, temp_air, wind_speed, u_const, du_wind, module_efficiency:
                temp_air + poa_global * (.9 - module_efficiency) / (u_const + du_wind * wind_speed),
            dict(poa_global=[0, 600], temp_air=[20, -3.5], wind_speed=[0, 4], u_const=[11, 20.5], du_wind=[0, 3], module_efficiency=[0, .2]),
            forms=F)
    physical(ctx, 'generic', lambda g, t, w: T.generic_linear(g, t, w, 11.04, 5.52, .19, .88))


# abstract state: (u_const, du_wind, eta, alpha)
def use(st, op, v, extra):
    uc, dw, eta, al = st
    if op == 'pvsyst' or op == 'noct_sam':
        e, a = extra
        eta = eta if e is None else e
        al = al if a is None else a
    na = al - eta
    if op == 'faiman':
        return v[0] * na, v[1] * na, eta, al
    if op == 'pvsyst':
        r = na / (al * (1 - eta))
        return v[0] * r, v[1] * r, eta, al
    if op == 'noct_sam':
        u = 800 * al / (v[0] - 20)
        return .6 * u, .4 * .51 * u, eta, al
    lo, hi = extra
    ul, uh = math.exp(-(v[0] + v[1] * lo)), math.exp(-(v[0] + v[1] * hi))
    d = (uh - ul) / (hi - lo)
    return (ul - d * lo) * na, d * na, eta, al


USES = [('faiman', (16., 8.), None), ('faiman', (25., 6.84), None),
        ('pvsyst', (29., 0.), (None, None)), ('pvsyst', (20., 3.), (.12, .9)), ('pvsyst', (15., 1.), (.1, None)), ('pvsyst', (15., 1.), (None, .93)),
        ('noct_sam', (45.,), (None, None)), ('noct_sam', (48.,), (.21, .91)), ('noct_sam', (47.,), (None, .9)),
        ('sapm', (-3.47, -.0594), (1.4, 5.4)), ('sapm', (-2.98, -.0471), (1., 8.))]
POINTS = [(0., 20., 1.), (800., 20., 1.), (1000., -5., 0.), (650., 33., 7.5)]


def build(m, op, v, extra):
    if op == 'faiman':
        return m.use_faiman(*v)
    if op == 'pvsyst':
        kw = {k: x for k, x in zip(('module_efficiency', 'alpha_absorption'), extra) if x is not None}
        return m.use_pvsyst(*v, **kw)
    if op == 'noct_sam':
        kw = {k: x for k, x in zip(('module_efficiency', 'transmittance_absorptance'), extra) if x is not None}
        return m.use_noct_sam(*v, **kw)
    return m.use_sapm(*v) if extra == (1.4, 5.4) else m.use_sapm(*v, *extra)


def observe(ctx, m, st, hist):
    """Every export and prediction of the object in the abstract state."""
    uc, dw, eta, al = st
    na = al - eta
    g = m.get_generic_linear()
    ctx.step(8)
    ctx.close([g['u_const'], g['du_wind'], g['module_efficiency'], g['absorptance']], [uc, dw, eta, al], 'state', rtol=1e-9, history=hist)
    ctx.expect(set(g) == {'u_const', 'du_wind', 'module_efficiency', 'absorptance'}, 'state keys')
    for p, ta, w in POINTS:
        exp = ta + p * na / (uc + dw * w)
        ctx.close(m(p, ta, w), exp, 'prediction', history=hist)
        ctx.close(T.generic_linear(p, ta, w, **g), exp, 'exported prediction', history=hist)
        ctx.close(m(p, ta, w, module_efficiency=.25), ta + p * (al - .25) / (uc + dw * w), 'prediction efficiency', history=hist)
        f = m.to_faiman()
        ctx.close(T.faiman(p, ta, w, **f), exp, 'faiman export', history=hist)
        v = m.to_pvsyst()
        ctx.close(T.pvsyst_cell(p, ta, w, **v), exp, 'pvsyst export', history=hist)
        n = m.to_noct_sam()
        # exact at the wind speed of 1 m/s that defines noct: u_noct = u_const + du_wind / 0.51
        u = uc + dw / .51
        ctx.close([n['noct'], n['module_efficiency'], n['transmittance_absorptance']], [20 + 800 * al / u, eta, al], 'noct export', history=hist)
        ctx.close(T.noct_sam(p, ta, 1 / .51, noct=n['noct'], module_efficiency=n['module_efficiency'],
                             transmittance_absorptance=n['transmittance_absorptance']),
                  ta + p * na / (uc + dw / .51), 'noct export prediction', history=hist)
        for lo, hi in ((1.4, 5.4), (1., 8.)):
            s = m.to_sapm() if (lo, hi) == (1.4, 5.4) else m.to_sapm(lo, hi)
            for ww in (lo, hi):
                ctx.close(T.sapm_module(p, ta, ww, **s), ta + p * na / (uc + dw * ww), 'sapm export', history=hist)
    ctx.close(m(np.array([0., 800.]), np.array([20., 20.]), np.array([1., 1.])), [20., 20 + 800 * na / (uc + dw)], 'prediction array')
    r = m(pd.Series([0., 800.], index=dt_index(2)), 20., 1.)
    ctx.expect(isinstance(r, pd.Series) and r.index.equals(dt_index(2)), 'prediction index')
    g2 = m.get_generic_linear()
    ctx.expect(g == g2, 'observation changed the state', history=hist)


TOS = ['to_faiman', 'to_pvsyst', 'to_noct_sam', 'to_sapm']


@case(CASES)
def histories(ctx):
    """All use histories up to the depth, observing after every operation."""
    depth = ctx.pick(2, 3)
    for eta, al in ((.19, .88), (.2, 1.)):
        for d in range(1, depth + 1):
            for seq in itertools.product(range(len(USES)), repeat=d):
                m = T.GenericLinearModel(module_efficiency=eta, absorptance=al)
                st = (nan, nan, eta, al)
                for i in seq:
                    st = use(st, *USES[i])
                    r = build(m, *USES[i])
                    ctx.expect(r is m, 'use returns itself')
                ctx.state((eta, seq))
                observe(ctx, m, st, [USES[i][0] for i in seq])


@case(CASES)
def conversions(ctx):
    """All conversion chains through parameter exports: every step exports to a
    model and re-imports it, also into a second object."""
    depth = ctx.pick(4, 6)
    starts = [USES[i] for i in (0, 2, 3, 6, 9)]
    for s in starts:
        for seq in itertools.product(range(4), repeat=depth):
            m = T.GenericLinearModel(.19, .88)
            build(m, *s)
            st = use((nan, nan, .19, .88), *s)
            for k, o in enumerate(seq):
                p = getattr(m, TOS[o])()
                eta, al = st[2:]
                tgt = m if k % 2 == 0 else T.GenericLinearModel(eta, al)
                if o == 0:
                    tgt.use_faiman(**p)
                elif o == 1:
                    tgt.use_pvsyst(**p)
                elif o == 2:
                    tgt.use_noct_sam(**p)
                    u = st[0] + st[1] / .51
                    st = (.6 * u, .4 * .51 * u, eta, al)
                else:
                    tgt.use_sapm(**p)
                m = tgt
                ctx.step()
            ctx.state((s[0], seq))
            g = m.get_generic_linear()
            ctx.close([g['u_const'], g['du_wind'], g['module_efficiency'], g['absorptance']], st, 'conversion chain', rtol=1e-8,
                      chain=[TOS[o] for o in seq], start=s)


@case(CASES)
def before_use(ctx):
    m = T.GenericLinearModel(.2, .9)
    ctx.state('fresh')
    ctx.step(2)
    ctx.expect(math.isnan(m(800., 20., 1.)), 'prediction without parameters')
    g = m.get_generic_linear()
    ctx.expect(math.isnan(g['u_const']) and math.isnan(g['du_wind']) and g['module_efficiency'] == .2 and g['absorptance'] == .9, 'fresh state')
    # two objects never share state
    a, b = T.GenericLinearModel(.19, .88), T.GenericLinearModel(.19, .88)
    a.use_faiman(16, 8)
    ctx.expect(math.isnan(b.get_generic_linear()['u_const']), 'objects share state')
    b.use_pvsyst(29, 0)
    ctx.close(a.to_faiman()['u0'], 16, 'objects share state 2')
