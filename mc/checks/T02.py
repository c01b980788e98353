"""Lattice of orientation x sun x irradiance x sky model x Perez set x albedo
or surface type x component request x input forms; oracle: scalar composition
of the transposition models, plus closure completion for each missing
component."""
import itertools
import math

import numpy as np
import pandas as pd

from mc.core import case, lattice, quiet, dt_index
from mc.ref import irr, irr_tables as T, atm
from mc.checks.G01 import SURF
from pvlib import irradiance as I

CASES = []
nan = math.nan
F = ('array', 'series', 'scalar', 'mixed', 'len1', 'array2d', 'int')
MODELS = ['isotropic', 'klucher', 'haydavies', 'reindl', 'king', 'perez', 'perez-driesse']
NEED = {'haydavies', 'reindl', 'perez', 'perez-driesse'}
COMP = {'isotropic': ['poa_isotropic'], 'haydavies': ['poa_isotropic', 'poa_circumsolar'],
        'reindl': ['poa_isotropic', 'poa_circumsolar', 'poa_horizon'], 'perez': ['poa_isotropic', 'poa_circumsolar', 'poa_horizon'],
        'perez-driesse': ['poa_isotropic', 'poa_circumsolar', 'poa_horizon']}


def sky(m, t, a, z, sa, dn, gh, dh, ex=None, am=None, ps='allsitescomposite1990'):
    if m == 'isotropic':
        return irr.isotropic(t, dh)
    if m == 'klucher':
        return dict(poa_sky_diffuse=irr.klucher(t, a, dh, gh, z, sa))
    if m == 'king':
        return dict(poa_sky_diffuse=irr.king(t, dh, gh, z))
    if m == 'haydavies':
        return irr.haydavies(t, a, dh, dn, ex, z, sa)
    if m == 'reindl':
        return irr.reindl(t, a, dh, dn, gh, ex, z, sa)
    if m == 'perez':
        return irr.perez(t, a, dh, dn, ex, z, sa, atm.relative_airmass(z) if am is None else am, ps)
    return irr.perez_driesse(t, a, dh, dn, ex, z, sa, am)


def total(m, t, a, z, sa, dn, gh, dh, ex, am, albedo, ps='allsitescomposite1990'):
    s = sky(m, t, a, z, sa, dn, gh, dh, ex, am, ps)
    g = irr.ground(t, gh, albedo)
    b = irr.nmax(dn * irr.projection(t, a, z, sa), 0)
    d = s['poa_sky_diffuse'] + g
    out = dict(poa_global=b + d, poa_direct=b, poa_diffuse=d, poa_ground_diffuse=g)
    out.update(s)
    return out


AX = dict(surface_tilt=[0, 30, 90], surface_azimuth=[120, 180], solar_zenith=[0, 45.5, 86, 89.5, 100], solar_azimuth=[100, 200],
          dni=[0, 200, 850], ghi=[50, 300, 900], dhi=[0, 40, 200])


def _model(m):
    def f(ctx):
        ax = dict(AX)
        if ctx.thorough:
            ax.update(surface_tilt=[0, 15, 30, 60, 90, 130, 180], solar_zenith=[0, 20, 45.5, 70, 80, 86, 89.5, 90, 100],
                      surface_azimuth=[0, 120, 180, 300])
        ex = dict(dni_extra=[1366.1]) if m in NEED else {}
        am = dict(airmass=[1.5, 12]) if m.startswith('perez') else {}
        for comps in (False, True):
            if comps and m not in COMP:
                continue

            def ref(surface_tilt, surface_azimuth, solar_zenith, solar_azimuth, dni, ghi, dhi, dni_extra=None, airmass=None,
                    albedo=0.25):
                r = total(m, surface_tilt, surface_azimuth, solar_zenith, solar_azimuth, dni, ghi, dhi, dni_extra, airmass, albedo)
                return r if comps else {k: v for k, v in r.items() if k in (
                    'poa_global', 'poa_direct', 'poa_diffuse', 'poa_sky_diffuse', 'poa_ground_diffuse')}

            nn = ['surface_tilt', 'dni', 'dhi'] if m != 'perez' else ['surface_tilt', 'dhi']
            nn = [n for n in nn if m != 'klucher' or n != 'ghi']
            lattice(ctx, f'total/{m}/{comps}', lambda **k: quiet(I.get_total_irradiance, model=m, diffuse_components=comps, **k),
                    ref, dict(ax, albedo=[0.2], **ex, **am), forms=F, scalar_max=400, ref_nan=True, nan=nn, rtol=1e-9, atol=1e-8)
            ax2 = dict(ax, surface_tilt=[30], albedo=[0, 0.25, 0.9], dni=[300], **ex)
            lattice(ctx, f'total/{m}/{comps}/default airmass',
                    lambda **k: quiet(I.get_total_irradiance, model=m, diffuse_components=comps, **k),
                    ref, ax2, forms=F[:3], scalar_max=200, nan=False, rtol=1e-9, atol=1e-8)
            # the sky part alone
            if m == 'king':
                continue

            def sref(**k):
                r = ref(**k, albedo=0)
                keep = ['poa_sky_diffuse'] + (COMP[m] if comps else [])
                return {q: r[q] for q in keep} if comps else r['poa_sky_diffuse']
            lattice(ctx, f'sky/{m}/{comps}', lambda **k: quiet(I.get_sky_diffuse, model=m, return_components=comps, **k),
                    sref, dict(ax, **ex, **am), forms=('array', 'series', 'scalar'), scalar_max=200, nan=False, rtol=1e-9, atol=1e-8)
    return f


for _m in MODELS:
    CASES.append((f'model_{_m}', _model(_m), False))

P = (35., 190., 50., 170., 600., 520., 130.)     # tilt, azimuth, zenith, azimuth, dni, ghi, dhi


@case(CASES)
def selection(ctx):
    for m in MODELS:
        for name in (m, m.upper(), m.title()):
            ctx.state(name)
            ctx.step(2)
            e = total(m, *P, 1366., 1.5, .25)
            g = quiet(I.get_total_irradiance, *P, dni_extra=1366., airmass=1.5, model=name)
            ctx.expect(set(g) == {'poa_global', 'poa_direct', 'poa_diffuse', 'poa_sky_diffuse', 'poa_ground_diffuse'}, f'{m}/keys', str(list(g)))
            ctx.close(g['poa_global'], e['poa_global'], f'{m}/name')
            ctx.close(quiet(I.get_sky_diffuse, *P, 1366., 1.5, name), e['poa_sky_diffuse'], f'{m}/sky')
        for kw in (dict(dni_extra=None), dict(airmass=1.5)):
            ctx.state((m, str(kw)))
            if m in NEED:
                ctx.raises(ValueError, lambda: I.get_total_irradiance(*P, model=m, **kw), f'{m}/requires dni_extra')
                ctx.raises(ValueError, lambda: I.get_sky_diffuse(*P, model=m, **kw), f'{m}/requires dni_extra')
            else:
                ctx.close(quiet(I.get_total_irradiance, *P, model=m)['poa_global'], total(m, *P, None, None, .25)['poa_global'],
                          f'{m}/no dni_extra needed')
        if m not in COMP:
            ctx.raises(ValueError, lambda: I.get_sky_diffuse(*P, 1366., 1.5, m, return_components=True), f'{m}/components')
            ctx.raises(ValueError, lambda: I.get_total_irradiance(*P, 1366., 1.5, model=m, diffuse_components=True), f'{m}/components')
        else:
            g = I.get_total_irradiance(*P, 1366., 1.5, model=m, diffuse_components=True)
            ctx.expect(set(g) == {'poa_global', 'poa_direct', 'poa_diffuse', 'poa_sky_diffuse', 'poa_ground_diffuse', *COMP[m]},
                       f'{m}/component keys', str(list(g)))
            ctx.close(sum(g[k] for k in COMP[m]), g['poa_sky_diffuse'], f'{m}/component sum')
    for bad in ('', 'perez_driesse', 'hay-davies', 'none', 'allsitescomposite1990', 'isotropic '):
        ctx.state(bad)
        ctx.raises(ValueError, lambda: I.get_total_irradiance(*P, 1366., 1.5, model=bad), f'unknown/{bad}')
        ctx.raises(ValueError, lambda: I.get_sky_diffuse(*P, 1366., 1.5, model=bad), f'unknown/{bad}')
    g = I.get_total_irradiance(*P)
    ctx.close(g['poa_global'], total('isotropic', *P, None, None, .25)['poa_global'], 'defaults')
    for ps in T.PEREZ:
        ctx.state(ps)
        ctx.step()
        ctx.close(I.get_total_irradiance(*P, 1366., 1.5, model='perez', model_perez=ps)['poa_global'],
                  total('perez', *P, 1366., 1.5, .25, ps)['poa_global'], f'perez set/{ps}')
    for s, a in SURF.items():
        ctx.state(s)
        ctx.step()
        for kw in (dict(surface_type=s), dict(surface_type=s, albedo=.9)):
            ctx.close(I.get_total_irradiance(*P, **kw)['poa_ground_diffuse'], irr.ground(P[0], P[5], a), f'surface type/{s}')


@case(CASES)
def series_forms(ctx):
    n = 6
    rows = np.array([[10., 180, z, 150, d, g, h] for z, d, g, h in
                     [(20, 800, 900, 100), (60, 0, 80, 80), (89, 20, 15, 10), (95, 0, 0, 0), (120, 0, 0, 0), (40, 500, 500, 120)]])
    for idx in (dt_index(n), pd.RangeIndex(n), pd.DatetimeIndex(['2020-01-01'] * n), dt_index(n)[::-1]):
        for m in MODELS:
            for comps in (False, True):
                if comps and m not in COMP:
                    continue
                args = [pd.Series(c, index=idx) for c in rows.T]
                ctx.state((m, comps, str(idx[0])))
                ctx.step(2)
                ex, am = pd.Series(1366., index=idx), pd.Series([1., 2, 25, nan, nan, 1.3], index=idx)
                g = quiet(I.get_total_irradiance, *args, dni_extra=ex, airmass=am, model=m, diffuse_components=comps)
                ctx.expect(isinstance(g, pd.DataFrame) and g.index.equals(idx), f'series/{m}/frame')
                for i in range(n):
                    e = total(m, *rows[i], 1366., float(am.iloc[i]), .25)
                    for k in g.columns:
                        ctx.close(g[k].iloc[i], e[k], f'series/{m}/{k}')
                # fixed orientation as scalars
                g2 = quiet(I.get_total_irradiance, 10., 180., *args[2:], dni_extra=1366., airmass=am, model=m, diffuse_components=comps)
                ctx.expect(isinstance(g2, pd.DataFrame) and g2.equals(g), f'series/{m}/scalar orientation')
                tot = np.nan_to_num((g['poa_direct'] + g['poa_diffuse'] - g['poa_global']).to_numpy())
                dif = np.nan_to_num((g['poa_sky_diffuse'] + g['poa_ground_diffuse'] - g['poa_diffuse']).to_numpy())
                ctx.expect(np.abs(tot).max() < 1e-9 and np.abs(dif).max() < 1e-9, f'series/{m}/closure')


@case(CASES)
def components(ctx):
    A = [0, 20, 60, 89, 90, 95, 180]
    lattice(ctx, 'poa_components', I.poa_components, lambda aoi, dni, poa_sky_diffuse, poa_ground_diffuse: dict(
        poa_global=irr.nmax(dni * math.cos(math.radians(aoi)), 0) + poa_sky_diffuse + poa_ground_diffuse,
        poa_direct=irr.nmax(dni * math.cos(math.radians(aoi)), 0), poa_diffuse=poa_sky_diffuse + poa_ground_diffuse,
        poa_sky_diffuse=poa_sky_diffuse, poa_ground_diffuse=poa_ground_diffuse),
        dict(aoi=A, dni=[0, 300, 900.5], poa_sky_diffuse=[0, 50, 200], poa_ground_diffuse=[0, 10.5, 30]), forms=F, ref_nan=True)
    for form in ('dict', 'frame'):
        idx = dt_index(2)
        mk = (lambda x: pd.Series(x, index=idx)) if form == 'frame' else np.array
        sd = {'poa_sky_diffuse': mk([50., 60.]), 'poa_isotropic': mk([40., 35.]), 'poa_circumsolar': mk([10., 25.])}
        if form == 'frame':
            sd = pd.DataFrame(sd)
        before = sd.copy()
        g = I.poa_components(mk([20., 100.]), mk([500., 600.]), sd, mk([5., 6.]))
        ctx.state(form)
        ctx.step()
        b = [500 * math.cos(math.radians(20)), 0]
        for k, e in dict(poa_direct=b, poa_sky_diffuse=[50, 60], poa_ground_diffuse=[5, 6], poa_diffuse=[55, 66],
                         poa_global=[55 + b[0], 66], poa_isotropic=[40, 35], poa_circumsolar=[10, 25]).items():
            ctx.close(g[k], e, f'poa_components/{form}/{k}')
        ctx.expect(list(sd.keys()) == list(before.keys()), f'poa_components/{form}/mutated')


@case(CASES)
def completion(ctx):
    Z = [0, 30, 60, 79.9, 80, 85, 87.9, 88, 89.5, 95, nan]
    G = [0, 20, 100, 500, nan]
    H = [0, 20, 60, 300, nan]
    C = [None, 0, 100, 900]

    def dref(ghi, dhi, zenith, clear=None, tol=1.1, z0=88., zc=80.):
        d = (ghi - dhi) / math.cos(math.radians(zenith)) if zenith == zenith else nan
        if d < 0 or (zenith >= z0 and d != 0):
            return nan
        if clear is not None and zc <= zenith < z0 and d > clear * tol:
            return clear * tol
        return d
    pts = list(itertools.product(G, H, Z))
    g, h, z = np.array(pts, float).T
    for idx in (dt_index(len(pts)), pd.RangeIndex(len(pts))):
        S = lambda x: pd.Series(x, index=idx)  # noqa
        for c in C:
            for kw in ({}, dict(clearsky_tolerance=1.), dict(zenith_threshold_for_zero_dni=90.), dict(zenith_threshold_for_clearsky_limit=50.),
                       dict(clearsky_tolerance=2., zenith_threshold_for_zero_dni=60., zenith_threshold_for_clearsky_limit=20.)):
                a = (kw.get('clearsky_tolerance', 1.1), kw.get('zenith_threshold_for_zero_dni', 88.), kw.get('zenith_threshold_for_clearsky_limit', 80.))
                e = [dref(*p, c, *a) for p in pts]
                ctx.states += len(pts)
                ctx.step(len(pts))
                args = [S(g), S(h), S(z)]
                v = quiet(I.dni, *args, dni_clear=None if c is None else S(np.full(len(pts), float(c))), **kw)
                ctx.close(v, e, 'dni', rtol=1e-12)
                ctx.expect(v.index.equals(idx), 'dni/index')
                for x, y in zip(args, (g, h, z)):
                    ctx.expect(x.equals(S(y)), 'dni/mutated')
            e = [dref(*p, c) for p in pts]
            f = quiet(I.complete_irradiance, S(z), ghi=S(g), dhi=S(h), dni_clear=None if c is None else S(np.full(len(pts), float(c))))
            ctx.step(len(pts))
            ctx.close(f['dni'], e, 'complete/dni', rtol=1e-12)
            ctx.expect(f['ghi'].equals(S(g)) or np.array_equal(f['ghi'], g, equal_nan=True), 'complete/ghi kept')
            ctx.expect(np.array_equal(f['dhi'], h, equal_nan=True), 'complete/dhi kept')
        cz = np.cos(np.radians(z))
        f = quiet(I.complete_irradiance, S(z), dhi=S(h), dni=S(g))
        ctx.close(f['ghi'], h + g * cz, 'complete/ghi', rtol=1e-12)
        ctx.expect(np.array_equal(f['dni'], g, equal_nan=True) and np.array_equal(f['dhi'], h, equal_nan=True), 'complete/kept')
        f = quiet(I.complete_irradiance, S(z), ghi=S(h), dni=S(g))
        ctx.close(f['dhi'], h - g * cz, 'complete/dhi', rtol=1e-12)
        ctx.expect(np.array_equal(f['dni'], g, equal_nan=True) and np.array_equal(f['ghi'], h, equal_nan=True), 'complete/kept')
        ctx.expect(sorted(f.columns) == ['dhi', 'dni', 'ghi'] and f.index.equals(idx), 'complete/frame')
    s = pd.Series([1., 2.])
    for k in range(8):
        kw = {n: s if k >> i & 1 else None for i, n in enumerate(('ghi', 'dhi', 'dni'))}
        ctx.state(k)
        if sum(v is not None for v in kw.values()) != 2:
            ctx.raises(ValueError, lambda: I.complete_irradiance(s, **kw), f'complete/{k}')
