"""Lattice of surface orientation x sun position (night included) x beam,
diffuse, global, extraterrestrial irradiance and airmass (missing included) x
model x coefficient set x component request x input forms; oracle: scalar
models of the published equations (own spline evaluation for Perez-Driesse),
plus the invariants of the statement."""
import itertools
import math
import warnings

import numpy as np
import pandas as pd

from mc.core import case, lattice, quiet, dt_index, flat
from mc.ref import irr, irr_tables as T, atm
from pvlib import irradiance as I

CASES = []
nan = math.nan
TILT = [0, 10, 30, 60, 90, 120, 180]
AZ = [0, 135, 180, 300]
ZEN = [0, 20, 45.5, 70, 84, 86, 89.5, 90, 95, 120]
SAZ = [0, 100, 180, 250]
F = ('array', 'series', 'scalar', 'int', 'mixed', 'len1', 'array2d')
DHI = [0, 30.5, 100, 400]
DNI = [0, 50, 500, 900.5]
GHI = [0, 100, 300, 900]
SK = dict(scalar_max=1500, rtol=1e-9, atol=1e-8)


def qk(f):
    def g(**k):
        return quiet(f, **k)
    return g


@case(CASES)
def isotropic(ctx):
    lattice(ctx, 'isotropic', I.isotropic, lambda surface_tilt, dhi: irr.isotropic(surface_tilt, dhi)['poa_sky_diffuse'],
            dict(surface_tilt=TILT + [1, 45, 91], dhi=DHI), forms=F, ref_nan=True)
    lattice(ctx, 'isotropic/components', lambda surface_tilt, dhi: I.isotropic(surface_tilt, dhi, return_components=True),
            lambda surface_tilt, dhi: irr.isotropic(surface_tilt, dhi), dict(surface_tilt=TILT + [1, 45, 91], dhi=DHI), forms=F, ref_nan=True)


@case(CASES)
def klucher(ctx):
    lattice(ctx, 'klucher', qk(I.klucher), lambda surface_tilt, surface_azimuth, dhi, ghi, solar_zenith, solar_azimuth:
            irr.klucher(surface_tilt, surface_azimuth, dhi, ghi, solar_zenith, solar_azimuth),
            dict(surface_tilt=TILT, surface_azimuth=AZ[:3], dhi=DHI, ghi=GHI, solar_zenith=ZEN, solar_azimuth=SAZ[1:]),
            keep=lambda dhi, ghi, **k: dhi <= ghi, forms=F, nan=['surface_tilt', 'surface_azimuth', 'solar_zenith', 'solar_azimuth'],
            **SK)


@case(CASES)
def haydavies(ctx):
    ax = dict(surface_tilt=TILT, surface_azimuth=AZ[::2], dhi=DHI[:3], dni=DNI, dni_extra=[1000, 1366.1],
              solar_zenith=ZEN, solar_azimuth=SAZ[1:3])
    ref = lambda surface_tilt, surface_azimuth, dhi, dni, dni_extra, solar_zenith, solar_azimuth: irr.haydavies(  # noqa
        surface_tilt, surface_azimuth, dhi, dni, dni_extra, solar_zenith, solar_azimuth)
    lattice(ctx, 'haydavies', I.haydavies, lambda **k: ref(**k)['poa_sky_diffuse'], ax, forms=F, ref_nan=True, **SK)
    lattice(ctx, 'haydavies/components', lambda **k: I.haydavies(return_components=True, **k), ref, ax, forms=F, ref_nan=True, **SK)
    ax = dict(surface_tilt=TILT, surface_azimuth=[180], dhi=DHI, dni=DNI, dni_extra=[1000, 1366.1],
              projection_ratio=[0, 0.3, 1, 2.5, -0.4])
    ref = lambda surface_tilt, surface_azimuth, dhi, dni, dni_extra, projection_ratio: irr.haydavies(  # noqa
        surface_tilt, surface_azimuth, dhi, dni, dni_extra, ratio=projection_ratio)
    lattice(ctx, 'haydavies/ratio', lambda **k: I.haydavies(return_components=True, **k), ref, ax, forms=F,
            nan=['surface_tilt', 'dhi', 'dni', 'dni_extra', 'projection_ratio'], ref_nan=True, **SK)


@case(CASES)
def reindl(ctx):
    ax = dict(surface_tilt=TILT, surface_azimuth=AZ[::2], dhi=DHI[:3], dni=DNI[1:], ghi=GHI, dni_extra=[1366.1],
              solar_zenith=ZEN, solar_azimuth=SAZ[1:3])
    ref = lambda surface_tilt, surface_azimuth, dhi, dni, ghi, dni_extra, solar_zenith, solar_azimuth: irr.reindl(  # noqa
        surface_tilt, surface_azimuth, dhi, dni, ghi, dni_extra, solar_zenith, solar_azimuth)
    lattice(ctx, 'reindl', qk(I.reindl), lambda **k: ref(**k)['poa_sky_diffuse'], ax, forms=F, ref_nan=True, **SK)
    lattice(ctx, 'reindl/components', qk(lambda **k: I.reindl(return_components=True, **k)), ref, ax, forms=F, ref_nan=True, **SK)
    # no beam at all
    for t, d in itertools.product(TILT, DHI):
        ctx.state((t, d))
        ctx.step()
        ctx.close(I.reindl(float(t), 180., float(d), 0., float(d), 1366., 30., 180.), irr.reindl(t, 180, d, 0, d, 1366., 30, 180)['poa_sky_diffuse'], 'reindl/overcast')


@case(CASES)
def king(ctx):
    lattice(ctx, 'king', qk(I.king), lambda surface_tilt, dhi, ghi, solar_zenith: irr.king(surface_tilt, dhi, ghi, solar_zenith),
            dict(surface_tilt=TILT, dhi=DHI, ghi=GHI, solar_zenith=ZEN), forms=F, ref_nan=True, **SK)


def _perez_axes(ctx):
    # (dhi, dni) pairs cover every clearness bin at every zenith, and both
    # sides of each edge
    return dict(surface_tilt=TILT, surface_azimuth=AZ[1:3], dhi=[0, 5, 60, 250], dni=[0, 4, 9, 16, 30, 70, 150, 300, 800],
                dni_extra=[1366.1], solar_zenith=ZEN[:-1], solar_azimuth=SAZ[1:3], airmass=[nan, 1, 2.5, 26])


def _pref(model):
    def ref(surface_tilt, surface_azimuth, dhi, dni, dni_extra, solar_zenith, solar_azimuth, airmass):
        return irr.perez(surface_tilt, surface_azimuth, dhi, dni, dni_extra, solar_zenith, solar_azimuth, airmass, model)
    return ref


def _perez(model, full):
    def f(ctx):
        ax = _perez_axes(ctx)
        if not full:
            ax.update(surface_tilt=[0, 35, 90], surface_azimuth=[135], airmass=[nan, 1.7])
        ref = _pref(model)

        def keep(dhi, dni, solar_zenith, **k):
            e = irr.perez_eps(dhi, dni, solar_zenith)
            return not any(abs(e - x) < 1e-9 for x in irr.EDGES)
        bins = {sum(1 for x in irr.EDGES if irr.perez_eps(d, n, z) >= x) for d in ax['dhi'][1:] for n in ax['dni'] for z in ax['solar_zenith']}
        ctx.expect(bins == set(range(8)), 'harness/bins')
        forms = F if full else ('array', 'series')
        lattice(ctx, f'perez/{model}', qk(lambda **k: I.perez(model=model, **k)), lambda **k: ref(**k)['poa_sky_diffuse'], ax,
                forms=forms, keep=keep, ref_nan=True, **SK)
        lattice(ctx, f'perez/{model}/components', qk(lambda **k: I.perez(model=model, return_components=True, **k)), ref, ax,
                forms=forms, keep=keep, ref_nan=True, **SK)
    return f


for _i, _m in enumerate(T.PEREZ):
    CASES.append((f'perez_{_m}', _perez(_m, _i == 0), False))


@case(CASES)
def perez_edges(ctx):
    """Bins are half open: an edge belongs to the clearer bin."""
    # zenith 0: eps = (dhi + dni)/dhi exactly representable ratios
    for x, dhi, dni in ((1.5, 200., 100.), (4.5, 100., 350.), (1., 100., 0.)):
        ctx.state(x)
        ctx.step()
        ctx.close(I.perez(40., 180., dhi, dni, 1366., 0., 180., 1.), irr.perez(40, 180, dhi, dni, 1366., 0, 180, 1.)['poa_sky_diffuse'], 'edge')
    ctx.raises(KeyError, lambda: I.perez(40., 180., 100., 100., 1366., 0., 180., 1., model='1990'), 'unknown set')
    ctx.close(I.perez(40., 180., 100., 300., 1366., 40., 180., 1.3), irr.perez(40, 180, 100., 300., 1366., 40., 180, 1.3)['poa_sky_diffuse'], 'default set')


@case(CASES)
def perez_driesse(ctx):
    ax = _perez_axes(ctx)
    ax['airmass'] = [1, 2.5, 26]
    ax['solar_zenith'] = ZEN
    ax['dni'] = [0, 9, 30, 150, 400, 800]

    def ref(surface_tilt, surface_azimuth, dhi, dni, dni_extra, solar_zenith, solar_azimuth, airmass=None):
        return irr.perez_driesse(surface_tilt, surface_azimuth, dhi, dni, dni_extra, solar_zenith, solar_azimuth, airmass)
    nn = ['surface_tilt', 'surface_azimuth', 'dhi', 'dni', 'dni_extra', 'solar_azimuth', 'solar_zenith']
    lattice(ctx, 'perez-driesse', qk(I.perez_driesse), lambda **k: ref(**k)['poa_sky_diffuse'], ax, forms=F, nan=nn, ref_nan=True, **SK)
    lattice(ctx, 'perez-driesse/components', qk(lambda **k: I.perez_driesse(return_components=True, **k)), ref, ax, forms=F, nan=nn,
            ref_nan=True, **SK)
    del ax['airmass']
    lattice(ctx, 'perez-driesse/default airmass', qk(lambda **k: I.perez_driesse(return_components=True, **k)), ref, ax, forms=F,
            nan=nn, ref_nan=True, **SK)


CALLS = {
    'isotropic': lambda t, a, dh, dn, gh, ex, z, sa, am, **k: I.isotropic(t, dh, **k),
    'klucher': lambda t, a, dh, dn, gh, ex, z, sa, am, **k: I.klucher(t, a, dh, gh, z, sa),
    'haydavies': lambda t, a, dh, dn, gh, ex, z, sa, am, **k: I.haydavies(t, a, dh, dn, ex, z, sa, **k),
    'reindl': lambda t, a, dh, dn, gh, ex, z, sa, am, **k: I.reindl(t, a, dh, dn, gh, ex, z, sa, **k),
    'king': lambda t, a, dh, dn, gh, ex, z, sa, am, **k: I.king(t, dh, gh, z),
    'perez': lambda t, a, dh, dn, gh, ex, z, sa, am, **k: I.perez(t, a, dh, dn, ex, z, sa, am, **k),
    'perez-driesse': lambda t, a, dh, dn, gh, ex, z, sa, am, **k: I.perez_driesse(t, a, dh, dn, ex, z, sa, am, **k),
}
COMP = {'isotropic': ['poa_isotropic'], 'haydavies': ['poa_isotropic', 'poa_circumsolar'],
        'reindl': ['poa_isotropic', 'poa_circumsolar', 'poa_horizon'], 'perez': ['poa_isotropic', 'poa_circumsolar', 'poa_horizon'],
        'perez-driesse': ['poa_isotropic', 'poa_circumsolar', 'poa_horizon']}


@case(CASES)
def physical(ctx):
    """Consistent skies (ghi = dhi + dni cos z): sign, horizontal limit, sums."""
    pts = [(t, a, dh, dn, z, sa) for t, a, dh, dn, z, sa in itertools.product(
        ctx.pick([0, 20, 45, 70, 90], list(range(0, 91, 10))), [0, 90, 180, 260], [0., 1, 40, 200, 500],
        [0., 5, 100, 600, 1000], ctx.pick([0, 30, 60, 80, 88, 89.9, 95], list(range(0, 100, 5))), [90., 180, 275])]
    t, a, dh, dn, z, sa = np.array(pts, float).T
    gh = dh + dn * np.maximum(np.cos(np.radians(z)), 0)
    am = quiet(I.atmosphere.get_relative_airmass, z)
    ex = np.full_like(t, 1366.1)
    ctx.states += len(pts) * len(CALLS)
    idx = dt_index(len(t))
    for m, f in CALLS.items():
        ctx.step(len(pts))
        v = quiet(f, t, a, dh, dn, gh, ex, z, sa, am)
        ok = np.isfinite(v)
        ctx.expect((v[ok] >= 0).all(), f'{m}/non-negative', str(v[ok].min()))
        ctx.outcome((m, float(np.nanmax(v))))
        if m in ('isotropic', 'haydavies', 'perez-driesse', 'perez', 'reindl', 'klucher'):
            # with no diffuse light there is none on the plane either
            s = (dh == 0) & ok
            ctx.expect((np.abs(v[s]) < 1e-12).all(), f'{m}/dark')
        if m in ('isotropic', 'klucher', 'king', 'haydavies', 'reindl', 'perez', 'perez-driesse'):
            # sun above the floor of the circumsolar denominators
            s = ok & (t == 0) & (z <= (85 if m.startswith('perez') else 89)) & (dh > 0)
            if m == 'klucher':
                # the Klucher correction keeps the beam-side factor on the
                # horizontal only without beam
                s &= (gh == dh)
            ctx.close(v[s], dh[s], f'{m}/horizontal', rtol=1e-9)
        if m not in COMP:
            continue
        for form in ('array', 'series', 'scalar'):
            mk = (lambda x: x) if form == 'array' else (lambda x: pd.Series(x, index=idx))
            if form == 'scalar':
                for i in range(0, len(t), 97):
                    ctx.step()
                    c = quiet(f, *(float(x[i]) for x in (t, a, dh, dn, gh, ex, z, sa, am)), return_components=True)
                    _sum(ctx, m, form, c, np.array([v[i]]), None)
                continue
            ctx.step(len(pts))
            c = quiet(f, *(mk(x) for x in (t, a, dh, dn, gh, ex, z, sa, am)), return_components=True)
            _sum(ctx, m, form, c, v, idx if form == 'series' else None)


def _sum(ctx, m, form, c, v, idx):
    ctx.expect(list(c.keys()) == ['poa_sky_diffuse'] + COMP[m], f'{m}/{form}/names', str(list(c.keys())))
    if idx is not None:
        ctx.expect(isinstance(c, pd.DataFrame) and c.index.equals(idx), f'{m}/{form}/frame')
    else:
        ctx.expect(isinstance(c, dict), f'{m}/{form}/dict')
    tot = np.atleast_1d(np.asarray(c['poa_sky_diffuse'], float))
    ctx.close(tot, v, f'{m}/{form}/total', rtol=1e-12)
    s = sum(np.atleast_1d(np.asarray(c[k], float)) for k in COMP[m])
    ctx.close(s, tot, f'{m}/{form}/sum', rtol=1e-9, atol=1e-9)
