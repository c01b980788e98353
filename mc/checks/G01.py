"""Lattice of surface tilt/azimuth and sun zenith/azimuth (wrapped and negative
azimuths, poles of both spheres, sun in and behind the plane) x irradiance x
albedo x input forms; oracle: unit-vector geometry."""
import itertools
import math

import numpy as np
import pandas as pd

from mc.core import case, lattice, quiet
from mc.ref import irr
from pvlib import albedo as alb, irradiance as I

CASES = []
TILT = [0, 1e-3, 5, 20, 30, 45, 60.5, 89, 90, 91, 120, 135, 180]
AZ = [-180, -90, -13.5, 0, 45, 90, 135, 180, 200, 270, 315, 360, 450]
ZEN = [0, 0.01, 10, 33.3, 60, 85, 89.9, 90, 95, 110, 135, 180]
SAZ = [-45, 0, 30, 90, 121.7, 180, 181, 270, 300, 360, 500]
F = ('array', 'series', 'scalar', 'int', 'mixed', 'len1', 'array2d')


def axes(ctx, full=False):
    if ctx.thorough:
        return dict(surface_tilt=TILT, surface_azimuth=list(range(-180, 541, 15)) + AZ, solar_zenith=sorted(set(ZEN) | set(range(0, 181, 5))),
                    solar_azimuth=list(range(-90, 541, 15)) + SAZ)
    return dict(surface_tilt=TILT, surface_azimuth=AZ, solar_zenith=ZEN, solar_azimuth=SAZ)


@case(CASES)
def incidence(ctx):
    ax = axes(ctx)
    lattice(ctx, 'projection', I.aoi_projection, lambda surface_tilt, surface_azimuth, solar_zenith, solar_azimuth:
            irr.projection(surface_tilt, surface_azimuth, solar_zenith, solar_azimuth), ax, forms=F, rtol=0, atol=2e-12)
    lattice(ctx, 'aoi', I.aoi, lambda surface_tilt, surface_azimuth, solar_zenith, solar_azimuth:
            irr.aoi(surface_tilt, surface_azimuth, solar_zenith, solar_azimuth), ax, forms=F, rtol=0, atol=3e-6)
    # precise away from 0 and 180 degrees, where arccos is well conditioned
    n = list(itertools.product(TILT[1::2], AZ[::2], ZEN[1::2], SAZ[::2]))
    a = np.array(n, float).T
    g = I.aoi(*a)
    e = np.array([irr.aoi(*p) for p in n])
    s = (e > 1) & (e < 179)
    ctx.step(int(s.sum()))
    ctx.close(g[s], e[s], 'aoi/precise', rtol=0, atol=1e-11)
    ctx.expect(((g >= 0) & (g <= 180)).all(), 'aoi/range')
    # sun exactly on the normal, or exactly opposite, never leaves the domain
    for t, z in itertools.product(np.arange(0, 180.01, ctx.pick(7.3, 0.5)), np.arange(-180, 361, ctx.pick(23.7, 7.1))):
        ctx.state((float(t), float(z)))
        ctx.step(4)
        for args, want in (((t, z, t, z), 0.), ((t, z, 180 - t, z + 180), 180.)):
            p = I.aoi_projection(*args)
            ctx.expect(-1 <= p <= 1, 'projection/clipped', repr(p))
            ctx.close(I.aoi(*args), want, 'aoi/normal', rtol=0, atol=3e-6)
    # invariances: common rotation, full turns, swap of surface and sun
    for d in (-360., 17.3, 90., 360., 720.):
        ctx.close(I.aoi_projection(a[0], a[1] + d, a[2], a[3] + d), I.aoi_projection(*a), 'rotation', rtol=0, atol=1e-11)
    ctx.close(I.aoi_projection(a[2], a[3], a[0], a[1]), I.aoi_projection(*a), 'symmetry', rtol=0, atol=1e-12)
    s = pd.Series([10., 20.], index=pd.date_range('2020', periods=2, tz='UTC'))
    ctx.expect(I.aoi(s, s, s, s).name == 'aoi' and I.aoi_projection(s, s, s, s).name == 'aoi_projection', 'names')


@case(CASES)
def beam(ctx):
    def ref(surface_tilt, surface_azimuth, solar_zenith, solar_azimuth, dni):
        return irr.nmax(dni * irr.projection(surface_tilt, surface_azimuth, solar_zenith, solar_azimuth), 0)
    ax = axes(ctx)
    ax = dict(surface_tilt=TILT[::2], surface_azimuth=AZ[::2], solar_zenith=ZEN[::2] + [90], solar_azimuth=SAZ[::2],
              dni=[0, 0.5, 300, 1000])
    lattice(ctx, 'beam', I.beam_component, ref, ax, forms=F, rtol=1e-12, atol=1e-9)
    p = np.array(list(itertools.product(*ax.values())), float).T
    v = I.beam_component(*p)
    ctx.expect((v >= 0).all() and (v <= p[4] + 1e-9).all(), 'beam/range')


SURF = {'urban': 0.18, 'grass': 0.20, 'fresh grass': 0.26, 'soil': 0.17, 'sand': 0.40, 'snow': 0.65, 'fresh snow': 0.75,
        'asphalt': 0.12, 'concrete': 0.30, 'aluminum': 0.85, 'copper': 0.74, 'fresh steel': 0.35, 'dirty steel': 0.08,
        'sea': 0.06}


@case(CASES)
def ground(ctx):
    ax = dict(surface_tilt=TILT, ghi=[0, 1, 250.5, 1000], albedo=[0, 0.1, 0.25, 0.65, 1])
    lattice(ctx, 'ground', I.get_ground_diffuse, lambda surface_tilt, ghi, albedo: irr.ground(surface_tilt, ghi, albedo), ax,
            forms=F, rtol=1e-12)
    ctx.expect(dict(alb.SURFACE_ALBEDOS) == SURF, 'albedo table', str(dict(alb.SURFACE_ALBEDOS)))
    for n, a in SURF.items():
        for t in TILT:
            ctx.state((n, t))
            ctx.step(2)
            ctx.close(I.get_ground_diffuse(float(t), 800., surface_type=n), irr.ground(t, 800., a), f'surface/{n}')
            # the surface type takes precedence over the albedo
            ctx.close(I.get_ground_diffuse(float(t), 800., 0.9, n), irr.ground(t, 800., a), f'surface/{n}/precedence')
    ctx.close(I.get_ground_diffuse(40., 800.), irr.ground(40., 800., .25), 'default')
    ctx.raises(KeyError, lambda: I.get_ground_diffuse(10., 100., surface_type='lawn'), 'unknown surface')
    for t in np.arange(0, 181, 1.):
        v = I.get_ground_diffuse(t, 1000., 1.)
        ctx.step()
        ctx.expect(0 <= v <= 1000, 'ground/range')
        ctx.close(v + I.isotropic(t, 1000.), 1000., 'view factors add to one', rtol=1e-12)


WCOL = {'clear_water_no_waves': (0.13, 0.29), 'clear_water_ripples_up_to_2.5cm': (0.16, 0.70),
        'clear_water_ripples_larger_than_2.5cm_occasional_whitecaps': (0.23, 1.25),
        'clear_water_frequent_whitecaps': (0.30, 2), 'green_water_ripples_up_to_2.5cm': (0.22, 0.70),
        'muddy_water_no_waves': (0.19, 0.29)}


@case(CASES)
def water(ctx):
    E = [-90, -10, -0.01, 0, 0.5, 5, 15.5, 30, 45, 60, 89, 90]

    def ref(e, c, r):
        return c ** (r * math.sin(math.radians(max(e, 0))) + 1) if e == e else math.nan
    for n, (c, r) in WCOL.items():
        lattice(ctx, f'water/{n}', lambda solar_elevation: alb.inland_water_dvoracek(solar_elevation, surface_condition=n),
                lambda solar_elevation: ref(solar_elevation, c, r), dict(solar_elevation=E),
                forms=('array', 'series', 'scalar', 'int', 'len1', 'array2d'), rtol=1e-12)
    for c, r in itertools.product((0.05, 0.13, 0.3, 1.), (0., 0.29, 0.7, 2, 3.5)):
        ctx.state((c, r))
        for e in E:
            ctx.step()
            ctx.close(alb.inland_water_dvoracek(float(e), color_coeff=c, wave_roughness_coeff=r), ref(e, c, r), 'water/coefficients')
    n = 'muddy_water_no_waves'
    ctx.raises(KeyError, lambda: alb.inland_water_dvoracek(10., 'deep'), 'water/unknown')
    for kw in (dict(), dict(color_coeff=.1), dict(wave_roughness_coeff=.1), dict(surface_condition=n, color_coeff=.1),
               dict(surface_condition=n, wave_roughness_coeff=.1), dict(surface_condition=n, color_coeff=.1, wave_roughness_coeff=.2),
               dict(surface_condition=n, color_coeff=0., wave_roughness_coeff=0.), dict(surface_condition=n, wave_roughness_coeff=0)):
        ctx.state(str(kw))
        ctx.raises(ValueError, lambda: alb.inland_water_dvoracek(10., **kw), 'water/ambiguous')
