"""Lattice of row geometries x sun positions x input forms for the shading
functions; oracle: vectors and line intersections in the plane perpendicular
to the rows, and quadrature for the averaged masking angle."""
import itertools
import math

import numpy as np
import pandas as pd

from mc.core import case, lattice, quiet, dt_index
from mc.checks.K01 import axes_of, sun, dot, D
from pvlib import shading as S

CASES = []
nan = math.nan
F = ('array', 'series', 'scalar', 'int', 'mixed', 'len1', 'array2d')


def project(solar_zenith, solar_azimuth, axis_tilt, axis_azimuth):
    x, _, z = axes_of(axis_tilt, axis_azimuth)
    s = sun(solar_zenith, solar_azimuth)
    return math.atan2(dot(s, x), dot(s, z)) / D


def clear(solar_zenith, solar_azimuth, axis_tilt, axis_azimuth):
    x, _, z = axes_of(axis_tilt, axis_azimuth)
    s = sun(solar_zenith, solar_azimuth)
    a, b = dot(s, x), dot(s, z)
    return math.hypot(a, b) > 1e-5 and not (abs(a) < 1e-9 and b < 0)


@case(CASES)
def projected_zenith(ctx):
    ax = dict(solar_zenith=ctx.pick([0, 10, 45.5, 80, 90, 95, 120], [0, 5, 10, 30, 45.5, 60, 80, 89, 90, 95, 120, 150, 179]),
              solar_azimuth=ctx.pick([0, 45.25, 90, 180, 200, 270, 360], [x * 22.5 for x in range(17)] + [33.3]),
              axis_tilt=[0, 5, 20, -15, 90], axis_azimuth=[0, 45, 90, 180, 271.5])
    lattice(ctx, 'projected zenith', S.projected_solar_zenith_angle, project, ax, forms=F, keep=clear, atol=1e-7)
    # a row plane facing the projected sun has the smallest incidence: rotation invariance
    for z, a in itertools.product([10, 40, 80], [10, 100, 250]):
        for d in (15, 90, 200):
            ctx.state((z, a, d))
            ctx.step(2)
            ctx.close(S.projected_solar_zenith_angle(z, a + d, 12, 30 + d), S.projected_solar_zenith_angle(z, a, 12, 30), 'turning the compass')


def rowpoint(beta, length, h):
    """Point at fraction h up a row of the given length, lower edge at 0."""
    return h * length * math.cos(beta * D), h * length * math.sin(beta * D)


def ground(surface_tilt, gcr, slant_height):
    x, y = rowpoint(surface_tilt, gcr, slant_height)
    return math.atan2(y, x + 1) / D        # down to the lower edge one pitch in front


def mask(surface_tilt, gcr, slant_height):
    x, y = rowpoint(surface_tilt, gcr, slant_height)
    tx, ty = rowpoint(surface_tilt, gcr, 1.)
    return math.atan((ty - y) / (1 + x - tx)) / D       # up to the top of the row in front


@case(CASES)
def angles(ctx):
    ax = dict(surface_tilt=ctx.pick([0, 10, 30.5, 60, 90, 120], [0, .5, 5, 10, 20, 30.5, 45, 60, 75, 89, 90, 100, 120, 150, 179]),
              gcr=ctx.pick([.1, .4, .75, 1], [.05, .1, .2, .3, .4, .5, .75, .9, 1]), slant_height=ctx.pick([0, .25, .5, 1], [0, .1, .25, .5, .75, .9, 1]))
    lattice(ctx, 'ground angle', S.ground_angle, ground, ax, forms=F, keep=lambda **k: not (k['gcr'] == 1 and k['slant_height'] == 1 and k['surface_tilt'] > 170))
    lattice(ctx, 'masking angle', S.masking_angle, mask, ax, forms=F,
            keep=lambda **k: 1 - k['gcr'] * (1 - k['slant_height']) * math.cos(k['surface_tilt'] * D) > 1e-6)
    ctx.close(S.ground_angle(0, 1., np.array([0, .5, 1])), 0, 'ground angle of level rows')
    X, Wt = np.polynomial.legendre.leggauss(400)
    h = (X + 1) / 2
    h = h ** 2      # resolve the steep end at full ground cover

    def avg(surface_tilt, gcr):
        m = np.arctan2(gcr * (1 - h) * math.sin(surface_tilt * D), 1 - gcr * (1 - h) * math.cos(surface_tilt * D))
        return float((m * Wt / 2 * 2 * np.sqrt(h)).sum()) / D
    tilts = ctx.pick([0, 5, 20.5, 45, 60, 90], [0, .5, 1, 5, 10, 20.5, 30, 45, 60, 75, 85, 90])
    for g in ctx.pick([.1, .4, .75, 1], [.05, .1, .2, .3, .4, .5, .6, .75, .9, .99, 1]):
        lattice(ctx, f'average masking angle {g}', lambda surface_tilt: S.masking_angle_passias(surface_tilt, g),
                lambda surface_tilt: avg(surface_tilt, g), dict(surface_tilt=tilts), forms=('array', 'series', 'scalar', 'len1', 'array2d', 'int'),
                atol=1e-5, rtol=1e-7, nan=False)
        a = np.array(tilts, dtype=float)
        r = quiet(S.masking_angle_passias, a, g)
        lo, hi = quiet(S.masking_angle, a, g, 1.), quiet(S.masking_angle, a, g, 0.)
        ctx.step(3 * len(a))
        if g < 1:
            ctx.expect(bool(((r >= lo - 1e-6) & (r <= hi + 1e-6)).all()), 'average between the extremes')
    gg = np.array([.2, .5, .9])
    ctx.close(quiet(S.masking_angle_passias, 30., gg), [avg(30, g) for g in gg], 'average masking angle gcr array', atol=1e-5)
    lattice(ctx, 'sky diffuse', S.sky_diffuse_passias, lambda masking_angle: math.sin(masking_angle * D / 2) ** 2,
            dict(masking_angle=[0, .5, 10, 30.25, 45, 60, 90]), forms=('array', 'series', 'scalar', 'int', 'len1', 'array2d'))
    # equals the share of an isotropic sky hidden below that elevation: (1 - cos m) / 2
    m = np.linspace(0, 90, 19)
    ctx.close(S.sky_diffuse_passias(m), (1 - np.cos(m * D)) / 2, 'sky diffuse share')


def fraction(w, th1, th2, ell, p, z0, bc):
    """Overlap of the neighbour's shadow with the row along the line
    perpendicular to the projected sun; None where the roles of the rows or
    the shape of the shadow leave the model's geometry."""
    sg = 1 if w > 0 else -1
    c, s = math.cos(w * D), math.sin(w * D)
    dist = p / math.cos(bc * D)

    def extent(theta, ox, oz):
        t = theta * D
        cx, cz = ox + z0 * math.sin(t), oz + z0 * math.cos(t)
        ends = [((cx + k * ell / 2 * math.cos(t)), (cz - k * ell / 2 * math.sin(t))) for k in (-1, 1)]
        u = sorted(sg * (x * c - z * s) for x, z in ends)
        return u
    lo2, hi2 = extent(th2, 0, 0)
    lo1, hi1 = extent(th1, sg * dist * math.cos(bc * D), -sg * dist * math.sin(bc * D))
    if hi2 - lo2 < 1e-3 * ell or math.cos((w - bc) * D) < 1e-3:
        return None
    if hi1 < hi2 - 1e-12 and lo1 < hi2:
        return None                     # the shadow ends inside the row
    return min(1., max(0., (min(hi1, hi2) - max(lo1, lo2)) / (hi2 - lo2)))


@case(CASES)
def shaded(ctx):
    """The row's shaded share for every rotation pair, offset and slope."""
    ZEN = ctx.pick([20, 60, 75, 80.5, 88], [5, 20, 40, 60, 70, 75, 80.5, 85, 88, 89.9])
    AZ = ctx.pick([60, 100, 135, 225, 300], [20, 60, 75, 100, 135, 170, 200, 225, 260, 300])
    R = ctx.pick([-60, -30, 0, 25, 50], [-75, -60, -45, -30, -10, 0, 25, 35, 50, 70])
    geo = [(2., 3., 0.), (1.4, 3., .1), (1., 1., -.2), (2., 5., .05)]
    for axis_az, tilt, bc, (ell, p, z0) in itertools.product([90, 180, 270], [0, 10, -15], [0, 7, -12], geo):
        cols, exp, dd = [], [], []
        for z, a, t1, t2 in itertools.product(ZEN, AZ, R, R):
            w = project(z, a, tilt, axis_az)
            if abs(w) < 1e-3:
                continue
            e = fraction(w, t1, t2, ell, p, z0, bc)
            if e is None:
                continue
            cols.append((z, a, t1, t2))
            exp.append(e)
        A = np.array(cols, dtype=float)
        ctx.state(n=len(A))
        ctx.step(len(A))
        kw = dict(collector_width=ell, pitch=p, axis_tilt=tilt, surface_to_axis_offset=z0, cross_axis_slope=bc)
        r = quiet(S.shaded_fraction1d, A[:, 0], A[:, 1], axis_az, A[:, 3], shading_row_rotation=A[:, 2], **kw)
        ctx.close(r, exp, 'shaded fraction', rtol=1e-7, atol=1e-7, cfg=str((axis_az, kw)))
        ctx.expect(bool(((r >= 0) & (r <= 1)).all()), 'fraction outside [0, 1]')
        seen = set()
        for k, (z, a, t1, t2) in enumerate(A):         # one scalar call per pair of rotations
            if (t1, t2) not in seen and 0 < exp[k] < 1 or (t1, t2, 0) not in seen:
                seen.add((t1, t2) if 0 < exp[k] < 1 else (t1, t2, 0))
                ctx.close(quiet(S.shaded_fraction1d, z, a, axis_az, t2, shading_row_rotation=t1, **kw), exp[k], 'shaded fraction scalar pair',
                          rtol=1e-7, atol=1e-7, row=(z, a, t1, t2), cfg=str(kw))
        eq = A[:, 2] == A[:, 3]
        if eq.any():
            q = quiet(S.shaded_fraction1d, A[eq, 0], A[eq, 1], axis_az, A[eq, 3], **kw)
            ctx.close(q, np.array(exp)[eq], 'shaded fraction equal rotations', rtol=1e-7, atol=1e-7)
            idx = dt_index(int(eq.sum()))
            s = quiet(S.shaded_fraction1d, pd.Series(A[eq, 0], index=idx), pd.Series(A[eq, 1], index=idx), axis_az, pd.Series(A[eq, 3], index=idx), **kw)
            ctx.expect(isinstance(s, pd.Series) and s.index.equals(idx), 'shaded fraction index')
            ctx.close(s, q, 'shaded fraction series')
            k = int(np.argmax(eq))
            ctx.close(quiet(S.shaded_fraction1d, *[float(x) for x in A[k, :2]], axis_az, float(A[k, 3]), **kw), exp[k], 'shaded fraction scalar',
                      atol=1e-7)
        ctx.outcome((len(A), round(float(np.mean(exp)), 3)))
    # omitted arguments
    d = S.shaded_fraction1d(80, 90, 180, -30, collector_width=1.4, pitch=3)
    ctx.close(d, fraction(project(80, 90, 0, 180), -30, -30, 1.4, 3, 0, 0), 'shaded fraction defaults')
    for k in range(3):
        a = [np.array([80., 70]), np.array([90., 91]), np.array([-30., -20])]
        a[k][0] = nan
        r = quiet(S.shaded_fraction1d, a[0], a[1], 180, a[2], collector_width=1.4, pitch=3)
        ctx.expect(math.isnan(r[0]) and not math.isnan(r[1]), 'missing input')


@case(CASES)
def martinez(ctx):
    for total in (1, 2, 3, 6):
        B = sorted({0, 1, total, max(0, total - 1), .5, total - .25, .01})

        def ref(poa_global, poa_direct, shaded_fraction, shaded_blocks):
            keepd = (1 - shaded_fraction) * (1 - math.ceil(shaded_blocks) / (1 + total))
            return 1 - (poa_direct * keepd + poa_global - poa_direct) / poa_global
        lattice(ctx, f'martinez {total}', lambda **k: S.direct_martinez(**k, total_blocks=total), ref,
                dict(poa_global=[1, 250.5, 1000], poa_direct=[0, 1, 200, 999.5], shaded_fraction=[0, .1, .5, 1], shaded_blocks=B), forms=F,
                keep=lambda **k: k['poa_direct'] <= k['poa_global'])
    lattice(ctx, 'martinez blocks', S.direct_martinez,
            lambda poa_global, poa_direct, shaded_fraction, shaded_blocks, total_blocks: 1 - (
                poa_direct * (1 - shaded_fraction) * (1 - math.ceil(shaded_blocks) / (1 + total_blocks)) + poa_global - poa_direct) / poa_global,
            dict(poa_global=[800], poa_direct=[0, 500], shaded_fraction=[0, .4], shaded_blocks=[0, 1, 1.5], total_blocks=[2, 3]), forms=F)
    # no shade, no loss; full shade loses all the direct part
    g = np.array([100., 500, 1000])
    ctx.close(S.direct_martinez(g, g * .8, 0, 0, 3), 0, 'no shade no loss')
    ctx.close(S.direct_martinez(g, g * .8, 1, 3, 3), .8, 'full shade')
    ctx.close(S.direct_martinez(g, 0 * g, .5, 2, 3), 0, 'diffuse is not lost')
