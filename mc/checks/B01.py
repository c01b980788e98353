"""Lattice tilt x azimuth x sun x ground cover x height x pitch x albedo x sky
model x loss factors x input forms for the infinite-sheds model; oracle:
independent two-dimensional view-factor, shadow and balance geometry."""
import itertools
import math

import numpy as np
import pandas as pd

from mc.core import case, lattice, quiet, dt_index, same_value
from mc.ref import geo2d as G
from pvlib.bifacial import infinite_sheds as B, utils as U, loss_models

CASES = []
nan = math.nan
D = math.pi / 180
TILT = [0, 5, 30.5, 60, 90, 120, 150, 175, 180]
TILTT = [0, 1, 5, 10, 20, 30.5, 45, 60, 75, 89, 90, 91, 105, 120, 135, 150, 160, 175, 179, 180]
GCR = [.1, .35, .5, .8]
GCRT = [.02, .1, .2, .35, .5, .65, .8, .95, 1.]
F = ('array', 'series', 'scalar', 'int', 'mixed', 'len1')


@case(CASES)
def row_view_factors(ctx):
    X = ctx.pick([0, .25, .5, 1], [0, .1, .25, .4, .5, .75, .9, 1])
    ax = dict(surface_tilt=ctx.pick(TILT, TILTT), gcr=ctx.pick(GCR, GCRT), x=X)
    lattice(ctx, 'vf_row_sky_2d', U.vf_row_sky_2d, lambda surface_tilt, gcr, x: G.row_sky_point(surface_tilt, gcr, x), ax,
            forms=('array', 'series', 'scalar', 'mixed'), keep=lambda **k: not (k['surface_tilt'] == 0 and k['gcr'] == 1 and k['x'] == 0), atol=1e-7)
    lattice(ctx, 'vf_row_ground_2d', U.vf_row_ground_2d, lambda surface_tilt, gcr, x: G.row_ground_point(surface_tilt, gcr, x), ax,
            forms=('array', 'series', 'scalar', 'mixed'), keep=lambda **k: not (k['surface_tilt'] == 180 and k['gcr'] == 1 and k['x'] == 1), atol=1e-7)
    T = ctx.pick(TILT, TILTT)
    for gcr in ctx.pick(GCR, GCRT[:-1]):
        segs = [(0., 1.), (0., .5), (.3, .31), (.75, 1.)]
        for sg in (1, -1):
            for x0, x1 in segs:
                exp = [G.quad(lambda x: G.row_sky_point(sg * t, gcr, x), x0, x1, 4) for t in T]
                ctx.state(n=len(T))
                ctx.step(2 * len(T))
                a = np.array(T, dtype=float) * sg
                ctx.close(quiet(U.vf_row_sky_2d_integ, a, gcr, x0, x1), exp, 'row to sky', atol=1e-7, gcr=gcr, seg=(x0, x1))
                ctx.close([float(quiet(U.vf_row_sky_2d_integ, float(t), gcr, x0, x1)) for t in a], exp, 'row to sky scalar', atol=1e-7)
            xs = np.array([s for s, _ in segs]), np.array([s for _, s in segs])
            ctx.close(quiet(U.vf_row_sky_2d_integ, 30. * sg, gcr, *xs),
                      [G.quad(lambda x: G.row_sky_point(30. * sg, gcr, x), a, b, 4) for a, b in segs], 'row to sky segments', atol=1e-7)
        exp = [G.quad(lambda x: G.row_ground_point(t, gcr, x), 0, 1, 4) for t in T]
        ctx.close(quiet(U.vf_row_ground_2d_integ, np.array(T, dtype=float), gcr), exp, 'row to ground', atol=2e-3, gcr=gcr)
        ctx.close([float(quiet(U.vf_row_ground_2d_integ, float(t), gcr)) for t in T], exp, 'row to ground scalar', atol=2e-3, gcr=gcr)
        s, g = quiet(U.vf_row_sky_2d_integ, np.array(T, dtype=float), gcr), quiet(U.vf_row_ground_2d_integ, np.array(T, dtype=float), gcr)
        ctx.expect(bool(((s >= -1e-9) & (s <= 1 + 1e-9) & (g >= -1e-9) & (g <= 1 + 1e-9) & (s + g <= 1 + 1e-3)).all()), 'row view factors outside [0, 1]')
    # a wide-spaced row sees the sky and ground of an isolated plane
    for t in T:
        ctx.close(quiet(U.vf_row_sky_2d_integ, float(t), 1e-5), (1 + math.cos(t * D)) / 2, 'isolated row sky', atol=1e-4)
        ctx.close(quiet(U.vf_row_ground_2d_integ, float(t), 1e-5), (1 - math.cos(t * D)) / 2, 'isolated row ground', atol=1e-4)


@case(CASES)
def row_to_ground_segments(ctx):
    T = ctx.pick([0, 5, 30.5, 90, 150, 180], [0, 5, 30.5, 60, 90, 120, 150, 175, 180])
    for gcr, (h, p) in itertools.product(ctx.pick([.2, .35, .8], GCR), [(1.5, 3.), (1., 4.)] + ctx.pick([], [(2.5, 3.), (1.2, 10.)])):
        for (x0, x1), (g0, g1) in itertools.product([(0., 1.), (.2, .5), (.9, 1.)], [(0., 1.), (0., .3), (.4, .7), (.8, 1.)]):
            if (x0, x1, g0, g1) == (0, 1, 0, 1):
                continue
            for sg in (1, -1):
                rot = [sg * t for t in T if h > p * gcr / 2 * math.sin(t * D)]
                ctx.state(n=len(rot))
                ctx.step(len(rot))
                got = quiet(U.vf_row_ground_2d_integ, np.array(rot, dtype=float), gcr, h, p, x0, x1, 60, g0, g1)
                ctx.close(np.asarray(got).ravel(), [G.row_ground_segment(t, gcr, h, p, x0, x1, g0, g1, 60, 4) for t in rot],
                          'row to ground segment', atol=5e-4, cfg=(gcr, h, p, x0, x1, g0, g1))
    xs, gs = (np.array([0, .5]), np.array([.5, 1.])), (np.array([0, .4]), np.array([.4, 1.]))
    m = quiet(U.vf_row_ground_2d_integ, np.array([20., -35.]), .5, 1.5, 3., *xs, 60, *gs)
    for i, j, k in itertools.product(range(2), range(2), range(2)):
        ctx.close(m[i, j, k], G.row_ground_segment([20., -35.][k], .5, 1.5, 3., xs[0][j], xs[1][j], gs[0][i], gs[1][i], 60, 8),
                  'row to ground matrix', atol=5e-4)


@case(CASES)
def ground_view_factors(ctx):
    R = ctx.pick([0, 5, 30.5, 60, 90, 120, 180], [0, 1, 5, 15, 30.5, 45, 60, 75, 90, 105, 120, 150, 175, 180])
    for gcr, (h, p) in itertools.product(ctx.pick([.35, .8], GCR), [(1.5, 3.), (1., 5.)] + ctx.pick([], [(2.5, 3.), (1.5, 10.)])):
        for sg in (1, -1):
            rot = [sg * r for r in R if h > p * gcr / 2 * math.sin(r * D) + .1 * p]
            a = np.array(rot, dtype=float)
            for u in (0, .1, .5, .8, 1):
                ctx.state(n=len(rot))
                ctx.step(len(rot))
                ctx.close(quiet(U.vf_ground_sky_2d, a, gcr, u, p, h, 60)[0], [G.ground_sky_point(r, gcr, u, p, h, 60) for r in rot],
                          'ground to sky point', atol=1e-7, cfg=(gcr, h, p, u))
            for g0, g1 in ((0, 1), (0., .3), (.4, .6), (.75, 1.)):
                exp = [G.ground_sky(r, gcr, g0, g1, p, h, 60, 6) for r in rot]
                ctx.state(n=len(rot))
                ctx.step(2 * len(rot))
                ctx.close(quiet(U.vf_ground_sky_2d_integ, a, gcr, h, p, 60, g0=g0, g1=g1), exp, 'ground to sky', atol=2e-4, cfg=(gcr, h, p, g0, g1))
                ctx.close([float(quiet(U.vf_ground_sky_2d_integ, float(r), gcr, h, p, 60, g0=g0, g1=g1)) for r in rot[:3]], exp[:3],
                          'ground to sky scalar', atol=2e-4)
    m = quiet(U.vf_ground_sky_2d, np.array([10., -40]), .5, np.array([.2, .7]), 3., 1.5, 60)
    ctx.close(m, [[G.ground_sky_point(r, .5, u, 3., 1.5, 60) for r in (10., -40)] for u in (.2, .7)], 'ground to sky matrix', atol=1e-7)
    for h, p in ((1., 200.), (2., 1000.)):
        ctx.close(quiet(U.vf_ground_sky_2d_integ, 30., 1. / p, h, p, 5), 1, 'open ground sees the sky', atol=.02)


@case(CASES)
def ground_shadow(ctx):
    """Lit share of the ground for every rotation and projected sun angle."""
    R = ctx.pick([-90, -60.5, -20, 0, 20, 45, 90, 150], list(range(-180, 181, 15)) + [33.3])
    PH = ctx.pick([-84.9, -80, -45.5, 0, 20, 60, 75.3, 84.9, 84.99, 85.01, 89, -88], [x + .1 for x in range(-89, 90, 4)] + [84.9, 84.99, -84.99, 85.01, 0])
    for gcr in ctx.pick([.2, .5, .97, 1.], [.05, .2, .35, .5, .8, .9, .95, .97, .99, 1.]):
        g = np.array(list(itertools.product(R, PH)), dtype=float)
        exp = np.array([G.lit_ground(r, w, gcr, 0., 1., 0., 1.) for r, w in g])
        ctx.state(n=len(g))
        ctx.step(len(g))
        got = quiet(U._unshaded_ground_fraction, g[:, 0], g[:, 1], gcr)
        ctx.close(got, exp, 'lit ground', atol=1e-8, gcr=gcr)
        area = np.array([1 - min(1., gcr * abs(math.cos((r - w) * D) / math.cos(w * D))) if abs(w) <= 85 else 0. for r, w in g])
        ctx.close(exp, area, 'reference self-check', atol=1e-8)
        for h, p in ((1.5, 3.), (.8, 4.)):
            for g0, g1 in ((0., .25), (.3, .9), (.9, 1.)):
                sel = g[np.abs(g[:, 1]) < 80]
                e = [G.lit_ground(r, w, gcr, h, p, g0, g1) for r, w in sel]
                ctx.state(n=len(sel))
                ctx.step(len(sel))
                ctx.close(quiet(U._unshaded_ground_fraction, sel[:, 0], sel[:, 1], gcr, height=h, pitch=p, g0=g0, g1=g1), e, 'lit ground segment',
                          atol=1e-8, cfg=(gcr, h, p, g0, g1))
    lattice(ctx, 'projection tangent', U._solar_projection_tangent,
            lambda solar_zenith, solar_azimuth, surface_azimuth: math.tan(solar_zenith * D) * math.cos((solar_azimuth - surface_azimuth) * D),
            dict(solar_zenith=[0, 10, 45.5, 80, 89], solar_azimuth=[0, 90, 135, 180, 300.5], surface_azimuth=[0, 90, 180, 255]), forms=F)


def circumsolar(dhi, dni, ext, zen):
    """Hay-Davies circumsolar part of a horizontal and of a normal surface."""
    A = dni / ext
    cz = max(math.cos(zen * D), 0)
    return A * dhi * cz / max(math.cos(zen * D), .01745), A * dhi / max(math.cos(zen * D), .01745)


def side(tilt, az, zen, saz, gcr, h, p, ghi, dhi, dni, albedo, model, ext, iam, vf):
    """Scalar balance of one face; vf: (row sky, row ground, ground sky)."""
    if model == 'haydavies':
        ch, cn = circumsolar(dhi, dni, ext, zen)
        dhi, dni = dhi - ch, dni + cn
    s = (math.sin(zen * D) * math.cos((saz - az) * D), math.cos(zen * D))      # towards the facing azimuth, up
    w = math.degrees(math.atan(s[0] / s[1])) if zen < 90 else None
    ci = math.cos(tilt * D) * s[1] + math.sin(tilt * D) * s[0]
    lit = G.lit_ground(tilt, w, gcr, 0., 1., 0., 1.)
    ground = albedo * (lit * (ghi - dhi) + vf[2] * dhi)
    sh = G.shade(w, tilt, gcr)
    room = gcr * (math.sin(tilt * D) * math.tan(w * D) + math.cos(tilt * D))
    if ci <= 0:
        sh = 1. if room > 1 else 0.
    direct = dni * max(ci, 0) * (1 - sh) * iam
    sky, gnd = dhi * vf[0], ground * vf[1]
    return dict(poa_global=direct + sky + gnd, poa_direct=direct, poa_diffuse=sky + gnd, poa_sky_diffuse=sky, poa_ground_diffuse=gnd,
                shaded_fraction=sh)


def vfs(tilt, gcr, h, p, cache={}):
    k = (tilt, gcr, h, p)
    if k not in cache:
        rows = int(math.ceil(h / (p * math.tan(5 * D))))
        cache[k] = (G.quad(lambda x: G.row_sky_point(tilt, gcr, x), 0, 1, 4),
                    float(U.vf_row_ground_2d_integ(float(tilt), gcr)),
                    float(U.vf_ground_sky_2d_integ(float(tilt), gcr, h, p, rows)))
    return cache[k]


SUN = [(0., 180.), (30., 180.), (45.5, 90.), (60., 270.), (75., 200.), (84., 100.), (86., 250.), (30., 0.), (89., 180.)]
SUNT = [(float(z) + .01, float(a)) for z in (0, 15, 30, 45, 60, 70, 80, 84, 86, 89) for a in (0, 60, 90, 120, 180, 210, 270, 333)]
IRR = [(0., 0.), (600., 200.), (850., 80.), (0., 120.)]
KEYS = ['poa_global', 'poa_direct', 'poa_diffuse', 'poa_sky_diffuse', 'poa_ground_diffuse', 'shaded_fraction']


def points(ctx):
    tilts = ctx.pick([0., 20., 60., 90.], [0., 5., 20., 45., 60., 80., 90.])
    azs = ctx.pick([180., 90.], [180., 90., 0., 265.])
    pts = []
    for t, a, (z, sa), (dni, dhi) in itertools.product(tilts, azs, ctx.pick(SUN, SUNT), IRR):
        pts.append((t, a, z, sa, dhi + dni * math.cos(z * D), dhi, dni))
    return pts


@case(CASES)
def finite_rows(ctx):
    """max_rows is the number of rows counted on each side."""
    for n, gcr, (h, p) in itertools.product((1, 2, 3, 10), (.2, .6), [(1.5, 4.), (3., 5.)]):
        rot = [sg * r for r in (0, 20, 60, 90, 150, 180) for sg in (1, -1) if h > p * gcr / 2 * math.sin(r * D) + .1 * p]
        a = np.array(rot, dtype=float)
        ctx.state(n=len(rot))
        ctx.step(2 * len(rot))
        for u in (0, .3, .8, 1):
            ctx.close(quiet(U.vf_ground_sky_2d, a, gcr, u, p, h, n)[0], [G.ground_sky_point(r, gcr, u, p, h, n) for r in rot],
                      'ground to sky point, counted rows', atol=1e-7, cfg=(n, gcr, h, p, u))
        for g0, g1 in ((0, 1), (0., .3), (.75, 1.)):
            ctx.close(quiet(U.vf_ground_sky_2d_integ, a, gcr, h, p, n, g0=g0, g1=g1), [G.ground_sky(r, gcr, g0, g1, p, h, n, 6) for r in rot],
                      'ground to sky, counted rows', atol=2e-4, cfg=(n, gcr, h, p, g0, g1))
        if n == 10:
            ctx.close(quiet(U.vf_ground_sky_2d_integ, a, gcr, h, p), quiet(U.vf_ground_sky_2d_integ, a, gcr, h, p, 10), 'ten rows unless told')
            ctx.close(quiet(U.vf_ground_sky_2d, a, gcr, .3, p, h), quiet(U.vf_ground_sky_2d, a, gcr, .3, p, h, 10), 'ten rows unless told')
        for (x0, x1), (g0, g1) in itertools.product([(0., 1.), (.5, 1.)], [(0., .3), (.4, 1.)]):
            ctx.close(np.asarray(quiet(U.vf_row_ground_2d_integ, a, gcr, h, p, x0, x1, n, g0, g1)).ravel(),
                      [G.row_ground_segment(r, gcr, h, p, x0, x1, g0, g1, n, 4) for r in rot], 'row to ground, counted rows', atol=5e-4,
                      cfg=(n, gcr, h, p, x0, x1, g0, g1))


@case(CASES)
def one_side(ctx):
    """get_irradiance_poa for both faces on every configuration."""
    pts = points(ctx)
    A = np.array(pts)
    for gcr, (h, p), albedo, model, iam in itertools.product(ctx.pick([.3, .7], [.1, .3, .5, .7, .95]), [(1.5, 4.), (2., 10.)], [0., .25], ['isotropic', 'haydavies'], [1., .93]):
        if iam != 1 and (albedo == 0 or gcr != .7):
            continue
        for back in (False, True):
            tilt = 180 - A[:, 0] if back else A[:, 0]
            az = (A[:, 1] + 180) % 360 if back else A[:, 1]
            kw = dict(gcr=gcr, height=h, pitch=p, albedo=albedo, model=model, iam=iam)
            if model == 'haydavies':
                kw['dni_extra'] = 1367.
            args = [tilt, az, A[:, 2], A[:, 3]]
            irr = dict(ghi=A[:, 4], dhi=A[:, 5], dni=A[:, 6])
            exp = [side(t, a, *q[2:4], gcr, h, p, *q[4:], albedo, model, 1367., iam, vfs(t, gcr, h, p)) for t, a, q in zip(tilt, az, pts)]
            ctx.state(n=len(pts))
            ctx.step(len(pts))
            before = [x.copy() for x in args] + [x.copy() for x in irr.values()]
            r = quiet(B.get_irradiance_poa, *args, **irr, **kw)
            ctx.expect(all(same_value(x, y) for x, y in zip(args + list(irr.values()), before)), 'input modified')
            ctx.expect(set(r) == set(KEYS), 'one side outputs')
            edge = np.array([abs(abs(math.degrees(math.atan(math.tan(q[2] * D) * math.cos((q[3] - a) * D)))) - 85) < 1e-6 or
                             abs(math.cos(t * D) * math.cos(q[2] * D) + math.sin(t * D) * math.sin(q[2] * D) * math.cos((q[3] - a) * D)) < 1e-9
                             for t, a, q in zip(tilt, az, pts)])
            for k in KEYS:
                e = np.array([x[k] for x in exp])
                ctx.close(np.asarray(r[k])[~edge], e[~edge], f'{model} {"back" if back else "front"} {k}', rtol=1e-6, atol=1e-4, cfg=str(kw))
            ctx.close(r['poa_global'], r['poa_direct'] + r['poa_diffuse'], 'one side closure')
            ctx.close(r['poa_diffuse'], r['poa_sky_diffuse'] + r['poa_ground_diffuse'], 'one side diffuse closure')
            f = np.asarray(r['shaded_fraction'])
            ctx.expect(bool(((f >= 0) & (f <= 1)).all()), 'shaded fraction outside [0, 1]')
    ctx.raises(ValueError, lambda: B.get_irradiance_poa(20, 180, 30, 180, .4, 1, 4, 500, 100, 500, .2, model='haydavies'), 'haydavies without extra')


@case(CASES)
def both_sides(ctx):
    """get_irradiance: front and rear of the same plane and their combination,
    in every input form, with every option."""
    pts = points(ctx)[::ctx.pick(3, 1)]
    A = np.array(pts)
    idx = dt_index(len(pts))
    base = dict(gcr=.45, height=1.5, pitch=4., albedo=.25)
    opts = [{}, dict(bifaciality=.7), dict(shade_factor=-.1), dict(transmission_factor=-.05), dict(bifaciality=0.), dict(iam_front=.9), dict(iam_back=.8),
            dict(model='haydavies', dni_extra=1361.), dict(bifaciality=.65, shade_factor=-.04, transmission_factor=-.13, iam_front=.97, iam_back=.96)]
    for o in opts:
        kw = dict(base, **o)
        com = {k: kw[k] for k in ('gcr', 'height', 'pitch', 'albedo')}
        if 'model' in o:
            com.update(model=o['model'], dni_extra=o['dni_extra'])
        front = quiet(B.get_irradiance_poa, A[:, 0], A[:, 1], A[:, 2], A[:, 3], ghi=A[:, 4], dhi=A[:, 5], dni=A[:, 6], iam=o.get('iam_front', 1.), **com)
        back = quiet(B.get_irradiance_poa, 180 - A[:, 0], (180 + A[:, 1]) % 360, A[:, 2], A[:, 3], ghi=A[:, 4], dhi=A[:, 5], dni=A[:, 6],
                     iam=o.get('iam_back', 1.), **com)
        exp = {}
        for nm, s in (('front', front), ('back', back)):
            exp[f'poa_{nm}'] = s['poa_global']
            for k in ('direct', 'diffuse', 'sky_diffuse', 'ground_diffuse'):
                exp[f'poa_{nm}_{k}'] = s[f'poa_{k}']
            exp[f'shaded_fraction_{nm}'] = s['shaded_fraction']
        exp['poa_global'] = exp['poa_front'] + exp['poa_back'] * o.get('bifaciality', .8) * (1 + o.get('shade_factor', -.02)) * (1 + o.get('transmission_factor', 0))
        ctx.state(n=len(pts))
        for form in ('array', 'series', 'scalar'):
            ctx.step(len(pts))
            if form == 'scalar':
                sel = range(0, len(pts), ctx.pick(17, 5))
                for i in sel:
                    t, a, z, sa, ghi, dhi, dni = pts[i]
                    r = quiet(B.get_irradiance, t, a, z, sa, ghi=ghi, dhi=dhi, dni=dni, **kw)
                    for k in exp:
                        ctx.close(float(np.asarray(r[k]).reshape(-1)[0]), exp[k][i], f'scalar {k}', rtol=1e-8, atol=1e-6, point=pts[i])
                continue
            cols = [A[:, j] if form == 'array' else pd.Series(A[:, j], index=idx) for j in range(7)]
            r = quiet(B.get_irradiance, *cols[:4], ghi=cols[4], dhi=cols[5], dni=cols[6], **kw)
            if form == 'series':
                ctx.expect(isinstance(r, pd.DataFrame) and r.index.equals(idx), 'series frame')
                ctx.expect(set(r.columns) == set(exp), 'series columns')
            for k in exp:
                ctx.close(np.asarray(r[k]), exp[k], f'{form} {k}', rtol=1e-8, atol=1e-6, opt=str(o))
            if form == 'series':
                # fixed geometry given as scalars
                j = 0
                t, a = pts[j][:2]
                sel = (A[:, 0] == t) & (A[:, 1] == a)
                q = quiet(B.get_irradiance, t, a, *[c[sel] for c in cols[2:4]], ghi=cols[4][sel], dhi=cols[5][sel], dni=cols[6][sel], **kw)
                for k in exp:
                    ctx.close(np.asarray(q[k]), exp[k][sel], f'fixed geometry {k}', rtol=1e-8, atol=1e-6)
                ctx.expect(q.index.equals(idx[sel]), 'fixed geometry index')
    alb = np.where(np.arange(len(pts)) % 2, .6, .1)
    r = quiet(B.get_irradiance, *[A[:, j] for j in range(4)], ghi=A[:, 4], dhi=A[:, 5], dni=A[:, 6], **dict(base, albedo=alb))
    for v in (.1, .6):
        q = quiet(B.get_irradiance, *[A[:, j] for j in range(4)], ghi=A[:, 4], dhi=A[:, 5], dni=A[:, 6], **dict(base, albedo=v))
        ctx.close(r['poa_global'][alb == v], q['poa_global'][alb == v], 'albedo array', rtol=1e-9)


@case(CASES)
def isolated(ctx):
    """Widely spaced rows give the transposition of an isolated plane."""
    for t, a, z, sa, ghi, dhi, dni in points(ctx)[::ctx.pick(2, 1)]:
        ctx.state((t, a, z, sa, dni))
        ctx.step()
        if z > 84:
            continue
        ci = math.cos(t * D) * math.cos(z * D) + math.sin(t * D) * math.sin(z * D) * math.cos((sa - a) * D)
        r = quiet(B.get_irradiance, t, a, z, sa, 1e-4, 1., 1e4, ghi, dhi, dni, .2)
        for nm, sg in (('front', 1), ('back', -1)):
            vs, vg = (1 + sg * math.cos(t * D)) / 2, (1 - sg * math.cos(t * D)) / 2
            for k, e in (('direct', dni * max(sg * ci, 0)), ('sky_diffuse', dhi * vs), ('ground_diffuse', ghi * .2 * vg)):
                ctx.close(float(np.asarray(r[f'poa_{nm}_{k}']).reshape(-1)[0]), e, f'isolated {nm} {k}', rtol=5e-3, atol=.2, point=(t, a, z, sa))


@case(CASES)
def mismatch(ctx):
    P = np.polynomial.Polynomial
    X = [0, .01, .05, .25, 1]
    for co in (None, (0, .142, 3.2), [.1, 2.], (0., 1., 0., 5.), P([0, .2, .3])):
        for ff, fr in ((None, None), (.79, None), (.6, None), (.65, .8)):
            kw = {}
            if co is not None:
                kw['coefficients'] = co
            if ff is not None:
                kw['fill_factor'] = ff
            if fr is not None:
                kw['fill_factor_reference'] = fr
            c = (0, .142, 3.2) if co is None else co.coef if isinstance(co, P) else co
            k = 1 if ff is None else ff / (fr or .79)
            lattice(ctx, f'mismatch {co} {ff} {fr}', lambda **q: loss_models.power_mismatch_deline(**q, **kw),
                    lambda rmad: k * sum(v * rmad ** i for i, v in enumerate(c)), dict(rmad=X), forms=('array', 'series', 'scalar', 'len1', 'int'))
            if isinstance(co, P):
                ctx.close(co.coef, [0, .2, .3], 'mismatch changed the polynomial')
