"""Lattice rotation x sun x slopes x ground cover x height x segmentation x
albedo x sky model x input forms for the ANTS-2D model; oracle: independent
scene geometry (explicit terrain frame, shadows, balance), invariants (closure,
refinement, scene rotation, mirror) and representation equivalence."""
import itertools
import math

import numpy as np
import pandas as pd

from mc.core import case, quiet, dt_index, same_value, deepcopy
from mc.ref import geo2d as G, irr as R, atm as A
from mc.checks.K01 import axes_of, dot, sun
from pvlib import atmosphere, irradiance
from pvlib.bifacial import ants2d as B, utils as U

CASES = []
nan = math.nan
D = math.pi / 180
KEYS = [f'{a}_{s}{b}' for s in ('front', 'back') for a, b in (
    ('poa', ''), ('poa', '_direct'), ('poa', '_diffuse'), ('poa', '_sky_diffuse'), ('poa', '_ground_diffuse'))] + \
    ['shaded_fraction_front', 'shaded_fraction_back']


def wrap(a):
    return (a + 180) % 360 - 180


def split(model, dni, dhi, zen, saz, ext, am):
    if model == 'isotropic':
        return dni, dhi
    if model == 'haydavies':
        f = lambda t, a: R.haydavies(t, a, dhi, dni, ext, zen, saz)
    elif model == 'perez':
        f = lambda t, a: R.perez(t, a, dhi, dni, ext, zen, saz, am)
    else:
        f = lambda t, a: R.perez_driesse(t, a, dhi, dni, ext, zen, saz, am)
    return dni + f(zen, saz)['poa_circumsolar'], dhi - f(0, 180)['poa_circumsolar']


def segs(n):
    return [(i / n, (i + 1) / n) for i in range(n)] if isinstance(n, int) else list(n)


VFC = {}


def vf(kind, fn, *key):
    k = (kind,) + key
    if k not in VFC:
        VFC[k] = fn()
    return VFC[k]


def model_2d(rot, axis_az, zen, saz, gcr, h, p, ghi, dhi, dni, albedo, model='perez', ext=1366., am=None,
             rows=((0., 1.),), ground=tuple(segs(10)), axis_tilt=0., slope=0., max_rows=None):
    """albedo: one value per ground segment."""
    x, y, z = axes_of(axis_tilt, axis_az)
    s = sun(zen, saz)
    if am is None:
        am = A.relative_airmass(zen)
    dn, dh = split(model, dni, dhi, zen, saz, ext, am)
    front = tuple(math.sin(rot * D) * a + math.cos(rot * D) * b for a, b in zip(x, z))
    sx, sz = dot(s, x), dot(s, z)
    phi = math.degrees(math.atan2(sx, sz)) - slope
    if axis_tilt or slope:
        n = tuple(math.sin(slope * D) * a + math.cos(slope * D) * b for a, b in zip(x, z))
        h, p, gcr = h * n[2], p / math.cos(slope * D), gcr * math.cos(slope * D)
        trot = wrap(rot - slope)
        ghi = dh + dn * max(dot(n, s), 0)
    else:
        trot = rot
    if max_rows is None:
        max_rows = math.ceil(h / (p * math.tan(4 * D)))
    lit = [G.lit_ground(trot, phi, gcr, h, p, g0, g1) for g0, g1 in ground]
    sky = [vf('gs', lambda: float(quiet(U.vf_ground_sky_2d_integ, trot, gcr, h, p, max_rows, g0=g0, g1=g1)), trot, gcr, h, p, max_rows, g0, g1)
           for g0, g1 in ground]
    gd = [l * (ghi - dh) for l in lit]
    gf = [v * dh for v in sky]
    out = {k: [] for k in KEYS}
    for side, sgn in (('front', 1), ('back', -1)):
        r = trot if sgn == 1 else wrap(trot + 180)
        c = max(sgn * dot(front, s), 0)
        f = G.shade(phi, trot, gcr)
        for a, b in rows:
            x0, x1 = (a, b) if sgn == 1 else (1 - b, 1 - a)
            l0, l1 = (x0, x1) if r >= 0 else (1 - x1, 1 - x0)
            sf = min(1., max(0., (f - l0) / (l1 - l0)))
            direct = dn * c * (1 - sf)
            skyv = dh * vf('rs', lambda: G.quad(lambda q: G.row_sky_point(r, gcr, q), x0, x1, 4), r, gcr, x0, x1)
            gv = sum(al * (d + e) * vf('rg', lambda: float(quiet(U.vf_row_ground_2d_integ, r, gcr, h, p, x0, x1, max_rows, g0, g1)),
                                       r, gcr, h, p, x0, x1, max_rows, g0, g1)
                     for al, d, e, (g0, g1) in zip(albedo, gd, gf, ground))
            for k, v in ((f'poa_{side}', direct + skyv + gv), (f'poa_{side}_direct', direct), (f'poa_{side}_diffuse', skyv + gv),
                         (f'poa_{side}_sky_diffuse', skyv), (f'poa_{side}_ground_diffuse', gv), (f'shaded_fraction_{side}', sf)):
                out[k].append(v)
    return out, dict(ground_direct=gd, ground_diffuse=gf)


ROT = [0., 20., -35.5, 60., 90., -90., 120., -170.]
SUNS = [(20., 100.), (55., 95.), (55., 265.), (80., 250.), (40., 180.), (89., 80.), (100., 90.)]
GEO = [(.4, 1.5, 4.), (.7, 1., 2.5)]
IRR = [(600., 150., 700.), (300., 300., 0.), (0., 0., 0.)]
MODELS = ('isotropic', 'haydavies', 'perez', 'perez-driesse')


def usable(rot, axis_az, zen, saz, slope, tilt, gcr, dni, dhi, model):
    """Points away from switching ties (sun in the plane of the rows/on the
    shading limit) and where the sky model is defined."""
    x, _, z = axes_of(tilt, axis_az)
    s = sun(zen, saz)
    phi = math.degrees(math.atan2(dot(s, x), dot(s, z))) - slope
    if abs(abs(phi) - 90) < .01 or abs(abs(phi) - 85) < .01:
        return False
    if abs(math.cos((rot - slope - phi) * D)) < 1e-6:
        return False
    if zen > 90 and model != 'isotropic':
        return False
    if model.startswith('perez') and dhi == 0:
        return False
    return True


def run_points(ctx, P, rows, ground, albedo, model, key, ground_out=False, **kw):
    """P: list of (rot, axis_az, zen, saz, ghi, dhi, dni, ext); one vector call
    on the real code against the reference at every point."""
    gcr, h, p = kw['gcr'], kw['height'], kw['pitch']
    cols = list(zip(*P))
    args = dict(zip(('tracker_rotation', 'axis_azimuth', 'solar_zenith', 'solar_azimuth', 'ghi', 'dhi', 'dni', 'dni_extra'),
                    [np.array(c, dtype=float) for c in cols]))
    ng = len(segs(ground))
    before = deepcopy(args)
    got, gg = quiet(B.get_irradiance, **args, albedo=albedo, model=model, row_segments=rows, ground_segments=ground,
                    return_ground_components=True, **kw)
    ctx.state(n=len(P))
    ctx.step(len(P))
    for k in args:
        ctx.expect(same_value(args[k], before[k]), f'{key}/mutated {k}', '')
    al = np.broadcast_to(np.asarray(albedo, dtype=float), (ng, len(P)))
    exp = [model_2d(q[0], q[1], q[2], q[3], gcr, h, p, q[4], q[5], q[6], al[:, i], model, q[7], None, segs(rows), segs(ground),
                    kw.get('axis_tilt', 0), kw.get('cross_axis_slope', 0), kw.get('max_rows')) for i, q in enumerate(P)]
    ctx.expect(sorted(got) == sorted(KEYS), f'{key}/names', str(sorted(got)))
    for k in KEYS:
        e = np.array([v[0][k] for v in exp]).T
        g = np.asarray(got[k])
        if rows == 1:
            ctx.expect(g.shape == (len(P),), f'{key}/{k} shape', str(g.shape))
            e = e[0]
        # back orientation: rounding of the direction to the sun behind the plane
        ctx.close(g, e, f'{key}/{k}', rtol=1e-6, atol=1e-6, kw=kw, rows=rows, ground=ground, model=model, P=P[:3])
        ctx.outcome((k, float(np.round(e.max(), 2)), float(np.round(e.min(), 2))))
    for k in ('ground_direct', 'ground_diffuse'):
        e = np.array([v[1][k] for v in exp]).T
        g = np.asarray(gg[k])
        if ground == 1:
            e = e[0]
        ctx.close(g, e, f'{key}/{k}', rtol=1e-6, atol=1e-6, kw=kw, P=P[:3])
    # closure and ranges on the real outputs
    for s in ('front', 'back'):
        ctx.close(got[f'poa_{s}'], got[f'poa_{s}_direct'] + got[f'poa_{s}_diffuse'], f'{key}/closure {s}', atol=1e-9)
        ctx.close(got[f'poa_{s}_diffuse'], got[f'poa_{s}_sky_diffuse'] + got[f'poa_{s}_ground_diffuse'], f'{key}/diffuse closure {s}', atol=1e-9)
        f = np.asarray(got[f'shaded_fraction_{s}'])
        ctx.expect(bool(((f >= 0) & (f <= 1)).all()), f'{key}/fraction range {s}', '')
    return got


@case(CASES)
def flat_ground(ctx):
    rots = ctx.pick(ROT, [0., 3., 20., -20., -35.5, 45., 60., -75., 90., -90., 91., 120., -150., -170., 179.])
    suns = ctx.pick(SUNS, SUNS + [(10., 271.), (70., 92.), (84., 268.), (86., 92.), (0.5, 10.)])
    for model in MODELS:
        for gcr, h, p in ctx.pick(GEO + [(.2, 2., 5.)], GEO + [(.2, 2., 5.), (.95, .8, 1.)]):
            P = [(r, az, z, sa + az - 180, g, dh, dn, 1350.) for r in rots for az in ctx.pick([180., 90.], [180., 90., 0., 222.]) for z, sa in suns
                 for g, dh, dn in IRR if usable(r, az, z, sa + az - 180, 0, 0, gcr, dn, dh, model)]
            for rows, ground in ctx.pick([(1, 10), (3, 1)], [(1, 10), (3, 1), (2, 4), (5, 2)]):
                run_points(ctx, P, rows, ground, .2, model, 'flat', gcr=gcr, height=h, pitch=p)


@case(CASES)
def sloped_ground(ctx):
    rots = ctx.pick([20., -45., 90., -175., 0.], [0., 20., -45., 60., -90., 90., 120., -170., -175., 178.])
    for at, sl in ctx.pick([(10., 0.), (0., 8.), (0., -8.), (12., 9.), (12., -9.)], [(10., 0.), (0., 8.), (0., -8.), (12., 9.), (12., -9.), (30., 20.), (-5., 15.)]):
        for model in ctx.pick(('isotropic', 'perez'), MODELS):
            gcr, h, p = GEO[0]
            P = [(r, az, z, sa + az - 180, g, dh, dn, 1350.) for r in rots for az in (180., 130.) for z, sa in SUNS
                 for g, dh, dn in IRR[:2] if usable(r, az, z, sa + az - 180, sl, at, gcr, dn, dh, model) and r != sl]
            run_points(ctx, P, 2, 3, .25, model, 'slope', gcr=gcr, height=h, pitch=p, axis_tilt=at, cross_axis_slope=sl)


@case(CASES)
def segmentations(ctx):
    """Lists of pairs in any order, unequal segments, albedo per segment and per time,
    max_rows, and consistency of every refinement."""
    gcr, h, p = GEO[0]
    P = [(r, 180., z, sa, 600., 150., 700., 1350.) for r in ROT for z, sa in SUNS[:5] if usable(r, 180., z, sa, 0, 0, gcr, 700, 150, 'haydavies')]
    n = len(P)
    rowsets = [2, [(0., .3), (.3, 1.)], [(.4, .6)], [(0., .1), (.1, .2), (.2, .9), (.9, 1.)], [(.5, 1.), (0., .6), (.1, .2)]]
    groundsets = [1, 4, [(0., .25), (.25, 1.)], [(0., .5), (.5, .6), (.6, 1.)], [(.6, 1.), (0., .5), (.5, .6)], [(.3, 1.), (0., .3)]]
    for rows, ground in itertools.product(rowsets, groundsets):
        ng = len(segs(ground))
        for al in (.3, np.linspace(.1, .5, ng)[:, None] * np.ones((1, n)), np.linspace(.1, .6, ng * n).reshape(ng, n)):
            run_points(ctx, P, rows, ground, al, 'haydavies', 'segments', gcr=gcr, height=h, pitch=p)
    for mr in (3, 12, 25):
        run_points(ctx, [q for q in P if q[2] < 60], 2, 3, .2, 'isotropic', 'max rows', gcr=gcr, height=h, pitch=p, max_rows=mr)
    # refinement
    cols = list(zip(*P))
    a = dict(zip(('tracker_rotation', 'axis_azimuth', 'solar_zenith', 'solar_azimuth', 'ghi', 'dhi', 'dni', 'dni_extra'),
                 [np.array(c, dtype=float) for c in cols]))
    for at, sl in ((0., 0.), (5., 6.), (0., -6.)):
        kw = dict(gcr=gcr, height=h, pitch=p, albedo=.2, model='haydavies', axis_tilt=at, cross_axis_slope=sl, max_rows=30)
        one = quiet(B.get_irradiance, **a, **kw)
        for rs in ctx.pick((2, 5, [(0., .15), (.15, .7), (.7, 1.)]), (2, 3, 5, 8, 13, [(0., .15), (.15, .7), (.7, 1.)])):
            w = np.array([x1 - x0 for x0, x1 in segs(rs)])
            m = quiet(B.get_irradiance, **a, **kw, row_segments=rs)
            ctx.state(n=n)
            ctx.step(n)
            for k in KEYS:
                if k.endswith(('direct', 'sky_diffuse')) or 'shaded' in k:
                    ctx.close((m[k] * w[:, None]).sum(0), one[k], f'refine rows {k}', rtol=1e-7, atol=1e-7, rs=rs, slope=(at, sl))
                elif k.endswith('ground_diffuse'):
                    ctx.close((m[k] * w[:, None]).sum(0), one[k], f'refine rows {k}', rtol=2e-2, atol=.3, rs=rs, slope=(at, sl))
        for gs in (2, 5, 20):
            o, g = quiet(B.get_irradiance, **a, **kw, ground_segments=gs, return_ground_components=True)
            o1, g1 = quiet(B.get_irradiance, **a, **kw, ground_segments=1, return_ground_components=True)
            ctx.step(n)
            for k in g:
                ctx.close(np.asarray(g[k]).mean(0), np.asarray(g1[k]), f'refine ground {k}', rtol=5e-3, atol=.3, gs=gs)
            for k in KEYS:
                if 'ground' not in k and k not in ('poa_front', 'poa_back', 'poa_front_diffuse', 'poa_back_diffuse'):
                    ctx.close(o[k], o1[k], f'ground segmentation does not touch {k}', rtol=1e-9)


@case(CASES)
def symmetries(ctx):
    """Rotating the whole scene; mirroring it across the vertical plane of the axis."""
    gcr, h, p = GEO[0]
    rows = [(0., .2), (.2, .7), (.7, 1.)]
    mrows = [(1 - b, 1 - a) for a, b in rows]
    gr = [(0., .3), (.3, 1.)]
    mgr = [(0., .7), (.7, 1.)]
    al, mal = np.array([[.1], [.4]]), np.array([[.4], [.1]])
    for model in MODELS:
        for at, sl in ((0., 0.), (7., 0.), (0., 5.), (7., -5.)):
            P = [(r, z, sa, g, dh, dn) for r in ROT if r != sl for z, sa in SUNS for g, dh, dn in IRR[:2] if usable(r, 180., z, sa, sl, at, gcr, dn, dh, model)
                 and not (r in (0., 90., -90.) and sl != 0)]
            r, z, sa, g, dh, dn = [np.array(c, dtype=float) for c in zip(*P)]
            kw = dict(gcr=gcr, height=h, pitch=p, model=model, dni_extra=1350., axis_tilt=at)
            base = quiet(B.get_irradiance, r, 180., z, sa, ghi=g, dhi=dh, dni=dn, albedo=al, row_segments=rows, ground_segments=gr, cross_axis_slope=sl, **kw)
            for d in ctx.pick((90., -130.), (15., 90., 180., -130., 269.)):
                ctx.state(n=len(P))
                ctx.step(len(P))
                o = quiet(B.get_irradiance, r, 180. + d, z, sa + d, ghi=g, dhi=dh, dni=dn, albedo=al, row_segments=rows, ground_segments=gr, cross_axis_slope=sl, **kw)
                for k in KEYS:
                    ctx.close(o[k], base[k], f'scene rotation {k}', rtol=1e-6, atol=1e-6, d=d, model=model, tilt=at, slope=sl)
            # axis points to 180 (south): mirror east-west maps azimuth to -azimuth;
            # a vertical or horizontal row keeps its left/right labels ambiguous
            ok = np.abs(r) != 180
            o = quiet(B.get_irradiance, -r, 180., z, -sa, ghi=g, dhi=dh, dni=dn, albedo=mal, row_segments=mrows, ground_segments=mgr, cross_axis_slope=-sl, **kw)
            ctx.state(n=len(P))
            ctx.step(len(P))
            for k in KEYS:
                tol = dict(rtol=2e-2, atol=.5) if 'ground' in k or k in ('poa_front', 'poa_back', 'poa_front_diffuse', 'poa_back_diffuse') else dict(rtol=1e-6, atol=1e-6)
                ctx.close(o[k][:, ok], base[k][:, ok], f'mirror {k}', model=model, tilt=at, slope=sl, **tol)


@case(CASES)
def forms(ctx):
    gcr, h, p = GEO[0]
    for model in MODELS:
        for at, sl in ((0., 0.), (6., 7.)):
            P = [(r, 180., z, sa, g, dh, dn) for r in ROT[:6] for z, sa in SUNS[:5] for g, dh, dn in IRR[:2] if usable(r, 180., z, sa, sl, at, gcr, dn, dh, model)]
            n = len(P)
            names = ('tracker_rotation', 'axis_azimuth', 'solar_zenith', 'solar_azimuth', 'ghi', 'dhi', 'dni')
            arr = dict(zip(names, [np.array(c, dtype=float) for c in zip(*P)]))
            arr['axis_azimuth'] = 180.
            kw = dict(gcr=gcr, height=h, pitch=p, albedo=.2, model=model, axis_tilt=at, cross_axis_slope=sl, dni_extra=1350.)
            base, gbase = quiet(B.get_irradiance, **arr, **kw, return_ground_components=True)
            ctx.state(n=n)
            ctx.step(n)
            ctx.expect(isinstance(base, dict) and all(isinstance(v, np.ndarray) for v in base.values()), 'arrays: dict of arrays', str(type(base)))
            for idx in (dt_index(n), pd.RangeIndex(5, 5 + n), pd.Index([f'r{i % 7}' for i in range(n)]), dt_index(n)[::-1]):
                for which in (names, ('ghi',), ('tracker_rotation',), ('solar_zenith', 'solar_azimuth')):
                    ser = {k: (pd.Series(v, index=idx) if k in which and k != 'axis_azimuth' else v) for k, v in arr.items()}
                    before = deepcopy(ser)
                    o, og = quiet(B.get_irradiance, **ser, **kw, return_ground_components=True)
                    ctx.step(n)
                    ctx.expect(isinstance(o, pd.DataFrame) and o.index.equals(idx) and sorted(o.columns) == sorted(KEYS), 'series: frame', str(type(o)))
                    for k in KEYS:
                        ctx.close(o[k], base[k], f'series {k}', rtol=1e-12, which=which)
                    for k in og:
                        ctx.close(np.asarray(og[k]), gbase[k], f'series {k}', rtol=1e-12)
                    ctx.expect(isinstance(og, dict), 'ground: dict when several segments', str(type(og)))
                    for k in ser:
                        ctx.expect(same_value(ser[k], before[k]), f'mutated {k}', '')
                    o, og = quiet(B.get_irradiance, **ser, **kw, ground_segments=1, return_ground_components=True)
                    ctx.expect(isinstance(og, pd.DataFrame) and og.index.equals(idx), 'ground: frame for one segment', str(type(og)))
                    o = quiet(B.get_irradiance, **ser, **kw, row_segments=2)
                    ctx.expect(isinstance(o, dict) and all(np.shape(v) == (2, n) for v in o.values()), 'series with segments: dict of arrays', str(type(o)))
            for i in range(0, n, 3):
                sc = {k: (v if k == 'axis_azimuth' else float(v[i])) for k, v in arr.items()}
                o, og = quiet(B.get_irradiance, **sc, **kw, return_ground_components=True)
                ctx.step()
                ctx.expect(isinstance(o, dict) and all(isinstance(v, float) for v in o.values()), 'scalars: floats', str({k: type(v) for k, v in o.items()}))
                for k in KEYS:
                    ctx.close(o[k], base[k][i], f'scalar {k}', rtol=1e-12)
                for k in og:
                    ctx.close(og[k], gbase[k][:, i], f'scalar {k}', rtol=1e-12)
                o, og = quiet(B.get_irradiance, **sc, **kw, ground_segments=1, return_ground_components=True)
                ctx.expect(all(isinstance(v, float) for v in og.values()), 'ground: floats for one segment', '')
                l1 = {k: (v if k == 'axis_azimuth' else v[i:i + 1]) for k, v in arr.items()}
                o = quiet(B.get_irradiance, **l1, **kw)
                for k in KEYS:
                    ctx.close(o[k], base[k][i:i + 1], f'len1 {k}', rtol=1e-12)
                s1 = {k: (v if k == 'axis_azimuth' else pd.Series(v[i:i + 1], index=dt_index(1))) for k, v in arr.items()}
                o = quiet(B.get_irradiance, **s1, **kw)
                for k in KEYS:
                    ctx.close(o[k], base[k][i:i + 1], f'len1 series {k}', rtol=1e-12)
            # integers
            ii = {k: (180 if k == 'axis_azimuth' else np.round(v).astype(int)) for k, v in arr.items()}
            fl = {k: (180. if k == 'axis_azimuth' else np.round(v)) for k, v in arr.items()}
            o, e = quiet(B.get_irradiance, **ii, **kw), quiet(B.get_irradiance, **fl, **kw)
            for k in KEYS:
                ctx.close(o[k], e[k], f'integers {k}', rtol=1e-12)
            # missing values stay at their place
            for a in names:
                if a == 'axis_azimuth':
                    continue
                m = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in arr.items()}
                m[a][1::3] = nan
                o = quiet(B.get_irradiance, **m, **kw)
                keep = np.ones(n, bool)
                keep[1::3] = False
                ctx.step(n)
                for k in KEYS:
                    ctx.close(o[k][keep], base[k][keep], f'missing {a} elsewhere {k}', rtol=1e-12)
                if a in ('ghi', 'dhi'):
                    pass


@case(CASES)
def defaults_and_errors(ctx):
    gcr, h, p = GEO[0]
    idx = pd.DatetimeIndex(['2021-01-03 10:00', '2021-04-01 11:00', '2021-07-04 12:00', '2021-10-10 15:00']).tz_localize('Etc/GMT+7')
    z, sa = np.array([60., 40., 20., 70.]), np.array([150., 170., 185., 240.])
    rot = np.array([-30., -5., 10., 50.])
    ghi, dhi, dni = np.array([300., 500., 800., 200.]), np.array([80., 100., 90., 60.]), np.array([500., 600., 750., 400.])
    ext = np.array([R.extra(d) for d in idx.dayofyear])
    S = lambda v: pd.Series(v, index=idx)   # noqa
    for model in MODELS[1:]:
        want = quiet(B.get_irradiance, rot, 180., z, sa, gcr, h, p, ghi, dhi, dni, .2, model=model, dni_extra=ext,
                     airmass=np.array([A.relative_airmass(q) for q in z]))
        for which in range(4):
            a = [S(v) if (which == 0 or i == which) else v for i, v in enumerate([rot, z, ghi, dni])]
            o = quiet(B.get_irradiance, a[0], 180., a[1], sa, gcr, h, p, a[2], dhi, a[3], .2, model=model)
            ctx.state()
            ctx.step(4)
            for k in KEYS:
                ctx.close(o[k], want[k], f'default extraterrestrial irradiance {k}', rtol=1e-9, model=model)
        o = quiet(B.get_irradiance, rot, 180., z, sa, gcr, h, p, ghi, dhi, dni, .2, model=model, dni_extra=ext)
        for k in KEYS:
            ctx.close(o[k], want[k], f'default airmass {k}', rtol=1e-9, model=model)
        ctx.raises(ValueError, lambda: quiet(B.get_irradiance, rot, 180., z, sa, gcr, h, p, ghi, dhi, dni, .2, model=model), f'{model} needs dni_extra')
        ctx.raises(ValueError, lambda: quiet(B.get_irradiance, pd.Series(rot), 180., z, sa, gcr, h, p, ghi, dhi, dni, .2, model=model), f'{model} needs dni_extra: no times')
    d = quiet(B.get_irradiance, S(rot), 180., S(z), S(sa), gcr, h, p, S(ghi), S(dhi), S(dni), .2)
    w = quiet(B.get_irradiance, S(rot), 180., S(z), S(sa), gcr, h, p, S(ghi), S(dhi), S(dni), .2, model='perez', row_segments=1, ground_segments=10,
              axis_tilt=0, cross_axis_slope=0)
    for k in KEYS:
        ctx.close(d[k], w[k], f'documented defaults {k}', rtol=1e-12)
    for bad in ('reindl', 'Perez', '', None, 'king'):
        ctx.raises(ValueError, lambda: quiet(B.get_irradiance, 20., 180., 40., 170., gcr, h, p, 500., 100., 500., .2, model=bad, dni_extra=1360.), f'model {bad}')
    # airmass given changes the circumsolar share only through the model
    o = quiet(B.get_irradiance, rot, 180., z, sa, gcr, h, p, ghi, dhi, dni, .2, model='perez', dni_extra=ext, airmass=np.full(4, 1.3))
    for i in range(4):
        e, _ = model_2d(rot[i], 180., z[i], sa[i], gcr, h, p, ghi[i], dhi[i], dni[i], [.2] * 10, 'perez', ext[i], 1.3)
        for k in KEYS:
            ctx.close(np.asarray(o[k])[i], e[k][0], f'given airmass {k}', rtol=1e-6, atol=1e-6)


@case(CASES)
def sparse_limit(ctx):
    """A lone row: no shade, hemispherical view factors; energy is linear in
    the irradiance and albedo."""
    gcr, h, p = 1e-4, 10., 1e4
    for rot, (z, sa) in itertools.product((20., -40., 75.), [(30., 120.), (60., 240.)]):
        o = quiet(B.get_irradiance, rot, 180., z, sa, gcr, h, p, 600., 150., 520., .0, model='isotropic', ground_segments=1)
        n = tuple(math.sin(rot * D) * a + math.cos(rot * D) * b for a, b in zip(*axes_of(0, 180)[::2]))
        c = dot(n, sun(z, sa))
        ctx.state()
        ctx.step()
        ctx.close(o['poa_front'], 520 * max(c, 0) + 150 * (1 + math.cos(rot * D)) / 2, 'lone row front', rtol=1e-4)
        ctx.close(o['poa_back'], 520 * max(-c, 0) + 150 * (1 - math.cos(rot * D)) / 2, 'lone row back', rtol=1e-4)
    gcr, h, p = GEO[0]
    for r, (z, sa) in itertools.product(ROT, SUNS[:5]):
        if not usable(r, 180., z, sa, 0, 0, gcr, 1, 1, 'isotropic'):
            continue
        kw = dict(model='isotropic', row_segments=2, ground_segments=3)
        f = lambda g, d, b, al: quiet(B.get_irradiance, r, 180., z, sa, gcr, h, p, g, d, b, al, **kw)   # noqa
        a, b, c = f(500., 100., 600., .3), f(1000., 200., 1200., .3), f(500., 100., 600., .6)
        dark = f(0., 0., 0., .3)
        ctx.state()
        ctx.step(4)
        for k in KEYS:
            if 'shaded' in k:
                ctx.close(b[k], a[k], 'shade independent of irradiance')
                continue
            ctx.close(b[k], 2 * a[k], f'linear in irradiance {k}', rtol=1e-9)
            ctx.close(dark[k], 0, f'dark {k}', atol=1e-12)
            if 'ground' in k:
                ctx.close(c[k], 2 * a[k], f'linear in albedo {k}', rtol=1e-9)
