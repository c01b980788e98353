"""Lattice sun position x axis tilt/azimuth x rotation limits x ground cover x
cross-axis tilt x backtracking x input form; oracle: vectors (axis frame built
from its documented directions), two-dimensional shadow geometry of
neighbouring rows, and minimality of the incidence angle over all rotations."""
import itertools
import math

import numpy as np
import pandas as pd

from mc.core import case, lattice, quiet, dt_index, same_value
from pvlib import tracking, shading
from pvlib.pvsystem import SingleAxisTrackerMount

CASES = []
nan = math.nan
D = math.pi / 180


def axes_of(tilt, az):
    """Tracker frame in east-north-up: y along the axis (downward by tilt in
    the direction az), x 90 degrees clockwise from it, z = x cross y."""
    sg, cg, sb, cb = math.sin(az * D), math.cos(az * D), math.sin(tilt * D), math.cos(tilt * D)
    y, x = (sg * cb, cg * cb, -sb), (cg, -sg, 0.)
    z = (x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0])
    return x, y, z


def dot(a, b):
    return sum(p * q for p, q in zip(a, b))


def sun(zen, az):
    return math.sin(zen * D) * math.sin(az * D), math.sin(zen * D) * math.cos(az * D), math.cos(zen * D)


def normal(theta, tilt, az):
    x, _, z = axes_of(tilt, az)
    return tuple(math.sin(theta * D) * a + math.cos(theta * D) * b for a, b in zip(x, z))


def ideal(zen, saz, tilt, az):
    x, _, z = axes_of(tilt, az)
    s = sun(zen, saz)
    a, b = dot(s, x), dot(s, z)
    return math.atan2(a, b) / D, math.hypot(a, b)


def back(w, gcr, bc):
    """Rotation closest to w for which the neighbouring rows just do not shade."""
    room = math.cos((w - bc) * D) / (gcr * math.cos(bc * D))
    if abs(room) >= 1:
        return w
    c = math.acos(abs(room)) / D
    return w - c if w > 0 else w + c if w < 0 else w


def expected(zen, saz, tilt, az, lim, bt, gcr, bc):
    if not zen <= 90 or zen != zen or saz != saz:
        return None
    w, _ = ideal(zen, saz, tilt, az)
    t = back(w, gcr, bc) if bt else w
    lo, hi = (-lim, lim) if np.isscalar(lim) else lim
    return min(max(t, lo), hi)


ZEN = [0, 10, 45.5, 70, 85, 89.99, 90, 90.01, 100, 179, nan]
ZT = [0, 1, 10, 25, 40, 45.5, 60, 70, 80, 85, 88, 89.99, 90, 90.01, 91, 100, 120, 179, nan]
SAZ = [0, 45.25, 90, 101, 180, 200, 270, 333]
SAT = [x * 15 + (0.25 if x % 2 else 0) for x in range(24)] + [360, 359.9, nan]
CONF = dict(axis_tilt=[0, 20, -10], axis_azimuth=[180, 0, 45, 270.5], max_angle=[90, 45, (-30, 60), [10, 50]],
            gcr=[2 / 7, .5, 1], cross=[0, 10, -15])


def pts(ctx):
    z, a = ctx.pick(ZEN, ZT), ctx.pick(SAZ, SAT)
    g = list(itertools.product(z, a))
    return np.array([x for x, _ in g], dtype=float), np.array([x for _, x in g], dtype=float)


def check(ctx, out, zen, saz, cfg, key):
    tilt, az, lim, bt, gcr, bc = cfg
    lo, hi = (-lim, lim) if np.isscalar(lim) else lim
    th, aoi, sa, st = (np.asarray(out[k], dtype=float) for k in ('tracker_theta', 'aoi', 'surface_azimuth', 'surface_tilt'))
    ctx.step(len(zen))
    if th.shape != zen.shape:
        ctx.fail(f'{key} shape', f'{th.shape}')
        return
    for i, (z, a) in enumerate(zip(zen, saz)):
        e = expected(z, a, tilt, az, lim, bt, gcr, bc)
        ctx.traces += 1
        d = dict(zen=z, saz=a, cfg=str(cfg))
        if e is None:
            if not all(math.isnan(v) for v in (th[i], aoi[i], sa[i], st[i])):
                ctx.fail(f'{key} below horizon', f'{th[i]} {aoi[i]} {sa[i]} {st[i]}', **d)
            continue
        w, mag = ideal(z, a, tilt, az)
        if mag < 1e-4 or abs(abs(w) - 180) < 1e-6:
            continue    # sun along the axis: every rotation is equivalent
        if abs(w) < 1e-9 and bt:
            pass
        if not abs(th[i] - e) < 1e-6:
            ctx.fail(f'{key} theta', f'{th[i]!r} expected {e!r}', **d)
            continue
        if not lo - 1e-9 <= th[i] <= hi + 1e-9:
            ctx.fail(f'{key} limits', f'{th[i]!r}', **d)
        n, s = normal(th[i], tilt, az), sun(z, a)
        ns = min(1., max(-1., dot(n, s)))
        if not abs(math.cos(aoi[i] * D) - ns) < 1e-9:
            ctx.fail(f'{key} aoi', f'{aoi[i]!r} expected {math.acos(ns) / D!r}', **d)
        if not (0 <= st[i] <= 180 and 0 <= sa[i] <= 360 and abs(math.cos(st[i] * D) - n[2]) < 1e-9):
            ctx.fail(f'{key} surface tilt', f'{st[i]!r} {sa[i]!r} normal {n}', **d)
        m = sun(st[i], sa[i])
        if math.hypot(n[0], n[1]) > 1e-4 and not (abs(m[0] - n[0]) < 1e-7 and abs(m[1] - n[1]) < 1e-7):
            ctx.fail(f'{key} surface azimuth', f'{st[i]!r} {sa[i]!r} normal {n}', **d)
        if tilt == 0 and th[i] == 0:
            if not (st[i] == 0 and abs((sa[i] - (az - 90)) % 360) < 1e-9):
                ctx.fail(f'{key} horizontal azimuth', f'{st[i]} {sa[i]}', **d)
        # true tracking minimises the angle of incidence within the limits
        if not bt:
            best = max(math.cos((t - w) * D) for t in np.linspace(lo, hi, 61)) * mag
            if best > 0 and ns < best - 1e-9:
                ctx.fail(f'{key} not minimal', f'{ns} < {best}', **d)
        # backtracking: no shadow between neighbours, no needless detour
        else:
            up = math.cos((w - bc) * D)
            if up > 1e-6 and lo < th[i] < hi:
                room = up / (gcr * math.cos(bc * D))
                width = abs(math.cos((th[i] - w) * D))
                if width > room + 1e-7:
                    ctx.fail(f'{key} rows shade', f'width {width} room {room}', **d)
                if room < 1 and width < room - 1e-7:
                    ctx.fail(f'{key} backtracks too far', f'width {width} room {room}', **d)
                if room >= 1 and abs(th[i] - w) > 1e-6:
                    ctx.fail(f'{key} backtracks needlessly', f'{th[i]} {w}', **d)


def grid(ctx):
    return list(itertools.product(CONF['axis_tilt'], CONF['axis_azimuth'], CONF['max_angle'], (True, False), CONF['gcr'], CONF['cross']))


@case(CASES)
def configurations(ctx):
    zen, saz = pts(ctx)
    idx = dt_index(len(zen))
    done = 0
    for k, cfg in enumerate(grid(ctx)):
        tilt, az, lim, bt, gcr, bc = cfg
        if not bt and (gcr != .5 or bc != 10):
            continue
        if not ctx.thorough and k % 2 and bt:
            continue
        kw = dict(axis_tilt=tilt, axis_azimuth=az, max_angle=lim, backtrack=bt, gcr=gcr, cross_axis_tilt=bc)
        a, b = zen.copy(), saz.copy()
        r = quiet(tracking.singleaxis, a, b, **kw)
        ctx.state(n=len(zen))
        ctx.expect(set(r) == {'tracker_theta', 'aoi', 'surface_azimuth', 'surface_tilt'}, 'output names')
        ctx.expect(same_value(a, zen) and same_value(b, saz), 'input modified')
        check(ctx, r, zen, saz, cfg, f'array bt={bt}')
        za, sz = pd.Series(zen, index=idx), pd.Series(saz, index=idx)
        s = quiet(tracking.singleaxis, za.copy(), sz.copy(), **kw)
        ok = isinstance(s, pd.DataFrame) and s.index.equals(idx)
        ctx.expect(ok, 'series index')
        if ok:
            for c in r:
                ctx.close(s[c], r[c], f'series {c}', rtol=0, atol=1e-9)
        m = quiet(SingleAxisTrackerMount(**kw).get_orientation, za, sz)
        for c in r:
            ctx.close(m[c], r[c], f'mount {c}', rtol=0, atol=1e-9)
        done += 1
    ctx.outcome(done)


@case(CASES)
def forms(ctx):
    """Scalars, one-element and integer input, and every default left out."""
    dflt = dict(axis_tilt=0, axis_azimuth=0, max_angle=90, backtrack=True, gcr=2 / 7, cross_axis_tilt=0)
    sets = [{}] + [{k: v} for k, v in (('axis_tilt', 20), ('axis_azimuth', 180), ('max_angle', 40), ('backtrack', False), ('gcr', .6),
                                       ('cross_axis_tilt', -8), ('max_angle', (-20, 80)))]
    for kw in sets:
        d = dict(dflt, **kw)
        cfg = tuple(d[k] for k in ('axis_tilt', 'axis_azimuth', 'max_angle', 'backtrack', 'gcr', 'cross_axis_tilt'))
        for z, a in itertools.product([0, 20, 80, 88, 90, 91, 120], [0, 90, 133, 270]):
            ctx.state((str(kw), z, a))
            zz, aa = np.array([float(z)]), np.array([float(a)])
            for nm, args in (('int', (z, a)), ('float', (float(z), float(a))), ('len1', (zz, aa)), ('intarr', (zz.astype(int), aa.astype(int))),
                             ('np', (np.float64(z), np.float64(a)))):
                r = quiet(tracking.singleaxis, *args, **kw)
                check(ctx, {k: np.atleast_1d(v) for k, v in r.items()}, zz, aa, cfg, f'{nm}')
            i1 = dt_index(1)
            r = quiet(tracking.singleaxis, pd.Series([z], index=i1), pd.Series([a], index=i1), **kw)
            ctx.expect(r.index.equals(i1), 'len-1 series index')
            check(ctx, r, zz, aa, cfg, 'len1 series')
        r = quiet(SingleAxisTrackerMount(**kw).get_orientation, np.array([80.]), np.array([100.]))
        check(ctx, r, np.array([80.]), np.array([100.]), cfg, 'mount defaults')
    for bad in (np.ones((2, 2)), np.ones((1, 3))):
        ctx.raises(ValueError, lambda: tracking.singleaxis(bad, bad), 'two-dimensional input accepted')
    m = SingleAxisTrackerMount()
    for k, v in dflt.items():
        ctx.expect(getattr(m, k) == v, f'mount default {k}')


@case(CASES)
def orientation(ctx):
    """calc_surface_orientation for every rotation, also beyond the limits."""
    T = ctx.pick([-90, -60.5, -45, -10, 0, 1e-3, 20, 33.3, 60, 90], list(np.arange(-90, 90.5, 2.5)) + [1e-3])
    for tilt, az in itertools.product([0, 5, 20, 45, -10, -30], [0, 45, 90, 180, 270, 333.25, -200., -300., 450., 500.]):
        th = np.array(T, dtype=float)
        ctx.state(n=len(th))
        for nm, x in (('array', th), ('series', pd.Series(th, index=dt_index(len(th)))), ('scalar', None)):
            if x is None:
                rs = [quiet(tracking.calc_surface_orientation, float(t), tilt, az) for t in th]
                r = {k: np.array([float(np.asarray(q[k]).reshape(-1)[0]) for q in rs]) for k in rs[0]}
            else:
                r = quiet(tracking.calc_surface_orientation, x, tilt, az)
            ctx.step(len(th))
            if nm == 'series':
                ctx.expect(isinstance(r, pd.DataFrame) and r.index.equals(x.index), 'orientation index')
            for t, st, sa in zip(th, np.asarray(r['surface_tilt']), np.asarray(r['surface_azimuth'])):
                n = normal(t, tilt, az)
                ctx.traces += 1
                m = sun(st, sa)
                if tilt == 0 and t == 0:
                    ctx.expect(st == 0 and 0 <= sa < 360 and abs((sa - az + 90) % 360) < 1e-9, f'horizontal {nm}')
                elif not (0 <= sa <= 360 and max(abs(p - q) for p, q in zip(m, n)) < 1e-6):
                    ctx.fail(f'orientation {nm}', f'{st} {sa} normal {n}', theta=t, tilt=tilt, az=az)
        r = quiet(tracking.calc_surface_orientation, np.array([nan, 10.]), tilt, az)
        ctx.expect(math.isnan(r['surface_tilt'][0]) and math.isnan(r['surface_azimuth'][0]), 'orientation of a missing rotation')
    r = tracking.calc_surface_orientation(np.array([30., -30, 0]))
    ctx.close(r['surface_tilt'], [30, 30, 0], 'orientation defaults')
    ctx.close(r['surface_azimuth'], [90, 270, 270], 'orientation defaults azimuth')


@case(CASES)
def slopes(ctx):
    """Terrain plane x axis direction: the axis lies in the plane; the cross-axis
    line lies in the plane and is perpendicular to the axis."""
    SA = ctx.pick([0, 30, 90, 200, 300.5], list(range(0, 360, 15)))
    ST = ctx.pick([0, 1, 10, 30, 60], [0, .1, 1, 5, 10, 20, 30, 45, 60, 80])
    AZ = ctx.pick([0, 45, 90, 180, 270, 355.5], list(np.arange(0, 360, 15) + .0) + [355.5])

    def n_of(sa, st):
        return sun(st, sa)

    def at(slope_azimuth, slope_tilt, axis_azimuth):
        n = n_of(slope_azimuth, slope_tilt)
        g = (math.sin(axis_azimuth * D), math.cos(axis_azimuth * D), 0)
        return math.atan2(dot(n, g), n[2]) / D      # downward angle of the plane along g

    def ct(slope_azimuth, slope_tilt, axis_azimuth):
        n = n_of(slope_azimuth, slope_tilt)
        x, _, z = axes_of(at(slope_azimuth, slope_tilt, axis_azimuth), axis_azimuth)
        return math.atan2(dot(n, x), dot(n, z)) / D

    ax = dict(slope_azimuth=SA, slope_tilt=ST, axis_azimuth=AZ)
    lattice(ctx, 'axis tilt', tracking.calc_axis_tilt, at, ax, forms=('array', 'scalar', 'int', 'mixed'), atol=1e-8)
    for p in itertools.product(SA, ST, AZ):
        t = float(tracking.calc_axis_tilt(*p))
        c = float(tracking.calc_cross_axis_tilt(p[0], p[1], p[2], t))
        ctx.state(p)
        ctx.step()
        ctx.close(c, ct(*p), 'cross-axis tilt', atol=1e-7, point=p)
    # level ground, axes along and across the slope
    ctx.close(tracking.calc_cross_axis_tilt(180, 0, 90, 0), 0, 'level')
    ctx.close(tracking.calc_cross_axis_tilt(90, 8, 180, 0), -8, 'slope down to the east, axis south')
    ctx.close(tracking.calc_cross_axis_tilt(270, 8, 180, 0), 8, 'slope down to the west, axis south')
    ctx.close(tracking.calc_axis_tilt(180, 8, 180), 8, 'axis down the slope')


@case(CASES)
def rows(ctx):
    """The rotations keep the neighbour's shadow off the row in the shading
    model, on the slopes where both are defined; without backtracking rows do
    shade as soon as there is no room."""
    Z = ctx.pick([20, 60, 75, 85, 89], list(range(2, 90, 3)))
    AZS = ctx.pick([60, 95, 120, 200, 265, 300], list(range(5, 360, 15)))
    for tilt, az, gcr, bc in itertools.product([0, 15], [180, 20], [.3, .5, .8], [0, 10, -10]):
        zen, saz = (x.ravel().astype(float) for x in np.meshgrid(Z, AZS))
        kw = dict(axis_tilt=tilt, axis_azimuth=az, gcr=gcr, cross_axis_tilt=bc)
        bt = quiet(tracking.singleaxis, zen, saz, max_angle=180, backtrack=True, **kw)['tracker_theta']
        tt = quiet(tracking.singleaxis, zen, saz, max_angle=180, backtrack=False, **kw)['tracker_theta']
        ctx.state(n=len(zen))
        ctx.step(2 * len(zen))
        for z, a, b, t in zip(zen, saz, bt, tt):
            w, mag = ideal(z, a, tilt, az)
            if mag < 1e-3 or math.cos((w - bc) * D) < 1e-3 or abs(w) > 89.9:
                continue
            f = [float(shading.shaded_fraction1d(z, a, az, r, collector_width=gcr, pitch=1, axis_tilt=tilt, cross_axis_slope=bc)) for r in (b, t)]
            ctx.expect(f[0] < 1e-6, 'backtracking rows are shaded', zen=z, saz=a, cfg=str(kw), fraction=f[0])
            room = math.cos((w - bc) * D) / (gcr * math.cos(bc * D))
            if room < .99:
                ctx.expect(abs(f[1] - (1 - room)) < 1e-6, 'true-tracking shade', zen=z, saz=a, cfg=str(kw), fraction=f[1], room=room)
