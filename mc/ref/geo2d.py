"""Two-dimensional geometry of an infinite field of parallel rows (independent
reference).  Rows are segments of length gcr*pitch centred at (k*pitch, h);
rotation > 0 raises the right (+x) edge, the front then faces left (-x)."""
import math
import numpy as np

D = math.pi / 180
GX, GW = np.polynomial.legendre.leggauss(24)


def quad(f, a, b, panels=16):
    tot = 0.
    for i in range(panels):
        lo, hi = a + (b - a) * i / panels, a + (b - a) * (i + 1) / panels
        for x, w in zip(GX, GW):
            tot += w * f((lo + hi) / 2 + (hi - lo) / 2 * x) * (hi - lo) / 2
    return tot / (b - a)


def row_sky_point(tilt, gcr, x):
    """Element at fraction x up a row whose front faces the row in front."""
    if tilt < 0:
        tilt, x = -tilt, 1 - x
    t = (math.cos(tilt * D), math.sin(tilt * D))
    top = (-1 + gcr * (1 - x) * t[0], gcr * (1 - x) * t[1])
    n = math.hypot(*top)
    return .5 * (1 - (top[0] * t[0] + top[1] * t[1]) / n)


def row_ground_point(tilt, gcr, x):
    if tilt < 0:
        tilt, x = -tilt, 1 - x
    t = (math.cos(tilt * D), math.sin(tilt * D))
    d = (-1 - x * gcr * t[0], -x * gcr * t[1])
    n = math.hypot(*d)
    return .5 * (1 + (d[0] * t[0] + d[1] * t[1]) / n) if n else 0.


def row_ground_segment(tilt, gcr, h, pitch, x0, x1, g0, g1, rows, panels=8):
    """Average over [x0, x1] of the view factor to the ground in [g0, g1] of
    every pitch."""
    if tilt < 0:
        tilt, x0, x1, g0, g1 = -tilt, 1 - x1, 1 - x0, 1 - g1, 1 - g0
    c, s = math.cos(tilt * D), math.sin(tilt * D)
    L = gcr * pitch
    k = np.arange(-rows, rows)
    left, right = (k + g0) * pitch, (k + g1) * pitch

    def f(x):
        px, py = (x - .5) * L * c, h + (x - .5) * L * s
        fx, fy = -pitch - .5 * L * c - px, h - .5 * L * abs(s) - py
        lim = (fx * c + fy * s) / math.hypot(fx, fy)

        def sine(g):
            dx, dy = g - px, -py
            v = (dx * c + dy * s) / np.hypot(dx, dy)
            return np.where(dx * -s + dy * c < 0, -1., v)      # behind the plane
        hi, lo = np.minimum(sine(left), lim), sine(right)
        return float(.5 * np.maximum(hi - lo, 0).sum())
    return quad(f, x0, x1, panels)


def ground_sky_point(rotation, gcr, u, pitch, h, rows):
    k = np.arange(-rows, rows + 2)
    r = gcr * pitch / 2
    c, s = r * math.cos(rotation * D), r * math.sin(rotation * D)
    cx = (k - u) * pitch
    a, b = np.arctan2(h + s, cx + c), np.arctan2(h - s, cx - c)
    lo, hi = np.minimum(a, b), np.maximum(a, b)
    o = np.argsort(lo)
    lo, hi = lo[o], hi[o]
    reach = np.maximum.accumulate(hi)
    gap = np.maximum(np.cos(reach[:-1]) - np.cos(lo[1:]), 0)
    gap[lo[1:] <= reach[:-1]] = 0
    return float(gap.sum() / 2)


def ground_sky(rotation, gcr, g0, g1, pitch, h, rows, panels=16):
    return quad(lambda u: ground_sky_point(rotation, gcr, u, pitch, h, rows), g0, g1, panels)


def lit_ground(rotation, phi, gcr, h, pitch, g0, g1, limit=85.):
    """Share of the ground in [g0, g1] not covered by the rows' shadows; the
    sun stands phi to the left(-)/right(+) of the zenith... shadows fall on
    x + y*tan(phi)."""
    if abs(phi) > limit:
        return 0.
    tp = math.tan(phi * D)
    r = gcr * pitch / 2
    c, s = r * math.cos(rotation * D), r * math.sin(rotation * D)
    e = sorted([c + (h + s) * tp, -c + (h - s) * tp])
    a, b = g0 * pitch, g1 * pitch
    n0 = math.floor((a - e[1]) / pitch) - 1
    n1 = math.ceil((b - e[0]) / pitch) + 1
    iv = []
    for n in range(n0, n1 + 1):
        lo, hi = max(a, e[0] + n * pitch), min(b, e[1] + n * pitch)
        if hi > lo:
            iv.append((lo, hi))
    iv.sort()
    cov, end = 0., a
    for lo, hi in iv:
        lo = max(lo, end)
        if hi > lo:
            cov += hi - lo
            end = hi
    return 1 - cov / (b - a)


def shade(w, rot, gcr):
    """Shaded share of a row under a neighbour of equal rotation; w projected
    solar zenith towards +x, unit width."""
    if abs(w) >= 90:
        return 1.
    room = math.cos(w * D) / gcr
    width = abs(math.cos((rot - w) * D))
    return min(1., max(0., 1 - room / width)) if width > 0 else 0.
