"""Scalar reference equations for incidence-angle modifiers."""
from math import acos, cos, exp, isnan, nan, pi, radians, sin, sqrt, degrees


def ashrae(aoi, b=0.05):
    if isnan(aoi) or isnan(b):
        return nan
    if abs(aoi) >= 90:
        return 0.0
    return max(0.0, 1 - b * (1 / cos(radians(aoi)) - 1))


def _fresnel(n1, n2, t1, t2):
    """(s, p) reflectances from media n1->n2 with angles t1, t2 (radians)."""
    if t1 == 0:
        r = ((n1 - n2) / (n1 + n2)) ** 2
        return r, r
    c1, c2 = cos(t1), cos(t2)
    rs = ((n1 * c1 - n2 * c2) / (n1 * c1 + n2 * c2)) ** 2
    rp = ((n1 * c2 - n2 * c1) / (n1 * c2 + n2 * c1)) ** 2
    return rs, rp


def physical(aoi, n=1.526, K=4.0, L=0.002, n_ar=None):
    """Fresnel + Bouguer; optional anti-reflective layer (no interference)."""
    if isnan(aoi):
        return nan
    if abs(aoi) >= 90:
        return 0.0
    from math import asin
    if sin(radians(abs(aoi))) > n:
        return nan          # total internal reflection (n < 1)
    has_ar = n_ar is not None and abs(n_ar - 1) > 1e-5 and abs(n_ar - n) > 1e-5

    def trans(t):
        if has_ar:
            t2 = asin(sin(t) / n_ar)
            t3 = asin(sin(t) / n)
            a = _fresnel(1, n_ar, t, t2)
            b = _fresnel(n_ar, n, t2, t3)
            tau = [(1 - x) * (1 - y) / (1 - x * y) for x, y in zip(a, b)]
        else:
            t3 = asin(sin(t) / n)
            tau = [1 - x for x in _fresnel(1, n, t, t3)]
        return sum(tau) / 2 * exp(-K * L / cos(t3))
    return trans(radians(abs(aoi))) / trans(0.0)


def martin_ruiz(aoi, a_r=0.16):
    if isnan(aoi):
        return nan
    if abs(aoi) >= 90:
        return 0.0
    return (1 - exp(-cos(radians(aoi)) / a_r)) / (1 - exp(-1 / a_r))


def schlick(aoi):
    if isnan(aoi):
        return nan
    if abs(aoi) >= 90:
        return 0.0
    return 1 - (1 - cos(radians(aoi))) ** 5


def sapm(aoi, B, upper=None):
    if isnan(aoi):
        return nan
    if aoi < 0:
        return 0.0
    v = sum(b * aoi ** i for i, b in enumerate(B))
    v = max(v, 0.0)
    if upper is not None:
        v = min(v, upper)
    return v


def interp_linear(aoi, xs, ys):
    if isnan(aoi):
        return nan
    a = abs(aoi)
    n = len(xs)
    j = 0
    while j < n - 2 and a >= xs[j + 1]:
        j += 1
    f = (a - xs[j]) / (xs[j + 1] - xs[j])
    return max(0.0, ys[j] + f * (ys[j + 1] - ys[j]))


def martin_ruiz_diffuse(tilt, a_r=0.16, c1=0.4244, c2=None):
    if isnan(tilt):
        return nan, nan
    if c2 is None:
        c2 = 0.5 * a_r - 0.154
    b = radians(tilt)
    # limits at horizontal / upside-down: no ground / no sky
    ts = 0.0 if tilt == 180 else sin(b) + (pi - b - sin(b)) / (1 + cos(b))
    tg = 0.0 if tilt == 0 else sin(b) + (b - sin(b)) / (1 - cos(b))
    return (1 - exp(-1 / a_r * (c1 + c2 * ts) * ts),
            1 - exp(-1 / a_r * (c1 + c2 * tg) * tg))


def schlick_diffuse(tilt):
    """Xie et al. 2022 closed forms (sky, ground)."""
    if isnan(tilt):
        return nan, nan
    b = radians(tilt)
    c, s = cos(b), sin(b)
    w = (30 / 7 * pi - 160 / 21 * b - 10 / 3 * pi * c + 160 / 21 * c * s
         - 5 / 3 * pi * c * s ** 2 + 20 / 7 * c * s ** 3
         - 5 / 16 * pi * c * s ** 4 + 16 / 105 * c * s ** 5)
    sky = 2 / (pi * (1 + c)) * w
    if tilt < 1e-6:
        g = 0.0
    else:
        g = 40 / (21 * (1 - c)) - (1 + c) / (1 - c) * sky
    return sky, g


def marion(direct, tilt, region, num=None):
    """Marion (2017) solid angle sum, direct double loop."""
    if isnan(tilt):
        return nan
    if num is None:
        num = 1800 if region == 'horizon' else 180
    ai = pi / num
    b = radians(tilt)
    top = bot = 0.0
    for i in range(num):
        phi = i * ai
        if region == 'sky' and phi + ai > pi / 2 + 1e-12:
            continue
        if region == 'ground' and phi < pi / 2 - 1e-12:
            continue
        if region == 'horizon' and not (
                phi >= 89.5 * pi / 180 - 1e-12 and phi + ai <= pi / 2 + 1e-12):
            continue
        da = ai * (cos(phi) - cos(phi + ai))
        pm = phi + ai / 2
        for j in range(2 * num):
            ps = j * ai + ai / 2
            ca = cos(b) * cos(pm) + sin(b) * sin(pm) * cos(ps)
            if ca > 0:
                th = acos(min(1.0, ca))
                if th < pi / 2:
                    bot += ca * da
                    top += direct(degrees(th)) * ca * da
    return top / bot if bot else 0.0
