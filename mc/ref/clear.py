"""Scalar reference models of the clear-sky irradiance equations."""
import math

NAN = float('nan')


def isnan(x):
    return x != x


def cosd0(z):
    return max(math.cos(math.radians(z)), 0.0)


def ineichen(z, am, tl, alt=0., extra=1364., enh=False):
    if isnan(z) or isnan(tl) or isnan(extra) or isnan(alt):
        return NAN, NAN, NAN
    c = cosd0(z)
    fh1 = math.exp(-alt / 8000.)
    fh2 = math.exp(-alt / 1250.)
    cg1 = 5.09e-5 * alt + 0.868
    cg2 = 3.92e-5 * alt + 0.0387
    b = 0.664 + 0.163 / fh1
    if isnan(am):
        ghi = 0.
        beam = 0.
    else:
        t = math.exp(-cg2 * am * (fh1 + fh2 * (tl - 1)))
        if enh:
            t *= math.exp(0.01 * am ** 1.8)
        ghi = cg1 * extra * c * t
        beam = extra * b * math.exp(-0.09 * am * (tl - 1))
    frac = max(1 - (0.1 - 0.2 * math.exp(-tl)) / (0.1 + 0.882 / fh1), 0.)
    dni = 0. if c == 0. else min(beam, ghi * min(frac / c, 1e20))
    return ghi, dni, ghi - dni * c


def haurwitz(z):
    c = math.cos(math.radians(z)) if not isnan(z) else NAN
    return 1098. * c * math.exp(-0.059 / c) if c > 0 else 0.


def solis(el, aod, w, p, extra):
    if any(map(isnan, (el, aod, w, p, extra))):
        return NAN, NAN, NAN
    w = max(w, 0.2)
    lw, lp = math.log(w), math.log(p / 101325.)
    i0p = extra * (0.12 * w ** 0.56 * aod ** 2 + 0.97 * w ** 0.032 * aod
                   + 1.08 * w ** 0.0051 + 0.071 * lp)
    tb = ((1.82 + 0.056 * lw + 0.0071 * lw ** 2) * aod
          + 0.33 + 0.045 * lw + 0.0096 * lw ** 2 + (0.0089 * w + 0.13) * lp)
    b = ((0.00925 * aod ** 2 + 0.0148 * aod - 0.0172) * lw
         - 0.7565 * aod ** 2 + 0.5057 * aod + 0.4557)
    tg = ((1.24 + 0.047 * lw + 0.0061 * lw ** 2) * aod
          + 0.27 + 0.043 * lw + 0.0090 * lw ** 2 + (0.0079 * w + 0.1) * lp)
    g = -0.0147 * lw - 0.3079 * aod ** 2 + 0.2846 * aod + 0.3798
    if aod < 0.05:
        c = (0.0042 * w + 3.12, 0.092 * w - 8.86, -0.23 * w + 74.8, -3.11 * w + 79.4, 86 * w - 13800)
        tdp = -0.83 * (1 + aod) ** -17.2
    else:
        c = (0.0057 * w + 2.94, 0.0554 * w - 5.71, -0.134 * w + 15.5, 0.27 * w - 20.7, -0.21 * w + 11.6)
        tdp = -0.71 * (1 + aod) ** -15.0
    td = sum(k * aod ** i for i, k in enumerate(c)) + tdp * lp
    d = -0.337 * aod ** 2 + 0.63 * aod + 0.116 + lp / (18 + 152 * aod)
    s = max(1e-30, math.sin(math.radians(el)))
    return (i0p * math.exp(-tg / s ** g) * s, i0p * math.exp(-tb / s ** b),
            i0p * math.exp(-td / s ** d))


def bird(z, am, a380, a500, pw, o3, p, extra, asym, alb):
    if any(map(isnan, (z, am, a380, a500, pw, o3, p, extra, asym, alb))):
        return NAN, NAN, NAN, NAN
    amp = am * p / 101325.
    tr = math.exp(-0.0903 * amp ** 0.84 * (1. + amp - amp ** 1.01))
    xo = o3 * am
    to = 1. - 0.1611 * xo * (1. + 139.48 * xo) ** -0.3034 \
        - 0.002715 * xo / (1. + 0.044 * xo + 0.0003 * xo ** 2)
    tum = math.exp(-0.0127 * amp ** 0.26)
    xw = am * pw
    tw = 1. - 2.4959 * xw / ((1. + 79.034 * xw) ** 0.6828 + 6.385 * xw)
    bb = 0.27583 * a380 + 0.35 * a500
    ta = math.exp(-bb ** 0.873 * (1. + bb - bb ** 0.7088) * am ** 0.9108)
    taa = 1. - 0.1 * (1. - am + am ** 1.06) * (1. - ta)
    rs = 0.0685 + (1. - asym) * (1. - ta / taa)
    dn = 0.9662 * extra * ta * tw * tum * to * tr
    c = math.cos(math.radians(z)) if z < 90 else 0.
    dh = dn * c
    sc = extra * c * 0.79 * to * tum * tw * taa * (0.5 * (1. - tr) + asym * (1. - ta / taa)) \
        / (1. - am + am ** 1.02)
    g = (dh + sc) / (1. - alb * rs)
    return dh, g, dn, g - dh
