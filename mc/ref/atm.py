"""Scalar reference equations for atmosphere relations (published formulas)."""
from math import (acos, asin, atan2, cos, exp, isnan, log, nan, pi, radians,
                  sin, sqrt, tan, degrees)


def relative_airmass(z, model='kastenyoung1989'):
    if isnan(z) or z > 90:
        return nan
    c = cos(radians(z))
    e = 90 - z
    if model == 'simple':
        return 1 / c
    if model == 'kasten1966':
        return 1 / (c + 0.15 * (3.885 + e) ** -1.253)
    if model == 'kastenyoung1989':
        return 1 / (c + 0.50572 * (6.07995 + e) ** -1.6364)
    if model == 'gueymard1993':
        return 1 / (c + 0.00176759 * z * (94.37515 - z) ** -1.21563)
    if model == 'pickering2002':
        return 1 / sin(radians(e + 244 / (165 + 47 * e ** 1.1)))
    if model == 'youngirvine1967':
        s = 1 / c
        return s * (1 - 0.0012 * (s * s - 1))
    if model == 'young1994':
        num = 1.002432 * c * c + 0.148386 * c + 0.0096467
        den = c ** 3 + 0.149864 * c * c + 0.0102963 * c + 0.000303978
        return num / den
    if model == 'gueymard2003':
        return 1 / (c + 0.48353 * z ** 0.095846 / (96.741 - z) ** 1.754)
    raise KeyError(model)


def absolute_airmass(amr, p):
    return amr * (p / 101325.0)


def pres2alt(p):
    return 44331.5 - 4946.62 * p ** 0.190263


def alt2pres(h):
    return 100 * ((44331.514 - h) / 11880.516) ** (1 / 0.1902632)


def gueymard94_pw(t, rh):
    T = t + 273.15
    th = T / 273.15
    Hv = 0.4976 + 1.5265 * th + exp(13.6897 * th - 14.9188 * th ** 3)
    q = 100 / T
    es = exp(22.330 - 49.140 * q - 10.922 * q ** 2 - 0.39015 / q)
    rhov = 216.7 * rh / (100 * T) * es
    v = 0.1 * Hv * rhov
    return v if isnan(v) else max(v, 0.1)


def rh_from_tdew(ta, td, c=(6.112, 17.62, 243.12)):
    return 100 * exp(c[1] * td / (c[2] + td) - c[1] * ta / (c[2] + ta))


def tdew_from_rh(ta, rh, c=(6.112, 17.62, 243.12)):
    g = log(rh / 100) + c[1] * ta / (c[2] + ta)
    return c[2] * g / (c[1] - g)


def bird_hulstrom80(a380, a500):
    return 0.27583 * a380 + 0.35 * a500


def kasten96_lt(ama, w, aod):
    cda = -0.101 + 0.235 * ama ** -0.16
    dw = 0.112 * ama ** -0.55 * w ** 0.34
    # Kasten pyrheliometric formula, -(9.4+0.9 m) ln(exp(-m d))/m
    return (9.4 + 0.9 * ama) * (cda + dw + aod)


def angstrom_aod(aod0, l0, alpha, l1):
    return aod0 * (l1 / l0) ** -alpha


def angstrom_alpha(a1, l1, a2, l2):
    return -log(a1 / a2) / log(l1 / l2)


HELLMANN = {
    'unstable_air_above_open_water_surface': 0.06,
    'neutral_air_above_open_water_surface': 0.10,
    'stable_air_above_open_water_surface': 0.27,
    'unstable_air_above_flat_open_coast': 0.11,
    'neutral_air_above_flat_open_coast': 0.16,
    'stable_air_above_flat_open_coast': 0.40,
    'unstable_air_above_human_inhabited_areas': 0.27,
    'neutral_air_above_human_inhabited_areas': 0.34,
    'stable_air_above_human_inhabited_areas': 0.60,
}


def windspeed(ws, h0, h1, ex):
    if isnan(ws) or ws < 0:
        return nan
    return ws * (h1 / h0) ** ex
