"""Reference single-diode model: parametric in the diode voltage, solved by
bisection (vectorised over parameter sets; independent of pvlib)."""
import numpy as np


def iv(vd, IL, I0, Rs, Rsh, a, d2=0., vbi=np.inf, bf=0., bv=-5.5, be=3.28):
    """Current and terminal voltage at diode voltage vd."""
    with np.errstate(all='ignore'):
        i = IL - I0 * np.expm1(vd / a) - vd / Rsh
        i = i - np.where(d2 > 0, IL * d2 / np.where(d2 > 0, vbi - vd, 1.), 0.)
        i = i - np.where(bf != 0, bf * vd / Rsh * (1 - vd / bv) ** (-be), 0.)
    return i, vd - i * Rs


def bisect(f, lo, hi, n=200):
    """f increasing; elementwise root."""
    lo, hi = np.array(lo, float), np.array(hi, float)
    for _ in range(n):
        m = 0.5 * (lo + hi)
        up = f(m) > 0
        hi = np.where(up, m, hi)
        lo = np.where(up, lo, m)
    return 0.5 * (lo + hi)


def vmax(IL, I0, Rs, Rsh, a, d2=0., vbi=np.inf, i=0., v=0.):
    """An upper bound of the diode voltage at current i or voltage v."""
    x = a * np.log1p((np.maximum(IL - i, 0) + 1) / I0) + 1.
    x = np.maximum(x, v)
    return np.where(d2 > 0, np.minimum(x, vbi * (1 - 1e-12)), x)


def vd_of_v(v, p, lo=None):
    hi = vmax(*p[:7], v=v) if len(p) > 5 else vmax(*p, v=v)
    lo = np.minimum(v, 0) - p[0] * p[2] - 1 if lo is None else lo
    return bisect(lambda x: iv(x, *p)[1] - v, lo + 0 * hi, hi)


def vd_of_i(i, p, lo=None):
    hi = vmax(*p[:7], i=i) if len(p) > 5 else vmax(*p, i=i)
    # without breakdown the shunt alone bounds the voltage at currents above IL
    if lo is None:
        with np.errstate(all='ignore'):
            lo = -1. - np.where(np.isinf(p[3]), 0., np.maximum(i - p[0], 0) * np.where(np.isinf(p[3]), 1., p[3]))
    return bisect(lambda x: i - iv(x, *p)[0], lo + 0 * hi + 0 * np.asarray(i), hi)


def i_from_v(v, *p):
    return iv(vd_of_v(v, p), *p)[0]


def v_from_i(i, *p):
    return iv(vd_of_i(i, p), *p)[1]


def dpdvd(x, *p):
    """dP/dVd from analytic derivatives (used for the maximum-power point)."""
    IL, I0, Rs, Rsh, a = p[:5]
    d2, vbi = (p[5], p[6]) if len(p) > 5 else (0., np.inf)
    bf, bv, be = p[7:10] if len(p) > 7 else (0., -5.5, 3.28)
    i, v = iv(x, *p)
    with np.errstate(all='ignore'):
        g = -I0 * np.exp(x / a) / a - 1 / Rsh
        g = g - np.where(d2 > 0, IL * d2 / np.where(d2 > 0, vbi - x, 1.) ** 2, 0.)
        t = 1 - x / bv
        g = g - np.where(bf != 0, bf / Rsh * (t ** -be + x * be / bv * t ** (-be - 1)), 0.)
    return g, 1 - g * Rs, i * (1 - g * Rs) + v * g


def mpp(*p):
    hi = vd_of_i(0., p)
    x = bisect(lambda y: -dpdvd(y, *p)[2], np.zeros_like(hi), np.maximum(hi, 0))
    i, v = iv(x, *p)
    return i, v, i * v


def points(*p):
    isc = i_from_v(0., *p)
    voc = v_from_i(0., *p)
    im, vm, pm = mpp(*p)
    return dict(i_sc=isc, v_oc=voc, i_mp=im, v_mp=vm, p_mp=pm, i_x=i_from_v(voc / 2, *p),
                i_xx=i_from_v((voc + vm) / 2, *p))
