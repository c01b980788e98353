"""Scalar models of the irradiance equations (degrees in, W/m2 out)."""
import math

from mc.ref import irr_tables as T
from mc.ref import atm

nan = float('nan')
cos, sin, sqrt, exp = math.cos, math.sin, math.sqrt, math.exp
rad = math.radians


def isnan(x):
    return x != x


def nmax(a, b):
    """numpy.maximum: missing values propagate."""
    return nan if isnan(a) or isnan(b) else max(a, b)


def nmin(a, b):
    return nan if isnan(a) or isnan(b) else min(a, b)


def div(a, b):
    if isnan(a) or isnan(b):
        return nan
    if b == 0:
        return nan if a == 0 else math.copysign(math.inf, a) * math.copysign(1, b)
    return a / b


# --- extraterrestrial ---------------------------------------------------
def rr_spencer(doy):
    b = 2 * math.pi * (doy - 1) / 365
    return (1.00011 + 0.034221 * cos(b) + 0.00128 * sin(b) + 0.000719 * cos(2 * b) + 7.7e-5 * sin(2 * b))


def rr_asce(doy):
    return 1 + 0.033 * cos(2 * math.pi * doy / 365)


def extra(doy, sc=1366.1):
    return sc * rr_spencer(doy)


# --- geometry -------------------------------------------------------------
def sun_vec(zen, az):
    z, a = rad(zen), rad(az)
    return (sin(z) * sin(a), sin(z) * cos(a), cos(z))


def projection(tilt, az, zen, saz):
    """Scalar product of the surface normal and the sun direction."""
    n, s = sun_vec(tilt, az), sun_vec(zen, saz)
    p = sum(x * y for x, y in zip(n, s))
    return nan if isnan(p) else min(1.0, max(-1.0, p))


def aoi(tilt, az, zen, saz):
    p = projection(tilt, az, zen, saz)
    if isnan(p):
        return nan
    # exact angle between the two directions, by the cross product
    n, s = sun_vec(tilt, az), sun_vec(zen, saz)
    c = (n[1] * s[2] - n[2] * s[1], n[2] * s[0] - n[0] * s[2], n[0] * s[1] - n[1] * s[0])
    return math.degrees(math.atan2(sqrt(sum(x * x for x in c)), p))


# --- transposition ---------------------------------------------------------
def ground(tilt, ghi, albedo):
    return ghi * albedo * (1 - cos(rad(tilt))) / 2


def svf(tilt):
    return (1 + cos(rad(tilt))) / 2


def isotropic(tilt, dhi):
    v = dhi * svf(tilt)
    return dict(poa_sky_diffuse=v, poa_isotropic=v)


def klucher(tilt, az, dhi, ghi, zen, saz):
    c = nmax(projection(tilt, az, zen, saz), 0)
    r = div(dhi, ghi)
    F = 0.0 if isnan(r) else 1 - r * r
    return dhi * svf(tilt) * (1 + F * sin(rad(tilt / 2)) ** 3) * (1 + F * c ** 2 * sin(rad(zen)) ** 3)


def rb(tilt, az, zen, saz):
    return nmax(projection(tilt, az, zen, saz), 0) / nmax(cos(rad(zen)), 0.01745)


def haydavies(tilt, az, dhi, dni, extra, zen=None, saz=None, ratio=None):
    Rb = rb(tilt, az, zen, saz) if ratio is None else ratio
    A = dni / extra
    i = nmax(dhi * (1 - A) * svf(tilt), 0)
    c = nmax(dhi * A * Rb, 0)
    return dict(poa_sky_diffuse=i + c, poa_isotropic=i, poa_circumsolar=c)


def reindl(tilt, az, dhi, dni, ghi, extra, zen, saz):
    Rb = rb(tilt, az, zen, saz)
    A = dni / extra
    hb = nmax(dni * cos(rad(zen)), 0)
    q = 0.0 if ghi == 0 else div(hb, ghi)
    f = nan if isnan(q) or q < 0 else sqrt(q)
    i = dhi * (1 - A) * svf(tilt)
    c = dhi * A * Rb
    h = i * f * sin(rad(tilt / 2)) ** 3
    return dict(poa_sky_diffuse=i + c + h, poa_isotropic=i, poa_circumsolar=c, poa_horizon=h)


def king(tilt, dhi, ghi, zen):
    return nmax(dhi * svf(tilt) + ghi * (0.012 * zen - 0.04) * (1 - cos(rad(tilt))) / 2, 0)


EDGES = (1.065, 1.23, 1.5, 1.95, 2.8, 4.5, 6.2)


def perez_eps(dhi, dni, zen):
    k = 1.041 * rad(zen) ** 3
    r = div(dhi + dni, dhi)
    return (r + k) / (1 + k)


def _perez_sum(tilt, az, dhi, zen, saz, F1, F2):
    a = nmax(projection(tilt, az, zen, saz), 0)
    b = nmax(cos(rad(zen)), cos(rad(85)))
    i = dhi * (1 - F1) * svf(tilt)
    c = dhi * F1 * a / b
    h = dhi * F2 * sin(rad(tilt))
    t = nmax(i + c + h, 0)
    if t == 0:
        i = c = h = 0.0
    return dict(poa_sky_diffuse=t, poa_isotropic=i, poa_circumsolar=c, poa_horizon=h)


def perez(tilt, az, dhi, dni, extra, zen, saz, airmass, model='allsitescomposite1990'):
    if isnan(airmass):
        return dict(poa_sky_diffuse=0.0, poa_isotropic=0.0, poa_circumsolar=0.0, poa_horizon=0.0)
    e = perez_eps(dhi, dni, zen)
    z = rad(zen)
    D = dhi * airmass / extra
    if isnan(e) or e < 0:
        F1 = F2 = nan
    else:
        c = T.PEREZ[model][sum(1 for x in EDGES if e >= x)]
        F1 = nmax(c[0] + c[1] * D + c[2] * z, 0)
        F2 = c[3] + c[4] * D + c[5] * z
    return _perez_sum(tilt, az, dhi, zen, saz, F1, F2)


def bspline2(t, c, x):
    """Quadratic B-spline by the Cox - de Boor recursion."""
    k = 2
    n = len(t) - k - 1
    j = k
    while j < n - 1 and x >= t[j + 1]:
        j += 1
    d = [c[i + j - k] for i in range(k + 1)]
    for r in range(1, k + 1):
        for i in range(k, r - 1, -1):
            den = t[i + 1 + j - r] - t[i + j - k]
            a = (x - t[i + j - k]) / den
            d[i] = (1 - a) * d[i - 1] + a * d[i]
    return d[k]


def perez_driesse(tilt, az, dhi, dni, extra, zen, saz, airmass=None):
    if airmass is None:
        airmass = atm.relative_airmass(zen, 'kastenyoung1989')
    if zen >= 90:
        airmass = atm.relative_airmass(90., 'kastenyoung1989')
    D = dhi * airmass / extra
    zeta = 0.0 if dhi == 0 else div(dni, dhi + dni)
    k = 1.041 * rad(zen) ** 3
    zeta = zeta / (1 - k * (zeta - 1))
    z = rad(zen)
    f = [bspline2(T.PD_KNOTS, [r[i] for r in T.PD_COEFS], zeta) if not isnan(zeta) else nan for i in range(6)]
    F1 = f[0] + f[1] * D + f[2] * z
    F1 = nmin(nmax(F1, 0), 0.9)
    F2 = f[3] + f[4] * D + f[5] * z
    return _perez_sum(tilt, az, dhi, zen, saz, F1, F2)


# --- clearness, decomposition ------------------------------------------------
def clearness(ghi, zen, extra, min_cos=0.065, kmax=2.0):
    return nmin(nmax(div(ghi, extra * nmax(cos(rad(zen)), min_cos)), 0), kmax)


def ktp_factor(am):
    return 1.031 * exp(-1.4 / (0.9 + 9.4 / am)) + 0.1


def clearness_zi(kt, am, kmax=2.0):
    return nmin(nmax(kt / ktp_factor(am), 0), kmax)


def clearsky_index(ghi, clear, kmax=2.0):
    if not (math.isfinite(ghi) and math.isfinite(clear)):
        return nan
    if clear == 0:
        return 0.0
    r = ghi / clear
    return min(max(r, 0.0), kmax)


def disc_kn(kt, am, max_airmass=12):
    am = nmin(am, max_airmass)
    if isnan(kt) or isnan(am):
        return nan, am
    if kt <= 0.6:
        a = 0.512 - 1.56 * kt + 2.286 * kt ** 2 - 2.222 * kt ** 3
        b = 0.37 + 0.962 * kt
        c = -0.28 + 0.932 * kt - 2.048 * kt ** 2
    else:
        a = -5.743 + 21.77 * kt - 27.49 * kt ** 2 + 11.56 * kt ** 3
        b = 41.4 - 118.5 * kt + 66.05 * kt ** 2 + 31.9 * kt ** 3
        c = -47.01 + 184.2 * kt - 222.0 * kt ** 2 + 73.81 * kt ** 3
    knc = 0.866 - 0.122 * am + 0.0121 * am ** 2 - 0.000653 * am ** 3 + 1.4e-5 * am ** 4
    return knc - (a + b * exp(c * am)), am


def disc(ghi, zen, doy, pressure=101325., min_cos=0.065, max_zenith=87, max_airmass=12):
    I0 = extra(doy, 1370.)
    kt = clearness(ghi, zen, I0, min_cos, 1)
    am = atm.relative_airmass(zen, 'kasten1966')
    if pressure is not None:
        am = am * pressure / 101325.
    kn, am = disc_kn(kt, am, max_airmass)
    dni = kn * I0
    if zen > max_zenith or ghi < 0 or dni < 0:
        dni = 0.0
    return dict(dni=dni, kt=kt, airmass=am)


def _split(ghi, zen, df, kt, max_zenith):
    dhi = df * ghi
    c = cos(rad(zen))
    dni = (ghi - dhi) / c
    if zen > max_zenith or ghi < 0 or dni < 0:
        dni, dhi = 0.0, ghi
    return dict(dni=dni, dhi=dhi, kt=kt)


def erbs(ghi, zen, dx, min_cos=0.065, max_zenith=87):
    kt = clearness(ghi, zen, dx, min_cos, 1)
    if isnan(kt):
        df = nan
    elif kt <= 0.22:
        df = 1 - 0.09 * kt
    elif kt <= 0.8:
        df = 0.9511 - 0.1604 * kt + 4.388 * kt ** 2 - 16.638 * kt ** 3 + 12.336 * kt ** 4
    else:
        df = 0.165
    return _split(ghi, zen, df, kt, max_zenith)


ED = (12.26911439571261, -16.470508424697307, 4.246926715218317, -0.11390583806313881, 0.946296633571001)


def erbs_driesse(ghi, zen, dx, min_cos=0.065, max_zenith=87):
    ghi = nmax(0, ghi)
    kt = clearness(ghi, zen, dx, min_cos, 1)
    if isnan(kt):
        df = nan
    elif kt <= 0.216:
        df = 1 - 0.09 * kt
    elif kt <= 0.792:
        df = sum(c * kt ** (4 - i) for i, c in enumerate(ED))
    else:
        df = 0.165
    return _split(ghi, zen, df, kt, max_zenith)


def orgill_hollands(ghi, zen, dx, min_cos=0.065, max_zenith=87):
    kt = clearness(ghi, zen, dx, min_cos, 1)
    if isnan(kt):
        df = nan
    elif kt < 0.35:
        df = 1 - 0.249 * kt
    elif kt <= 0.75:
        df = 1.557 - 1.84 * kt
    else:
        df = 0.177
    return _split(ghi, zen, df, kt, max_zenith)


def boland(ghi, zen, dx, a=8.645, b=0.613, min_cos=0.065, max_zenith=87):
    kt = clearness(ghi, zen, dx, min_cos, 1)
    df = 1 / (1 + exp(a * (kt - b)))
    return _split(ghi, zen, df, kt, max_zenith)


def louche(ghi, zen, dx, max_zenith=90):
    kt = clearness(ghi, zen, dx)
    kb = -10.627 * kt ** 5 + 15.307 * kt ** 4 - 5.205 * kt ** 3 + 0.994 * kt ** 2 - 0.059 * kt + 0.002
    dni = kb * dx
    dhi = ghi - dni * cos(rad(zen))
    if zen > max_zenith or ghi < 0 or dni < 0:
        dni, dhi = 0.0, ghi
    return dict(dni=dni, dhi=dhi, kt=kt)


def campbell_norman(zen, tau, pressure=101325., dx=1367.):
    c = cos(rad(zen))
    am = atm.relative_airmass(zen, 'simple') * pressure / 101325.
    dni = dx * tau ** am
    dhi = 0.3 * (1 - tau ** am) * dx * c
    return dict(ghi=dhi + dni * c, dni=dni, dhi=dhi)


def par_spitters(zen, f):
    q = 1 - f * f
    return (1 + 0.3 * q) * f / (1 + q * cos(rad(zen)) ** 2 * sin(rad(zen)) ** 3)


KT_E = (0.24, 0.4, 0.56, 0.7, 0.8)
Z_E = (25, 40, 55, 70, 80)
D_E = (0.015, 0.035, 0.07, 0.15, 0.3)
W_E = (1, 2, 3)


def dirint_coeff(ktp, zen, dktp, w):
    """w or dktp None: not used.  Missing bin -> missing."""
    if not (0 <= ktp <= 1) or not zen >= 0:
        return nan
    i = sum(1 for e in KT_E if ktp >= e)
    j = sum(1 for e in Z_E if zen >= e)
    if dktp is None:
        k = 6
    elif not 0 <= dktp <= 1:
        return nan
    else:
        k = sum(1 for e in D_E if dktp >= e)
    if w is None:
        m = 4
    elif not w >= 0:
        return nan
    else:
        m = sum(1 for e in W_E if w >= e)
    return T.DIRINT[i][j][k][m]


def dirint(ghi, zen, doys, pressure=101325., use_delta=True, temp_dew=None, min_cos=0.065, max_zenith=87):
    """Sequences in, list of DNI out."""
    n = len(ghi)
    p = pressure if isinstance(pressure, (list, tuple)) else [pressure] * n
    d = [disc(g, z, y, pp, min_cos, max_zenith) for g, z, y, pp in zip(ghi, zen, doys, p)]
    ktp = [clearness_zi(x['kt'], x['airmass'], 1) for x in d]
    out = []
    for i in range(n):
        dk = None
        if use_delta:
            nb = [abs(ktp[i] - ktp[j]) for j in (i - 1, i + 1) if 0 <= j < n]
            nb = [x for x in nb if not isnan(x)]
            dk = sum(nb) / len(nb) if nb else nan
        w = None if temp_dew is None else exp(0.07 * temp_dew[i] - 0.075)
        out.append(d[i]['dni'] * dirint_coeff(ktp[i], zen[i], dk, w))
    return out


# --- reverse transposition ---------------------------------------------------
def poa_from_ghi(ghi, tilt, az, zen, saz, dx, airmass=None, albedo=0.25):
    d = erbs_driesse(ghi, zen, dx)
    s = perez_driesse(tilt, az, d['dhi'], d['dni'], dx, zen, saz, airmass)['poa_sky_diffuse']
    return s + ground(tilt, ghi, albedo) + nmax(d['dni'] * projection(tilt, az, zen, saz), 0)


def sky_total(model, tilt, az, zen, saz, dni, ghi, dhi, dx, am, albedo, pset):
    if model == 'isotropic':
        s = isotropic(tilt, dhi)['poa_sky_diffuse']
    elif model == 'haydavies':
        s = haydavies(tilt, az, dhi, dni, dx, zen, saz)['poa_sky_diffuse']
    elif model == 'perez':
        s = perez(tilt, az, dhi, dni, dx, zen, saz, am, pset)['poa_sky_diffuse']
    else:
        s = perez_driesse(tilt, az, dhi, dni, dx, zen, saz, am)['poa_sky_diffuse']
    return s + ground(tilt, ghi, albedo) + nmax(dni * projection(tilt, az, zen, saz), 0)


def _mean_abs(ktp, i):
    nb = [abs(ktp[i] - ktp[j]) for j in (i - 1, i + 1) if 0 <= j < len(ktp)]
    nb = [x for x in nb if not isnan(x)]
    return sum(nb) / len(nb) if nb else nan


def _dirint_scale(dni, ktp, zen, use, td):
    out = []
    for i in range(len(dni)):
        dk = _mean_abs(ktp, i) if use else None
        w = None if td is None else exp(0.07 * td[i] - 0.075)
        out.append(dni[i] * dirint_coeff(ktp[i], zen[i], dk, w))
    return out


def gti_dirint(poa, aoi_, zen, saz, doys, dates, tilt, az, pressure=101325., use=True, td=None, albedo=.25, model='perez',
               pset='allsitescomposite1990', gt90=True, max_iterations=30):
    """Marion (2015); returns (ghi, dni, dhi, converged)."""
    n = len(poa)
    dx = [extra(d, 1370.) for d in doys]
    am = [relative * pressure / 101325. for relative in (atm.relative_airmass(z, 'kasten1966') for z in zen)]
    coef = ([1.] * 3 + [.5] * 7 + [.25] * 10 + [.125] * max(10, max_iterations - 20))[:max_iterations]
    best = [9999.] * n
    res = None
    p = list(poa)
    lt = [a < 90 for a in aoi_]
    conv = False
    for it, c in enumerate(coef):
        if all(best[i] <= 1 for i in range(n) if lt[i]):
            conv = True
            break
        kt = [clearness(p[i], aoi_[i], dx[i]) for i in range(n)]
        dd = [nmax(disc_kn(kt[i], am[i])[0] * dx[i], 0) for i in range(n)]
        ktp = [clearness_zi(kt[i], am[i]) for i in range(n)]
        dni = _dirint_scale(dd, ktp, zen, use, td)
        ghi = [kt[i] * dx[i] * nmax(.065, cos(rad(zen[i]))) for i in range(n)]
        dhi = [ghi[i] - dni[i] * cos(rad(zen[i])) for i in range(n)]
        dni, ghi, dhi = ([nmax(x, 0) for x in v] for v in (dni, ghi, dhi))
        diff = [sky_total(model, tilt, az, zen[i], saz[i], dni[i], ghi[i], dhi[i], dx[i], am[i], albedo, pset) - poa[i] for i in range(n)]
        better = [abs(diff[i]) < best[i] for i in range(n)]
        best = [abs(diff[i]) if better[i] else best[i] for i in range(n)]
        new = list(zip(ghi, dni, dhi, ktp))
        res = new if it == 0 else [new[i] if better[i] else res[i] for i in range(n)]
        p = [nmax(1., p[i] - c * diff[i]) for i in range(n)]
    ktp = [r[3] for r in res]
    out = []
    for i in range(n):
        if lt[i]:
            out.append(res[i][:3])
            continue
        if not gt90:
            out.append((nan, nan, nan))
            continue
        # mean of kt' of that date at incidence between 65 and 80 degrees on
        # the same side of noon
        side = 'am' if saz[i] < 180 else 'pm' if saz[i] > 180 else None
        k = nan
        if zen[i] < 90 and aoi_[i] >= 90 and side:
            v = [ktp[j] for j in range(n) if dates[j] == dates[i] and 65 < aoi_[j] < 80
                 and (saz[j] < 180 if side == 'am' else saz[j] > 180) and not isnan(ktp[j])]
            k = sum(v) / len(v) if v else nan
        kt = k * ktp_factor(am[i])
        dd = nmax(disc_kn(kt, am[i])[0] * dx[i], 0)
        w = None if td is None else exp(0.07 * td[i] - 0.075)
        dni = dd * dirint_coeff(k, zen[i], None, w)
        pr = dni * cos(rad(zen[i]))
        ct = cos(rad(tilt))
        dhi = (2 * poa[i] - pr * albedo * (1 - ct)) / (1 + ct + albedo * (1 - ct))
        out.append((pr + dhi, dni, dhi))
    return out, conv
