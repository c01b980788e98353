"""Scalar NREL solar position algorithm (Reda and Andreas 2008), written from
the report, one instant at a time, standard library only."""
import math
from functools import lru_cache
from . import spa_tables as T

rad, deg = math.radians, math.degrees


def _sum(tab, x):
    return math.fsum(a * math.cos(b + c * x) for a, b, c in tab)


def _poly(tabs, x):
    return math.fsum(_sum(t, x) * x ** i for i, t in enumerate(tabs)) / 1e8


@lru_cache(maxsize=200000)
def geocentric(ut, delta_t):
    """Quantities that do not depend on the observer.  ut: Unix seconds."""
    jd = ut / 86400.0 + 2440587.5
    jde = jd + delta_t / 86400.0
    jc = (jd - 2451545) / 36525.0
    jce = (jde - 2451545) / 36525.0
    jme = jce / 10
    L = deg(_poly((T.L0, T.L1, T.L2, T.L3, T.L4, T.L5), jme)) % 360
    B = deg(_poly((T.B0, T.B1), jme))
    R = _poly((T.R0, T.R1, T.R2, T.R3, T.R4), jme)
    theta = (L + 180) % 360
    beta = -B
    X = (297.85036 + 445267.111480 * jce - 0.0019142 * jce ** 2 + jce ** 3 / 189474,
         357.52772 + 35999.050340 * jce - 0.0001603 * jce ** 2 - jce ** 3 / 300000,
         134.96298 + 477198.867398 * jce + 0.0086972 * jce ** 2 + jce ** 3 / 56250,
         93.27191 + 483202.017538 * jce - 0.0036825 * jce ** 2 + jce ** 3 / 327270,
         125.04452 - 1934.136261 * jce + 0.0020708 * jce ** 2 + jce ** 3 / 450000)
    dpsi = deps = 0.0
    for (a, b, c, d), y in zip(T.NUTATION_ABCD_ARRAY, T.NUTATION_YTERM_ARRAY):
        arg = rad(sum(yi * xi for yi, xi in zip(y, X)))
        dpsi += (a + b * jce) * math.sin(arg)
        deps += (c + d * jce) * math.cos(arg)
    dpsi /= 36e6
    deps /= 36e6
    U = jme / 10
    co = (84381.448, -4680.93, -1.55, 1999.25, -51.38, -249.67, -39.05, 7.12,
          27.87, 5.79, 2.45)
    eps0 = sum(k * U ** i for i, k in enumerate(co))
    eps = eps0 / 3600 + deps
    dtau = -20.4898 / (3600 * R)
    lam = theta + dpsi + dtau
    nu0 = (280.46061837 + 360.98564736629 * (jd - 2451545)
           + 0.000387933 * jc ** 2 - jc ** 3 / 38710000) % 360
    nu = nu0 + dpsi * math.cos(rad(eps))
    lr, er, br = rad(lam), rad(eps), rad(beta)
    alpha = deg(math.atan2(math.sin(lr) * math.cos(er) - math.tan(br) * math.sin(er),
                           math.cos(lr))) % 360
    delta = deg(math.asin(math.sin(br) * math.cos(er)
                          + math.cos(br) * math.sin(er) * math.sin(lr)))
    M = (280.4664567 + 360007.6982779 * jme + 0.03032028 * jme ** 2
         + jme ** 3 / 49931 - jme ** 4 / 15300 - jme ** 5 / 2000000)
    E = (M - 0.0057183 - alpha + dpsi * math.cos(rad(eps)))
    E = 4 * (E % 360)
    if E > 20:
        E -= 1440
    if E < -20:
        E += 1440
    return dict(R=R, nu=nu, alpha=alpha, delta=delta, eot=E)


def refraction(e0, pressure_hpa, temp, atmos_refract):
    if e0 >= -(0.26667 + atmos_refract):
        return (pressure_hpa / 1010.0 * 283.0 / (273 + temp) * 1.02
                / (60 * math.tan(rad(e0 + 10.3 / (e0 + 5.11)))))
    return 0.0


def position(ut, lat, lon, elev=0.0, pressure=101325.0, temp=12.0,
             delta_t=67.0, atmos_refract=0.5667):
    """dict of the six reported columns; pressure in pascal."""
    g = geocentric(float(ut), float(delta_t))
    H = (g['nu'] + lon - g['alpha']) % 360
    xi = rad(8.794 / (3600 * g['R']))
    u = math.atan(0.99664719 * math.tan(rad(lat)))
    x = math.cos(u) + elev / 6378140.0 * math.cos(rad(lat))
    y = 0.99664719 * math.sin(u) + elev / 6378140.0 * math.sin(rad(lat))
    Hr, d = rad(H), rad(g['delta'])
    dalpha = math.atan2(-x * math.sin(xi) * math.sin(Hr),
                        math.cos(d) - x * math.sin(xi) * math.cos(Hr))
    dp = math.atan2((math.sin(d) - y * math.sin(xi)) * math.cos(dalpha),
                    math.cos(d) - x * math.sin(xi) * math.cos(Hr))
    Hp = Hr - dalpha
    lr = rad(lat)
    s = math.sin(lr) * math.sin(dp) + math.cos(lr) * math.cos(dp) * math.cos(Hp)
    e0 = deg(math.asin(max(-1.0, min(1.0, s))))
    de = refraction(e0, pressure / 100.0, temp, atmos_refract)
    gam = deg(math.atan2(math.sin(Hp), math.cos(Hp) * math.sin(lr)
                         - math.tan(dp) * math.cos(lr)))
    az = (gam + 180) % 360
    return dict(apparent_zenith=90 - e0 - de, zenith=90 - e0,
                apparent_elevation=e0 + de, elevation=e0, azimuth=az,
                equation_of_time=g['eot'])


def altitude(ut, lat, lon, delta_t=67.0):
    """True topocentric elevation (degrees)."""
    return position(ut, lat, lon, delta_t=delta_t)['elevation']


def rts(utday, lat, lon, delta_t=67.0):
    """Transit, sunrise, sunset (Unix seconds) of one UTC day, appendix A.2."""
    def ad(t):
        g = geocentric(float(t), float(delta_t))
        return g['alpha'], g['delta']
    v = geocentric(float(utday), float(delta_t))['nu']
    t0 = utday - delta_t
    al = [ad(t0 + k * 86400.0) for k in (-1, 0, 1)]
    m0 = ((al[1][0] - lon - v) / 360.0) % 1
    num = math.sin(rad(-0.8333)) - math.sin(rad(lat)) * math.sin(rad(al[1][1]))
    den = math.cos(rad(lat)) * math.cos(rad(al[1][1]))
    c = num / den
    nanv = float('nan')
    H0 = deg(math.acos(c)) % 180 if abs(c) <= 1 else nanv

    def wrap(x):
        return x % 1 if abs(x) > 2 else x
    a, ap = wrap(al[1][0] - al[0][0]), wrap(al[1][1] - al[0][1])
    b, bp = wrap(al[2][0] - al[1][0]), wrap(al[2][1] - al[1][1])

    def at(m):
        n = m + delta_t / 86400.0
        nu = v + 360.985647 * m
        alp = al[1][0] + n * (a + b + (b - a) * n) / 2
        dec = al[1][1] + n * (ap + bp + (bp - ap) * n) / 2
        H = (nu + lon - alp) % 360
        if H >= 180:
            H -= 360
        h = deg(math.asin(math.sin(rad(lat)) * math.sin(rad(dec))
                          + math.cos(rad(lat)) * math.cos(rad(dec)) * math.cos(rad(H))))
        return H, dec, h
    H, _, _ = at(m0)
    transit = utday + (m0 - H / 360) * 86400
    if H0 != H0:
        return transit, nanv, nanv

    def event(sign):
        m = m0 + sign * H0 / 360
        day = math.floor(m)
        m -= day
        H, dec, h = at(m)
        dm = (h + 0.8333) / (360 * math.cos(rad(dec)) * math.cos(rad(lat)) * math.sin(rad(H)))
        return utday + (m + dm + day) * 86400
    return transit, event(-1), event(1)


def delta_t(year, month):
    """Espenak and Meeus polynomial expressions for TD - UT (seconds)."""
    y = year + (month - 0.5) / 12

    def P(t, *c):
        return sum(k * t ** i for i, k in enumerate(c))
    if year < -500 or year >= 2150:
        return -20 + 32 * ((y - 1820) / 100) ** 2
    if year < 500:
        return P(y / 100, 10583.6, -1014.41, 33.78311, -5.952053, -0.1798452,
                 0.022174192, 0.0090316521)
    if year < 1600:
        return P((y - 1000) / 100, 1574.2, -556.01, 71.23472, 0.319781,
                 -0.8503463, -0.005050998, 0.0083572073)
    if year < 1700:
        return P(y - 1600, 120, -0.9808, -0.01532, 1 / 7129)
    if year < 1800:
        return P(y - 1700, 8.83, 0.1603, -0.0059285, 0.00013336, -1 / 1174000)
    if year < 1860:
        return P(y - 1800, 13.72, -0.332447, 0.0068612, 0.0041116, -0.00037436,
                 0.0000121272, -0.0000001699, 0.000000000875)
    if year < 1900:
        return P(y - 1860, 7.62, 0.5737, -0.251754, 0.01680668, -0.0004473624,
                 1 / 233174)
    if year < 1920:
        return P(y - 1900, -2.79, 1.494119, -0.0598939, 0.0061966, -0.000197)
    if year < 1941:
        return P(y - 1920, 21.20, 0.84493, -0.076100, 0.0020936)
    if year < 1961:
        return P(y - 1950, 29.07, 0.407, -1 / 233, 1 / 2547)
    if year < 1986:
        return P(y - 1975, 45.45, 1.067, -1 / 260, -1 / 718)
    if year < 2005:
        return P(y - 2000, 63.86, 0.3345, -0.060374, 0.0017275, 0.000651814,
                 0.00002373599)
    if year < 2050:
        return P(y - 2000, 62.92, 0.32217, 0.005589)
    return -20 + 32 * ((y - 1820) / 100) ** 2 - 0.5628 * (2150 - y)
