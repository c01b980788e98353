"""Scalar references: 1985-style ephemeris, closed-form solar geometry, hour
angle."""
import datetime as dt
import math

rad, deg = math.radians, math.degrees


def ephemeris(t, lat, lon, pressure=101325.0, temp=12.0):
    """t: naive UTC datetime-like (year, month, ... microsecond)."""
    doy = (dt.date(t.year, t.month, t.day) - dt.date(t.year, 1, 1)).days + 1
    hr = t.hour + t.minute / 60 + t.second / 3600 + t.microsecond / 3.6e9
    yr = t.year - 1900
    ezero = 365 * yr + math.floor((yr - 1) / 4) - 0.5 + doy
    T = ezero / 36525
    g0 = 6 / 24 + 38 / 1440 + (45.836 + 8640184.542 * T + 0.0929 * T * T) / 86400
    g0 = 360 * (g0 - math.floor(g0))
    last = (360 + (g0 + 360 * 1.0027379093 * hr / 24) % 360 + lon) % 360
    ep = ezero + hr / 24
    T1 = ep / 36525
    ob = rad(23.452294 - 0.0130125 * T1 - 1.64e-6 * T1 ** 2 + 5.03e-7 * T1 ** 3)
    per = 281.22083 + 4.70684e-5 * ep + 4.53e-4 * T1 ** 2 + 3e-6 * T1 ** 3
    M = (358.47583 + 0.985600267 * ep - 1.5e-4 * T1 ** 2 - 3e-6 * T1 ** 3) % 360
    ecc = 0.01675104 - 4.18e-5 * T1 - 1.26e-7 * T1 ** 2
    E = M
    for _ in range(30):
        E = M + deg(ecc) * math.sin(rad(E))
    nu = 2 * deg(math.atan(math.sqrt((1 + ecc) / (1 - ecc)) * math.tan(rad(E) / 2)))
    lam = rad((per + nu) % 360 - 20 / 3600)
    dec = math.asin(math.sin(ob) * math.sin(lam))
    ra = deg(math.atan2(math.cos(ob) * math.sin(lam), math.cos(lam)))
    H = (last - ra + 180) % 360 - 180
    h, f = rad(H), rad(lat)
    az = deg(math.atan2(-math.sin(h), math.cos(f) * math.tan(dec) - math.sin(f) * math.cos(h))) % 360
    el = deg(math.asin(math.cos(f) * math.cos(dec) * math.cos(h) + math.sin(f) * math.sin(dec)))
    te = math.tan(rad(el))
    if 5 < el <= 85:
        r = 58.1 / te - 0.07 / te ** 3 + 8.6e-5 / te ** 5
    elif -0.575 < el <= 5:
        r = 1735 + el * (-518.2 + el * (103.4 + el * (-12.79 + el * 0.711)))
    elif -1 < el <= -0.575:
        r = -20.774 / te
    else:
        r = 0.0
    r *= 283 / (273 + temp) * (pressure / 101325) / 3600
    return dict(apparent_elevation=el + r, elevation=el, azimuth=az, apparent_zenith=90 - el - r,
                zenith=90 - el, solar_time=(180 + H) / 15)


def day_angle(doy):
    return 2 * math.pi * (doy - 1) / 365


def eot_spencer71(doy):
    b = day_angle(doy)
    return 1440 / (2 * math.pi) * (0.0000075 + 0.001868 * math.cos(b) - 0.032077 * math.sin(b)
                                   - 0.014615 * math.cos(2 * b) - 0.040849 * math.sin(2 * b))


def eot_pvcdrom(doy):
    b = 2 * math.pi / 365 * (doy - 81)
    return 9.87 * math.sin(2 * b) - 7.53 * math.cos(b) - 1.5 * math.sin(b)


def decl_spencer71(doy):
    b = day_angle(doy)
    return (0.006918 - 0.399912 * math.cos(b) + 0.070257 * math.sin(b)
            - 0.006758 * math.cos(2 * b) + 0.000907 * math.sin(2 * b)
            - 0.002697 * math.cos(3 * b) + 0.00148 * math.sin(3 * b))


def decl_cooper69(doy):
    return rad(23.45 * math.sin(2 * math.pi * (284 + doy) / 365))


def sun_vector(lat, ha, dec):
    """east, north, up components (radians in)."""
    return (-math.cos(dec) * math.sin(ha),
            math.sin(dec) * math.cos(lat) - math.cos(dec) * math.sin(lat) * math.cos(ha),
            math.sin(dec) * math.sin(lat) + math.cos(dec) * math.cos(lat) * math.cos(ha))


def zenith(lat, ha, dec):
    e, n, u = sun_vector(lat, ha, dec)
    return math.atan2(math.hypot(e, n), u)


def azimuth(lat, ha, dec):
    e, n, u = sun_vector(lat, ha, dec)
    return math.atan2(e, n) % (2 * math.pi)
