"""Lattice airmass x water vapour x aerosol x clearness x module type and
coefficients x input forms for the spectral mismatch models; small spectra over
an alphabet of wavelength grids for photon energy, mismatch and response
conversions; lattice of atmospheres for SPECTRL2 against a scalar transcription
of Bird & Riordan (1984)."""
import itertools
import math

import numpy as np
import pandas as pd

from mc.core import case, lattice, quiet, dt_index, same_value, deepcopy
from mc.ref import atm
from mc.ref.irr import rr_spencer
from mc.ref.spectrl2_tables import TABLE
from pvlib import spectrum as S

CASES = []
nan = math.nan
D = math.pi / 180
H, C, Q = 6.62607015e-34, 299792458., 1.602176634e-19

FS = {'cdte': (0.86273, -0.038948, -0.012506, 0.098871, 0.084658, -0.0042948), 'monosi': (0.85914, -0.020880, -0.0058853, 0.12029, 0.026814, -0.0017810),
      'multisi': (0.84090, -0.027539, -0.0079224, 0.13570, 0.038024, -0.0021218), 'cigs': (0.85252, -0.022314, -0.0047216, 0.13666, 0.013342, -0.0008945),
      'asi': (1.12094, -0.047620, -0.0083627, -0.10443, 0.098382, -0.0033818)}
FS['xsi'], FS['polysi'] = FS['monosi'], FS['multisi']
CAB = {'cdte': (1.0044, 0.0095, -0.0037, 0.0002, 0., -0.0046, -0.0182, 0, 0.0095, 0.0068, 0, 1),
       'monosi': (0.9706, 0.0377, -0.0123, 0.0025, -0.0002, 0.0159, -0.0165, 0, -0.0016, -0.0027, 1, 0),
       'multisi': (0.9836, 0.0254, -0.0085, 0.0016, -0.0001, 0.0094, -0.0132, 0, -0.0002, -0.0011, 1, 0),
       'cigs': (0.9801, 0.0283, -0.0092, 0.0019, -0.0001, 0.0117, -0.0126, 0, -0.0011, -0.0019, 1, 0),
       'asi': (1.1060, -0.0848, 0.0302, -0.0076, 0.0006, -0.1283, 0.0986, -0.0254, 0.0156, 0.0146, 1, 0),
       'perovskite': (1.0637, -0.0491, 0.0180, -0.0047, 0.0004, -0.0773, 0.0583, -0.0159, 0.01251, 0.0109, 1, 0)}
PVS = {'multisi': (0.9847, -0.05237, 0.03034), 'monosi': (0.9845, -0.05169, 0.03034), 'fs4-2': (1.002, -0.07108, 0.02465), 'fs4-1': (0.9981, -0.05776, 0.02336),
       'cigs': (0.9791, -0.03904, 0.03096), 'asi': (1.051, -0.1033, 0.009838)}
JRC = {'multisi': tuple(x / 0.00348 for x in (0.00172, 0.000508, 0.00000357)), 'cdte': tuple(x / 0.001150 for x in (0.000643, 0.000130, 0.0000108))}
POLO = {'cdte': (-0.0009, 46.80, 49.20, -0.87, 0.00041, 0.053, 0.0021, -0.01, 1.01), 'monosi': (0.0027, 10.34, 9.48, 0.31, 0.00077, 0.006, 0, -0.003, 1.0),
        'cigs': (0.0017, 2.33, 1.30, 0.11, 0.00098, -0.018, -0.0009, -0.0003, 1), 'asi': (0.0024, 7.32, 7.09, -0.72, -0.0013, 0.089, 0.0056, -0.020, 1.014)}
AMA = [.3, .58, 1., 1.5, 4., 9.5, 10., 38.]
PW = [0., .1, .5, 1.4164, 3., 8., 8.01, 12.]
F = ('array', 'series', 'scalar', 'int', 'mixed', 'len1')


def firstsolar(pw, am, c, lo=.1, hi=8., alo=.58, ahi=10.):
    if pw != pw or am != am or pw > hi:
        return nan
    pw, am = max(pw, lo), min(max(am, alo), ahi)
    return c[0] + c[1] * am + c[2] * pw + c[3] * math.sqrt(am) + c[4] * math.sqrt(pw) + c[5] * am / math.sqrt(pw)


@case(CASES)
def first_solar(ctx):
    ax = dict(precipitable_water=PW, airmass_absolute=AMA)
    if ctx.thorough:
        ax = dict(precipitable_water=PW + [.05, .2, .75, 1., 2., 5., 7.99, 20.], airmass_absolute=AMA + [0., .1, 2., 3., 6., 9.99, 10.01, 20.])
    for t, c in FS.items():
        for name in (t, t.upper(), t.capitalize()):
            lattice(ctx, f'firstsolar {t}', S.spectral_factor_firstsolar, lambda precipitable_water, airmass_absolute: firstsolar(precipitable_water, airmass_absolute, c),
                    ax, kw=dict(module_type=name), forms=F if name == t else ('array',))
    own = (1., .1, -.05, .02, .3, -.01)
    for co in (own, list(own), np.array(own)):
        for kw in ({}, dict(min_precipitable_water=.7, max_precipitable_water=3., min_airmass_absolute=1.2, max_airmass_absolute=5.)):
            b = tuple(kw.values()) or (.1, 8., .58, 10.)
            lattice(ctx, 'firstsolar coefficients', S.spectral_factor_firstsolar,
                    lambda precipitable_water, airmass_absolute: firstsolar(precipitable_water, airmass_absolute, own, *b), ax,
                    kw=dict(coefficients=co, **kw), forms=('array', 'series'))


@case(CASES)
def sapm(ctx):
    for m in (dict(A0=.928, A1=.068, A2=-.0077, A3=.0001, A4=-2e-6), dict(A0=-.5, A1=.4, A2=.02, A3=-.01, A4=1e-4), dict(A0=1., A1=0, A2=0, A3=0, A4=0)):
        for w in (dict, pd.Series):
            lattice(ctx, 'sapm', S.spectral_factor_sapm,
                    lambda airmass_absolute: 0. if airmass_absolute != airmass_absolute else
                    max(0., sum(m[f'A{i}'] * airmass_absolute ** i for i in range(5))),
                    dict(airmass_absolute=[0., .5, 1., 1.5, 2., 5., 10., 20., 40.]), kw=dict(module=w(m)), ref_nan=True)


def caballero(pw, am, aod, c):
    if am == 0:
        return nan
    L = math.log(am) if am > 0 else nan
    return (c[0] + c[1] * am + c[2] * am ** 2 + c[3] * am ** 3 + c[4] * am ** 4
            + (aod - .084) * (c[5] + c[10] * c[6] * am + c[11] * c[6] * L + c[7] * am ** 2) + (pw - 1.4164) * (c[8] + c[9] * L))


@case(CASES)
def parametric(ctx):
    am = ctx.pick([.5, 1., 1.5, 3., 10., 38.], [.3, .5, .9, 1., 1.2, 1.5, 2., 3., 5., 10., 30., 38.])
    own12 = (1.01, .02, -.003, .0004, -.00005, .02, -.03, .004, .005, -.006, .7, .2)
    for t, c in list(CAB.items()) + [(None, own12)]:
        kw = dict(module_type=t) if t else dict(coefficients=c)
        lattice(ctx, f'caballero {t}', S.spectral_factor_caballero,
                lambda precipitable_water, airmass_absolute, aod500: caballero(precipitable_water, airmass_absolute, aod500, c),
                dict(precipitable_water=[0., .5, 1.4164, 5.], airmass_absolute=am, aod500=[0., .084, .2, 1.]), kw=kw)
    for t, c in list(PVS.items()) + [(None, (.9, -.2, .15))]:
        for name in ([t, t.upper()] if t else [None]):
            kw = dict(module_type=name) if t else dict(coefficients=c)
            lattice(ctx, f'pvspec {t}', S.spectral_factor_pvspec,
                    lambda airmass_absolute, clearsky_index: c[0] * clearsky_index ** c[1] * airmass_absolute ** c[2],
                    dict(airmass_absolute=am, clearsky_index=[.05, .3, 1., 1.3, 2.]), kw=kw, forms=F if name == t else ('array',))
    for t, c in list(JRC.items()) + [(None, (.5, .2, .01))]:
        for name in ([t, t.upper()] if t else [None]):
            kw = dict(module_type=name) if t else dict(coefficients=c)
            lattice(ctx, f'jrc {t}', S.spectral_factor_jrc,
                    lambda airmass, clearsky_index: 1 + c[0] * (math.exp(-clearsky_index) - math.exp(-1)) + c[1] * (clearsky_index - 1) + c[2] * (airmass - 1.5),
                    dict(airmass=am, clearsky_index=[0., .3, 1., 1.3, 2.]), kw=kw, forms=F if name == t else ('array',))

    def polo(pw, am, aod, aoi, p, c, albedo=.2):
        if any(v != v for v in (pw, am, aod, aoi, p, albedo)):
            return nan
        r = atm.relative_airmass(min(aoi, 90.)) * p / 101325. / am
        g = c[6] * (albedo / .2) ** 2 + c[7] * albedo / .2 + c[8]
        return g * (c[0] * r + c[1] / (c[2] + r ** c[3]) + c[4] / aod + c[5] * math.sqrt(pw))
    own9 = (.003, 8., 7., .4, .001, .02, .004, -.01, 1.02)
    for t, c in list(POLO.items()) + [(None, own9)]:
        kw = dict(module_type=t) if t else dict(coefficients=c)
        lattice(ctx, f'polo {t}', S.spectral_factor_polo,
                lambda precipitable_water, airmass_absolute, aod500, aoi, pressure: polo(precipitable_water, airmass_absolute, aod500, aoi, pressure, c),
                dict(precipitable_water=[0., 1., 4.], airmass_absolute=[1., 1.5, 6.], aod500=[.05, .3], aoi=[0., 45., 80., 90., 110., 180.],
                     pressure=[70000., 101325.]), kw=kw, scalar_max=150, forms=F if t in ('cdte', None) else ('array', 'series'))
        for al in (0., .1, .2, .5, 1.):
            lattice(ctx, f'polo albedo {t}', S.spectral_factor_polo,
                    lambda precipitable_water, airmass_absolute, aod500, aoi, pressure: polo(precipitable_water, airmass_absolute, aod500, aoi, pressure, c, al),
                    dict(precipitable_water=[1.], airmass_absolute=[1.5, 6.], aod500=[.1], aoi=[45., 80.], pressure=[101325.]),
                    kw=dict(albedo=al, **kw), forms=('array', 'scalar'), nan=False)
    lattice(ctx, 'polo albedo array', lambda albedo: S.spectral_factor_polo(1., 1.5, .1, 45., 101325., 'asi', albedo=albedo),
            lambda albedo: polo(1., 1.5, .1, 45., 101325., POLO['asi'], albedo), dict(albedo=[0., .1, .2, .6, 1.]), forms=('array', 'scalar', 'series'))


@case(CASES)
def rejected_choices(ctx):
    one = dict(precipitable_water=1., airmass_absolute=1.5, aod500=.1, aoi=40., pressure=101325., airmass=1.5, clearsky_index=1.)
    table = [(S.spectral_factor_firstsolar, ('precipitable_water', 'airmass_absolute'), FS['cdte']),
             (S.spectral_factor_caballero, ('precipitable_water', 'airmass_absolute', 'aod500'), CAB['cdte']),
             (S.spectral_factor_pvspec, ('airmass_absolute', 'clearsky_index'), PVS['cigs']),
             (S.spectral_factor_jrc, ('airmass', 'clearsky_index'), JRC['cdte']),
             (S.spectral_factor_polo, ('precipitable_water', 'airmass_absolute', 'aod500', 'aoi', 'pressure'), POLO['cdte'])]
    for fn, names, co in table:
        a = {k: one[k] for k in names}
        for series in (False, True):
            b = {k: pd.Series([v, v], dt_index(2)) for k, v in a.items()} if series else a
            ctx.state()
            n = fn.__name__
            ctx.raises((TypeError, ValueError), lambda: fn(**b), f'{n}: neither')
            for t in ('cdte' if n != 'spectral_factor_pvspec' else 'cigs', 'asi', 'nosuch'):
                ctx.raises((TypeError, ValueError), lambda: fn(**b, module_type=t, coefficients=co), f'{n}: both')
            for t in ('nosuch', '', 'CdTe2', 'si'):
                ctx.raises((KeyError, ValueError), lambda: fn(**b, module_type=t), f'{n}: unknown type {t!r}')
    for bad in ('ASTM G173', '', 'am15g', None):
        ctx.raises(ValueError, lambda: S.get_reference_spectra(standard=bad), f'standard {bad}')
    for bad in ([1., 2.], np.array([1.]), 3., None, (1, 2)):
        ctx.raises(TypeError, lambda: S.average_photon_energy(bad), 'photon energy type')
    for bad in ([1., -1e-9, 2.], [-1., 2., 3.], [1., 2., -5.]):
        ctx.raises(ValueError, lambda: S.average_photon_energy(pd.Series(bad, [300., 400., 500.])), 'negative spectrum')
        ctx.raises(ValueError, lambda: S.average_photon_energy(pd.DataFrame([[1., 1, 1], bad], columns=[300., 400., 500.])), 'negative spectra')
    for f in (S.sr_to_qe, S.qe_to_sr):
        ctx.raises(TypeError, lambda: f(np.array([.1, .2])), 'wavelength required')
        ctx.raises(TypeError, lambda: f(.3), 'wavelength required')


GRIDS = [[300., 400., 500., 900.], [280., 281., 350., 1200.], [290., 295., 310., 1190., 2500.], [300, 500, 1000, 1100]]


def trap(x, y):
    return sum((x[i + 1] - x[i]) * (y[i] + y[i + 1]) / 2 for i in range(len(x) - 1))


def lerp(x, xp, fp):
    if x < xp[0] or x > xp[-1]:
        return 0.
    for i in range(len(xp) - 1):
        if x <= xp[i + 1]:
            return fp[i] + (fp[i + 1] - fp[i]) * (x - xp[i]) / (xp[i + 1] - xp[i])
    return fp[-1]


@case(CASES)
def spectra(ctx):
    """All small spectra over {0, .5, 1.7} on several wavelength grids: photon
    energy, mismatch with and without a reference spectrum, scale invariance."""
    ref_all = S.get_reference_spectra()
    ctx.expect(list(ref_all.columns) == ['extraterrestrial', 'global', 'direct'], 'reference columns', str(list(ref_all.columns)))
    rx = list(map(float, ref_all.index))
    for col, tot in (('extraterrestrial', 1347.9), ('global', 1000.4), ('direct', 900.1)):
        ctx.close(trap(rx, list(ref_all[col])), tot, f'reference total {col}', rtol=1e-3)
    srx, sry = [250., 350., 600., 950., 1100.], [0., .3, .6, 1., .1]
    srs = [pd.Series(sry, srx), pd.Series([.2, 1.], [400., 800.]), pd.Series([1., 1.], [0., 5000.])]
    # outside the tabulated range (280 to 4000 nm) there is nothing
    wl = [0., 200., 279.99, 280., 280.25, 3999.5, 4000., 4000.01, 1e4]
    out = S.get_reference_spectra(wavelengths=wl)
    for col in ref_all:
        ctx.state()
        ctx.close(out[col], [lerp(w, rx, list(ref_all[col])) if 280 <= w <= 4000 else 0. for w in wl], 'reference outside', rtol=1e-12, atol=0)
    for g in GRIDS:
        refg = S.get_reference_spectra(wavelengths=np.array(g))
        refl = S.get_reference_spectra(wavelengths=g)
        for col in ref_all:
            e = [lerp(w, rx, list(ref_all[col])) for w in g]
            ctx.close(refg[col], e, 'reference interpolation', rtol=1e-12)
            ctx.close(refl[col], e, 'reference interpolation (list)', rtol=1e-12)
        ctx.expect(list(refg.index) == g, 'reference wavelengths', '')
        rows = list(itertools.product((0., .5, 1.7), repeat=len(g)))
        df = pd.DataFrame(rows, columns=g, index=dt_index(len(rows)))
        before = df.copy()
        ape = quiet(S.average_photon_energy, df)
        ctx.state(n=len(rows))
        ctx.step(len(rows))

        def ape_ref(r):
            n = trap(g, [v * w * 1e-9 / (H * C) for v, w in zip(r, g)])
            return trap(g, r) / n / Q if n else nan
        e = [ape_ref(r) for r in rows]
        ctx.expect(isinstance(ape, pd.Series) and ape.index.equals(df.index), 'photon energy index', '')
        ctx.close(ape, e, 'photon energy', rtol=1e-12)
        for k in (1e-3, 7., 1e4):
            ctx.close(quiet(S.average_photon_energy, df * k), e, 'photon energy scale', rtol=1e-9)
        for r, v in list(zip(rows, e))[::5]:
            one = quiet(S.average_photon_energy, pd.Series(r, g))
            ctx.close(one, v, 'photon energy of one spectrum', rtol=1e-12)
            ctx.expect(np.ndim(one) == 0, 'photon energy of one spectrum: scalar', str(type(one)))
        for sr in srs:
            sx, sy = list(sr.index), list(sr)
            w = [lerp(x, sx, sy) for x in g]
            for er in (None, pd.Series([1., 2., .5], [300., 700., 1500.]), ref_all['direct']):
                if er is None:
                    ex, ey = g, list(refg['global'])
                else:
                    ex, ey = list(map(float, er.index)), list(er)
                ur = trap(ex, [y * lerp(x, sx, sy) for x, y in zip(ex, ey)]) / trap(ex, ey)
                exp = [(trap(g, [a * b for a, b in zip(r, w)]) / trap(g, r) / ur if any(r) and ur else nan) for r in rows]
                got = quiet(S.calc_spectral_mismatch_field, sr, df, er)
                ctx.step(len(rows))
                if ur == 0:
                    continue
                ctx.expect(isinstance(got, pd.Series) and got.index.equals(df.index), 'mismatch index', '')
                ctx.close(got, exp, 'mismatch', rtol=1e-9)
                for ks, ke, kr in ((3., 1., 1.), (1., 250., 1.), (1., 1., .02)):
                    e2 = er * kr if er is not None else None
                    ctx.close(quiet(S.calc_spectral_mismatch_field, sr * ks, df * ke, e2), exp, 'mismatch scale invariance', rtol=1e-9)
                for i in range(4, len(rows), 9):
                    ctx.close(quiet(S.calc_spectral_mismatch_field, sr, pd.Series(rows[i], g), er), exp[i], 'mismatch of one spectrum', rtol=1e-9)
                if er is not None:
                    ctx.close(quiet(S.calc_spectral_mismatch_field, sr, er, er), 1., 'mismatch of the reference itself', rtol=1e-12)
        ctx.expect(same_value(df, before), 'spectra mutated', '')
        m = df.copy()
        m.iloc[3, 1] = nan
        q = quiet(S.average_photon_energy, m)
        ctx.expect(bool(np.isnan(q.iloc[3])), 'photon energy missing', '')
        ctx.close(q.drop(q.index[3]), np.delete(np.array(e), 3), 'photon energy missing elsewhere', rtol=1e-12)


@case(CASES)
def response_conversions(ctx):
    K = H * C / Q * 1e9
    wl = ctx.pick([250., 300., 555.5, 800., 1200.], [200., 250., 300., 400., 555.5, 640., 800., 1000., 1200., 2500.])
    for y in itertools.product((0., .2, .9), repeat=4):
        w = wl[:4] if sum(y) < 1 else wl[1:5]
        sr = pd.Series(y, w)
        ctx.state()
        for name, f, g, k in (('sr_to_qe', S.sr_to_qe, S.qe_to_sr, lambda v, x: v / x * K), ('qe_to_sr', S.qe_to_sr, S.sr_to_qe, lambda v, x: v * x / K)):
            e = np.array([k(v, x) for v, x in zip(y, w)])
            q = f(sr)
            ctx.step(3)
            ctx.expect(isinstance(q, pd.Series) and list(q.index) == w, f'{name} index', '')
            ctx.close(q, e, name, rtol=1e-9)
            ctx.close(f(np.array(y), np.array(w)), e, f'{name} arrays', rtol=1e-9)
            ctx.close(f(sr, wavelength=np.array(w)), e, f'{name} series with wavelength', rtol=1e-9)
            ctx.close([f(v, x) for v, x in zip(y, w)], e, f'{name} scalars', rtol=1e-9)
            ctx.close(g(q), y, f'{name} inverse', rtol=1e-12)
            if any(y):
                ctx.close(f(sr, normalize=True), e / e.max(), f'{name} normalised', rtol=1e-9)
                ctx.close(f(np.array(y), np.array(w), normalize=True), e / e.max(), f'{name} normalised arrays', rtol=1e-9)
        ctx.expect(list(sr) == list(y), 'response mutated', '')
    # example response: table nodes, zero outside
    nodes = [[290, 0.00], [350, 0.27], [400, 0.37], [500, 0.52], [650, 0.71], [800, 0.88], [900, 0.97], [950, 1.00], [1000, 0.93], [1050, 0.58], [1100, 0.21], [1150, 0.05], [1190, 0.00]]
    x = np.array([n[0] for n in nodes], dtype=float)
    ctx.close(S.get_example_spectral_response(x), [n[1] for n in nodes], 'example response nodes', atol=1e-12)
    from scipy.interpolate import CubicSpline
    xx = np.concatenate([np.arange(280, 1201, 1.), x, [290.25, 1189.75, 349.9, 350.1]])
    e = np.where((xx < 290) | (xx > 1190), 0, CubicSpline(x, [n[1] for n in nodes], bc_type='not-a-knot')(xx))
    got = S.get_example_spectral_response(xx)
    ctx.state(n=len(xx))
    ctx.close(got, e, 'example response spline', atol=1e-10)
    ctx.expect(list(got.index) == list(xx), 'example response index', '')
    out = S.get_example_spectral_response(np.array([100., 289.9, 290., 1190., 1190.1, 4000.]))
    ctx.close(out, 0., 'example response outside', atol=1e-12)
    d = S.get_example_spectral_response()
    ctx.expect(list(d.index) == list(np.arange(280, 1201, 5.)), 'example response default grid', '')
    ctx.close(S.get_example_spectral_response(np.array([400., 777.])), [d[400.], S.get_example_spectral_response(np.array([777., 900.])).iloc[0]], 'example response elementwise', rtol=1e-12)


def trans(zen, am, p, w, o3, tau, omega, row):
    lam, _, aw, ao, au = row
    um = lam / 1000
    m_ = am * p / 101300
    tr = math.exp(-m_ / (um ** 4 * (115.6406 - 1.3366 / um ** 2)))
    ta = math.exp(-tau * am)
    x = aw * w * am
    tw = math.exp(-.2385 * x / (1 + 20.07 * x) ** .45)
    mo = (1 + 22 / 6370) / math.sqrt(math.cos(zen * D) ** 2 + 44 / 6370)
    to = math.exp(-ao * o3 * mo)
    x = au * m_
    tu = math.exp(-1.41 * x / (1 + 118.3 * x) ** .45)
    return tr, ta, tw, to, tu, math.exp(-omega * tau * am), math.exp(-(1 - omega) * tau * am)


def spectrl2(zen, aoi, tilt, albedo, p, am, w, o3, aod, doy, omega4=.945, alpha=1.14, wvf=.095, g=.65):
    d = rr_spencer(doy)
    cz, ca = math.cos(zen * D), max(math.cos(aoi * D), 0)
    alg = math.log(1 - g)
    afs, bfs = alg * (1.459 + alg * (.1595 + alg * .4129)), alg * (.0783 + alg * (-.3824 - alg * .5874))
    fs = 1 - .5 * math.exp((afs + bfs * cz) * cz)
    fsp = 1 - .5 * math.exp((afs + bfs / 1.8) / 1.8)
    out = []
    for i, row in enumerate(TABLE):
        lam, h0 = row[0], row[1]
        rg = albedo[i] if isinstance(albedo, (list, tuple)) else albedo
        tau = aod * (lam / 500) ** -alpha
        om = omega4 * math.exp(-wvf * math.log(lam / 400) ** 2)
        tr, ta, tw, to, tu, tas, taa = trans(zen, am, p, w, o3, tau, om, row)
        trp, tap, twp, top, tup, tasp, taap = trans(zen, 1.8, p, w, o3, tau, om, row)
        he = h0 * d
        idn = he * tr * ta * tw * to * tu
        cs = ((lam + 550) / 1000) ** 1.8 if lam <= 450 else 1.
        rs = tup * twp * taap * (.5 * (1 - trp) + (1 - fsp) * trp * (1 - tasp))
        k = he * cz * to * tu * tw * taa
        ir, ia = k * (1 - tr ** .95) * .5, k * tr ** 1.5 * (1 - tas) * fs
        ig = (idn * cz + ir + ia) * rs * rg / (1 - rs * rg)
        dif = (ir + ia + ig) * cs
        A = idn / he
        beam = idn * ca
        sky = max(dif * A * ca / max(cz, .01745), 0) + max(dif * (1 - A) * (1 + math.cos(tilt * D)) / 2, 0)
        gr = (idn * cz + dif) * rg * (1 - math.cos(tilt * D)) / 2
        out.append((he, dif, idn, sky, gr, beam, sky + gr + beam))
    return [list(c) for c in zip(*out)]


KEYS = ('dni_extra', 'dhi', 'dni', 'poa_sky_diffuse', 'poa_ground_diffuse', 'poa_direct', 'poa_global')


@case(CASES)
def simple_spectral_model(ctx):
    axes = dict(zen=ctx.pick([0., 40., 85., 89.9], [0., 20., 40., 60., 75., 85., 89., 89.9]), aoi=[0., 60., 95.], tilt=ctx.pick([0., 50., 120.], [0., 30., 90., 120., 180.]), albedo=[0., .2, .9],
                p=[60000., 101300.], w=[0., 1.5, 5.], o3=ctx.pick([.3], [0., .3, .5]), aod=ctx.pick([0., .2], [0., .1, .8]), doy=[1, 182] if not ctx.thorough else [1, 80, 182, 366])
    pts = [dict(zip(axes, v)) for v in itertools.product(*axes.values())]
    if not ctx.thorough:
        pts = pts[::1]
    else:
        pts = pts[::7]
    for q in pts:
        q['am'] = atm.relative_airmass(q['zen'])
    N = len(pts)
    names = ('zen', 'aoi', 'tilt', 'albedo', 'p', 'am', 'w', 'o3', 'aod')
    cols = {k: np.array([q[k] for q in pts]) for k in names}
    doy = np.array([q['doy'] for q in pts])
    par = ('apparent_zenith', 'aoi', 'surface_tilt', 'ground_albedo', 'surface_pressure', 'relative_airmass', 'precipitable_water', 'ozone', 'aerosol_turbidity_500nm')
    args = {a: cols[k] for a, k in zip(par, names)}
    before = deepcopy(args)
    got = quiet(S.spectrl2, **args, dayofyear=doy)
    ctx.state(n=N)
    ctx.step(N)
    ctx.expect(sorted(got) == sorted(KEYS + ('wavelength',)), 'spectrl2 names', str(sorted(got)))
    ctx.close(got['wavelength'], [r[0] for r in TABLE], 'spectrl2 wavelengths')
    for k in KEYS:
        ctx.expect(np.shape(got[k]) == (122, N), f'spectrl2 shape {k}', str(np.shape(got[k])))
        ctx.expect(bool((np.asarray(got[k]) >= 0).all()), f'spectrl2 non-negative {k}', '')
    ctx.close(got['poa_global'], got['poa_direct'] + got['poa_sky_diffuse'] + got['poa_ground_diffuse'], 'spectrl2 sum', rtol=1e-12)
    for a in args:
        ctx.expect(same_value(args[a], before[a]), f'spectrl2 mutated {a}', '')
    for i in range(0, N, ctx.pick(3, 5)):
        q = pts[i]
        e = spectrl2(q['zen'], q['aoi'], q['tilt'], q['albedo'], q['p'], q['am'], q['w'], q['o3'], q['aod'], q['doy'])
        for k, v in zip(KEYS, e):
            ctx.close(got[k][:, i], v, f'spectrl2 {k}', rtol=1e-9, atol=1e-12, point=q)
    # scalar calls, series calls, optional parameters, spectral albedo
    q = dict(zen=35., aoi=50., tilt=30., albedo=.25, p=95000., am=1.22, w=1.2, o3=.31, aod=.15)
    for opt in ({}, dict(scattering_albedo_400nm=.8), dict(alpha=.5), dict(wavelength_variation_factor=.2), dict(aerosol_asymmetry_factor=.4)):
        m = dict(scattering_albedo_400nm='omega4', alpha='alpha', wavelength_variation_factor='wvf', aerosol_asymmetry_factor='g')
        for dy, q in itertools.product((1, 100, 365), (q, dict(q, p=104500., albedo=1.))):
            o = quiet(S.spectrl2, *[q[k] for k in names], dayofyear=dy, **opt)
            e = spectrl2(*[q[k] for k in names], dy, **{m[k]: v for k, v in opt.items()})
            ctx.state()
            ctx.step()
            for k, v in zip(KEYS, e):
                ctx.close(np.asarray(o[k]).reshape(122), v, f'spectrl2 scalar {k}', rtol=1e-9, atol=1e-12, opt=opt)
    alb = [.1 + .6 * i / 121 for i in range(122)]
    o = quiet(S.spectrl2, *[np.array([q[k]]) if k != 'albedo' else np.array(alb)[:, None] for k in names], dayofyear=np.array([100]))
    for k, v in zip(KEYS, spectrl2(*[q[k] if k != 'albedo' else alb for k in names], 100)):
        ctx.close(np.asarray(o[k])[:, 0], v, f'spectrl2 spectral albedo {k}', rtol=1e-9, atol=1e-12)
    for idx in (pd.DatetimeIndex(['2020-12-31 12:00', '2020-01-01 12:00', '2020-02-29 09:00', '2021-03-01 15:00']).tz_localize('Etc/GMT+8'),
                pd.DatetimeIndex(['2020-12-31 12:00', '2020-01-01 12:00', '2020-02-29 09:00', '2021-03-01 15:00']),
                pd.DatetimeIndex(['2020-12-31 23:30', '2021-01-01 00:30', '2021-07-01 09:00', '2021-03-01 15:00']).tz_localize('Asia/Tokyo')):
        v4 = {k: [q[k] * f for f in (1., .9, 1.05, .7)] for k in names}
        for which in (names, ('zen',), ('zen', 'am', 'w')):
            a = [pd.Series(v4[k], idx) if k in which else np.array(v4[k]) for k in names]
            o = quiet(S.spectrl2, *a)
            ctx.state()
            ctx.step(4)
            for i in range(4):
                e = spectrl2(*[v4[k][i] for k in names], idx[i].dayofyear)
                for k, v in zip(KEYS, e):
                    ctx.close(np.asarray(o[k])[:, i], v, f'spectrl2 series {k}', rtol=1e-9, atol=1e-12)
    ctx.raises(ValueError, lambda: S.spectrl2(*[np.array([q[k]]) for k in names]), 'spectrl2 day of year required')
    ctx.raises(ValueError, lambda: S.spectrl2(*[q[k] for k in names]), 'spectrl2 day of year required')
    # one missing atmosphere leaves the others alone
    for k in names:
        a = {n: np.array([q[n]] * 3) for n in names}
        a[k][1] = nan
        o = quiet(S.spectrl2, *a.values(), dayofyear=np.array([10, 10, 10]))
        e = spectrl2(*[q[n] for n in names], 10)
        for kk, v in zip(KEYS, e):
            ctx.close(np.asarray(o[kk])[:, 0], v, f'spectrl2 missing {k} elsewhere', rtol=1e-9, atol=1e-12)
            ctx.close(np.asarray(o[kk])[:, 2], v, f'spectrl2 missing {k} elsewhere', rtol=1e-9, atol=1e-12)
