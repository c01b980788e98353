"""Lattice of zenith angles, pressures, altitudes, temperatures, humidities,
aerosol and wind values x models x input forms; every element is compared with
the published equation evaluated by a scalar reference model, plus inverse
round trips, bounds and monotonicity."""
import numpy as np
import pandas as pd

from mc.core import case, lattice, quiet, dt_index
from mc.ref import atm
from pvlib import atmosphere

CASES = []
nan = float('nan')
ZEN = [0, 1e-3, 10, 30, 45, 59.5, 60, 75, 80, 85, 87.3, 88, 89, 89.5, 89.9,
       90, 90.0001, 91, 100, 120, 180]
MODELS = ['simple', 'kasten1966', 'kastenyoung1989', 'gueymard1993',
          'pickering2002', 'youngirvine1967', 'young1994', 'gueymard2003']


def _zen(ctx):
    if ctx.thorough:
        return sorted(set(ZEN) | set(np.round(np.arange(0, 181, 0.05), 3)))
    return sorted(set(ZEN) | set(np.round(np.arange(0, 121, 1.0), 3)))


for _m in MODELS:
    def _f(ctx, m=_m):
        zs = [z for z in _zen(ctx) if not (m in ('simple', 'youngirvine1967')
                                           and z == 90)]
        lattice(ctx, f'airmass-{m}',
                lambda zenith: atmosphere.get_relative_airmass(zenith, m),
                lambda zenith: atm.relative_airmass(zenith, m),
                dict(zenith=zs), rtol=1e-9, atol=1e-9,
                forms=('array', 'series', 'scalar', 'int', 'len1', 'array2d'))
        # names are case-insensitive
        for alias in (m.upper(), m.capitalize(), m.title()):
            ctx.state(alias)
            ctx.step()
            ctx.close(atmosphere.get_relative_airmass(60., alias),
                      atm.relative_airmass(60., m), f'{m}/alias')
        # invariants
        z = np.round(np.arange(0, 90.01, 0.25), 4)
        am = quiet(atmosphere.get_relative_airmass, z, m)
        ctx.step(len(z))
        ok = np.isfinite(am[:-1])
        ctx.expect(ok.all(), f'{m}/finite-above-horizon')
        lim = {'youngirvine1967': 84.}.get(m, 89.9)
        sel = z <= lim
        ctx.expect((np.diff(am[sel & (z >= 5)]) > 0).all(), f'{m}/increasing',
                   'airmass must increase with zenith')
        # Young 1994 gives 1.0000 -/+ 1e-5 at zenith as published
        ctx.expect(abs(am[0] - 1) < 2e-3, f'{m}/unit-at-zenith', str(am[0]))
    CASES.append((f'airmass_{_m}', _f, False))


@case(CASES)
def airmass_models_distinct_and_rejected(ctx):
    for bad in ('', 'kasten', 'kastenyoung', 'Simple ', 'isotropic', 'am1.5'):
        ctx.state(bad)
        ctx.raises(ValueError,
                   lambda: atmosphere.get_relative_airmass(30., bad), f'bad/{bad}')
    for m in MODELS:
        ctx.state(m)
        ctx.step()
        v = atmosphere.get_relative_airmass(85., m)
        ctx.outcome(round(float(v), 6))
    # default model is kastenyoung1989
    ctx.close(atmosphere.get_relative_airmass(77.), atm.relative_airmass(77.),
              'default-model')
    # empty input
    ctx.expect(np.asarray(atmosphere.get_relative_airmass(
        np.array([]))).shape == (0,), 'empty')
    for tz in (None, 'UTC', 'Asia/Kolkata'):
        s = pd.Series([10., 95., nan, 60.], index=pd.date_range(
            '2020-02-28', periods=4, freq='D', tz=tz), name='zz')
        r = atmosphere.get_relative_airmass(s)
        ctx.step()
        ctx.expect(isinstance(r, pd.Series) and r.index.equals(s.index),
                   'index-kept')


@case(CASES)
def absolute(ctx):
    lattice(ctx, 'absolute', atmosphere.get_absolute_airmass,
            lambda airmass_relative, pressure:
            atm.absolute_airmass(airmass_relative, pressure),
            dict(airmass_relative=[0, 0.5, 1, 1.5, 2, 5.6, 12, 38.2, nan],
                 pressure=[0, 1000, 50000, 84000, 101325, 101325.5, 110000, nan]),
            forms=('array', 'series', 'scalar', 'int', 'mixed', 'len1', 'array2d'))
    for am in (1., 2.5, 38.):
        ctx.state(am)
        ctx.step()
        ctx.close(atmosphere.get_absolute_airmass(am), am, 'default-sea-level')


@case(CASES)
def pressure_altitude(ctx):
    alts = sorted({-430, -100, 0, 1, 99.5, 500, 1000, 1830, 3000, 5000, 8848,
                   11000} | set(range(-400, 11001, 100)))
    ps = sorted({101325, 100000, 84000.5, 50000, 22632, 108900}
                | set(range(20000, 110001, 1000)))
    lattice(ctx, 'alt2pres', atmosphere.alt2pres, lambda altitude:
            atm.alt2pres(altitude), dict(altitude=alts))
    lattice(ctx, 'pres2alt', atmosphere.pres2alt, lambda pressure:
            atm.pres2alt(pressure), dict(pressure=ps), atol=1e-6)
    a = np.array(alts, float)
    p = atmosphere.alt2pres(a)
    back = atmosphere.pres2alt(p)
    ctx.step(2 * len(a))
    ctx.close(back, a, 'inverse', atol=0.5, rtol=0)
    ctx.expect((np.diff(p) < 0).all(), 'pressure-decreasing')
    ctx.close(atmosphere.alt2pres(0), 101325, 'sea-level', rtol=2e-5)


@case(CASES)
def moisture(ctx):
    ta = [-75, -40, -20, -5, 0, 0.5, 10, 25, 40, 55]
    rh = [0.5, 1, 5, 10, 33.3, 50, 75, 99, 100]
    lattice(ctx, 'pw', atmosphere.gueymard94_pw, lambda temp_air,
            relative_humidity: atm.gueymard94_pw(temp_air, relative_humidity),
            dict(temp_air=ta, relative_humidity=[0] + rh))
    lattice(ctx, 'tdew', atmosphere.tdew_from_rh, lambda temp_air,
            relative_humidity: atm.tdew_from_rh(temp_air, relative_humidity),
            dict(temp_air=ta, relative_humidity=rh))
    lattice(ctx, 'rh', atmosphere.rh_from_tdew, lambda temp_air, temp_dew:
            atm.rh_from_tdew(temp_air, temp_dew),
            dict(temp_air=ta, temp_dew=[-50, -20, 0, 5.5, 10, 25, 40]))
    # custom coefficients and inverse
    for c in [(6.112, 17.62, 243.12), (6.107, 17.27, 237.3), (6.107, 17.269388, 237.3)]:
        for t in ta:
            for h in rh:
                ctx.state((c, t, h))
                ctx.step(2)
                td = atmosphere.tdew_from_rh(float(t), float(h), coeff=c)
                ctx.close(td, atm.tdew_from_rh(t, h, c), f'tdew/{c}')
                ctx.close(atmosphere.rh_from_tdew(float(t), td, coeff=c), h,
                          f'inverse/{c}', rtol=1e-9)
                ctx.expect(td <= t + 1e-9, 'dew<=air')
    ctx.expect((atmosphere.gueymard94_pw(np.array(ta, float), 50.) >= 0.1).all(),
               'pw>=0.1')


@case(CASES)
def aerosol(ctx):
    lattice(ctx, 'bird80', atmosphere.bird_hulstrom80_aod_bb,
            lambda aod380, aod500: atm.bird_hulstrom80(aod380, aod500),
            dict(aod380=[0, 0.05, 0.1, 0.35, 1, 2], aod500=[0, 0.01, 0.2, 0.5, 1.5]))
    lattice(ctx, 'kasten96', atmosphere.kasten96_lt,
            lambda airmass_absolute, precipitable_water, aod_bb:
            atm.kasten96_lt(airmass_absolute, precipitable_water, aod_bb),
            dict(airmass_absolute=[0.7, 1, 1.5, 2, 5, 10, 20],
                 precipitable_water=[0, 0.1, 0.5, 1, 3, 6],
                 aod_bb=[0, 0.02, 0.1, 0.5, 1, 2.5]), rtol=1e-8)
    lams = [380, 500, 550, 700, 1020.5]
    lattice(ctx, 'aod-lambda', atmosphere.angstrom_aod_at_lambda,
            lambda aod0, lambda0, alpha, lambda1:
            atm.angstrom_aod(aod0, lambda0, alpha, lambda1),
            dict(aod0=[0, 0.05, 0.3, 1, 2], lambda0=lams,
                 alpha=[-0.3, 0, 1, 1.14, 1.3, 2], lambda1=lams), nan=['aod0'])
    lattice(ctx, 'alpha', atmosphere.angstrom_alpha,
            lambda aod1, lambda1, aod2, lambda2:
            atm.angstrom_alpha(aod1, lambda1, aod2, lambda2),
            dict(aod1=[0.05, 0.3, 1, 2], lambda1=lams, aod2=[0.02, 0.3, 1],
                 lambda2=lams), keep=lambda lambda1, lambda2, **k: lambda1 != lambda2)
    ctx.close(atmosphere.angstrom_aod_at_lambda(0.2, 500.),
              atm.angstrom_aod(0.2, 500., 1.14, 700.), 'defaults')
    for a0 in (0.05, 0.3, 1.):
        for al in (-0.5, 0.3, 1.14, 2.):
            for l0 in lams:
                for l1 in lams:
                    if l0 == l1:
                        continue
                    ctx.state((a0, al, l0, l1))
                    ctx.step(2)
                    a1 = atmosphere.angstrom_aod_at_lambda(a0, l0, al, l1)
                    ctx.close(atmosphere.angstrom_alpha(a0, l0, a1, l1), al,
                              'alpha-inverse')


@case(CASES)
def wind(ctx):
    ws = [0, 0.5, 1, 5, 12, 30, -1, -0.01, nan]
    h = [0.5, 2, 3, 10, 80]
    lattice(ctx, 'wind-exponent', lambda **k: atmosphere.windspeed_powerlaw(**k),
            lambda wind_speed_reference, height_reference, height_desired,
            exponent: atm.windspeed(wind_speed_reference, height_reference,
                                    height_desired, exponent),
            dict(wind_speed_reference=ws, height_reference=h, height_desired=h,
                 exponent=[0, 0.06, 0.14, 0.6, 1]),
            nan=['wind_speed_reference'], forms=('array', 'series', 'scalar', 'mixed', 'len1'))
    for k, ex in atm.HELLMANN.items():
        lattice(ctx, f'wind-{k}', lambda wind_speed_reference, height_reference,
                height_desired: atmosphere.windspeed_powerlaw(
                    wind_speed_reference, height_reference, height_desired,
                    surface_type=k),
                lambda wind_speed_reference, height_reference, height_desired:
                atm.windspeed(wind_speed_reference, height_reference,
                              height_desired, ex),
                dict(wind_speed_reference=[0, 1, 7.5, -2, nan],
                     height_reference=[2., 10.], height_desired=[3., 10., 100.]),
                nan=False, forms=('array', 'series', 'scalar', 'len1'))
    W = atmosphere.windspeed_powerlaw
    ctx.raises(ValueError, lambda: W(5., 2., 10.), 'neither')
    ctx.raises(ValueError, lambda: W(5., 2., 10., exponent=.1, surface_type=next(
        iter(atm.HELLMANN))), 'both')
    ctx.raises(KeyError, lambda: W(5., 2., 10., surface_type='moon'), 'unknown')
