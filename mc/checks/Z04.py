"""For every public function with optional arguments, the lattice
{left out, documented default, an alternative} per argument is enumerated (the
full product up to four arguments, otherwise every configuration with at most
two - thorough: three - arguments given).  Leaving an argument out must give
exactly what stating its documented default gives, in every combination with
the other arguments, by position or by keyword; the alternative must take
effect.  The documented defaults are the table in this file, not read from the
code under test."""
import itertools
import math
import warnings

import numpy as np
import pandas as pd

import pvlib
from pvlib import (albedo, atmosphere, clearsky, iam, inverter, irradiance as ir, location, modelchain, pvarray,
                   pvsystem, shading, singlediode, snow, soiling, solarposition as sp, spectrum, temperature, tools,
                   tracking)
from pvlib.bifacial import ants2d, infinite_sheds, loss_models
from pvlib.bifacial import utils as butils
from pvlib.ivtools import sdm, sde
from pvlib.ivtools import utils as iu
from mc.core import case, quiet, flat, notclose
from mc.ref import registry as G

TECHNIQUE = ('explicit-state bounded model checking: exhaustive enumeration of the subsets of optional arguments '
             '(left out / documented default / alternative) of the real functions')
CASES = []
ROWS = (0, 1, 2, 4)
T4 = pd.DatetimeIndex(['2021-06-21 12:05', '2021-06-21 15:00', '2021-06-21 16:30', '2021-06-21 18:00'], tz='Etc/GMT+7')
TABLE = {}


def c(name):
    return np.array([G.COL[name][r] for r in ROWS])


def F(group, name, fn, base, opts, extra=None, limit=2):
    """opts: name -> (documented default, alternative[, argument that gives the alternative an effect])."""
    TABLE.setdefault(group, []).append((name, fn, base, opts, extra or {}, limit))


SUN = dict(surface_tilt=c('tilt'), surface_azimuth=c('saz'), solar_zenith=c('zen'), solar_azimuth=c('azi'))
GDD = dict(dni=c('dni'), ghi=c('ghi'), dhi=c('dhi'))
DOY = np.array([172, 355, 80, 220])
CLIP = dict(min_cos_zenith=(.065, .6), max_zenith=(87, 60))
# ---- irradiance ------------------------------------------------------------------------------------
ZG = dict(ghi=c('ghi'), solar_zenith=c('zen'))
F('irradiance', 'get_extra_radiation', ir.get_extra_radiation, dict(datetime_or_doy=DOY),
  dict(solar_constant=(1366.1, 1361.), method=('spencer', 'asce'), epoch_year=(2014, 2011)), dict(epoch_year=dict(method='nrel')))
F('irradiance', 'get_ground_diffuse', ir.get_ground_diffuse, dict(surface_tilt=c('tilt'), ghi=c('ghi')),
  dict(albedo=(.25, .4), surface_type=(None, 'sand')))
F('irradiance', 'get_sky_diffuse', ir.get_sky_diffuse, dict(**SUN, **GDD, dni_extra=c('extra'), airmass=c('am')),
  dict(model=('isotropic', 'perez'), model_perez=('allsitescomposite1990', 'phoenix1988'), return_components=(False, True)),
  dict(model_perez=dict(model='perez')))
F('irradiance', 'get_total_irradiance', ir.get_total_irradiance, dict(**SUN, **GDD, dni_extra=c('extra'), airmass=c('am')),
  dict(albedo=(.25, .5), surface_type=(None, 'snow'), model=('isotropic', 'perez'),
       model_perez=('allsitescomposite1990', 'france1988'), diffuse_components=(False, True)),
  dict(model_perez=dict(model='perez'), diffuse_components=dict(model='haydavies')))
F('irradiance', 'get_total_irradiance:haydavies', lambda dni_extra, **k: ir.get_total_irradiance(
    model='haydavies', dni_extra=dni_extra, **k), dict(**SUN, **GDD, dni_extra=c('extra')), dict(albedo=(.25, .1)))
TD = dict(surface_tilt=c('tilt'), surface_azimuth=c('saz'), dhi=c('dhi'), dni=c('dni'))
SZ = dict(solar_zenith=c('zen'), solar_azimuth=c('azi'))
F('irradiance', 'haydavies', ir.haydavies, dict(**TD, dni_extra=c('extra'), **SZ),
  dict(return_components=(False, True), projection_ratio=(None, .5)))
F('irradiance', 'reindl', ir.reindl, dict(**TD, ghi=c('ghi'), dni_extra=c('extra'), **SZ), dict(return_components=(False, True)))
F('irradiance', 'isotropic', ir.isotropic, dict(surface_tilt=c('tilt'), dhi=c('dhi')), dict(return_components=(False, True)))
F('irradiance', 'perez', ir.perez, dict(**TD, dni_extra=c('extra'), **SZ, airmass=c('am')),
  dict(model=('allsitescomposite1990', 'albany1988'), return_components=(False, True)))
F('irradiance', 'perez_driesse', ir.perez_driesse, dict(**TD, dni_extra=c('extra'), **SZ),
  dict(airmass=(None, c('am') * 1.3), return_components=(False, True)))
F('irradiance', 'ghi_from_poa_driesse_2024', ir.ghi_from_poa_driesse_2024, dict(**SUN, poa_global=c('poa'), dni_extra=c('extra')),
  dict(airmass=(None, c('am') * 1.3), albedo=(.25, .6), xtol=(.01, 10.), full_output=(False, True)))
F('irradiance', 'clearsky_index', ir.clearsky_index, dict(ghi=c('ghi'), ghi_clear=np.array([900., 10., 300., 500.])),
  dict(max_clearsky_index=(2.0, 1.2)))
F('irradiance', 'clearness_index', ir.clearness_index, dict(ghi=np.array([900., 1900., 300., 90.]),
                                                            solar_zenith=np.array([40., 88., 95., 70.]), extra_radiation=c('extra')),
  dict(min_cos_zenith=(.065, .2), max_clearness_index=(2.0, .7)))
F('irradiance', 'clearness_index_zenith_independent', ir.clearness_index_zenith_independent,
  dict(clearness_index=np.array([.7, 3., .2, 1.2]), airmass=c('am')), dict(max_clearness_index=(2.0, .8)))
EDGE = dict(solar_zenith=np.array([38., 66., 86., 88.5]), ghi=np.array([830., 330., 80., 40.]))
EDGEZ = dict(zenith=EDGE['solar_zenith'], ghi=EDGE['ghi'])
F('irradiance', 'disc', ir.disc, dict(**EDGE, datetime_or_doy=DOY),
  dict(pressure=(101325, 80000.), **CLIP, max_airmass=(12, 2.)))
F('dirint', 'dirint', ir.dirint, dict(ghi=pd.Series(EDGE['ghi'], T4), solar_zenith=pd.Series(EDGE['solar_zenith'], T4), times=T4),
  dict(pressure=(101325., 80000.), use_delta_kt_prime=(True, False), temp_dew=(None, 12.), **CLIP))
F('dirint', 'dirindex', ir.dirindex, dict(
    ghi=pd.Series(EDGE['ghi'], T4), ghi_clear=pd.Series(EDGE['ghi'] * 1.1 + 5, T4), dni_clear=pd.Series(c('dni') + 300., T4),
    zenith=pd.Series(EDGE['solar_zenith'], T4), times=T4),
  dict(pressure=(101325., 80000.), use_delta_kt_prime=(True, False), temp_dew=(None, 12.), **CLIP), dict(use_delta_kt_prime=None))
_G = dict(poa_global=pd.Series([900., 650., 250., 60.], T4), aoi=pd.Series([20., 45., 72., 99.], T4),
          solar_zenith=pd.Series([28., 48., 64., 80.], T4), solar_azimuth=pd.Series([190., 230., 250., 275.], T4), times=T4,
          surface_tilt=25., surface_azimuth=170.)
F('gti_dirint', 'gti_dirint', ir.gti_dirint, _G,
  dict(pressure=(101325., 80000.), use_delta_kt_prime=(True, False), temp_dew=(None, 12.), albedo=(.25, .6),
       model=('perez', 'haydavies'), model_perez=('allsitescomposite1990', 'albuquerque1988'),
       calculate_gt_90=(True, False), max_iterations=(30, 1)), dict(temp_dew=None, use_delta_kt_prime=None), limit=1)
_DC = pd.Series([700., 200., 100., 50.], T4)
F('irradiance', 'dni', ir.dni, dict(ghi=pd.Series([830., 300., 120., 60.], T4), dhi=pd.Series([90., 66., 18., 5.], T4),
                                     zenith=pd.Series([38., 81.5, 85., 87.], T4)),
  dict(dni_clear=(None, _DC), clearsky_tolerance=(1.1, 1.5), zenith_threshold_for_zero_dni=(88.0, 84.),
       zenith_threshold_for_clearsky_limit=(80.0, 84.)),
  dict(clearsky_tolerance=dict(dni_clear=_DC),
       zenith_threshold_for_clearsky_limit=dict(dni_clear=_DC)))
for _n in ('erbs', 'erbs_driesse', 'orgill_hollands'):
    F('irradiance', _n, getattr(ir, _n), dict(**EDGEZ, datetime_or_doy=DOY), dict(CLIP, **({'dni_extra': (None, 1500.)} if _n != 'erbs' else {})))
F('irradiance', 'boland', ir.boland, dict(**EDGE, datetime_or_doy=DOY), dict(a_coeff=(8.645, 7.), b_coeff=(.613, .5), **CLIP))
F('irradiance', 'louche', ir.louche, dict(ghi=np.array([830., 40., 10., 5.]), solar_zenith=np.array([38., 86., 90.5, 91.]), datetime_or_doy=DOY),
  dict(max_zenith=(90, 85)))
F('irradiance', 'campbell_norman', ir.campbell_norman, dict(zenith=c('zen'), transmittance=.7),
  dict(pressure=(101325., 8e4), dni_extra=(1367., 1400.)))
# ---- atmosphere, clear sky -------------------------------------------------------------------------
F('atmosphere', 'get_absolute_airmass', atmosphere.get_absolute_airmass, dict(airmass_relative=c('am')), dict(pressure=(101325., 8e4)))
F('atmosphere', 'get_relative_airmass', atmosphere.get_relative_airmass, dict(zenith=c('zen')), dict(model=('kastenyoung1989', 'simple')))
F('atmosphere', 'rh_from_tdew', atmosphere.rh_from_tdew, dict(temp_air=c('ta'), temp_dew=c('td')),
  dict(coeff=((6.112, 17.62, 243.12), (6.1, 17., 240.))))
F('atmosphere', 'tdew_from_rh', atmosphere.tdew_from_rh, dict(temp_air=c('ta'), relative_humidity=c('rh')),
  dict(coeff=((6.112, 17.62, 243.12), (6.1, 17., 240.))))
F('atmosphere', 'angstrom_aod_at_lambda', atmosphere.angstrom_aod_at_lambda, dict(aod0=c('aod'), lambda0=500.),
  dict(alpha=(1.14, 1.3), lambda1=(700., 380.)))
F('atmosphere', 'windspeed_powerlaw', atmosphere.windspeed_powerlaw, dict(wind_speed_reference=c('ws'), height_reference=2., height_desired=10.,
                                                                          exponent=.3), {})
F('atmosphere', 'bird', clearsky.bird, dict(zenith=c('zen'), airmass_relative=c('am'), aod380=c('aod'), aod500=c('aod2'), precipitable_water=c('pw')),
  dict(ozone=(.3, .4), pressure=(101325., 8e4), dni_extra=(1364., 1400.), asymmetry=(.85, .7), albedo=(.2, .6)))
F('atmosphere', 'ineichen', clearsky.ineichen, dict(apparent_zenith=c('zen'), airmass_absolute=c('am'), linke_turbidity=c('lt')),
  dict(altitude=(0, 1500.), dni_extra=(1364., 1400.), perez_enhancement=(False, True)))
F('atmosphere', 'simplified_solis', clearsky.simplified_solis, dict(apparent_elevation=c('elev')),
  dict(aod700=(.1, .3), precipitable_water=(1., 3.), pressure=(101325., 8e4), dni_extra=(1364., 1400.)))
# detection: a bumpy clear day where each criterion decides somewhere
_t = pd.date_range('2020-04-01 06:00', periods=300, freq='1min', tz='Etc/GMT+7')
_x = np.arange(300.)
_cs = pd.Series(900 * np.sin((_x + 60) / 420 * np.pi) ** 1.2, _t)
_me = _cs + np.select([_x < 60, _x < 110, _x < 160, _x < 210, _x < 250], [0, 25, 0, 0, 100], 0.) + np.select(
    [_x < 110, _x < 160, _x < 210, _x < 250], [0, 2 * np.sin(_x * np.pi / 2 + .4), .9 * np.sin(_x / 6), 0], 4 * np.sin(_x * np.pi / 5))
F('atmosphere', 'detect_clearsky', clearsky.detect_clearsky, dict(measured=_me, clearsky=_cs),
  dict(times=(None, _t), infer_limits=(False, True), window_length=(10, 30), mean_diff=(75, 12), max_diff=(75, 12), lower_line_length=(-5, -.5),
       upper_line_length=(10, .3), var_diff=(.005, .0007), slope_dev=(8, 1.5), max_iterations=(20, 1), return_components=(False, True)),
  dict(times=None, max_iterations=None, infer_limits=None))
# ---- solar position --------------------------------------------------------------------------------
_P = dict(time=T4, latitude=40., longitude=-105.)
_LOW = pd.DatetimeIndex(['2021-06-21 18:50', '2021-06-21 19:10', '2021-06-21 19:39', '2021-12-21 07:40'], tz='Etc/GMT+7')
_Q = dict(time=_LOW, latitude=40., longitude=-105.)
F('solar', 'get_solarposition', sp.get_solarposition, _Q,
  dict(altitude=(None, 3000.), pressure=(None, 6e4), method=('nrel_numpy', 'ephemeris'), temperature=(12, -30.)))
F('solar', 'spa_python', sp.spa_python, _Q, dict(altitude=(0, 3000.), pressure=(101325., 6e4), temperature=(12, -30.), delta_t=(67., 400.),
                                                 atmos_refract=(None, 2.), how=('numpy', 'numpy'), numthreads=(4, 1)),
  dict(how=None, numthreads=None))
F('solar', 'ephemeris', sp.ephemeris, _Q, dict(pressure=(101325., 6e4), temperature=(12., -30.)))
F('solar', 'pyephem', sp.pyephem, _Q, dict(altitude=(0., 3000.), pressure=(101325., 6e4), temperature=(12., -30.), horizon=('+0:00', '-0:34')),
  dict(altitude=None, horizon=None))
F('solar', 'sun_rise_set_transit_spa', sp.sun_rise_set_transit_spa, dict(times=T4, latitude=40., longitude=-105.),
  dict(how=('numpy', 'numpy'), delta_t=(67., 4e4), numthreads=(4, 1)), dict(how=None, numthreads=None))
F('solar', 'sun_rise_set_transit_ephem', sp.sun_rise_set_transit_ephem, dict(times=T4, latitude=40., longitude=-105.),
  dict(next_or_previous=('next', 'previous'), altitude=(0., 3000.), pressure=(101325., 6e4), temperature=(12., -30.), horizon=('0:00', '-0:34')),
  dict(altitude=None, pressure=dict(horizon='0:10'), temperature=dict(horizon='0:10')))
F('solar', 'nrel_earthsun_distance', sp.nrel_earthsun_distance, dict(time=T4), dict(how=('numpy', 'numpy'), delta_t=(67., 40000.), numthreads=(4, 1)),
  dict(how=None, numthreads=None))
F('solar', 'calc_time', lambda **k: np.array([sp.calc_time(_LOW[0] - pd.Timedelta('40min'), _LOW[1], 40., -105., 'alt', .1, **k).timestamp()]), {},
  dict(altitude=(0., 3000.), pressure=(101325., 6e4), temperature=(12., -30.), horizon=('+0:00', '-0:34'), xtol=(1e-12, .01)),
  dict(altitude=None, horizon=None))
# ---- incidence and spectrum ------------------------------------------------------------------------
F('module', 'ashrae', iam.ashrae, dict(aoi=c('aoi')), dict(b=(.05, .1)))
F('module', 'physical', iam.physical, dict(aoi=c('aoi')), dict(n=(1.526, 1.4), K=(4., 20.), L=(.002, .01), n_ar=(None, 1.3)))
F('module', 'martin_ruiz', iam.martin_ruiz, dict(aoi=c('aoi')), dict(a_r=(.16, .2)))
F('module', 'martin_ruiz_diffuse', iam.martin_ruiz_diffuse, dict(surface_tilt=c('tilt')), dict(a_r=(.16, .2), c1=(.4244, .5), c2=(None, -.1)))
F('module', 'interp', iam.interp, dict(aoi=c('aoi'), theta_ref=[0, 20, 40, 60, 80, 90], iam_ref=[.98, .97, .95, .9, .5, 0.]),
  dict(method=('linear', 'cubic'), normalize=(True, False)))
F('module', 'schlick_diffuse', iam.schlick_diffuse, dict(surface_tilt=c('tilt')), {})
_mu = np.arange(0, 90, 5.)


def DEFAULT_WEIGHT(aoi):
    return 1 - np.sin(np.radians(aoi))


def _w(theta):
    return 1 + 0 * theta


def _fit(**k):
    return {a: v for a, v in iam.fit(_mu, iam.martin_ruiz(_mu, .2), 'ashrae', **k).items()}


def _conv(**k):
    return iam.convert('martin_ruiz', {'a_r': .2}, 'physical', **k)


F('module', 'iam.fit', _fit, {}, dict(weight=(DEFAULT_WEIGHT, _w), xtol=(None, .02)), dict(xtol=None))
F('module', 'iam.convert', _conv, {}, dict(weight=(DEFAULT_WEIGHT, _w), fix_n=(True, False), xtol=(None, .05)), dict(xtol=None, fix_n=None))
F('module', 'iam.convert:ashrae', lambda **k: iam.convert('ashrae', {'b': .06}, 'physical', **k), {}, dict(fix_n=(True, False)))
F('module', 'firstsolar', spectrum.spectral_factor_firstsolar, dict(
    precipitable_water=np.array([.05, 1.4, 9., 4.2]), airmass_absolute=np.array([.5, 12., 2., 3.]), module_type='cdte'),
  dict(min_precipitable_water=(.1, .5), max_precipitable_water=(8, 3.), min_airmass_absolute=(.58, 1.), max_airmass_absolute=(10, 3.)))
F('module', 'polo', spectrum.spectral_factor_polo, dict(precipitable_water=c('pw'), airmass_absolute=c('am'), aod500=c('aod'), aoi=c('aoi') / 2,
                                                        pressure=c('press'), module_type='cdte'), dict(albedo=(.2, .5)))
F('module', 'spectrl2', spectrum.spectrl2, dict(
    apparent_zenith=c('zen'), aoi=c('aoi') / 2, surface_tilt=c('tilt'), ground_albedo=.2, surface_pressure=101300., relative_airmass=c('am'),
    precipitable_water=c('pw'), ozone=.3, aerosol_turbidity_500nm=c('aod'), dayofyear=DOY),
  dict(scattering_albedo_400nm=(.945, .8), alpha=(1.14, 1.), wavelength_variation_factor=(.095, .2), aerosol_asymmetry_factor=(.65, .5)))
_wl = np.array([300., 500., 700., 900., 1100.])
F('module', 'sr_to_qe', spectrum.sr_to_qe, dict(sr=pd.Series([.1, .3, .5, .7, .2], _wl)), dict(normalize=(False, True), wavelength=(None, None)))
F('module', 'qe_to_sr', spectrum.qe_to_sr, dict(qe=pd.Series([.3, .8, .9, .9, .2], _wl)), dict(normalize=(False, True)))
F('module', 'get_reference_spectra', lambda **k: spectrum.get_reference_spectra(**k), {},
  dict(wavelengths=(None, _wl), standard=('ASTM G173-03', 'ASTM G173-03')), dict(standard=None))
F('module', 'spectral_mismatch', spectrum.calc_spectral_mismatch_field, dict(
    sr=pd.Series([.1, .3, .5, .7, .2], _wl), e_sun=pd.Series([.2, 1.2, 1., .8, .5], _wl)), dict(e_ref=(None, None)))
# ---- temperature -----------------------------------------------------------------------------------
_B = dict(poa_global=c('poa'), temp_air=c('ta'))
F('temperature', 'faiman', temperature.faiman, _B, dict(wind_speed=(1.0, 4.), u0=(25., 20.), u1=(6.84, 3.)))
F('temperature', 'faiman_rad', temperature.faiman_rad, _B,
  dict(wind_speed=(1.0, 4.), ir_down=(None, c('lw')), u0=(25., 20.), u1=(6.84, 3.), sky_view=(1.0, .6), emissivity=(.88, .5)),
  dict(sky_view=dict(ir_down=c('lw')), emissivity=dict(ir_down=c('lw'))))
F('temperature', 'pvsyst_cell', temperature.pvsyst_cell, _B,
  dict(wind_speed=(1.0, 4.), u_c=(29., 25.), u_v=(0., 2.), module_efficiency=(.1, .2), alpha_absorption=(.9, .8)),
  dict(wind_speed=dict(u_v=2.)))
F('temperature', 'sapm_cell', temperature.sapm_cell, dict(**_B, wind_speed=c('ws'), a=-3.47, b=-.0594, deltaT=3.), dict(irrad_ref=(1000., 800.)))
F('temperature', 'sapm_cell_from_module', temperature.sapm_cell_from_module, dict(module_temperature=c('tm'), poa_global=c('poa'), deltaT=3.),
  dict(irrad_ref=(1000., 800.)))
F('temperature', 'noct_sam', temperature.noct_sam, dict(**_B, wind_speed=c('ws'), noct=45., module_efficiency=.18),
  dict(effective_irradiance=(None, c('poa') * .8), transmittance_absorptance=(.9, .8), array_height=(1, 2), mount_standoff=(4, 1.)))
_ts = pd.date_range('2021-06-01 10:00', periods=8, freq='15min', tz='UTC')
_w8 = [pd.Series(v, _ts) for v in ([800., 820, 300, 200, 900, 950, 0, 0], [20., 21, 21, 22, 22, 22, 21, 20], [1., 2, 3, 0, .5, 1, 4, 2])]
F('temperature', 'fuentes', temperature.fuentes, dict(poa_global=_w8[0], temp_air=_w8[1], wind_speed=_w8[2], noct_installed=45.),
  dict(module_height=(5, 8), wind_height=(9.144, 5.), emissivity=(.84, .6), absorption=(.83, .9), surface_tilt=(30, 60), module_width=(.31579, 1.),
       module_length=(1.2, 2.)))
_t30 = pd.date_range('2021-06-01 10:00', periods=40, freq='1min', tz='UTC')
F('temperature', 'prilliman', temperature.prilliman, dict(temp_cell=pd.Series([20. + 30 * (k // 15 % 2) for k in range(40)], _t30),
                                                          wind_speed=pd.Series(2., _t30)),
  dict(unit_mass=(11.1, 20.), coefficients=(None, [.005, -.02, -.0005, .0002])))
F('temperature', 'generic.use_sapm', lambda **k: (lambda m: m(800., 20., 3.))(temperature.GenericLinearModel(.19, .88).use_sapm(-3.5, -.06, **k)), {},
  dict(wind_fit_low=(1.4, 2.), wind_fit_high=(5.4, 8.)))
F('temperature', 'generic.to_sapm', lambda **k: temperature.GenericLinearModel(.19, .88).use_faiman(25., 7.).to_sapm(**k), {},
  dict(wind_fit_low=(1.4, 2.), wind_fit_high=(5.4, 8.)))
# ---- electrical ------------------------------------------------------------------------------------
F('electrical', 'pvwatts_dc', pvsystem.pvwatts_dc, dict(effective_irradiance=np.array([800., 100., 1200., 0.]), temp_cell=c('tc'), pdc0=240., gamma_pdc=-.004),
  dict(temp_ref=(25., 20.), k=(None, .01), cap_adjustment=(False, True)), dict(cap_adjustment=dict(k=.01)))
F('electrical', 'pvwatts_losses', pvsystem.pvwatts_losses, {},
  dict(soiling=(2, 3), shading=(3, 1), snow=(0, 1), mismatch=(2, 1), wiring=(2, 3), connections=(.5, 1), lid=(1.5, 2), nameplate_rating=(1, 2),
       age=(0, 1), availability=(3, 1)))
_D = dict(effective_irradiance=c('eff'), temp_cell=c('tc'), alpha_sc=.004, a_ref=1.9, I_L_ref=7.9, I_o_ref=2e-9, R_sh_ref=300., R_s=.4)
_DR = dict(EgRef=(1.121, 1.2), dEgdT=(-.0002677, -.0003), irrad_ref=(1000, 900), temp_ref=(25, 20))
F('electrical', 'calcparams_desoto', pvsystem.calcparams_desoto, _D, _DR)
F('electrical', 'calcparams_cec', pvsystem.calcparams_cec, dict(_D, Adjust=8.), _DR)
F('electrical', 'calcparams_pvsyst', pvsystem.calcparams_pvsyst, dict(
    effective_irradiance=c('eff'), temp_cell=c('tc'), alpha_sc=.004, gamma_ref=1.1, mu_gamma=-.0003, I_L_ref=7.9, I_o_ref=2e-9, R_sh_ref=300.,
    R_sh_0=1200., R_s=.4, cells_in_series=60), dict(R_sh_exp=(5.5, 4.), EgRef=(1.121, 1.2), irrad_ref=(1000, 900), temp_ref=(25, 20)))
_K = dict(A0=.93, A1=.068, A2=-.0077, A3=.0001, A4=-2e-6, Isco=5.1, Impo=4.5, Voco=59.3, Vmpo=48.3, Aisc=.0004, Aimp=.0002, Bvoco=-.21, Bvmpo=-.21,
          Mbvoc=.01, Mbvmp=.02, N=1.4, Cells_in_Series=96, C0=1.01, C1=-.01, C2=.28, C3=-5.5, C4=.96, C5=.03, C6=1.12, C7=-.12, IXO=5., IXXO=3.2,
          B0=1, B1=-.002, B2=.0003, B3=0, B4=0, B5=0, FD=1)
F('electrical', 'sapm', pvsystem.sapm, dict(effective_irradiance=c('eff'), temp_cell=c('tc'), module=_K), dict(temperature_ref=(25, 20), irradiance_ref=(1000, 900)))
_S = dict(photocurrent=c('il'), saturation_current=c('io'), resistance_series=c('rs'), resistance_shunt=c('rsh'), nNsVth=c('nv'))
F('electrical', 'singlediode', pvsystem.singlediode, _S, dict(method=('lambertw', 'newton')), dict(method=None))
F('electrical', 'i_from_v', pvsystem.i_from_v, dict(voltage=c('voltage'), **_S), dict(method=('lambertw', 'newton')), dict(method=None))
F('electrical', 'v_from_i', pvsystem.v_from_i, dict(current=c('current') / 3, **_S), dict(method=('lambertw', 'newton')), dict(method=None))
F('electrical', 'max_power_point', pvsystem.max_power_point, _S, dict(d2mutau=(0, .2), NsVbi=(np.inf, 60.), method=('brentq', 'newton')),
  dict(method=None, d2mutau=dict(NsVbi=60.), NsVbi=dict(d2mutau=.2)))
_BR = dict(d2mutau=(0, .2), NsVbi=(np.inf, 60.), breakdown_factor=(0., .02), breakdown_voltage=(-5.5, -4.), breakdown_exp=(3.28, 2.5))
_BX = dict(d2mutau=dict(NsVbi=60.), NsVbi=dict(d2mutau=.2), breakdown_voltage=dict(breakdown_factor=.02), breakdown_exp=dict(breakdown_factor=.02),
           method=None, method_kwargs=None)
F('electrical', 'bishop88', singlediode.bishop88, dict(diode_voltage=c('voltage') / 2 - 3, **_S), dict(_BR, gradients=(False, True)), _BX)
F('electrical', 'bishop88_i_from_v', singlediode.bishop88_i_from_v, dict(voltage=c('voltage') / 2 - 3, **_S),
  dict(_BR, method=('newton', 'brentq'), method_kwargs=(None, {})), _BX)
F('electrical', 'bishop88_v_from_i', singlediode.bishop88_v_from_i, dict(current=c('current') / 3, **_S),
  dict(_BR, method=('newton', 'brentq'), method_kwargs=(None, {})), _BX)
F('electrical', 'bishop88_mpp', singlediode.bishop88_mpp, _S, dict(_BR, method=('newton', 'brentq'), method_kwargs=(None, {})),
  dict(_BX, breakdown_factor=None, breakdown_voltage=None, breakdown_exp=None))
F('electrical', 'dc_ohms_from_percent', pvsystem.dc_ohms_from_percent, dict(vmp_ref=38., imp_ref=8., dc_ohmic_percent=3.),
  dict(modules_per_string=(1, 12), strings=(1, 3)))
F('electrical', 'scale_vcp', lambda **k: pvsystem.scale_voltage_current_power(pd.DataFrame(
    [[30., 8., 240., 37., 8.5, 8.4, 6.]], columns=['v_mp', 'i_mp', 'p_mp', 'v_oc', 'i_sc', 'i_x', 'i_xx']), **k), {}, dict(voltage=(1, 3), current=(1, 2)))
F('electrical', 'combine_loss_factors', lambda **k: pvsystem.combine_loss_factors(
    _ts, pd.Series([.1, .3], _ts[[0, 4]]), pd.Series([.2, .05], _ts[[0, 6]]), **k), {}, dict(fill_method=('ffill', 'bfill')))
F('electrical', 'inverter.pvwatts', inverter.pvwatts, dict(pdc=c('pdc'), pdc0=210.), dict(eta_inv_nom=(.96, .9), eta_inv_ref=(.9637, .99)))
F('electrical', 'inverter.pvwatts_multi', inverter.pvwatts_multi, dict(pdc=(c('pdc'), c('pac')), pdc0=800.),
  dict(eta_inv_nom=(.96, .9), eta_inv_ref=(.9637, .99)))
_ADR = {'Name': 'x', 'Vac': 208.0, 'Pacmax': 1000.0, 'Pnom': 1000.0, 'Vnom': 250.0, 'Vmax': 300.0, 'Vmin': 200.0, 'Vdcmax': 300.0,
        'MPPTHi': 300.0, 'MPPTLow': 200.0, 'Pnt': .25, 'ADRCoefficients': [.01385, .0152, .00794, .00286, -.01872, -.01305, .0, .0, .0]}
F('electrical', 'inverter.adr', inverter.adr, dict(v_dc=np.array([190., 185., 250., 320.]), p_dc=np.array([300., 500., 600., 700.]), inverter=_ADR),
  dict(vtol=(.1, .02)))
F('electrical', 'huld', pvarray.huld, dict(effective_irradiance=c('eff'), temp_mod=c('tm'), pdc0=250., cell_type='cSi'),
  dict(k=(None, (-.01, .0003, -.02, -.004, .0001, -.00001)), k_version=('pvgis5', 'pvgis6')))
F('electrical', 'deline', loss_models.power_mismatch_deline, dict(rmad=c('rmad')),
  dict(coefficients=((0, .142, 3.2), (0, .2, 4.)), fill_factor=(None, .7), fill_factor_reference=(.79, .75)),
  dict(fill_factor_reference=dict(fill_factor=.7)))
# ---- geometry --------------------------------------------------------------------------------------
F('geometry', 'singleaxis', tracking.singleaxis, dict(apparent_zenith=np.array([20., 60., 80., 85.]), solar_azimuth=np.array([170., 95., 100., 260.])),
  dict(axis_slope=(0, 5.), axis_azimuth=(0, 20.), max_angle=(90, 45.), backtrack=(True, False), gcr=(2 / 7, .5), cross_axis_slope=(0, 4.))
  if 'axis_slope' in tracking.singleaxis.__code__.co_varnames else
  dict(axis_tilt=(0, 5.), axis_azimuth=(0, 20.), max_angle=(90, 45.), backtrack=(True, False), gcr=(2 / 7, .5), cross_axis_tilt=(0, 4.)))
F('geometry', 'calc_surface_orientation', tracking.calc_surface_orientation, dict(tracker_theta=c('rot')), dict(axis_tilt=(0, 5.), axis_azimuth=(0, 20.)))
_SF = dict(solar_zenith=np.array([80., 75., 82., 70.]), solar_azimuth=np.array([100., 90., 260., 275.]), axis_azimuth=0.,
           shaded_row_rotation=np.array([-50., -20., 40., 60.]), collector_width=2., pitch=3.)
F('geometry', 'shaded_fraction1d', shading.shaded_fraction1d, _SF,
  dict(axis_tilt=(0, 6.), surface_to_axis_offset=(0, .3), cross_axis_slope=(0, 5.), shading_row_rotation=(None, 10.)),
  dict(surface_to_axis_offset=dict(shading_row_rotation=10.)))
_I = dict(surface_tilt=c('tilt') * .6, surface_azimuth=180., solar_zenith=np.array([38., 70., 62., 75.]), solar_azimuth=c('azi'), gcr=.5, height=1.5, pitch=4.,
          ghi=c('ghi'), dhi=c('dhi'), dni=c('dni'), albedo=.25)
F('geometry', 'infinite_sheds.get_irradiance_poa', infinite_sheds.get_irradiance_poa, dict(_I, dni_extra=c('extra')),
  dict(model=('isotropic', 'haydavies'), iam=(1., .9)))
F('geometry', 'infinite_sheds.get_irradiance', infinite_sheds.get_irradiance, dict(_I, dni_extra=c('extra')),
  dict(model=('isotropic', 'haydavies'), iam_front=(1., .9), iam_back=(1., .8), bifaciality=(.8, .6), shade_factor=(-.02, -.1), transmission_factor=(0, .1)))
F('geometry', 'ants2d', ants2d.get_irradiance, dict(
    tracker_rotation=np.array([-10., 20., 30., -40.]), axis_azimuth=0., solar_zenith=np.array([38., 70., 62., 75.]), solar_azimuth=np.array([120., 240., 250., 100.]),
    gcr=.5, height=1.5, pitch=4., ghi=c('ghi'), dhi=c('dhi'), dni=c('dni'), albedo=.25, dni_extra=c('extra'), airmass=c('am')),
  dict(model=('perez', 'haydavies'), row_segments=(1, 2), ground_segments=(10, 3), axis_tilt=(0, 5.), cross_axis_slope=(0, 4.),
       return_ground_components=(False, True)))
F('geometry', 'vf_ground_sky_2d', butils.vf_ground_sky_2d, dict(rotation=c('rot'), gcr=.5, x=np.array([0., .3, .9]), pitch=4., height=1.5), dict(max_rows=(10, 1)))
F('geometry', 'vf_ground_sky_2d_integ', butils.vf_ground_sky_2d_integ, dict(tracker_rotation=c('rot'), gcr=.5, pitch=4., height=1.5),
  dict(max_rows=(10, 1), g0=(0, .3), g1=(1, .7)))
F('geometry', 'vf_row_ground_2d_integ', butils.vf_row_ground_2d_integ, dict(surface_tilt=c('tilt'), gcr=.5, height=1.5, pitch=4.),
  dict(x0=(0, .3), x1=(1, .7), max_rows=(20, 1), g0=(0, .3), g1=(1, .7)), dict(max_rows=None))
F('geometry', 'vf_row_sky_2d_integ', butils.vf_row_sky_2d_integ, dict(surface_tilt=c('tilt'), gcr=.5), dict(x0=(0, .3), x1=(1, .7)))
# ---- losses ----------------------------------------------------------------------------------------
_h = pd.date_range('2021-01-01', periods=60, freq='h', tz='UTC')
_sf = pd.Series([0., .5, 2., 3., 0, 0, 0, .9, 0, 0, 0, 0] * 5, _h)
_sd = pd.Series([0., .4, .5, 1.4, 4, 3, 3, .8, .5, .2, 2, 2] * 5, _h)
_pi = pd.Series([0., 0, 0, 0, 40, 200, 500, 300, 100, 20, 0, 0] * 5, _h)
_ta = pd.Series([-8., -7, -6, -5, -3, -1, 2, 1, -2, -4, -6, -7] * 5, _h)
F('loss', 'fully_covered_nrel', lambda **k: snow.fully_covered_nrel(_sf, **k).astype(float), {},
  dict(snow_depth=(None, _sd), threshold_snowfall=(1., .6), threshold_depth=(1., 1.7)), dict(threshold_depth=dict(snow_depth=_sd)))
F('loss', 'coverage_nrel', snow.coverage_nrel, dict(snowfall=_sf, poa_irradiance=_pi, temp_air=_ta, surface_tilt=30.),
  dict(snow_depth=(None, _sd), initial_coverage=(0, .5), threshold_snowfall=(1., .6), threshold_depth=(1., 1.7), can_slide_coefficient=(-80., -30.),
       slide_amount_coefficient=(.197, .3)), dict(threshold_depth=dict(snow_depth=_sd)))
F('loss', 'townsend', snow.loss_townsend, dict(
    snow_total=np.array([30., 10.]), snow_events=np.array([3., 2.]), surface_tilt=20., relative_humidity=np.array([80., 70.]), temp_air=np.array([-3., 1.]),
    poa_global=np.array([6e4, 9e4]), slant_height=2., lower_edge_height=.8), dict(string_factor=(1.0, .75), angle_of_repose=(40, 30), front_side_fraction=(1., .9)))
_rf = pd.Series([0., .4, 0, 0, .3, 0, 0, 0, 0, .9, 0, 0] * 5, _h)
F('loss', 'hsu', soiling.hsu, dict(rainfall=_rf, cleaning_threshold=.5, surface_tilt=20., pm2_5=2e-5, pm10=4e-5),
  dict(depo_veloc=(None, {'2_5': .002, '10': .008}), rain_accum_period=(pd.Timedelta('1h'), pd.Timedelta('4h'))))
_d = pd.date_range('2021-01-01', periods=90, freq='D', tz='UTC')
_rd = pd.Series(([0.] * 20 + [7.] + [0.] * 9 + [3., 3.2, 0] + [0] * 12) * 2, _d)
F('loss', 'kimber', soiling.kimber, dict(rainfall=_rd),
  dict(cleaning_threshold=(6, 3.1), soiling_loss_rate=(.0015, .002), grace_period=(14, 5), max_soiling=(.3, .02), manual_wash_dates=(None, [_d[15]]),
       initial_soiling=(0, .01), rain_accum_period=(24, 48)))
# ---- fits ------------------------------------------------------------------------------------------
_v = np.linspace(0, 36.6, 80)
_iv = pvsystem.i_from_v(_v, 8., 2e-9, .3, 200., 1.66)
F('fit', 'fit_sandia_simple', sde.fit_sandia_simple, dict(voltage=_v, current=_iv), dict(vlim=(.2, .5), ilim=(.1, .3)))
F('fit', 'astm_e1036', iu.astm_e1036, dict(v=_v + .3, i=_iv + .01 * np.sin(_v * 5 + 1)),
  dict(imax_limits=((.75, 1.15), (.9, 1.05)), vmax_limits=((.75, 1.15), (.9, 1.05)), voc_points=(3, 6), isc_points=(3, 5), mp_fit_order=(4, 2)))
F('fit', 'pvsyst_temperature_coeff', sdm.pvsyst_temperature_coeff, dict(
    alpha_sc=.004, gamma_ref=1.1, mu_gamma=-.0003, I_L_ref=7.9, I_o_ref=2e-9, R_sh_ref=300., R_sh_0=1200., R_s=.4, cells_in_series=60),
  dict(R_sh_exp=(5.5, 4.), EgRef=(1.121, 1.2), irrad_ref=(1000, 900), temp_ref=(25, 20)), dict(R_sh_exp=None, irrad_ref=None))
F('fit', 'fit_desoto', lambda **k: sdm.fit_desoto(31., 8.71, 38.3, 9.43, .005658, -.13788, 60, **k)[0], {},
  dict(EgRef=(1.121, 1.13), dEgdT=(-.0002677, -.000268), temp_ref=(25, 30), irrad_ref=(1000, 900), init_guess=({}, {}), root_kwargs=({}, {})),
  dict(init_guess=None, root_kwargs=None, irrad_ref=None))
F('fit', 'fit_pvefficiency_adr', lambda **k: pvarray.fit_pvefficiency_adr(
    np.array([100., 200, 400, 600, 800, 1000, 1100, 1000, 1000]), np.array([25., 25, 25, 25, 25, 25, 25, 50, 75]),
    np.array([.93, .97, .99, 1., 1.005, 1., .998, .91, .82]), **k), {}, dict(dict_output=(True, False)))

# ---- objects ---------------------------------------------------------------------------------------
def _attrs(o, names):
    return {n: getattr(o, n) for n in names.split()}


def _loc(**k):
    o = location.Location(40., -105., **k)
    return {'tz': str(o.tz), 'alt': o.altitude, 'name': repr(o.name), 'text': repr(o)}


_LC = location.Location(40., -105., 'Etc/GMT+7', 1500., 'x')
F('objects', 'Location', _loc, {}, dict(tz=('UTC', 'Etc/GMT+7'), altitude=(None, 33.), name=(None, 'here')))
F('objects', 'Location.get_solarposition', lambda **k: _LC.get_solarposition(_LOW, **k), {}, dict(pressure=(None, 6e4), temperature=(12, -30.)))
F('objects', 'Location.get_clearsky', lambda **k: _LC.get_clearsky(T4, linke_turbidity=3., **k), {},
  dict(model=('ineichen', 'haurwitz'), solar_position=(None, None), dni_extra=(None, None)))
F('objects', 'Location.get_airmass', lambda **k: _LC.get_airmass(T4, **k), {}, dict(solar_position=(None, None), model=('kastenyoung1989', 'pickering2002')))
F('objects', 'Location.get_sun_rise_set_transit', lambda **k: _LC.get_sun_rise_set_transit(T4, **k), {}, dict(method=('spa', 'pyephem')))
_O = dict(solar_zenith=np.array([20., 60., 80., 85.]), solar_azimuth=np.array([170., 95., 100., 260.]))
F('objects', 'FixedMount', lambda **k: dict(pvsystem.FixedMount(**k).get_orientation(**_O), **_attrs(pvsystem.FixedMount(**k), 'racking_model module_height')), {},
  dict(surface_tilt=(0., 20.), surface_azimuth=(180., 90.), racking_model=(None, 'open_rack'), module_height=(None, 2.)))
F('objects', 'SingleAxisTrackerMount', lambda **k: dict(pvsystem.SingleAxisTrackerMount(**k).get_orientation(**_O),
                                                        **_attrs(pvsystem.SingleAxisTrackerMount(**k), 'racking_model module_height')), {},
  dict(axis_tilt=(0., 5.), axis_azimuth=(0., 20.), max_angle=(90., 45.), backtrack=(True, False), gcr=(2 / 7, .5), cross_axis_tilt=(0., 4.),
       racking_model=(None, 'open_rack'), module_height=(None, 2.)))
_AN = 'albedo surface_type module module_type modules_per_string strings name'


def _arr(**k):
    o = pvsystem.Array(pvsystem.FixedMount(20., 180.), **k)
    return dict(_attrs(o, _AN), mp=repr(o.module_parameters), tp=repr(o.temperature_model_parameters), al=repr(o.array_losses_parameters))


F('objects', 'Array', _arr, {}, dict(albedo=(None, .4), surface_type=(None, 'snow'), module=(None, 'm'), module_type=(None, 'glass_polymer'),
                                     module_parameters=(None, {'a': 1}), temperature_model_parameters=(None, {'u_c': 20.}), modules_per_string=(1, 10),
                                     strings=(1, 2), array_losses_parameters=(None, {'dc_ohmic_percent': 1}), name=(None, 'n')))


def _sys(**k):
    o = pvsystem.PVSystem(**k)
    a = o.arrays[0]
    return dict(_attrs(a, _AN), tilt=a.mount.surface_tilt, azi=a.mount.surface_azimuth, rack=repr(a.mount.racking_model), inv=repr(o.inverter),
                ip=repr(o.inverter_parameters), lp=repr(o.losses_parameters), sname=repr(o.name), n=len(o.arrays),
                tp=repr(a.temperature_model_parameters), mp=repr(a.module_parameters))


F('objects', 'PVSystem', _sys, {}, dict(
    arrays=(None, [pvsystem.Array(pvsystem.FixedMount(5., 90.))] * 2), surface_tilt=(0, 20.), surface_azimuth=(180, 90.), albedo=(None, .4),
    surface_type=(None, 'snow'), module=(None, 'm'), module_type=(None, 'glass_polymer'), module_parameters=(None, {'a': 1}),
    temperature_model_parameters=(None, {'u_c': 20.}), modules_per_string=(1, 10), strings_per_inverter=(1, 2), inverter=(None, 'i'),
    inverter_parameters=(None, {'pdc0': 3}), racking_model=(None, 'open_rack'), losses_parameters=(None, {'soiling': 1}), name=(None, 'n')))
_AR = pvsystem.Array(pvsystem.FixedMount(30., 170.), module_parameters={'n': 1.4, 'K': 4., 'L': .002, 'b': .07, 'a_r': .2})
_AI = dict(solar_zenith=c('zen'), solar_azimuth=c('azi'), dni=c('dni'), ghi=c('ghi'), dhi=c('dhi'))
F('objects', 'Array.get_irradiance', _AR.get_irradiance, dict(_AI), dict(dni_extra=(None, 1200.), airmass=(None, 2.), albedo=(None, .6), model=('haydavies', 'isotropic')),
  dict(airmass=dict(model='perez')))
F('objects', 'Array.get_iam', _AR.get_iam, dict(aoi=c('aoi')), dict(iam_model=('physical', 'ashrae')))
_PS = pvsystem.PVSystem(surface_tilt=30., surface_azimuth=170., module_parameters=dict(_AR.module_parameters, pdc0=240., gamma_pdc=-.004),
                        inverter_parameters=dict(pdc0=230., eta_inv_nom=.95), temperature_model_parameters=dict(u_c=29., u_v=0.),
                        losses_parameters=dict(soiling=5.))
F('objects', 'PVSystem.get_irradiance', _PS.get_irradiance, dict(_AI), dict(dni_extra=(None, 1200.), airmass=(None, 2.), albedo=(None, .6), model=('haydavies', 'isotropic')),
  dict(airmass=dict(model='perez')))
F('objects', 'PVSystem.get_iam', _PS.get_iam, dict(aoi=c('aoi')), dict(iam_model=('physical', 'martin_ruiz')))
_WX = pd.DataFrame({'ghi': [830., 600, 300, 80], 'dni': [850., 700, 400, 100], 'dhi': [90., 120, 100, 60], 'temp_air': [20., 22, 21, 19],
                    'wind_speed': [1., 2, 3, 1]}, index=T4)


def _chain(**k):
    m = modelchain.ModelChain(_PS, _LC, aoi_model='physical', spectral_model='no_loss', **k)
    m.run_model(_WX)
    a = m.run_model(_WX)
    r = a.results
    return {'ac': r.ac, 'poa': r.total_irrad['poa_global'], 'am': r.airmass['airmass_absolute'], 'zen': r.solar_position['zenith'], 'name': repr(m.name),
            'cs': repr(m.clearsky_model)}


F('chain', 'ModelChain', _chain, {}, dict(
    clearsky_model=('ineichen', 'haurwitz'), transposition_model=('haydavies', 'isotropic'), solar_position_method=('nrel_numpy', 'ephemeris'),
    airmass_model=('kastenyoung1989', 'simple'), dc_model=(None, 'pvwatts'), ac_model=(None, 'pvwatts'), temperature_model=(None, 'pvsyst'),
    dc_ohmic_model=('no_loss', 'no_loss'), losses_model=('no_loss', 'pvwatts'), name=(None, 'n')),
  dict(dc_model=None, ac_model=None, temperature_model=None), limit=1)


def norm(out):
    res = {}
    if isinstance(out, (pd.DataFrame, dict, tuple, list)):
        items = flat(out).items()
    else:
        items = [('', out)]
    for k, v in items:
        if isinstance(v, dict):
            for a, b in norm(v).items():
                res[f'{k}.{a}'] = b
            continue
        a = np.asarray(v)
        if a.dtype.kind == 'M' or (a.dtype == object and a.size and isinstance(a.ravel()[0], pd.Timestamp)):
            a = np.array([pd.Timestamp(x).value if x is not pd.NaT else math.nan for x in np.ravel(v)], dtype=float)
        try:
            res[str(k)] = a.astype(float)
        except (TypeError, ValueError):
            res[str(k)] = repr(v)
    return res


def differ(a, b, rtol):
    if sorted(a) != sorted(b):
        return f'outputs {sorted(a)} / {sorted(b)}'
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, str) or isinstance(y, str):
            if x is not y and x != y:
                return f'{k}: {x} / {y}'
            continue
        if x.shape != y.shape:
            return f'{k}: shape {x.shape} / {y.shape}'
        bad = notclose(x, y, rtol, 0)
        if np.any(bad):
            i = np.argmax(np.ravel(bad))
            return f'{k}: {np.ravel(x)[i]!r} / {np.ravel(y)[i]!r}'
    return None


def configurations(n, bound, limit):
    """0 left out, 1 default stated, 2 alternative."""
    if n <= 4 and limit > 1:
        yield from itertools.product(range(3), repeat=n)
        return
    seen = set()
    for k in range(bound - (limit > 1) + 1):          # alternatives given
        for alt in itertools.combinations(range(n), k):
            rest = [i for i in range(n) if i not in alt]
            for r in list(range(bound - k + 1)) + [len(rest)]:
                for stated in itertools.combinations(rest, r):
                    cfg = tuple(2 if i in alt else 1 if i in stated else 0 for i in range(n))
                    if cfg not in seen:
                        seen.add(cfg)
                        yield cfg


# flush mounting and 4 inches are both free of adjustment; deline at these inputs
ZERO_IS_DEFAULT = {('noct_sam', 'mount_standoff'), ('deline', 'fill_factor')}


def explore(ctx, name, fn, base, opts, extra, limit):
    names = list(opts)
    memo = {}

    def call(cfg, state):
        """cfg: 0 left out, 1 default, 2 alternative."""
        kw = dict(base)
        for p, s in zip(names, cfg):
            if s:
                kw[p] = opts[p][s - 1]
        ctx.step()
        try:
            return norm(fn(**kw))
        except Exception as e:
            return {'raised': repr(type(e).__name__)}
    bound = ctx.pick(limit, limit + 1)
    for cfg in configurations(len(names), bound, limit):
        ctx.state()
        full = tuple(s or 1 for s in cfg)
        if full not in memo:
            memo[full] = call(full, ctx)
            if 'raised' in memo[full]:
                # an alternative may be unusable; the default is not
                ctx.expect(2 in full, 'documented default accepted', f'{name} {memo[full]}')
        got = memo[full] if cfg == full else call(cfg, ctx)
        d = differ(got, memo[full], 1e-12)
        ctx.expect(d is None, 'left-out argument means its documented default',
                   f'{name} {dict((p, s) for p, s in zip(names, cfg))}: {d}')
    for p in names:
        alt = extra.get(p, {})
        if alt is None or opts[p][0] is opts[p][1]:
            continue
        ctx.state()
        kw = dict(base, **alt)
        a = norm(fn(**kw))
        b = norm(fn(**dict(kw, **{p: opts[p][1]})))
        ctx.step(2)
        ctx.expect(differ(a, b, 1e-9) is not None, 'a given option takes effect', f'{name} {p}={opts[p][1]!r}')
        # a zero is a value like any other, not "left out"
        if not any(isinstance(v, bool) or not isinstance(v, (int, float)) for v in opts[p] if v is not None) and opts[p][0] != 0 and (name, p) not in ZERO_IS_DEFAULT:
            out = []
            for v in (0., 0, 1e-13):
                ctx.step()
                try:
                    out.append(norm(quiet(fn, **dict(kw, **{p: v}))))
                except Exception as e:
                    out.append({'raised': repr(type(e).__name__)})
            if 'raised' not in out[2] and differ(out[2], a, 1e-9) is not None:
                for z in out[:2]:
                    ctx.expect('raised' in z or differ(z, a, 1e-9) is not None, 'a zero given is a value', f'{name} {p}=0')


def _make(group):
    def run(ctx):
        warnings.simplefilter('ignore')
        for name, fn, base, opts, extra, limit in TABLE[group]:
            if opts:
                explore(ctx, name, fn, base, opts, extra, limit)
    return run


for _g in TABLE:
    case(CASES, name='functions: ' + _g)(_make(_g))


# ---- parameters held by a system: every subset of the optional ones, against the model called directly --------------
_EFF, _TC, _AOI = c('eff'), c('tc'), np.array([0., 35., 62., 84.])
_W3 = (np.array([900., 500., 120., 0.]), np.array([25., 10., -3., 30.]), np.array([1., 4., 0., 8.]))
_W3S = tuple(pd.Series(v, T4) for v in _W3)
_DS = dict(I_L_ref=6., I_o_ref=1e-9, R_sh_ref=300., R_s=.4, alpha_sc=.004)
_REF = dict(irrad_ref=(1000, 900.), temp_ref=(25, 20.))
_EG = dict(EgRef=(1.121, 1.3), dEgdT=(-.0002677, -.0003))


def PAR(name, call, direct, req, opts, where='module_parameters', mount=()):
    return name, call, direct, req, opts, where, dict(mount)


def _tc(model, **kw):
    def f(s):
        w = _W3S if model == 'fuentes' else _W3
        return s.get_cell_temperature(*((x,) * s.num_arrays for x in w), model, **{k: (v,) * s.num_arrays for k, v in kw.items()})
    return f


_PAR = [
    PAR('calcparams_desoto', lambda s: s.calcparams_desoto((_EFF,) * s.num_arrays, (_TC,) * s.num_arrays), lambda **k: pvsystem.calcparams_desoto(_EFF, _TC, **k),
        dict(_DS, a_ref=1.5), dict(_EG, **_REF)),
    PAR('calcparams_cec', lambda s: s.calcparams_cec((_EFF,) * s.num_arrays, (_TC,) * s.num_arrays), lambda **k: pvsystem.calcparams_cec(_EFF, _TC, **k),
        dict(_DS, a_ref=1.5, Adjust=9.), dict(_EG, **_REF)),
    PAR('calcparams_pvsyst', lambda s: s.calcparams_pvsyst((_EFF,) * s.num_arrays, (_TC,) * s.num_arrays), lambda **k: pvsystem.calcparams_pvsyst(_EFF, _TC, **k),
        dict(_DS, gamma_ref=1.05, mu_gamma=.001, R_sh_0=900., cells_in_series=60), dict(R_sh_exp=(5.5, 4.), EgRef=(1.121, 1.3), **_REF)),
    PAR('pvwatts_dc', lambda s: s.pvwatts_dc((_EFF,) * s.num_arrays, (_TC,) * s.num_arrays), lambda **k: pvsystem.pvwatts_dc(_EFF, _TC, **k),
        dict(pdc0=240., gamma_pdc=-.004), dict(temp_ref=(25., 20.), k=(0., .01), cap_adjustment=(False, True))),
    PAR('iam physical', lambda s: s.get_iam((_AOI,) * s.num_arrays, 'physical'), lambda **k: iam.physical(_AOI, **k), {},
        dict(n=(1.526, 1.4), K=(4., 9.), L=(.002, .005), n_ar=(None, 1.2))),
    PAR('iam ashrae', lambda s: s.get_iam((_AOI,) * s.num_arrays, 'ashrae'), lambda **k: iam.ashrae(_AOI, **k), {}, dict(b=(.05, .08))),
    PAR('iam martin_ruiz', lambda s: s.get_iam((_AOI,) * s.num_arrays, 'martin_ruiz'), lambda **k: iam.martin_ruiz(_AOI, **k), {}, dict(a_r=(.16, .2))),
    PAR('iam interp', lambda s: s.get_iam((_AOI,) * s.num_arrays, 'interp'), lambda **k: iam.interp(_AOI, **k),
        dict(theta_ref=np.array([0., 30., 60., 75., 90.]), iam_ref=np.array([1.1, 1.08, .9, .6, 0.])), dict(method=('linear', 'quadratic'), normalize=(True, False))),
    PAR('cell sapm', _tc('sapm'), lambda **k: temperature.sapm_cell(*_W3, **k), dict(a=-3.47, b=-.0594, deltaT=3.), dict(irrad_ref=(1000., 800.)), 'temperature_model_parameters'),
    PAR('cell pvsyst', _tc('pvsyst'), lambda **k: temperature.pvsyst_cell(*_W3, **k), {}, dict(u_c=(29., 20.), u_v=(0., 1.2)), 'temperature_model_parameters'),
    PAR('cell pvsyst module', _tc('pvsyst'), lambda **k: temperature.pvsyst_cell(*_W3, **k), {},
        dict(module_efficiency=(.1, .2), alpha_absorption=(.9, .8)), 'module_parameters'),
    PAR('cell faiman', _tc('faiman'), lambda **k: temperature.faiman(*_W3, **k), {}, dict(u0=(25., 30.), u1=(6.84, 5.)), 'temperature_model_parameters'),
    PAR('cell faiman_rad', _tc('faiman_rad', longwave_down=np.array([300., 250., 200., 350.])),
        lambda **k: temperature.faiman_rad(*_W3, ir_down=np.array([300., 250., 200., 350.]), **k), {},
        dict(u0=(25., 30.), u1=(6.84, 5.), sky_view=(1., .7), emissivity=(.88, .8)), 'temperature_model_parameters'),
    PAR('cell fuentes', _tc('fuentes'), lambda **k: temperature.fuentes(*_W3S, **k), dict(noct_installed=46.),
        dict(wind_height=(9.144, 3.), emissivity=(.84, .7), absorption=(.83, .7), surface_tilt=(30, 60.), module_width=(.31579, .9), module_length=(1.2, 1.9)),
        'temperature_model_parameters'),
    PAR('cell fuentes height', _tc('fuentes'), lambda **k: temperature.fuentes(*_W3S, module_height=2., **k), dict(noct_installed=46.),
        dict(wind_height=(9.144, 3.)), 'temperature_model_parameters', dict(module_height=2.)),
    PAR('cell noct_sam', _tc('noct_sam', effective_irradiance=_W3[0] * .9), lambda **k: temperature.noct_sam(*_W3, effective_irradiance=_W3[0] * .9, **k),
        dict(noct=45., module_efficiency=.18), dict(transmittance_absorptance=(.9, .8), array_height=(1, 2), mount_standoff=(4, 2.)), 'temperature_model_parameters'),
    PAR('cell ross noct', _tc('ross'), lambda **k: temperature.ross(_W3[0], _W3[1], **k), dict(noct=45.), {}, 'temperature_model_parameters'),
    PAR('cell ross k', _tc('ross'), lambda **k: temperature.ross(_W3[0], _W3[1], **k), dict(k=.03), {}, 'temperature_model_parameters'),
    PAR('inverter pvwatts', lambda s: s.get_ac('pvwatts', (_W3[0], _W3[0] * .3)[:s.num_arrays]),
        lambda **k: inverter.pvwatts_multi((_W3[0], _W3[0] * .3), **k), dict(pdc0=900.), dict(eta_inv_nom=(.96, .9), eta_inv_ref=(.9637, .92)), 'inverter_parameters'),
    PAR('losses pvwatts', lambda s: s.pvwatts_losses(), lambda **k: pvsystem.pvwatts_losses(**k), {},
        dict(soiling=(2, 5.), shading=(3, 7.), snow=(0, 4.), mismatch=(2, 1.), wiring=(2, 3.), connections=(.5, 1.), lid=(1.5, 3.), nameplate_rating=(1, 0.), age=(0, 6.),
             availability=(3, 1.)), 'losses_parameters'),
]


@case(CASES)
def parameters_of_systems(ctx):
    """Each PVSystem/Array method x every subset of the optional parameters held by the system (left out, default,
    alternative), each value compared with the model function called with exactly the given parameters; in the first
    and the second of two arrays whose parameters differ."""
    warnings.simplefilter('ignore')
    P = 'temperature_model_parameters', 'module_parameters', 'inverter_parameters', 'losses_parameters'
    for name, call, direct, req, opts, where, mount in _PAR:
        names = list(opts)
        base = norm(direct(**req))
        zeros = [{p: z} for p in names for z in (0, 0.) if not any(isinstance(v, (bool, str)) for v in opts[p])]
        for cfg in [*configurations(len(names), ctx.pick(2, 3), 2), *zeros]:
            given = cfg if isinstance(cfg, dict) else {p: opts[p][s - 1] for p, s in zip(names, cfg) if s}
            if any(v is None for v in given.values()):
                continue
            try:
                exp = norm(quiet(direct, **req, **given))
            except Exception:
                if not isinstance(cfg, dict):
                    raise
                continue            # a zero this model does not take
            if not isinstance(cfg, dict):
                ctx.expect(differ(norm(direct(**req, **{p: v[0] for p, v in opts.items() if p not in given and v[0] is not None}, **given)), exp, 1e-12) is None,
                           'left-out parameter means its documented default', name)
            par = dict(req, **given)
            for pos in ((0, 1) if where in P[:2] else (0,)):
                ctx.state()
                ctx.step()
                sysk = {}
                if where in P[:2]:
                    two = [dict(par), dict(req)][:: 1 if pos == 0 else -1]
                    arrays = [pvsystem.Array(pvsystem.FixedMount(20., 180., **mount), **{**{P[0]: {'a': -3.5}, P[1]: {'zz': 1}}, where: d}) for d in two]
                else:
                    arrays = [pvsystem.Array(pvsystem.FixedMount(20., 180.)) for _ in range(2)]
                    sysk[where] = dict(par)
                ps = pvsystem.PVSystem(arrays, **sysk)
                out = call(ps)
                if where in P[:2]:
                    ctx.expect(isinstance(out, tuple) and len(out) == 2, 'one result per array', f'{name} {type(out).__name__}')
                    d = differ(norm(out[pos]), exp, 1e-12)
                    ctx.expect(d is None, 'a parameter given to an array takes effect', f'{name} {given}: {d}')
                    d = differ(norm(out[1 - pos]), base, 1e-12)
                    ctx.expect(d is None, 'a parameter given to one array stays there', f'{name} {given}: {d}')
                    if name.startswith(('iam', 'cell')):
                        one = pvsystem.PVSystem([arrays[pos]])
                        d = differ(norm(call(one)), exp, 1e-12)
                        ctx.expect(d is None, 'a parameter given to a single array takes effect', f'{name} {given}: {d}')
                else:
                    d = differ(norm(out), exp, 1e-12)
                    ctx.expect(d is None, 'a parameter given to a system takes effect', f'{name} {given}: {d}')
                ctx.expect(all(repr(a) == repr(b) for a, b in zip([getattr(ps, where)] if sysk else [getattr(a, where) for a in ps.arrays],
                                                                   [par] if sysk else two)), 'parameters kept', name)
