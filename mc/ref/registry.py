"""Registry of the public elementwise models: (name, call, columns, options).

``call`` takes one keyword per column.  Columns are per-element inputs (a row of
the columns is one element); everything else is bound as a constant.  The
special column ``times`` is a DatetimeIndex with one label per element.
"""
import functools
import math

import numpy as np
import pandas as pd

import pvlib
from pvlib import (albedo, atmosphere, clearsky, iam, inverter, irradiance, pvarray, pvsystem, shading, singlediode,
                   snow, soiling, spectrum, temperature, tools, tracking, transformer, solarposition, scaling)
from pvlib.bifacial import ants2d, infinite_sheds, loss_models
from pvlib.bifacial import utils as butils
from mc.ref import pvsys as R

nan = math.nan

# six elements: clear noon, low sun, overcast, night, sun behind the plane, missing
COL = {
    'zen':    [38., 81.5, 62., 104., 70., nan],
    'azi':    [190., 95., 140., 310., 20., 180.],
    'ghi':    [830., 120., 190., 0., 260., nan],
    'dni':    [880., 340., 3., 0., 410., 500.],
    'dhi':    [115., 66., 188., 0., 105., nan],
    'extra':  [1370., 1401., 1352., 1366., 1330., 1361.],
    'am':     [1.27, 6.2, 2.1, nan, 2.9, 1.6],
    'pw':     [1.4, .05, 4.2, 2., 9.5, nan],
    'aod':    [.1, .04, .45, .2, .3, .12],
    'aod2':   [.12, .06, .5, .25, .33, .2],
    'lt':     [3., 2., 5.1, 3.3, 4., nan],
    'aoi':    [12., 62., 31., 118., 90., nan],
    'tilt':   [25., 0., 60., 90., 33., 40.],
    'saz':    [180., 170., 220., 0., 200., 90.],
    'albedo': [.2, .25, 0., .6, 1., .3],
    'ta':     [21., -9., 12., 0., 35., nan],
    'td':     [11., -12., 11.5, -3., 1., 2.],
    'rh':     [55., 79., 97., 100., 12., nan],
    'ws':     [2., 0., 5.5, 1., 12., .5],
    'lw':     [330., 240., 350., 280., 390., 300.],
    'poa':    [1010., 180., 205., 0., 310., nan],
    'direct': [870., 110., 3., 0., 200., 400.],
    'diffuse': [140., 70., 202., 0., 110., nan],
    'eff':    [985., 1., 200., 0., 300., nan],
    'tc':     [51., -8., 17., 0., 44., 25.],
    'tm':     [48., -8., 16., 0., 43., 25.],
    'vdc':    [310., 220., 255., 0., 301., nan],
    'pdc':    [205., 3., 40., 0., 262., 100.],
    'il':     [7.9, .05, 1.6, 0.3, 9., 6.],
    'io':     [2e-9, 3e-10, 4e-9, 1e-9, 8e-8, 1e-10],
    'rs':     [.4, .3, .35, .1, 0., .5],
    'rsh':    [300., 2000., 800., 5000., 1e5, 60.],
    'nv':     [1.9, 1.5, 1.7, 1.6, 2.1, 1.8],
    'frac':   [0., .35, 1., .5, .08, .9],
    'kt':     [.7, .2, .31, 0., 1.4, nan],
    'press':  [101325., 85000., 100000., 60000., 98000., 90000.],
    'alt':    [0., 1500., 120., 4100., -80., 300.],
    'rot':    [-10., 55., 0., -60., 33., 15.],
    'vel':    [3., 0., 2., 7., 1., 4.],
    'elev':   [52., 8.5, 28., -14., 20., nan],
    'ang':    [0., 30., -90., 200., 59.5, nan],
    'unit':   [0., .5, -1., 1., -.3, nan],
    'doy':    [1, 172, 80, 366, 300, 45],
    'pac':    [200., 2., 30., 0., 260., nan],
    'current': [5., .02, 1., .1, 3., 2.],
    'voltage': [20., 3., 15., 0., 30., 25.],
    'rmad':   [0., 3., 8., 20., .5, 1.],
    'cover':  [0., .3, 1., .5, .01, nan],
    'gbb':    [20., 5., 18., 1., 60., 32.],
    'x':      [0., .25, .5, 1., .75, .9],
    'lat':    [40., -33., 0., 65., 12., 51.],
    'dec':    [.2, -.3, 0., .4, .1, -.4],
    'ha':     [-.8, .3, 0., 2.9, 1.2, .05],
}
TIMES = pd.DatetimeIndex(['2021-06-21 12:05', '2021-12-03 08:00', '2021-03-20 15:31', '2020-02-29 23:59',
                          '2021-08-10 17:00', '2021-01-01 00:00'])
NROW = 6
assert all(len(v) == NROW for v in COL.values())

ENTRIES = []


class Entry:
    def __init__(self, name, fn, cols, **opt):
        self.name, self.fn, self.cols, self.opt = name, fn, cols, opt
        self.rtol = opt.pop('rtol', 1e-9)
        self.atol = opt.pop('atol', 1e-9)
        self.forms = opt.pop('forms', ('array', 'series'))
        self.rows = opt.pop('rows', None)           # usable rows
        self.maxword = opt.pop('maxword', 3)
        self.index = opt.pop('index', True)         # outputs keep the Series index
        self.scalar = opt.pop('scalar', True)       # scalars accepted
        self.twod = opt.pop('twod', False)          # wavelength-by-time outputs: element is the last axis
        self.const = opt.pop('const', None)         # mutable constants to be checked for changes
        assert not opt, opt


def E(name, fn, cols, **opt):
    """cols: 'param=column param2=column2' (a bare name means the same for both)."""
    spec = {}
    for c in cols.split():
        a, _, b = c.partition('=')
        spec[a] = b or a
    ENTRIES.append(Entry(name, fn, spec, **opt))


def P(f, *a, **k):
    return functools.partial(f, *a, **k)


# ---- irradiance ------------------------------------------------------------------------------------
SUN = 'surface_tilt=tilt surface_azimuth=saz solar_zenith=zen solar_azimuth=azi'
E('aoi', irradiance.aoi, SUN)
E('aoi_projection', irradiance.aoi_projection, SUN)
E('beam_component', irradiance.beam_component, SUN + ' dni')
for _m in ('isotropic', 'klucher', 'haydavies', 'reindl', 'king', 'perez', 'perez-driesse'):
    E('get_sky_diffuse:' + _m, P(irradiance.get_sky_diffuse, model=_m), SUN + ' dni ghi dhi dni_extra=extra airmass=am')
    E('get_total_irradiance:' + _m, P(irradiance.get_total_irradiance, model=_m),
      SUN + ' dni ghi dhi dni_extra=extra airmass=am albedo')
for _m in ('isotropic', 'haydavies', 'reindl', 'perez', 'perez-driesse'):
    E('get_sky_diffuse-components:' + _m, P(irradiance.get_sky_diffuse, model=_m, return_components=True),
      SUN + ' dni ghi dhi dni_extra=extra airmass=am')
E('poa_components', irradiance.poa_components, 'aoi dni poa_sky_diffuse=diffuse poa_ground_diffuse=lw')
E('get_ground_diffuse', irradiance.get_ground_diffuse, 'surface_tilt=tilt ghi albedo')
E('get_ground_diffuse:snow', P(irradiance.get_ground_diffuse, surface_type='snow'), 'surface_tilt=tilt ghi')
E('ghi_from_poa_driesse_2024', irradiance.ghi_from_poa_driesse_2024,
  SUN + ' poa_global=poa dni_extra=extra airmass=am albedo', maxword=2, rtol=1e-7, rows=(0, 1, 2, 4))
E('clearsky_index', irradiance.clearsky_index, 'ghi ghi_clear=poa')
E('clearness_index', irradiance.clearness_index, 'ghi solar_zenith=zen extra_radiation=extra')
E('clearness_index_zenith_independent', irradiance.clearness_index_zenith_independent, 'clearness_index=kt airmass=am')
E('disc', irradiance.disc, 'ghi solar_zenith=zen datetime_or_doy=doy pressure=press', scalar=False, index=False)
E('disc:times', irradiance.disc, 'ghi solar_zenith=zen datetime_or_doy=times pressure=press', scalar=False)
E('disc:nopressure', P(irradiance.disc, pressure=None), 'ghi solar_zenith=zen datetime_or_doy=doy', scalar=False, index=False)
for _n, _f in (('erbs', irradiance.erbs), ('erbs_driesse', irradiance.erbs_driesse),
               ('orgill_hollands', irradiance.orgill_hollands)):
    E(_n, _f, 'ghi zenith=zen datetime_or_doy=doy', index=False)
    E(_n + ':times', _f, 'ghi zenith=zen datetime_or_doy=times', scalar=False)
for _n, _f in (('erbs_driesse', irradiance.erbs_driesse), ('orgill_hollands', irradiance.orgill_hollands)):
    E(_n + ':extra', P(_f, datetime_or_doy=None), 'ghi zenith=zen dni_extra=extra', index=False)
E('boland', irradiance.boland, 'ghi solar_zenith=zen datetime_or_doy=doy', index=False)
E('boland:times', irradiance.boland, 'ghi solar_zenith=zen datetime_or_doy=times', scalar=False)
E('louche', irradiance.louche, 'ghi solar_zenith=zen datetime_or_doy=doy', index=False)
E('campbell_norman', irradiance.campbell_norman, 'zenith=zen transmittance=frac pressure=press dni_extra=extra')
E('dni', irradiance.dni, 'ghi dhi zenith=zen', scalar=False)
E('dni:clear', irradiance.dni, 'ghi dhi zenith=zen dni_clear=dni', scalar=False, forms=('series',))
E('complete_irradiance:dni', irradiance.complete_irradiance, 'solar_zenith=zen ghi dhi', scalar=False,
  forms=('series',))
E('complete_irradiance:ghi', irradiance.complete_irradiance, 'solar_zenith=zen dni dhi', scalar=False,
  forms=('series',))
E('complete_irradiance:dhi', irradiance.complete_irradiance, 'solar_zenith=zen dni ghi', scalar=False,
  forms=('series',))
E('diffuse_par_spitters', irradiance.diffuse_par_spitters, 'daily_solar_zenith=zen global_diffuse_fraction=frac')
for _m in ('spencer', 'asce', 'nrel', 'pyephem'):
    if _m != 'pyephem':
        E('get_extra_radiation:doy:' + _m, P(irradiance.get_extra_radiation, method=_m), 'datetime_or_doy=doy',
          index=False)
    E('get_extra_radiation:times:' + _m, P(irradiance.get_extra_radiation, method=_m), 'datetime_or_doy=times',
      scalar=False)

# ---- atmosphere, clear sky -------------------------------------------------------------------------
E('pres2alt', atmosphere.pres2alt, 'pressure=press')
E('alt2pres', atmosphere.alt2pres, 'altitude=alt')
E('get_absolute_airmass', atmosphere.get_absolute_airmass, 'airmass_relative=am pressure=press')
for _m in ('simple', 'kasten1966', 'youngirvine1967', 'kastenyoung1989', 'gueymard1993', 'young1994', 'pickering2002',
           'gueymard2003'):
    E('get_relative_airmass:' + _m, P(atmosphere.get_relative_airmass, model=_m), 'zenith=zen')
E('gueymard94_pw', atmosphere.gueymard94_pw, 'temp_air=ta relative_humidity=rh')
E('rh_from_tdew', atmosphere.rh_from_tdew, 'temp_air=ta temp_dew=td')
E('tdew_from_rh', atmosphere.tdew_from_rh, 'temp_air=ta relative_humidity=rh')
E('bird_hulstrom80_aod_bb', atmosphere.bird_hulstrom80_aod_bb, 'aod380=aod2 aod500=aod')
E('kasten96_lt', atmosphere.kasten96_lt, 'airmass_absolute=am precipitable_water=pw aod_bb=aod')
E('angstrom_aod_at_lambda', P(atmosphere.angstrom_aod_at_lambda, lambda0=500.), 'aod0=aod alpha=vel')
E('angstrom_alpha', P(atmosphere.angstrom_alpha, lambda1=380., lambda2=500.), 'aod1=aod2 aod2=aod')
E('windspeed_powerlaw', P(atmosphere.windspeed_powerlaw, height_reference=10, height_desired=2, exponent=.2),
  'wind_speed_reference=ws')
for _p in (False, True):
    E(f'ineichen:{_p}', P(clearsky.ineichen, perez_enhancement=_p),
      'apparent_zenith=zen airmass_absolute=am linke_turbidity=lt altitude=alt dni_extra=extra')
E('haurwitz', clearsky.haurwitz, 'apparent_zenith=zen', forms=('series',), scalar=False)
E('simplified_solis', clearsky.simplified_solis,
  'apparent_elevation=elev aod700=aod precipitable_water=pw pressure=press dni_extra=extra')
E('bird', clearsky.bird,
  'zenith=zen airmass_relative=am aod380=aod2 aod500=aod precipitable_water=pw pressure=press dni_extra=extra albedo')

# ---- iam --------------------------------------------------------------------------------------------
E('iam.ashrae', iam.ashrae, 'aoi')
E('iam.physical', iam.physical, 'aoi')
E('iam.physical:ar', P(iam.physical, n_ar=1.2), 'aoi')
E('iam.martin_ruiz', iam.martin_ruiz, 'aoi')
E('iam.martin_ruiz_diffuse', iam.martin_ruiz_diffuse, 'surface_tilt=tilt')
_T, _I = [0, 20, 45, 70, 90], [1, .99, .95, .7, 0]
E('iam.interp', P(iam.interp, theta_ref=_T, iam_ref=_I), 'aoi', const=(_T, _I))
E('iam.interp:cubic', P(iam.interp, theta_ref=np.array(_T), iam_ref=np.array(_I), method='cubic'), 'aoi')
E('iam.sapm', P(iam.sapm, module=R.SAPM), 'aoi', const=R.SAPM)
E('iam.schlick', iam.schlick, 'aoi')
E('iam.schlick_diffuse', iam.schlick_diffuse, 'surface_tilt=tilt')
for _m in ('ashrae', 'physical', 'martin_ruiz', 'schlick'):
    E('iam.marion_diffuse:' + _m, P(iam.marion_diffuse, _m), 'surface_tilt=tilt', maxword=2)
for _r in ('sky', 'horizon', 'ground'):
    E('iam.marion_integrate:' + _r, lambda surface_tilt, _r=_r: iam.marion_integrate(iam.ashrae, surface_tilt, _r),
      'surface_tilt=tilt', maxword=2)

# ---- pvsystem, single diode -------------------------------------------------------------------------
def _kw(d, *names):
    return {k: d[k] for k in names}


_D = _kw(R.CEC, 'alpha_sc', 'a_ref', 'I_L_ref', 'I_o_ref', 'R_sh_ref', 'R_s')
_PS = _kw(R.PVSYST, 'alpha_sc', 'gamma_ref', 'mu_gamma', 'I_L_ref', 'I_o_ref', 'R_sh_ref', 'R_sh_0', 'R_s',
          'cells_in_series')
E('calcparams_desoto', P(pvsystem.calcparams_desoto, **_D), 'effective_irradiance=eff temp_cell=tc')
E('calcparams_cec', P(pvsystem.calcparams_cec, Adjust=R.CEC['Adjust'], **_D), 'effective_irradiance=eff temp_cell=tc')
E('calcparams_pvsyst', P(pvsystem.calcparams_pvsyst, **_PS), 'effective_irradiance=eff temp_cell=tc')
E('sapm', P(pvsystem.sapm, module=R.SAPM), 'effective_irradiance=eff temp_cell=tc', const=R.SAPM)
E('sapm_effective_irradiance', P(pvsystem.sapm_effective_irradiance, module=R.SAPM),
  'poa_direct=direct poa_diffuse=diffuse airmass_absolute=am aoi', const=R.SAPM)
_SD = 'photocurrent=il saturation_current=io resistance_series=rs resistance_shunt=rsh nNsVth=nv'
for _m, _t in (('lambertw', 1e-7), ('brentq', 1e-6), ('newton', 1e-6), ('chandrupatla', 1e-5)):
    _mw = 2 if _m != 'lambertw' else 3
    E('singlediode:' + _m, P(pvsystem.singlediode, method=_m), _SD, rtol=_t, atol=1e-7, maxword=_mw)
    E('v_from_i:' + _m, P(pvsystem.v_from_i, method=_m), 'current ' + _SD, rtol=_t, atol=1e-7, maxword=_mw,
      index=False)
    E('i_from_v:' + _m, P(pvsystem.i_from_v, method=_m), 'voltage ' + _SD, rtol=_t, atol=1e-7, maxword=_mw,
      index=False)
for _m in ('brentq', 'newton', 'chandrupatla'):
    E('max_power_point:' + _m, P(pvsystem.max_power_point, method=_m), _SD, rtol=1e-6, atol=1e-7, maxword=2,
      index=False)
E('singlediode.batzelis', singlediode.batzelis, _SD, rows=(0, 1, 2, 3, 5), index=False)
E('bishop88', P(singlediode.bishop88, gradients=True), 'diode_voltage=voltage ' + _SD, rows=(0, 1, 2, 3, 5))
E('bishop88:recomb', P(singlediode.bishop88, d2mutau=.1, NsVbi=60.), 'diode_voltage=voltage ' + _SD,
  rows=(0, 1, 2, 3, 5))
E('estimate_voc', singlediode.estimate_voc, 'photocurrent=il saturation_current=io nNsVth=nv')
E('pvwatts_dc', P(pvsystem.pvwatts_dc, pdc0=240., gamma_pdc=-.004), 'effective_irradiance=eff temp_cell=tc')
E('pvwatts_dc:k', P(pvsystem.pvwatts_dc, pdc0=240., gamma_pdc=-.004, k=.01, cap_adjustment=True),
  'effective_irradiance=eff temp_cell=tc')
E('pvwatts_losses', pvsystem.pvwatts_losses, 'soiling=frac shading=cover')
E('dc_ohmic_losses', P(pvsystem.dc_ohmic_losses, .3), 'current=il')
E('dc_ohms_from_percent', P(pvsystem.dc_ohms_from_percent, dc_ohmic_percent=2.), 'vmp_ref=gbb imp_ref=rsh')

# ---- temperature ------------------------------------------------------------------------------------
_TP = 'poa_global=poa temp_air=ta wind_speed=ws'
E('sapm_cell', P(temperature.sapm_cell, a=-3.47, b=-.0594, deltaT=3), _TP)
E('sapm_module', P(temperature.sapm_module, a=-3.47, b=-.0594), _TP)
E('sapm_cell_from_module', P(temperature.sapm_cell_from_module, deltaT=3), 'module_temperature=tm poa_global=poa')
E('pvsyst_cell', P(temperature.pvsyst_cell, u_v=1.2), _TP)
E('faiman', temperature.faiman, _TP)
E('faiman_rad', temperature.faiman_rad, _TP + ' ir_down=lw')
E('faiman_rad:none', temperature.faiman_rad, _TP)
E('ross', P(temperature.ross, noct=45.), 'poa_global=poa temp_air=ta')
E('noct_sam', P(temperature.noct_sam, noct=45., module_efficiency=.2), _TP + ' effective_irradiance=eff', rows=(0, 1, 2, 4, 5))
E('noct_sam:mount', P(temperature.noct_sam, noct=45., module_efficiency=.2, array_height=2, mount_standoff=1), _TP)
E('generic_linear', P(temperature.generic_linear, u_const=11., du_wind=.9, module_efficiency=.2, absorptance=.9), _TP)

# ---- inverter, transformer --------------------------------------------------------------------------
_INV = {'Paco': 250., 'Pdco': 259.5, 'Vdco': 40.2 * 7, 'Pso': 2.1, 'C0': -4.1e-5, 'C1': -9.1e-5, 'C2': .0005,
        'C3': -.013, 'Pnt': .075}
_ADR = {'Pacmax': 250., 'Pnom': 259., 'Vnom': 280., 'Vmin': 200., 'Vmax': 400., 'Vdcmax': 420.,
        'MPPTHi': 390., 'MPPTLow': 210., 'ADRCoefficients':
        [.01385, .0152, .00794, .00286, -.01872, -.01305, 0., 0., 0.], 'Pnt': .1}
E('inverter.sandia', P(inverter.sandia, inverter=_INV), 'v_dc=vdc p_dc=pdc', const=_INV)
E('inverter.sandia_multi', lambda v_dc, p_dc: inverter.sandia_multi((v_dc, v_dc), (p_dc, p_dc), _INV),
  'v_dc=vdc p_dc=pdc', const=_INV)
E('inverter.adr', P(inverter.adr, inverter=_ADR), 'v_dc=vdc p_dc=pdc', const=_ADR)
E('inverter.pvwatts', P(inverter.pvwatts, pdc0=210.), 'pdc')
E('inverter.pvwatts_multi', lambda pdc: inverter.pvwatts_multi((pdc, pdc), 420.), 'pdc')
E('simple_efficiency', P(transformer.simple_efficiency, no_load_loss=.005, load_loss=.01, transformer_rating=250.),
  'input_power=pac')

# ---- shading, tracking, bifacial --------------------------------------------------------------------
E('ground_angle', P(shading.ground_angle, gcr=.4), 'surface_tilt=tilt slant_height=frac')
E('masking_angle', P(shading.masking_angle, gcr=.4), 'surface_tilt=tilt slant_height=frac')
E('masking_angle_passias', P(shading.masking_angle_passias, gcr=.4), 'surface_tilt=tilt', index=False)
E('sky_diffuse_passias', shading.sky_diffuse_passias, 'masking_angle=elev')
E('projected_solar_zenith_angle', P(shading.projected_solar_zenith_angle, axis_tilt=5., axis_azimuth=190.),
  'solar_zenith=zen solar_azimuth=azi')
E('shaded_fraction1d', P(shading.shaded_fraction1d, axis_azimuth=190., collector_width=1.4, pitch=3., axis_tilt=3.,
                         surface_to_axis_offset=.1, cross_axis_slope=4.),
  'solar_zenith=zen solar_azimuth=azi shaded_row_rotation=rot')
E('direct_martinez', P(shading.direct_martinez, total_blocks=4), 'poa_global=lw poa_direct=gbb shaded_fraction=frac '
  'shaded_blocks=vel', rows=(0, 1, 2, 4, 5))
for _b in (True, False):
    E(f'singleaxis:{_b}', P(tracking.singleaxis, axis_tilt=4., axis_azimuth=190., max_angle=55., backtrack=_b, gcr=.4,
                            cross_axis_tilt=3.), 'apparent_zenith=zen solar_azimuth=azi')
E('calc_surface_orientation', P(tracking.calc_surface_orientation, axis_tilt=4., axis_azimuth=190.), 'tracker_theta=rot')
E('calc_axis_tilt', P(tracking.calc_axis_tilt, axis_azimuth=190.), 'slope_azimuth=saz slope_tilt=tilt')
_SH = dict(gcr=.4, height=1.5, pitch=5.)
for _m in ('isotropic', 'haydavies'):
    E('infinite_sheds:' + _m, P(infinite_sheds.get_irradiance, model=_m, **_SH),
      SUN + ' ghi dhi dni albedo dni_extra=extra', maxword=2)
E('infinite_sheds.poa', P(infinite_sheds.get_irradiance_poa, **_SH), SUN + ' ghi dhi dni albedo', maxword=2)
for _m in ('isotropic', 'perez'):
    E('ants2d:' + _m, P(ants2d.get_irradiance, axis_azimuth=180., model=_m, row_segments=1, ground_segments=4, **_SH),
      'tracker_rotation=rot solar_zenith=zen solar_azimuth=azi ghi dhi dni albedo dni_extra=extra airmass=am',
      maxword=2)
E('vf_ground_sky_2d_integ', P(butils.vf_ground_sky_2d_integ, gcr=.4, height=1.5, pitch=5.), 'tracker_rotation=rot',
  maxword=2, index=False)
E('vf_row_sky_2d', P(butils.vf_row_sky_2d, gcr=.4, x=.3), 'surface_tilt=tilt')
E('vf_row_sky_2d_integ', P(butils.vf_row_sky_2d_integ, gcr=.4), 'surface_tilt=tilt', index=False)
E('vf_row_ground_2d', P(butils.vf_row_ground_2d, gcr=.4, x=.3), 'surface_tilt=tilt')
E('power_mismatch_deline', loss_models.power_mismatch_deline, 'rmad=frac')

# ---- spectrum, pvarray, albedo ----------------------------------------------------------------------
E('caballero', P(spectrum.spectral_factor_caballero, module_type='cdte'),
  'precipitable_water=pw airmass_absolute=am aod500=aod')
E('firstsolar', P(spectrum.spectral_factor_firstsolar, module_type='cdte'), 'precipitable_water=pw airmass_absolute=am',
  scalar=False)
E('jrc', P(spectrum.spectral_factor_jrc, module_type='cdte'), 'airmass=am clearsky_index=kt')
E('polo', P(spectrum.spectral_factor_polo, module_type='cdte'),
  'precipitable_water=pw airmass_absolute=am aod500=aod aoi pressure=press albedo')
E('pvspec', P(spectrum.spectral_factor_pvspec, module_type='fs4-1'), 'airmass_absolute=am clearsky_index=kt')
E('spectral_factor_sapm', P(spectrum.spectral_factor_sapm, module=R.SAPM), 'airmass_absolute=am', const=R.SAPM)
def _spectrl2(**k):
    r = spectrum.spectrl2(ground_albedo=.2, **k)
    return {n: np.asarray(v)[::9] for n, v in r.items() if n != 'wavelength'}


E('spectrl2', _spectrl2,
  'apparent_zenith=zen aoi surface_tilt=tilt surface_pressure=press relative_airmass=am precipitable_water=pw ozone=unit '
  'aerosol_turbidity_500nm=aod dayofyear=doy', twod=True, maxword=2, forms=('array',), rows=(0, 1, 2, 4), scalar=False)
E('pvefficiency_adr', P(pvarray.pvefficiency_adr, k_a=100., k_d=-6., tc_d=.02, k_rs=.05, k_rsh=.1),
  'effective_irradiance=eff temp_cell=tc')
E('huld', P(pvarray.huld, pdc0=250., cell_type='csi'), 'effective_irradiance=eff temp_mod=tm')
E('pvarray.batzelis', P(pvarray.batzelis, v_mp=32., i_mp=8., v_oc=39., i_sc=8.6, alpha_sc=.004, beta_voc=-.12),
  'effective_irradiance=eff temp_cell=tc')
E('inland_water_dvoracek', P(albedo.inland_water_dvoracek, surface_condition='clear_water_no_waves'),
  'solar_elevation=elev')
E('snow.dc_loss_nrel', P(snow.dc_loss_nrel, num_strings=3), 'snow_coverage=cover')

# ---- solar position ---------------------------------------------------------------------------------
_L = dict(latitude=40.1, longitude=-105.2)
for _m in ('nrel_numpy', 'ephemeris', 'pyephem'):
    E('get_solarposition:' + _m, lambda times, _m=_m: solarposition.get_solarposition(times, method=_m, **_L), 'times',
      scalar=False, atol=5e-6 if _m == 'ephemeris' else 1e-9)   # Kepler iteration stops for the whole batch
E('nrel_earthsun_distance', solarposition.nrel_earthsun_distance, 'time=times', scalar=False)
E('pyephem_earthsun_distance', solarposition.pyephem_earthsun_distance, 'time=times', scalar=False)
for _n in ('equation_of_time_spencer71', 'equation_of_time_pvcdrom', 'declination_spencer71', 'declination_cooper69'):
    E(_n, getattr(solarposition, _n), 'dayofyear=doy')
E('solar_zenith_analytical', solarposition.solar_zenith_analytical, 'latitude=dec hourangle=ha declination=unit')
E('solar_azimuth_analytical', solarposition.solar_azimuth_analytical,
  'latitude=dec hourangle=ha declination=x zenith=frac', rows=(1, 3, 4, 5))
E('sun_rise_set_transit_spa', P(solarposition.sun_rise_set_transit_spa, **_L), 'times', scalar=False)
E('sun_rise_set_transit_ephem', P(solarposition.sun_rise_set_transit_ephem, **_L), 'times', scalar=False, maxword=2)
for _n in ('cosd', 'sind', 'tand', 'atand'):
    E('tools.' + _n, getattr(tools, _n), 'angle=ang' if _n != 'atand' else 'number=ang')
for _n in ('asind', 'acosd'):
    E('tools.' + _n, getattr(tools, _n), 'number=unit')


def column(entry, col, rows):
    if col == 'times':
        return TIMES[list(rows)].tz_localize('UTC')
    return np.array([COL[col][r] for r in rows])


def args_of(entry, rows, form='array', index=None):
    out = {}
    for p, c in entry.cols.items():
        v = column(entry, c, rows)
        if c == 'times':
            if index is not None:
                v = index
        elif form == 'series':
            v = pd.Series(v, index=index)
        elif form == 'scalar':
            v = v[0].item()
        out[p] = v
    return out
