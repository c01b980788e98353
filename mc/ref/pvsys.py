"""Small PV systems with pairwise different arrays, and the hand composition
of pvlib's component functions for one array (used by X01, X02 and X04).

Nothing here uses PVSystem, Array or ModelChain behaviour: an array is a plain
dict `spec`, and every function below calls a component function with
parameters picked by name from that spec.
"""
import copy

import numpy as np
import pandas as pd

from pvlib import (iam, inverter, irradiance, pvsystem, spectrum, temperature,
                   tracking, atmosphere)

SAPM = {
    'C0': 1.01284, 'C1': -.0128398, 'C2': .279317, 'C3': -7.24463, 'A0': .928385, 'A1': .068093, 'A2': -.0157738,
    'A3': .0016606, 'A4': -6.93e-05, 'B0': 1, 'B1': -.002438, 'B2': .0003103, 'B3': -1.246e-05, 'B4': 2.11e-07,
    'B5': -1.36e-09, 'Isco': 5.09115, 'Impo': 4.54629, 'Voco': 59.2608, 'Vmpo': 48.3156, 'Aisc': .000397,
    'Aimp': .000181, 'Bvoco': -.21696, 'Mbvoc': 0.01, 'Bvmpo': -.235488, 'Mbvmp': .02, 'N': 1.4032,
    'Cells_in_Series': 96, 'IXO': 4.97599, 'IXXO': 3.18803, 'C4': .996446, 'C5': .003554, 'C6': 1.15535,
    'C7': -.155353, 'FD': .95}
SDM = {'alpha_sc': .003, 'a_ref': 1.8, 'I_L_ref': 9.1, 'I_o_ref': 3.2e-10, 'R_sh_ref': 320., 'R_s': .31}
CEC = dict(SDM, Adjust=8.7)
PVSYST = {'gamma_ref': 1.05, 'mu_gamma': -.0003, 'I_L_ref': 8.6, 'I_o_ref': 2e-10, 'R_sh_ref': 300., 'R_sh_0': 1400.,
          'R_s': .28, 'alpha_sc': .004, 'EgRef': 1.12, 'cells_in_series': 60}
PVW = {'pdc0': 310., 'gamma_pdc': -.0037}
IAMP = {'physical': {'n': 1.526, 'K': 4., 'L': .002}, 'ashrae': {'b': .05}, 'martin_ruiz': {'a_r': .16},
        'interp': {'theta_ref': [0, 30, 60, 75, 90], 'iam_ref': [1, .99, .9, .6, 0]}}
VMP = {'V_mp_ref': 31.2, 'I_mp_ref': 8.61}
TEMP = {
    'sapm': {'a': -3.47, 'b': -.0594, 'deltaT': 3},
    'pvsyst': {'u_c': 29., 'u_v': 1.2},
    'faiman': {'u0': 25., 'u1': 6.84},
    'fuentes': {'noct_installed': 45.},
    'noct_sam': {'noct': 46., 'module_efficiency': .19}}
SNL_INV = {'C0': -2.48104842861e-05, 'C1': -9.0149429405099999e-05, 'C2': .00066889632690700005,
           'C3': -.018880466688599998, 'Paco': 3200., 'Pdco': 3340., 'Vdco': 300., 'Pso': 18.7, 'Pnt': 1.2,
           'MPPTLow': 200., 'Mppt_high': 500., 'Vac': 240.}
ADR_INV = {'ADRCoefficients': [.01385, .0152, .00794, .00286, -.01872, -.01305, 0., 0., 0.], 'Vdcmax': 600., 'Pnom': 3200.,
           'Vnom': 360., 'Vmax': 650., 'Vmin': 0., 'Pacmax': 3200., 'Pnt': .25, 'MPPTLow': 0., 'MPPTHi': 700.}
PVW_INV = {'pdc0': 3300., 'eta_inv_nom': .955, 'eta_inv_ref': .9637}


def vary(d, i, keys=None):
    """The same parameters, a little different for array i."""
    out = {}
    for j, (k, v) in enumerate(sorted(d.items())):
        if isinstance(v, (int, float)) and k not in ('Cells_in_Series', 'cells_in_series', 'B0') \
                and (keys is None or k in keys):
            v = v * (1 + .01 * i * (1 + j % 3))
        out[k] = copy.deepcopy(v)
    return out


MOUNTS = [
    dict(kind='fixed', surface_tilt=30., surface_azimuth=180., module_height=None),
    dict(kind='fixed', surface_tilt=55., surface_azimuth=95., module_height=3.),
    dict(kind='tracker', axis_tilt=5., axis_azimuth=20., max_angle=60., backtrack=True, gcr=.45, cross_axis_tilt=-2.,
         module_height=None),
]


def spec(i, modparams, tempparams, mount=None, albedo=None, strings=None, mps=None, ohmic=None):
    return dict(mount=dict(MOUNTS[i % 3] if mount is None else mount),
                albedo=[.2, .31, .12][i % 3] if albedo is None else albedo,
                module_parameters=vary(modparams, i), temperature_model_parameters=vary(tempparams, i),
                modules_per_string=[7, 10, 4][i % 3] if mps is None else mps,
                strings=[2, 1, 3][i % 3] if strings is None else strings,
                array_losses_parameters={'dc_ohmic_percent': [3., 1.5, 2.][i % 3] if ohmic is None else ohmic})


def mount_object(m):
    m = dict(m)
    kind = m.pop('kind')
    return (pvsystem.FixedMount if kind == 'fixed' else pvsystem.SingleAxisTrackerMount)(**m)


def array_object(s, name=None):
    s = copy.deepcopy(s)
    return pvsystem.Array(mount_object(s.pop('mount')), name=name, **s)


def pick(d, *names):
    return {k: d[k] for k in names if k in d}


# ---- one array, by hand --------------------------------------------------

def orientation(s, zen, azi):
    m = s['mount']
    if m['kind'] == 'fixed':
        return m['surface_tilt'], m['surface_azimuth']
    t = tracking.singleaxis(zen, azi, axis_tilt=m['axis_tilt'], axis_azimuth=m['axis_azimuth'],
                            max_angle=m['max_angle'], backtrack=m['backtrack'], gcr=m['gcr'],
                            cross_axis_tilt=m['cross_axis_tilt'])
    return t['surface_tilt'], t['surface_azimuth']


def aoi(s, zen, azi):
    t, a = orientation(s, zen, azi)
    return irradiance.aoi(t, a, zen, azi)


def total_irrad(s, zen, azi, dni, ghi, dhi, dni_extra=None, airmass=None, albedo=None, model='haydavies', **kw):
    t, a = orientation(s, zen, azi)
    if albedo is None:
        albedo = s['albedo']
    if dni_extra is None:
        idx = getattr(zen, 'index', None)
        dni_extra = irradiance.get_extra_radiation(idx) if isinstance(idx, pd.DatetimeIndex) else 1367.
    if airmass is None:
        airmass = atmosphere.get_relative_airmass(zen)
    return irradiance.get_total_irradiance(t, a, zen, azi, dni, ghi, dhi, dni_extra=dni_extra, airmass=airmass,
                                           albedo=albedo, model=model, **kw)


def iam_factor(s, aoi_, model):
    p = s['module_parameters']
    if model == 'no_loss':
        return 1.
    if model == 'schlick':
        return iam.schlick(aoi_)
    if model == 'sapm':
        return iam.sapm(aoi_, p)
    if model == 'physical':
        return iam.physical(aoi_, **pick(p, 'n', 'K', 'L', 'n_ar'))
    if model == 'ashrae':
        return iam.ashrae(aoi_, **pick(p, 'b'))
    if model == 'martin_ruiz':
        return iam.martin_ruiz(aoi_, **pick(p, 'a_r'))
    if model == 'interp':
        return iam.interp(aoi_, **pick(p, 'theta_ref', 'iam_ref', 'method', 'normalize'))
    raise KeyError(model)


CELL_TYPE = {'Multi-c-Si': 'multisi', 'Mono-c-Si': 'monosi', 'Thin Film': 'cigs', 'a-Si/nc': 'asi', 'CIS': 'cigs',
             'CIGS': 'cigs', '1-a-Si': 'asi', 'CdTe': 'cdte', 'a-Si': 'asi', 'HIT-Si': 'monosi', 'mc-Si': 'multisi',
             'c-Si': 'multisi', 'Si-Film': 'asi', 'EFG mc-Si': 'multisi', 'a-Si / mono-Si': 'monosi'}


def first_solar(s, pw, am):
    p = s['module_parameters']
    if 'first_solar_spectral_coefficients' in p:
        return spectrum.spectral_factor_firstsolar(pw, am, coefficients=p['first_solar_spectral_coefficients'])
    return spectrum.spectral_factor_firstsolar(pw, am, CELL_TYPE[p.get('Technology', p.get('Material'))])


def sapm_spectral(s, am):
    return spectrum.spectral_factor_sapm(am, s['module_parameters'])


def sapm_eff(s, direct, diffuse, am, aoi_):
    p = s['module_parameters']
    return spectrum.spectral_factor_sapm(am, p) * (direct * iam.sapm(aoi_, p) + p['FD'] * diffuse)


def cell_temp(s, poa, ta, ws, model, eff=None, lw=None):
    t, p, m = s['temperature_model_parameters'], s['module_parameters'], s['mount']
    if model == 'sapm':
        return temperature.sapm_cell(poa, ta, ws, t['a'], t['b'], t['deltaT'], **pick(t, 'irrad_ref'))
    if model == 'pvsyst':
        return temperature.pvsyst_cell(poa, ta, ws, **pick(t, 'u_c', 'u_v'),
                                       **pick(p, 'module_efficiency', 'alpha_absorption'))
    if model == 'faiman':
        return temperature.faiman(poa, ta, ws, **pick(t, 'u0', 'u1'))
    if model == 'faiman_rad':
        return temperature.faiman_rad(poa, ta, ws, ir_down=lw, **pick(t, 'u0', 'u1', 'sky_view', 'emissivity'))
    if model == 'fuentes':
        k = pick(t, 'wind_height', 'emissivity', 'absorption', 'surface_tilt', 'module_width', 'module_length')
        if m.get('module_height') is not None:
            k['module_height'] = m['module_height']
        return temperature.fuentes(poa, ta, ws, t['noct_installed'], **k)
    if model == 'noct_sam':
        return temperature.noct_sam(poa, ta, ws, t['noct'], t['module_efficiency'], effective_irradiance=eff,
                                    **pick(t, 'transmittance_absorptance', 'array_height', 'mount_standoff'))
    if model == 'ross':
        return temperature.ross(poa, ta, **pick(t, 'noct', 'k'))
    raise KeyError(model)


def diode_params(s, model, ee, tc):
    p = s['module_parameters']
    if model == 'pvsyst':
        return pvsystem.calcparams_pvsyst(ee, tc, p['alpha_sc'], p['gamma_ref'], p['mu_gamma'], p['I_L_ref'],
                                          p['I_o_ref'], p['R_sh_ref'], p['R_sh_0'], p['R_s'], p['cells_in_series'],
                                          **pick(p, 'R_sh_exp', 'EgRef', 'irrad_ref', 'temp_ref'))
    a = [p['alpha_sc'], p['a_ref'], p['I_L_ref'], p['I_o_ref'], p['R_sh_ref'], p['R_s']]
    if model == 'cec':
        a.append(p['Adjust'])
        f = pvsystem.calcparams_cec
    else:
        f = pvsystem.calcparams_desoto
    return f(ee, tc, *a, **pick(p, 'EgRef', 'dEgdT', 'irrad_ref', 'temp_ref'))


def pvwatts_dc(s, ee, tc):
    p = s['module_parameters']
    return pvsystem.pvwatts_dc(ee, tc, p['pdc0'], p['gamma_pdc'], **pick(p, 'temp_ref', 'k', 'cap_adjustment'))


def scaled(s, df):
    """Voltage x modules per string, current x strings, power x both."""
    out = df.copy()
    for c in out:
        if c[0] == 'v':
            out[c] = out[c] * s['modules_per_string']
        elif c[0] == 'i':
            out[c] = out[c] * s['strings']
        elif c[0] == 'p':
            out[c] = out[c] * s['modules_per_string'] * s['strings']
    return out


def ohms(s):
    p = s['module_parameters']
    for v, i in (('V_mp_ref', 'I_mp_ref'), ('Vmpo', 'Impo'), ('Vmpp', 'Impp')):
        if v in p and i in p:
            return s['array_losses_parameters']['dc_ohmic_percent'] / 100 * (
                p[v] * s['modules_per_string'] / (p[i] * s['strings']))
    raise ValueError


def losses_percent(par):
    d = dict(soiling=2, shading=3, snow=0, mismatch=2, wiring=2, connections=.5, lid=1.5, nameplate_rating=1, age=0,
             availability=3)
    keep = 1.
    for k, v in d.items():
        keep *= 1 - par.get(k, v) / 100
    return 100 * (1 - keep)


def ac(model, p, v, inv):
    """p, v: lists, one entry per array."""
    if model == 'pvwatts':
        tot = p[0] if len(p) == 1 else sum(p[1:], p[0])
        return inverter.pvwatts(tot, inv['pdc0'], **pick(inv, 'eta_inv_nom', 'eta_inv_ref'))
    if model == 'adr':
        return inverter.adr(v[0], p[0], inv)
    if len(p) == 1:
        return inverter.sandia(v[0], p[0], inv)
    return inverter.sandia_multi(tuple(v), tuple(p), inv)
