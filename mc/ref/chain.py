"""Hand composition of a whole model chain: component functions only.

run(specs, site, cfg, entry, data) -> dict of results.  `data` is a list with
one DataFrame per array; per-array results are lists.
"""
import numpy as np
import pandas as pd

from mc.ref import pvsys as R
from pvlib import atmosphere, irradiance, pvsystem, solarposition, temperature

DEFAULT = dict(transposition='haydavies', solar_position='nrel_numpy', airmass='kastenyoung1989', dc='cec', ac='sandia',
               aoi='physical', spectral='no_loss', temp='sapm', ohmic='no_loss', losses='no_loss', inverter=R.SNL_INV,
               losses_parameters={})
PER_ARRAY = ('total_irrad', 'aoi', 'aoi_modifier', 'spectral_modifier', 'effective_irradiance', 'cell_temperature',
             'diode_params', 'dc', 'dc_ohmic_losses', 'weather', 'albedo')


def run(specs, site, cfg, entry, data):
    c = dict(DEFAULT, **cfg)
    n = len(specs)
    idx = data[0].index
    r = {'times': idx}
    wx = []
    for d in data:
        w = pd.DataFrame(index=d.index)
        for k in ('ghi', 'dhi', 'dni', 'wind_speed', 'temp_air', 'precipitable_water'):
            if k in d:
                w[k] = d[k]
        if 'wind_speed' not in w:
            w['wind_speed'] = 0
        if 'temp_air' not in w:
            w['temp_air'] = 20
        wx.append(w)
    r['weather'] = wx
    if entry != 'eff':
        lat, lon, alt = site
        k = {}
        if 'pressure' in data[0]:
            k['pressure'] = data[0]['pressure']
        if 'temp_air' in data[0]:
            k['temperature'] = data[0]['temp_air']
        sp = solarposition.get_solarposition(idx, lat, lon, altitude=alt, method=c['solar_position'], **k)
        r['solar_position'] = sp
        zen, azi = sp['apparent_zenith'], sp['azimuth']
        if c['airmass'] in ('kastenyoung1989', 'kasten1966', 'simple', 'pickering2002', 'gueymard1993', 'gueymard2003'):
            rel = atmosphere.get_relative_airmass(zen, c['airmass'])
        else:
            rel = atmosphere.get_relative_airmass(sp['zenith'], c['airmass'])
        ab = atmosphere.get_absolute_airmass(rel, atmosphere.alt2pres(alt))
        r['airmass'] = pd.DataFrame({'airmass_relative': rel, 'airmass_absolute': ab}, index=idx)
        r['aoi'] = [R.aoi(s, zen, azi) for s in specs]
        if entry == 'weather':
            if all('albedo' in d for d in data):
                alb = [d['albedo'] for d in data]
            else:
                alb = [s['albedo'] for s in specs]
            r['albedo'] = alb
            r['total_irrad'] = [R.total_irrad(s, zen, azi, d['dni'], d['ghi'], d['dhi'], airmass=rel, albedo=a,
                                              model=c['transposition']) for s, d, a in zip(specs, data, alb)]
        else:
            r['total_irrad'] = [d[['poa_global', 'poa_direct', 'poa_diffuse']] for d in data]
        r['aoi_modifier'] = [R.iam_factor(s, a, c['aoi']) for s, a in zip(specs, r['aoi'])]
        if c['spectral'] == 'sapm':
            r['spectral_modifier'] = [R.sapm_spectral(s, ab) for s in specs]
        elif c['spectral'] == 'first_solar':
            r['spectral_modifier'] = [R.first_solar(s, w['precipitable_water'], ab) for s, w in zip(specs, wx)]
        else:
            r['spectral_modifier'] = [1] * n
        r['effective_irradiance'] = [
            sm * (t['poa_direct'] * am + s['module_parameters'].get('FD', 1.) * t['poa_diffuse'])
            for s, t, sm, am in zip(specs, r['total_irrad'], r['spectral_modifier'], r['aoi_modifier'])]
    else:
        r['effective_irradiance'] = [d['effective_irradiance'] for d in data]
        r['total_irrad'] = [d[[k for k in ('poa_global', 'poa_direct', 'poa_diffuse') if k in d]] for d in data]
    if all('poa_global' in t for t in r['total_irrad']):
        poa = [t['poa_global'] for t in r['total_irrad']]
    else:
        poa = r['effective_irradiance']
    r['cell_temperature'] = []
    for s, d, w, p, e in zip(specs, data, wx, poa, r['effective_irradiance']):
        t = s['temperature_model_parameters']
        if 'cell_temperature' in d:
            tc = d['cell_temperature']
        elif 'module_temperature' in d and c['temp'] == 'sapm':
            tc = temperature.sapm_cell_from_module(d['module_temperature'], p, t['deltaT'], **R.pick(t, 'irrad_ref'))
        else:
            tc = R.cell_temp(s, p, w['temp_air'], w['wind_speed'], c['temp'], e)
        r['cell_temperature'].append(tc)
    r['dc'], r['diode_params'], r['dc_ohmic_losses'] = [], [], []
    for s, e, tc in zip(specs, r['effective_irradiance'], r['cell_temperature']):
        if c['dc'] == 'pvwatts':
            dc = R.pvwatts_dc(s, e, tc) * s['modules_per_string'] * s['strings']
        elif c['dc'] == 'sapm':
            dc = R.scaled(s, pvsystem.sapm(e, tc, s['module_parameters']))
        else:
            p = R.diode_params(s, c['dc'], e, tc)
            r['diode_params'].append(pd.DataFrame(dict(zip(('I_L', 'I_o', 'R_s', 'R_sh', 'nNsVth'), p)), index=idx))
            dc = R.scaled(s, pvsystem.singlediode(*p)).fillna(0)
        if c['ohmic'] != 'no_loss':
            loss = R.ohms(s) * dc['i_mp'] ** 2
            r['dc_ohmic_losses'].append(loss)
            dc = dc.copy()
            dc['p_mp'] = dc['p_mp'] - loss
        if c['losses'] == 'pvwatts':
            dc = dc * (1 - R.losses_percent(c['losses_parameters']) / 100)
        r['dc'].append(dc)
    r['losses'] = 1 - R.losses_percent(c['losses_parameters']) / 100 if c['losses'] == 'pvwatts' else 1
    if c['dc'] == 'pvwatts':
        p, v = r['dc'], None
    else:
        p, v = [d['p_mp'] for d in r['dc']], [d['v_mp'] for d in r['dc']]
    r['ac'] = R.ac(c['ac'], p, v, c['inverter'])
    if c['ac'] == 'pvwatts':
        r['ac'] = r['ac'].fillna(0)
    for k in ('diode_params', 'dc_ohmic_losses'):
        if not r[k]:
            del r[k]
    return r


def specs_for(cfg, n, mounts=None, both=True):
    """n arrays carrying every parameter family (temperature: only the one
    selected, because an explicit name must agree with the parameters)."""
    from mc.checks.X04 import FULL
    c = dict(DEFAULT, **cfg)
    par = dict(FULL)
    par['cap_adjustment'] = False
    par['FD'] = 1.
    out = []
    for i in range(n):
        s = R.spec(i, par, R.TEMP[c['temp']])
        if mounts is not None:
            s['mount'] = dict(R.MOUNTS[mounts[i]])
        s['module_parameters'].update(theta_ref=[0, 30 + i, 60, 75, 90], FD=c['fd'][i] if 'fd' in c else .9 + .04 * i,
                                      Technology=['CdTe', 'Multi-c-Si', 'CIGS'][i], normalize=bool(i % 2), method=['linear', 'quadratic', 'linear'][i])
        if c['temp'] == 'noct_sam':
            s['temperature_model_parameters']['array_height'] = 1 + i % 2
        if c['temp'] == 'sapm' and i:
            s['temperature_model_parameters']['irrad_ref'] = 950.
        out.append(s)
    return out


def chain_object(specs, site, cfg):
    from pvlib import location, modelchain
    c = dict(DEFAULT, **cfg)
    system = pvsystem.PVSystem([R.array_object(s) for s in specs], inverter_parameters=dict(c['inverter']),
                               losses_parameters=dict(c['losses_parameters']))
    loc = location.Location(site[0], site[1], altitude=site[2])
    return modelchain.ModelChain(
        system, loc, transposition_model=c['transposition'], solar_position_method=c['solar_position'],
        airmass_model=c['airmass'], dc_model=c['dc'], ac_model=c['ac'], aoi_model=c['aoi'], spectral_model=c['spectral'],
        temperature_model=c['temp'], dc_ohmic_model=c['ohmic'], losses_model=c['losses'])


def compare(ctx, res, exp, n, listform, key, **d):
    """All fields of a results object against the reference."""
    from mc.checks.X04 import same
    fields = ('times', 'weather', 'solar_position', 'airmass', 'albedo', 'total_irrad', 'aoi', 'aoi_modifier',
              'spectral_modifier', 'effective_irradiance', 'cell_temperature', 'diode_params', 'dc', 'dc_ohmic_losses',
              'losses', 'ac')
    for f in fields:
        got = getattr(res, f)
        if f not in exp:
            if got is not None:
                ctx.fail(f'{key}:{f}:stale', repr(got)[:80], **d)
            continue
        e = exp[f]
        if f == 'times':
            ctx.expect(isinstance(got, pd.DatetimeIndex) and got.equals(e), f'{key}:times', **d)
            continue
        if f == 'solar_position':
            e = e[[c for c in e.columns]]
        if f in PER_ARRAY:
            if f == 'albedo' and n == 1 and isinstance(got, tuple) and not listform:
                e = tuple(e)                   # array albedo of a single-array system is a 1-tuple
            elif f in ('weather', 'albedo') and not isinstance(got, tuple):
                e = e[0]                       # shared data are kept once
                if listform:
                    ctx.fail(f'{key}:{f}:form', 'tuple expected', **d)
            elif n > 1 or listform:
                e = tuple(e)
            else:
                e = e[0]
        same(ctx, got, e, f'{key}:{f}', **d)
