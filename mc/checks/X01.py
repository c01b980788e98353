"""The product of selectable models x array counts x mounts x entry points x
data layouts over a small weather alphabet (night, low sun, clear, cloudy,
missing), run end to end on the real chain and compared, result by result,
with the hand composition of component functions (mc/ref/chain.py)."""
import itertools
import math

import numpy as np
import pandas as pd

from mc.core import case, quiet, same_value, deepcopy
from mc.ref import pvsys as R, chain as H

TECHNIQUE = ('explicit-state bounded model checking: exhaustive enumeration of chain configurations executed on the '
             'real code against a reference composition')
CASES = []
nan = math.nan
SITE = (32.2, -110.9, 700.)
IDX = pd.DatetimeIndex(['2024-03-20 02:00', '2024-03-20 06:50', '2024-03-20 09:00', '2024-03-20 12:30',
                        '2024-03-20 15:00', '2024-03-20 18:10', '2024-03-21 12:00'], tz='Etc/GMT+7')
W = pd.DataFrame({'ghi': [0., 60., 450., 900., 200., 5., nan], 'dni': [0., 250., 700., 920., 0., 0., 800.],
                  'dhi': [0., 40., 110., 120., 200., 5., 110.], 'temp_air': [3., 5., 12., 21., 22., 15., 18.],
                  'wind_speed': [1., 0., 2., 5., 3., 8., 2.], 'precipitable_water': [.8, .8, 1., 1.2, 2., 1.9, 1.],
                  'albedo': [.2, .22, .25, .24, .23, .2, .3], 'pressure': [93000., 93100., 93200., 93000., 92800., 92900., 93050.]},
                 index=IDX)
P = pd.DataFrame({'poa_global': [0., 150., 700., 1020., 180., 4., nan], 'poa_direct': [0., 90., 580., 880., 0., 0., 800.],
                  'poa_diffuse': [0., 60., 120., 140., 180., 4., 120.], 'temp_air': W['temp_air'], 'wind_speed': W['wind_speed'],
                  'precipitable_water': W['precipitable_water'], 'pressure': W['pressure']}, index=IDX)
E = pd.DataFrame({'effective_irradiance': [0., 140., 680., 1000., 170., 3., nan], 'poa_global': P['poa_global'],
                  'temp_air': W['temp_air'], 'wind_speed': W['wind_speed']}, index=IDX)
BASES = {'weather': W, 'poa': P, 'eff': E}
RUN = {'weather': 'run_model', 'poa': 'run_model_from_poa', 'eff': 'run_model_from_effective_irradiance'}


def data_for(entry, n, extra=(), drop=()):
    """One DataFrame per array, pairwise different."""
    out = []
    for i in range(n):
        d = BASES[entry].drop(columns=[c for c in drop if c in BASES[entry]])
        for c in ('ghi', 'dni', 'dhi', 'poa_global', 'poa_direct', 'poa_diffuse', 'effective_irradiance', 'albedo',
                  'wind_speed', 'precipitable_water'):
            if c in d:
                d[c] = d[c] * (1 - .05 * i)
        if i and 'temp_air' in d:
            d['temp_air'] = d['temp_air'] + i
        if 'module_temperature' in extra:
            d['module_temperature'] = W['temp_air'] + 20 + i
        if 'cell_temperature' in extra:
            d['cell_temperature'] = W['temp_air'] + 25 + 2 * i
        out.append(d)
    return out


def go(ctx, cfg, n, entry, layout, key, extra=(), drop=(), mounts=None, data=None, site=SITE):
    """layout: frame (one DataFrame) | tuple | list"""
    specs = H.specs_for(cfg, n, mounts)
    if data is None:
        data = data_for(entry, 1 if layout == 'frame' else n, extra, drop)
    given = data[0] if layout == 'frame' else (tuple(data) if layout == 'tuple' else list(data))
    each = [data[0]] * n if layout == 'frame' else data
    d = dict(cfg={k: v for k, v in cfg.items() if k != 'inverter'}, arrays=n, entry=entry, layout=layout, extra=str(extra), drop=str(drop))
    ctx.state()
    try:
        exp = quiet(H.run, specs, site, cfg, entry, each)
    except Exception as e:        # noqa
        ctx.fail(key + ':reference', repr(e)[:200], **d)
        return
    keep = deepcopy(given)
    try:
        mc = quiet(H.chain_object, specs, site, cfg)
        before = [deepcopy(vars(a)) for a in mc.system.arrays]
        inv = deepcopy(mc.system.inverter_parameters)
        ret = quiet(getattr(mc, RUN[entry]), given)
    except Exception as e:        # noqa
        ctx.fail(f'{key}:{type(e).__name__}', repr(e)[:200], **d)
        return
    ctx.expect(ret is mc, key + ':returns-self', **d)
    H.compare(ctx, mc.results, exp, n, layout != 'frame', key, **d)
    ctx.expect(same_value(given, keep), key + ':mutates-data', **d)
    ctx.expect(all(same_value(vars(a), b) for a, b in zip(mc.system.arrays, before)) and
               same_value(mc.system.inverter_parameters, inv), key + ':mutates-system', **d)
    ctx.sample(d)


AOI = ('physical', 'ashrae', 'sapm', 'martin_ruiz', 'schlick', 'interp', 'no_loss')
SPEC = ('sapm', 'first_solar', 'no_loss')
TEMP = ('sapm', 'pvsyst', 'faiman', 'fuentes', 'noct_sam')
DC = ('sapm', 'desoto', 'cec', 'pvsyst', 'pvwatts')
TRANS = ('isotropic', 'klucher', 'haydavies', 'reindl', 'king', 'perez', 'perez-driesse')
INV = {'sandia': R.SNL_INV, 'pvwatts': R.PVW_INV, 'adr': R.ADR_INV}


def _front(temp):
    """aoi x spectral x dc models x entry points x one or two arrays, one temperature model."""
    @case(CASES, name='models_' + temp)
    def f(ctx):
        for a, s, dc in itertools.product(AOI, SPEC, DC):
            cfg = dict(aoi=a, spectral=s, temp=temp, dc=dc, ac='pvwatts', inverter=R.PVW_INV)
            lay = [('weather', 1, 'frame'), ('poa', 2, 'tuple')]
            if ctx.thorough:
                lay = [(e, n, l) for e in ('weather', 'poa') for n, l in
                       ((1, 'frame'), (1, 'list'), (2, 'tuple'), (2, 'frame'), (3, 'tuple')) if not (e == 'poa' and n > 1 and l == 'frame')]
            for e, n, l in lay:
                if e == 'poa' and not ctx.thorough and dc not in ('pvwatts', 'sapm'):
                    continue
                go(ctx, cfg, n, e, l, 'models')
        ctx.outcome('ok')


for _t in TEMP:
    _front(_t)


def _back(dc):
    """ac x ohmic x losses models x array count x data layout x entry point."""
    @case(CASES, name='back_' + dc)
    def f(ctx):
        lp = [{}, {'soiling': 5., 'age': 3., 'dc_ohmic_percent': 1.}]
        for ac, ohm, loss in itertools.product(INV, ('no_loss', 'dc_ohms_from_percent'), ('no_loss', 'pvwatts')):
            if dc == 'pvwatts' and (ac != 'pvwatts' or ohm != 'no_loss'):
                continue
            for (n, l), e in itertools.product(((1, 'frame'), (1, 'list'), (2, 'tuple'), (2, 'frame'), (3, 'list')), RUN):
                if ac == 'adr' and n > 1 or (n > 1 and l == 'frame' and e != 'weather'):
                    continue
                if not ctx.thorough and (n == 3 and e != 'eff' or n == 2 and e == 'eff' or
                                         l == 'list' and n == 1 and e == 'weather'):
                    continue
                cfg = dict(dc=dc, ac=ac, ohmic=ohm, losses=loss, inverter=INV[ac], losses_parameters=lp[loss == 'pvwatts'])
                go(ctx, cfg, n, e, l, 'back')


for _d in DC:
    _back(_d)


@case(CASES)
def transposition(ctx):
    """Transposition models x mounts x albedo given or not x layouts."""
    for tr, (n, m, l), alb in itertools.product(
            TRANS, ((1, (0,), 'frame'), (1, (1,), 'list'), (1, (2,), 'frame'), (2, (0, 2), 'frame'), (2, (2, 1), 'tuple'), (3, (1, 0, 2), 'tuple')),
            (True, False)):
        go(ctx, dict(transposition=tr), n, 'weather', l, 'transposition', mounts=m, drop=() if alb else ('albedo',))


@case(CASES)
def inputs(ctx):
    """Optional columns and measured temperatures: every subset."""
    for entry in RUN:
        for drop in itertools.chain.from_iterable(itertools.combinations(('temp_air', 'wind_speed', 'pressure'), k) for k in range(4)):
            for extra in ((), ('module_temperature',), ('cell_temperature',), ('module_temperature', 'cell_temperature')):
                for n, l in ((1, 'frame'), (1, 'tuple'), (2, 'tuple')):
                    for temp in ('sapm', 'faiman') if (extra or ctx.thorough) else ('sapm',):
                        go(ctx, dict(dc='pvwatts', ac='pvwatts', inverter=R.PVW_INV, temp=temp), n, entry, l, 'inputs', extra, drop)
    # measured temperature for some arrays only; poa_global for some only
    for which in itertools.product(((), ('module_temperature',), ('cell_temperature',)), repeat=2):
        for entry in RUN:
            data = [data_for(entry, i + 1, which[i])[i] for i in range(2)]
            go(ctx, dict(dc='pvwatts', ac='pvwatts', inverter=R.PVW_INV), 2, entry, 'tuple', 'inputs-mixed', str(which), data=data)
    for dr in itertools.product((True, False), repeat=2):
        data = [d.drop(columns='poa_global') if x else d for x, d in zip(dr, data_for('eff', 2))]
        go(ctx, dict(dc='pvwatts', ac='pvwatts', inverter=R.PVW_INV, temp='pvsyst'), 2, 'eff', 'tuple', 'inputs-poa', data=data)
    for n, l in ((1, 'frame'), (1, 'list')):
        go(ctx, dict(dc='cec'), n, 'eff', l, 'inputs-poa', drop=('poa_global',))
    # modules that see no diffuse light (concentrators), all or some of them
    for fd in ((0., .5), (0, 0), (.7, 0.), (1, 1.)):
        for (n, l), (e, sp) in itertools.product(((1, 'frame'), (2, 'tuple')), (('weather', 'no_loss'), ('poa', 'sapm'))):
            go(ctx, dict(dc='pvwatts', ac='pvwatts', inverter=R.PVW_INV, fd=fd, spectral=sp), n, e, l, 'inputs-fd')
    # measured cell temperatures with gaps: the gap stays, the rest is used
    for entry, (n, l) in itertools.product(RUN, ((1, 'frame'), (1, 'list'), (2, 'tuple'))):
        data = data_for(entry, n, ('cell_temperature',))
        data[-1].loc[data[-1].index[2], 'cell_temperature'] = nan
        go(ctx, dict(dc='pvwatts', ac='pvwatts', inverter=R.PVW_INV), n, entry, l, 'inputs-gap', data=data)
        go(ctx, dict(dc='cec'), n, entry, l, 'inputs-gap', data=data)
    # one array's weather without albedo
    data = data_for('weather', 2)
    del data[1]['albedo']
    go(ctx, {}, 2, 'weather', 'tuple', 'inputs-albedo', data=data)


@case(CASES)
def sun(ctx):
    """Solar position methods x airmass models x sites x times layouts."""
    for m, am, site in itertools.product(('nrel_numpy', 'ephemeris'), ('kastenyoung1989', 'simple', 'gueymard1993', 'youngirvine1967',
                                                                       'kasten1966', 'young1994', 'pickering2002',),
                                         (SITE, (-33.9, 151.2, 0.), (64., -20., 2000.))):
        go(ctx, dict(solar_position=m, airmass=am, spectral='sapm', transposition='perez'), 1, 'weather', 'frame', 'sun', site=site)
    for name, idx in (('utc', IDX.tz_convert('UTC')), ('dst', pd.date_range('2024-03-10 00:30', periods=7, freq='3h', tz='America/Phoenix')),
                      ('one', IDX[3:4]), ('unsorted', IDX[::-1]), ('repeated', IDX[[0, 1, 3, 3, 3, 4, 5]]),
                      ('dst2', pd.date_range('2024-11-02 22:30', periods=7, freq='h', tz='America/New_York'))):
        for entry in RUN:
            d = BASES[entry].iloc[:len(idx)].copy() if len(idx) > 1 else BASES[entry].iloc[3:4].copy()
            d.index = idx
            go(ctx, dict(dc='sapm', spectral='sapm'), 1, entry, 'frame', 'sun:' + name, data=[d])


@case(CASES)
def functions(ctx):
    """User functions replace any slot and receive the chain itself."""
    slots = ['dc_model', 'ac_model', 'aoi_model', 'spectral_model', 'temperature_model', 'dc_ohmic_model', 'losses_model']
    for mask in itertools.product((0, 1), repeat=len(slots)):
        cfg = dict(dc='sapm', ac='sandia', inverter=R.SNL_INV, aoi='sapm')
        specs = H.specs_for(cfg, 1)
        mc = quiet(H.chain_object, specs, SITE, cfg)
        order = []

        def mk(slot):
            def f(chain):
                order.append((slot, chain))
                if slot == 'dc_model':
                    chain.results.dc = pd.DataFrame({'p_mp': chain.results.effective_irradiance * 3, 'i_mp': chain.results.effective_irradiance * .01,
                                                     'v_mp': chain.results.effective_irradiance * 0 + 300})
                elif slot == 'ac_model':
                    chain.results.ac = chain.results.dc['p_mp'] * .9
                elif slot == 'aoi_model':
                    chain.results.aoi_modifier = .5
                elif slot == 'spectral_model':
                    chain.results.spectral_modifier = .7
                elif slot == 'temperature_model':
                    chain.results.cell_temperature = chain.results.weather['temp_air'] + 9
                elif slot == 'losses_model':
                    chain.results.losses = .8
                    chain.results.dc = chain.results.dc * .8
                elif slot == 'dc_ohmic_model':
                    chain.results.dc_ohmic_losses = chain.results.dc['p_mp'] * .1
            return f
        for s, m in zip(slots, mask):
            if m:
                setattr(mc, s, mk(s))
        ctx.state()
        try:
            quiet(mc.run_model, W)
        except Exception as e:      # noqa
            ctx.fail('functions:' + type(e).__name__, repr(e)[:200], mask=mask)
            continue
        want = [s for s in ('aoi_model', 'spectral_model', 'temperature_model', 'dc_model', 'dc_ohmic_model', 'losses_model', 'ac_model')
                if mask[slots.index(s)]]
        ctx.expect([o[0] for o in order] == want and all(o[1] is mc for o in order), 'functions:order', got=str([o[0] for o in order]))
        exp = H.run(specs, SITE, cfg, 'weather', [W])
        if mask[slots.index('temperature_model')]:
            # a measured module temperature is for the SAPM model only
            quiet(mc.run_model, W.assign(module_temperature=W['temp_air'] + 33))
            ctx.close(mc.results.cell_temperature.to_numpy(), (W['temp_air'] + 9).to_numpy(), 'functions:module temperature', mask=mask)
            quiet(mc.run_model, W)
        r = mc.results
        on = dict(zip(slots, mask))
        am = .5 if on['aoi_model'] else exp['aoi_modifier'][0]
        sm = .7 if on['spectral_model'] else 1.
        t = exp['total_irrad'][0]
        ee = sm * (t['poa_direct'] * am + specs[0]['module_parameters']['FD'] * t['poa_diffuse'])
        ctx.close(r.effective_irradiance.to_numpy(), ee.to_numpy(), 'functions:effective', mask=mask)
        tc = W['temp_air'] + 9 if on['temperature_model'] else exp['cell_temperature'][0]
        ctx.close(r.cell_temperature.to_numpy(), tc.to_numpy(), 'functions:temperature', mask=mask)
        if on['dc_model']:
            p = ee * 3
            v = ee * 0 + 300
        else:
            dc = R.scaled(specs[0], H.pvsystem.sapm(ee, tc, specs[0]['module_parameters']))
            p, v = dc['p_mp'], dc['v_mp']
        if on['losses_model']:
            p, v = p * .8, v * .8
        ac = p * .9 if on['ac_model'] else R.ac('sandia', [p], [v], R.SNL_INV)
        ctx.close(np.asarray(r.ac), np.asarray(ac), 'functions:ac', mask=mask)


@case(CASES)
def shortcuts(ctx):
    """with_pvwatts / with_sapm = the documented configurations."""
    from pvlib import location, modelchain, pvsystem
    loc = location.Location(*SITE[:2], altitude=SITE[2])
    for over in ({}, {'transposition_model': 'isotropic'}, {'aoi_model': 'ashrae'}, {'losses_model': 'no_loss'},
                 {'spectral_model': 'first_solar'}, {'temperature_model': 'sapm', 'airmass_model': 'simple'}):
        for lp in ({}, {'soiling': 9.}):
            cfg = dict(dc='pvwatts', ac='pvwatts', losses='pvwatts', transposition='perez', aoi='physical', spectral='no_loss',
                       temp='sapm', inverter=R.PVW_INV, losses_parameters=lp)
            m = {'transposition_model': 'transposition', 'aoi_model': 'aoi', 'losses_model': 'losses', 'spectral_model': 'spectral',
                 'temperature_model': 'temp', 'airmass_model': 'airmass'}
            cfg.update({m[k]: v for k, v in over.items()})
            specs = H.specs_for(cfg, 1)
            system = pvsystem.PVSystem([R.array_object(s) for s in specs], inverter_parameters=R.PVW_INV, losses_parameters=lp)
            ctx.state()
            mc = quiet(modelchain.ModelChain.with_pvwatts, system, loc, **over)
            quiet(mc.run_model, W)
            H.compare(ctx, mc.results, quiet(H.run, specs, SITE, cfg, 'weather', [W]), 1, False, 'with_pvwatts', over=over)
            cfg = dict(dc='sapm', ac='sandia', losses='no_loss', transposition='haydavies', aoi='sapm', spectral='sapm', temp='sapm',
                       inverter=R.SNL_INV, losses_parameters=lp)
            cfg.update({m[k]: v for k, v in over.items()})
            specs = H.specs_for(cfg, 1)
            system = pvsystem.PVSystem([R.array_object(s) for s in specs], inverter_parameters=R.SNL_INV, losses_parameters=lp)
            mc = quiet(modelchain.ModelChain.with_sapm, system, loc, **over)
            quiet(mc.run_model, W)
            H.compare(ctx, mc.results, quiet(H.run, specs, SITE, cfg, 'weather', [W]), 1, False, 'with_sapm', over=over)


@case(CASES)
def completion(ctx):
    """complete_irradiance: each missing component, then the run equals the
    run on the completed data."""
    from pvlib import irradiance, clearsky, location
    loc = location.Location(*SITE[:2], altitude=SITE[2])
    sps = {m: quiet(loc.get_solarposition, IDX, method=m) for m in ('nrel_numpy', 'ephemeris')}
    for method, miss, n, layout in itertools.product(sps, ('dni', 'ghi', 'dhi', None), (1, 2), ('frame', 'tuple', 'list')):
        sp = sps[method]
        if method != 'nrel_numpy' and layout == 'list':
            continue
        if n == 2 and layout == 'frame':
            continue
        frames = [d.drop(columns=[miss] if miss else []) for d in data_for('weather', n)]
        for f in frames:        # offsets of the instrument by night
            if 'ghi' in f:
                f.iloc[0, f.columns.get_loc('ghi')] = -2.5
            if 'dhi' in f and n == 2:
                f.iloc[0, f.columns.get_loc('dhi')] = -1.5
        if miss == 'dni' and layout == 'tuple':
            for f in frames:        # brighter than the clear sky: the clear-sky limit decides
                f['ghi'] = f['ghi'] * 2.
        specs = H.specs_for({}, n)
        given = frames[0] if layout == 'frame' else (tuple(frames) if layout == 'tuple' else list(frames))
        keep = deepcopy(given)
        for cs in ('ineichen', 'haurwitz', 'simplified_solis'):
            if cs != 'haurwitz' and miss == 'dni':
                # ineichen needs the turbidity file, absent here; solis and haurwitz have no dni / need aod
                if cs == 'ineichen':
                    continue
            if cs == 'haurwitz' and miss == 'dni':
                continue
            mc = quiet(H.chain_object, specs, SITE, {})
            mc.clearsky_model, mc.solar_position_method = cs, method
            ctx.state()
            try:
                ret = quiet(mc.complete_irradiance, given)
            except Exception as e:      # noqa
                ctx.fail('complete:' + type(e).__name__, repr(e)[:200], missing=miss, n=n, layout=layout, model=cs)
                continue
            ctx.expect(ret is mc and same_value(given, keep), 'complete:mutates', missing=miss)
            w = mc.results.weather
            ws = [w] if layout == 'frame' else list(w)
            if not ctx.expect((layout == 'frame') == (not isinstance(w, tuple)) and len(ws) == n, 'complete:form', layout=layout):
                continue
            for a, f in zip(ws, frames):
                exp = f.copy()
                if miss == 'dni':
                    k = quiet(loc.get_clearsky, IDX, model=cs, solar_position=sp)
                    exp['dni'] = quiet(irradiance.complete_irradiance, sp['zenith'], ghi=f['ghi'], dhi=f['dhi'], dni_clear=k['dni'])['dni']
                elif miss == 'ghi':
                    exp['ghi'] = f['dhi'] + f['dni'] * np.cos(np.radians(sp['zenith']))
                elif miss == 'dhi':
                    exp['dhi'] = f['ghi'] - f['dni'] * np.cos(np.radians(sp['zenith']))
                ctx.expect(list(a.columns) == list(exp.columns) and a.index.equals(exp.index), 'complete:columns', missing=miss)
                for c in exp:
                    ctx.close(a[c].to_numpy(), exp[c].to_numpy(), 'complete:' + c, missing=miss, model=cs, method=method)
            # and it can be fed back
            done = deepcopy(w)
            quiet(mc.run_model, mc.results.weather)
            exp = quiet(H.run, specs, SITE, dict(solar_position=method), 'weather', [done] if layout == 'frame' else list(done))
            H.compare(ctx, mc.results, exp, n, layout != 'frame', 'complete:run', missing=miss)
