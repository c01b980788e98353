"""All operations of PVSystem x all selections of one to three arrays out of
three pairwise different ones (repetitions and every order included) x full
and minimal parameter sets x shared / per-array argument forms x containers x
unwrap modes x wrong argument counts, on the real code, against calling the
component function by hand with each array's own parameters."""
import itertools
import math

import numpy as np
import pandas as pd

from mc.core import case, quiet, same_value, deepcopy
from mc.ref import pvsys as R
from pvlib import pvsystem, spectrum, tracking

TECHNIQUE = ('explicit-state bounded model checking: exhaustive enumeration of system configurations and call forms '
             'on the real code against per-array composition')
CASES = []
nan = math.nan

FULL = {**R.SAPM, **R.CEC, **{k: v for k, v in R.PVSYST.items() if k not in R.CEC}, **R.PVW, **R.VMP,
        'n': 1.5, 'K': 5., 'L': .003, 'n_ar': 1.2, 'b': .06, 'a_r': .18, 'theta_ref': [0, 30, 60, 75, 90],
        'iam_ref': [.98, .97, .9, .6, 0], 'method': 'linear', 'normalize': False,
        'EgRef': 1.13, 'dEgdT': -.0003, 'irrad_ref': 950, 'temp_ref': 22, 'R_sh_exp': 5., 'k': .01,
        'cap_adjustment': True, 'module_efficiency': .17, 'alpha_absorption': .88, 'Technology': 'CdTe'}
MINI = {**R.SAPM, **R.CEC, **{k: v for k, v in R.PVSYST.items() if k not in R.CEC}, **R.PVW,
        'theta_ref': [0, 50, 90], 'iam_ref': [1, .95, 0],
        'first_solar_spectral_coefficients': [.86, -.02, -.005, .123, .0246, -.0107]}
for _k in ('IXO', 'C4', 'C6', 'EgRef'):
    del MINI[_k]
TFULL = {'a': -3.4, 'b': -.06, 'deltaT': 2.5, 'irrad_ref': 900., 'u_c': 27., 'u_v': 1.1, 'u0': 24., 'u1': 6.,
         'noct_installed': 46., 'noct': 45., 'module_efficiency': .18, 'transmittance_absorptance': .91,
         'array_height': 2, 'mount_standoff': 2.8, 'sky_view': .9, 'emissivity': .86, 'absorption': .85,
         'wind_height': 8., 'surface_tilt': 25., 'module_width': .9, 'module_length': 1.6}
TMINI = {'a': -2.9, 'b': -.05, 'deltaT': 1., 'noct_installed': 44., 'noct': 47., 'module_efficiency': .2}


def specs(kind):
    out = [R.spec(i, FULL if kind == 'full' else MINI, TFULL if kind == 'full' else TMINI) for i in range(3)]
    for i, s in enumerate(out):
        p, t = s['module_parameters'], s['temperature_model_parameters']
        if kind == 'full':
            p['Technology'] = ['CdTe', 'Multi-c-Si', 'CIGS'][i]
            p['cap_adjustment'] = [True, False, True][i]
            p['normalize'] = [False, True, False][i]
            p['theta_ref'] = [0, 30 + i, 60, 75, 90]
            p['method'] = ['linear', 'linear', 'quadratic'][i]
            t['array_height'] = [2, 1, 2][i]
        else:
            p['first_solar_spectral_coefficients'] = [v * (1 + .1 * i) for v in p['first_solar_spectral_coefficients']]
    return out


IDX = pd.date_range('2024-03-20 06:30', periods=5, freq='150min', tz='Etc/GMT+5')
BASE = {
    'zen': [75., 48., 38., 62., 95.], 'azi': [95., 130., 190., 250., 280.], 'dni': [300., 750., 880., 640., 0.],
    'ghi': [160., 620., 800., 380., 0.], 'dhi': [80., 110., 120., 90., 0.], 'albedo': [.2, .25, .3, .22, .2],
    'am': [3.8, 1.5, 1.27, 2.1, nan], 'extra': [1370., 1371., 1372., 1373., 1374.],
    'aoi': [60., 25., 10., 80., 100.], 'poa': [400., 850., 1010., 700., 0.], 'ta': [5., 12., 20., 17., nan],
    'ws': [0., 2., 5., 1., 3.], 'eff': [390., 830., 1000., 150., 0.], 'lw': [280., 300., 320., 310., 290.],
    'tc': [20., 45., 55., 40., 10.], 'direct': [300., 700., 850., 500., 0.], 'diffuse': [90., 140., 150., 160., 0.],
    'pw': [.5, 1.4, 2.2, 1., 3.], 'pdc': [300., 1500., 3000., 900., 0.], 'vdc': [250., 300., 330., 280., 0.]}


def value(name, j, form):
    """Argument `name`, as given for array j (j=None: shared)."""
    v = np.array(BASE[name])
    if j is not None:
        v = v * (1 - .03 * j)
    if form == 'series':
        return pd.Series(v, index=IDX)
    if form == 'array':
        return v
    return float(v[1])


# op: arguments (name, kind): per = always per array, sys = shared or per array, one = shared
OPS = {
    'get_aoi': ([('zen', 'one'), ('azi', 'one')], [{}], lambda s, a, k: R.aoi(s, *a)),
    'get_irradiance': ([('zen', 'one'), ('azi', 'one'), ('dni', 'sys'), ('ghi', 'sys'), ('dhi', 'sys')],
                       [{}, {'model': 'perez'}, {'model': 'isotropic', 'surface_type': 'snow'},
                        {'model': 'perez', 'model_perez': 'phoenix1988'}, {'model': 'Klucher'},
                        {'model': 'haydavies', 'diffuse_components': True}],
                       lambda s, a, k: R.total_irrad(s, *a, **k)),
    'get_irradiance+': ([('zen', 'one'), ('azi', 'one'), ('dni', 'sys'), ('ghi', 'sys'), ('dhi', 'sys'),
                         ('extra', 'one'), ('am', 'one'), ('albedo', 'sys')],
                        [{}, {'model': 'perez-driesse'}, {'model': 'reindl'}], lambda s, a, k: R.total_irrad(s, *a, **k)),
    'get_iam': ([('aoi', 'per')],
                [{}] + [{'iam_model': m} for m in ('physical', 'ashrae', 'martin_ruiz', 'interp', 'schlick', 'sapm',
                                                   'ASHRAE')],
                lambda s, a, k: R.iam_factor(s, a[0], k.get('iam_model', 'physical').lower())),
    'get_cell_temperature': ([('poa', 'per'), ('ta', 'sys'), ('ws', 'sys')],
                             [{'model': m} for m in ('sapm', 'pvsyst', 'faiman', 'fuentes', 'noct_sam', 'faiman_rad')],
                             lambda s, a, k: R.cell_temp(s, *a, k['model'])),
    'get_cell_temperature+': ([('poa', 'per'), ('ta', 'sys'), ('ws', 'sys'), ('eff', 'sysk', 'effective_irradiance'),
                               ('lw', 'sysk', 'longwave_down')],
                              [{'model': m} for m in ('noct_sam', 'faiman_rad', 'pvsyst')],
                              lambda s, a, k: R.cell_temp(s, *a[:3], k['model'], *a[3:])),
    'calcparams_desoto': ([('eff', 'per'), ('tc', 'per')], [{}], lambda s, a, k: R.diode_params(s, 'desoto', *a)),
    'calcparams_cec': ([('eff', 'per'), ('tc', 'per')], [{}], lambda s, a, k: R.diode_params(s, 'cec', *a)),
    'calcparams_pvsyst': ([('eff', 'per'), ('tc', 'per')], [{}], lambda s, a, k: R.diode_params(s, 'pvsyst', *a)),
    'sapm': ([('eff', 'per'), ('tc', 'per')], [{}], lambda s, a, k: pvsystem.sapm(*a, s['module_parameters'])),
    'sapm_spectral_loss': ([('am', 'one')], [{}], lambda s, a, k: R.sapm_spectral(s, *a)),
    'sapm_effective_irradiance': ([('direct', 'per'), ('diffuse', 'per'), ('am', 'one'), ('aoi', 'per')], [{}],
                                  lambda s, a, k: R.sapm_eff(s, *a)),
    'first_solar_spectral_loss': ([('pw', 'sys'), ('am', 'one')], [{}], lambda s, a, k: R.first_solar(s, *a)),
    'pvwatts_dc': ([('eff', 'per'), ('tc', 'per')], [{}], lambda s, a, k: R.pvwatts_dc(s, *a)),
    'dc_ohms_from_percent': ([], [{}], lambda s, a, k: R.ohms(s)),
}


def same(ctx, got, exp, key, index=None, **d):
    """Deep comparison, containers and labels included."""
    def need(ok, what):
        if not ok:
            ctx.fail(key + what, got=repr(got)[:200], msg='', **d)
        return ok
    ctx.step(0)
    if isinstance(exp, (tuple, list)):
        if need(isinstance(got, (tuple, list)) and len(got) == len(exp), ':form'):
            for g, e in zip(got, exp):
                same(ctx, g, e, key, **d)
    elif isinstance(exp, dict):
        if need(hasattr(got, 'keys') and list(got.keys()) == list(exp.keys()), ':keys'):
            for k in exp:
                same(ctx, got[k], exp[k], key, out=k, **d)
    elif isinstance(exp, pd.DataFrame):
        if need(isinstance(got, pd.DataFrame) and list(got.columns) == list(exp.columns) and
                got.index.equals(exp.index), ':frame'):
            ctx.close(got.to_numpy(float), exp.to_numpy(float), key, columns=list(exp.columns), **d)
    elif isinstance(exp, pd.Series):
        if need(isinstance(got, pd.Series) and got.index.equals(exp.index), ':series'):
            ctx.close(got.to_numpy(float), exp.to_numpy(float), key, **d)
    elif need(np.ndim(got) == np.ndim(exp), ':shape'):
        ctx.close(np.asarray(got, float), np.asarray(exp, float), key, **d)


def check_op(ctx, opname, kind, selections, forms):
    args, kws, manual = OPS[opname]
    method = opname.rstrip('+')
    S = specs(kind)
    for sel in selections:
        n = len(sel)
        ss = [S[i] for i in sel]
        system = pvsystem.PVSystem([R.array_object(s) for s in ss])
        before = [deepcopy(vars(a)) for a in system.arrays]
        sysn = [a for a in args if a[1] in ('sys', 'sysk')]
        shares = list(itertools.product((True, False), repeat=len(sysn))) if len(sysn) <= 3 else \
            [(True,) * len(sysn), (False,) * len(sysn)] + [tuple(i == j for j in range(len(sysn)))
                                                           for i in range(len(sysn))]
        if opname == 'get_irradiance+' and not ctx.thorough:
            shares = shares[:2] + shares[-1:]
        if opname == 'get_irradiance' and not ctx.thorough and n == 3:
            shares = shares[:1] + shares[-1:]
        for form, share in itertools.product(forms, shares):
            sh = dict(zip([a[0] for a in sysn], share))
            given, each, kwgiven = [], [[] for _ in range(n)], {}
            for a in args:
                name, k = a[0], a[1]
                if k == 'one' or sh.get(name):
                    v = value(name, None, form)
                    e = [v] * n
                else:
                    v = tuple(value(name, j, form) for j in range(n))
                    e = list(v)
                    if n == 1 and k == 'per':
                        v = v[0]
                if k == 'sysk':
                    kwgiven[a[2]] = v
                else:
                    given.append(v)
                for j in range(n):
                    each[j].append(e[j])
            for kw in kws:
                if kw.get('model') == 'fuentes' and form != 'series':
                    continue
                if opname == 'get_irradiance' and not ctx.thorough and kw and len(set(share)) > 1 and form != 'series':
                    continue
                ctx.state()
                exp = [quiet(manual, s, e, kw) for s, e in zip(ss, each)]
                g0, k0 = deepcopy(given), deepcopy(kwgiven)
                f = getattr(system, method)
                d = dict(op=opname, params=kind, arrays=sel, form=form, shared=str(sh), kw=str(kw))
                for unwrap in ({}, {'unwrap': True}, {'unwrap': False}):
                    if unwrap and kw and 'irradiance' in opname and not ctx.thorough:
                        continue
                    try:
                        got = quiet(f, *given, **kwgiven, **kw, **unwrap)
                    except Exception as e:     # noqa
                        ctx.fail(f'{opname}:{type(e).__name__}', repr(e)[:200], **d)
                        continue
                    if n == 1 and unwrap.get('unwrap', True):
                        same(ctx, got, exp[0], opname, **d)
                    else:
                        if ctx.expect(isinstance(got, tuple) and len(got) == n, opname + ':tuple', **d):
                            same(ctx, got, tuple(exp), opname, **d)
                ctx.expect(same_value(given, g0) and same_value(kwgiven, k0), opname + ':mutates-args', **d)
        for a, b in zip(system.arrays, before):
            ctx.expect(same_value(vars(a), b), opname + ':mutates-array', arrays=sel)
        # wrong numbers of per-array values
        for pos, a in enumerate(args):
            if a[1] == 'one':
                continue
            for m in sorted({0, 1, n - 1, n + 1} - {n}):
                bad = []
                kwbad = {}
                for p2, a2 in enumerate(args):
                    if p2 == pos:
                        v = tuple(value(a2[0], j, 'series') for j in range(m))
                    elif a2[1] == 'one':
                        v = value(a2[0], None, 'series')
                    else:
                        v = tuple(value(a2[0], j, 'series') for j in range(n))
                    if a2[1] == 'sysk':
                        kwbad[a2[2]] = v
                    else:
                        bad.append(v)
                ctx.state()
                ctx.raises(ValueError, lambda: getattr(system, method)(*bad, **kwbad, **kws[0]),
                           f'{opname}:count', arg=a[0], n=n, given=m)
            if a[1] == 'per' and n > 1:
                bad = [value(a2[0], None, 'series') if (p2 == pos or a2[1] == 'one') else
                       tuple(value(a2[0], j, 'series') for j in range(n)) for p2, a2 in enumerate(args)
                       if a2[1] != 'sysk']
                ctx.raises(ValueError, lambda: getattr(system, method)(*bad, **kws[0]), f'{opname}:bare', arg=a[0], n=n)


def selections(ctx):
    one = [(i,) for i in range(3)]
    two = [s for s in itertools.product(range(3), repeat=2)]
    three = [s for s in itertools.product(range(3), repeat=3)]
    return one + two + three if ctx.thorough else one + [(0, 1), (1, 0), (2, 2), (2, 0)] + [(0, 1, 2), (2, 0, 1), (1, 1, 0)]


def _reg(opname):
    @case(CASES, name='op_' + opname)
    def f(ctx):
        forms = ('series', 'array', 'scalar')
        for kind in ('full', 'mini'):
            if opname == 'dc_ohms_from_percent' and kind == 'full':
                pass
            check_op(ctx, opname, kind, selections(ctx), forms)
        ctx.sample(dict(op=opname, arrays='<=3'))
        ctx.outcome('ok')


for _op in OPS:
    _reg(_op)


@case(CASES)
def get_ac(ctx):
    """Sandia, ADR and PVWatts inverters over one to three inputs."""
    S = specs('full')
    invs = {'sandia': [R.SNL_INV, {**R.SNL_INV, 'Paco': 2500., 'Pso': 30.}],
            'pvwatts': [{'pdc0': 3300.}, R.PVW_INV, {'pdc0': 2800., 'eta_inv_nom': .9}, {'pdc0': 2800., 'eta_inv_ref': .95}],
            'adr': [R.ADR_INV, {**R.ADR_INV, 'Pnt': .5}]}
    for model in invs:
        for inv, sel, form, name in itertools.product(invs[model], [(0,), (0, 1), (1, 0), (0, 1, 2), (2, 2, 1)],
                                                      ('series', 'array', 'scalar'), (model, model.upper())):
            n = len(sel)
            system = pvsystem.PVSystem([R.array_object(S[i]) for i in sel], inverter_parameters=deepcopy(inv))
            p = [value('pdc', j, form) for j in range(n)]
            v = [value('vdc', j, form) for j in range(n)]
            p0, v0 = deepcopy(p), deepcopy(v)
            args = {'v_dc': tuple(v)} if model != 'pvwatts' else {}
            ctx.state()
            if model == 'adr' and n > 1:
                ctx.raises(ValueError, lambda: system.get_ac(name, tuple(p), **args), 'adr:multi')
                continue
            exp = quiet(R.ac, model, p, v, inv)
            forms = [(tuple(p), args)]
            if n == 1:
                forms.append((p[0], {k: x[0] for k, x in args.items()}))
            for pp, aa in forms:
                try:
                    got = quiet(system.get_ac, name, pp, **aa)
                except Exception as e:      # noqa
                    ctx.fail('get_ac:' + type(e).__name__, repr(e)[:200], model=model, n=n, form=form)
                    continue
                same(ctx, got, exp, 'get_ac:' + model, n=n, form=form)
            ctx.expect(same_value(p, p0) and same_value(v, v0), 'get_ac:mutates')
            ctx.expect(system.inverter_parameters == inv, 'get_ac:mutates-inverter')
            for m in {1, n - 1, n + 1} - {n, 0}:
                q = tuple(value('pdc', j, form) for j in range(m))
                w = {'v_dc': tuple(value('vdc', j, form) for j in range(m))} if args else {}
                ctx.raises(ValueError, lambda: system.get_ac(name, q, **args), 'get_ac:count-p', model=model, n=n, m=m)
                if w:
                    ctx.raises(ValueError, lambda: system.get_ac(name, tuple(p), **w), 'get_ac:count-v', model=model, n=n, m=m)
    for bad in ('', 'snl', 'adr ', 'sandia_multi', 'pv'):
        s = pvsystem.PVSystem(inverter_parameters=R.PVW_INV)
        ctx.raises(ValueError, lambda: s.get_ac(bad, 1., v_dc=1.), 'get_ac:name', name=bad)


@case(CASES)
def scaling(ctx):
    """String and module counts scale voltage, current and power exactly."""
    S = specs('full')
    cols = ['i_sc', 'v_oc', 'i_mp', 'v_mp', 'p_mp', 'i_x', 'i_xx']
    base = pd.DataFrame({c: np.array([3., 2., 0., nan, 7.5]) + k for k, c in enumerate(cols)}, index=IDX)
    subsets = [cols, cols[::-1], ['p_mp'], ['v_mp', 'p_mp'], ['i_mp', 'v_mp', 'p_mp'], ['i_sc', 'v_oc'], ['i_x', 'i_xx'], ['i_mp']]
    for mps, st, sub in itertools.product((1, 2, 3, 12), (1, 2, 5), subsets):
        ctx.state()
        df = base[sub]
        keep = df.copy()
        s = dict(S[0], modules_per_string=mps, strings=st)
        exp = R.scaled(s, df)
        same(ctx, pvsystem.scale_voltage_current_power(df, voltage=mps, current=st), exp, 'scale:function')
        system = pvsystem.PVSystem([R.array_object(s)])
        same(ctx, system.scale_voltage_current_power(df), exp, 'scale:system', mps=mps, strings=st)
        flat = pvsystem.PVSystem(modules_per_string=mps, strings_per_inverter=st)
        same(ctx, flat.scale_voltage_current_power(df), exp, 'scale:flat-system', mps=mps, strings=st)
        ctx.expect(same_value(df, keep), 'scale:mutates')
    same(ctx, pvsystem.scale_voltage_current_power(base), base, 'scale:default')
    for sel in itertools.product(range(3), repeat=2):
        system = pvsystem.PVSystem([R.array_object(S[i]) for i in sel])
        ctx.state()
        dfs = (base, base * 2 + 1)
        got = system.scale_voltage_current_power(dfs)
        same(ctx, got, tuple(R.scaled(S[i], d) for i, d in zip(sel, dfs)), 'scale:multi', arrays=sel)
        ctx.raises(ValueError, lambda: system.scale_voltage_current_power(base), 'scale:count')
        ctx.raises(ValueError, lambda: system.scale_voltage_current_power(dfs * 2), 'scale:count')


@case(CASES)
def construction(ctx):
    """Flat constructor = explicit array; defaults; albedo and temperature
    parameter inference; array containers."""
    albedos = {'urban': .18, 'grass': .20, 'fresh grass': .26, 'soil': .17, 'sand': .40, 'snow': .65,
               'fresh snow': .75, 'asphalt': .12, 'concrete': .30, 'aluminum': .85, 'copper': .74,
               'fresh steel': .35, 'dirty steel': .08, 'sea': .06, None: .25, 'unknown': .25}
    sapm = {('open_rack', 'glass_glass'): (-3.47, -.0594, 3), ('close_mount', 'glass_glass'): (-2.98, -.0471, 1),
            ('open_rack', 'glass_polymer'): (-3.56, -.0750, 3), ('insulated_back', 'glass_polymer'): (-2.81, -.0455, 0)}
    for (st, alb), (given) in itertools.product(albedos.items(), (None, 0, 0., .33)):
        ctx.state()
        exp = alb if given is None else given
        a = pvsystem.Array(pvsystem.FixedMount(), albedo=given, surface_type=st)
        s = pvsystem.PVSystem(albedo=given, surface_type=st)
        for o in (a, s.arrays[0]):
            ctx.expect(o.albedo == exp, 'albedo', surface=st, given=given, got=o.albedo)
        # and it is used for the ground component
        got = a.get_irradiance(40., 180., 800., 600., 100.)
        ref = R.total_irrad(dict(mount=R.MOUNTS[0] | {'surface_tilt': 0., 'surface_azimuth': 180.}, albedo=exp),
                            40., 180., 800., 600., 100.)
        same(ctx, got, ref, 'albedo-used')
    rack = [None, 'open_rack', 'close_mount', 'insulated_back', 'freestanding', 'insulated', 'semi_integrated', 'other']
    mods = [None, 'glass_polymer', 'glass_glass', 'poly']
    for r, m, given in itertools.product(rack, mods, (None, {}, {'u0': 20.})):
        ctx.state()
        if given is not None:
            exp = given
        elif (r, m) in sapm:
            exp = dict(zip(('a', 'b', 'deltaT'), sapm[r, m]))
        elif r == 'freestanding':
            exp = {'u_c': 29., 'u_v': 0}
        elif r in ('insulated', 'insulated_back'):
            exp = {'u_c': 15., 'u_v': 0}
        elif r == 'semi_integrated':
            exp = {'u_c': 20., 'u_v': 0}
        else:
            exp = {}
        objs = [pvsystem.Array(pvsystem.FixedMount(racking_model=r), module_type=m, temperature_model_parameters=given),
                pvsystem.PVSystem(racking_model=r, module_type=m, temperature_model_parameters=given).arrays[0],
                pvsystem.Array(pvsystem.SingleAxisTrackerMount(racking_model=r), module_type=m,
                               temperature_model_parameters=given)]
        for o in objs:
            got = quiet(lambda: o.temperature_model_parameters)
            ctx.expect(dict(got) == exp, 'temperature-params', rack=r, module=m, got=str(got), exp=str(exp))
        # parameter sets are not shared between arrays
        if given is None and exp:
            objs[0].temperature_model_parameters['a'] = 99
            again = pvsystem.Array(pvsystem.FixedMount(racking_model=r), module_type=m)
            ctx.expect(dict(again.temperature_model_parameters) == exp, 'temperature-params:shared', rack=r, module=m)
    # flat constructor versus explicit array
    S = specs('full')
    for i, mh in itertools.product((0, 1), (None,)):
        s = deepcopy(S[i])
        s['mount']['module_height'] = mh
        flat = pvsystem.PVSystem(
            surface_tilt=s['mount']['surface_tilt'], surface_azimuth=s['mount']['surface_azimuth'], albedo=s['albedo'],
            module_parameters=s['module_parameters'], temperature_model_parameters=s['temperature_model_parameters'],
            modules_per_string=s['modules_per_string'], strings_per_inverter=s['strings'],
            losses_parameters=dict(s['array_losses_parameters'], soiling=4.), racking_model=None)
        for op, (args, kws, manual) in OPS.items():
            for kw in kws:
                ctx.state()
                g, k = [], {}
                for a in args:
                    v = value(a[0], None, 'series')
                    if a[1] == 'sysk':
                        k[a[2]] = v
                    else:
                        g.append(v)
                same(ctx, quiet(getattr(flat, op.rstrip('+')), *g, **k, **kw),
                     quiet(manual, s, g + list(k.values()), kw), 'flat:' + op)
    a = R.array_object(S[0])
    for arr in (a, [a], (a,), [a, R.array_object(S[1])]):
        s = pvsystem.PVSystem(arr)
        ctx.state()
        n = 2 if isinstance(arr, list) and len(arr) == 2 else 1
        ctx.expect(s.num_arrays == n and isinstance(s.arrays, tuple) and s.arrays[0] is a, 'arrays')
    for empty in ([], ()):
        ctx.raises(ValueError, lambda: pvsystem.PVSystem(empty), 'empty-arrays')
    d = pvsystem.PVSystem()
    ctx.expect(d.num_arrays == 1 and d.inverter_parameters == {} and d.losses_parameters == {} and
               d.arrays[0].module_parameters == {} and d.arrays[0].strings == 1 and d.arrays[0].modules_per_string == 1 and
               d.arrays[0].mount.surface_tilt == 0 and d.arrays[0].mount.surface_azimuth == 180, 'defaults')
    d.arrays[0].module_parameters['x'] = 1
    d.inverter_parameters['x'] = 1
    d.losses_parameters['x'] = 1
    e = pvsystem.PVSystem()
    ctx.expect(e.arrays[0].module_parameters == {} and e.inverter_parameters == {} and e.losses_parameters == {}, 'defaults:shared')


@case(CASES)
def losses(ctx):
    """System losses: every subset of the ten factors."""
    names = ['soiling', 'shading', 'snow', 'mismatch', 'wiring', 'connections', 'lid', 'nameplate_rating', 'age', 'availability']
    for k, mask in enumerate(itertools.product((0, 1), repeat=10)):
        par = {n: [0, 100, 5.5][(k + j) % 3] if (k + j) % 7 else 10 for j, (n, m) in enumerate(zip(names, mask)) if m}
        if 100 in par.values() and k % 5:
            par = {n: min(v, 30) for n, v in par.items()}
        ctx.state()
        exp = R.losses_percent(par)
        ctx.close(pvsystem.PVSystem(losses_parameters=dict(par, dc_ohmic_percent=3, other=1)).pvwatts_losses(), exp, 'losses:system', par=str(par))
        ctx.close(pvsystem.pvwatts_losses(**par), exp, 'losses:function')
    ctx.close(pvsystem.PVSystem().pvwatts_losses(), R.losses_percent({}), 'losses:default')


@case(CASES)
def ohmic(ctx):
    """Nameplate families and their precedence for the wiring resistance."""
    fam = [('V_mp_ref', 'I_mp_ref'), ('Vmpo', 'Impo'), ('Vmpp', 'Impp')]
    vals = {'V_mp_ref': 31., 'I_mp_ref': 8., 'Vmpo': 48., 'Impo': 4.5, 'Vmpp': 29., 'Impp': 9.}
    keys = list(vals)
    for mask, mps, st, pc in itertools.product(itertools.product((0, 1), repeat=6), (1, 7), (1, 3), (0, 1.5, 3)):
        par = {k: vals[k] for k, m in zip(keys, mask) if m}
        exp = None
        for v, i in fam:
            if v in par and i in par:
                exp = pc / 100 * (mps * par[v]) / (st * par[i])
                break
        ctx.state()
        a = pvsystem.Array(pvsystem.FixedMount(), module_parameters=par, modules_per_string=mps, strings=st,
                           array_losses_parameters={'dc_ohmic_percent': pc})
        s = pvsystem.PVSystem(module_parameters=par, modules_per_string=mps, strings_per_inverter=st,
                              losses_parameters={'dc_ohmic_percent': pc})
        for o in (a, s, pvsystem.PVSystem([a])):
            if exp is None:
                ctx.raises(ValueError, o.dc_ohms_from_percent, 'ohmic:missing', par=str(par))
            else:
                ctx.close(o.dc_ohms_from_percent(), exp, 'ohmic', par=str(par), mps=mps, strings=st)
    for r, i in itertools.product((0., .1, 2.), (-1., 0., 3., nan)):
        ctx.close(pvsystem.dc_ohmic_losses(r, i), r * i * i, 'ohmic:losses')


@case(CASES)
def celltype(ctx):
    """Cell type of every documented technology name in either library."""
    pw, am = np.array([.5, 1.4, 3.]), np.array([1.1, 2., 4.])
    for fam, tech in itertools.product(('Technology', 'Material'), list(R.CELL_TYPE) + ['2-a-Si', '3-a-Si', 'GaAs']):
        ctx.state()
        a = R.array_object(dict(specs('mini')[0], module_parameters={fam: tech}))
        s = pvsystem.PVSystem([a])
        if tech in R.CELL_TYPE:
            same(ctx, quiet(s.first_solar_spectral_loss, pw, am),
                 quiet(spectrum.spectral_factor_firstsolar, pw, am, R.CELL_TYPE[tech]), 'celltype', tech=tech, family=fam)
        else:
            ctx.raises(TypeError, lambda: s.first_solar_spectral_loss(pw, am), 'celltype:none', tech=tech)
    both = {'Technology': 'CdTe', 'Material': 'c-Si'}
    s = pvsystem.PVSystem(module_parameters=both)
    same(ctx, s.first_solar_spectral_loss(pw, am), spectrum.spectral_factor_firstsolar(pw, am, 'cdte'), 'celltype:precedence')
    co = [.86, -.02, -.005, .123, .0246, -.0107]
    s = pvsystem.PVSystem(module_parameters=dict(both, first_solar_spectral_coefficients=co))
    same(ctx, s.first_solar_spectral_loss(pw, am), spectrum.spectral_factor_firstsolar(pw, am, coefficients=co), 'celltype:coefficients')
    s = pvsystem.PVSystem()
    ctx.raises(TypeError, lambda: s.first_solar_spectral_loss(pw, am), 'celltype:missing')


@case(CASES)
def mounts(ctx):
    """Orientation delivered by every mount configuration."""
    zen = pd.Series([5., 40., 70., 88., 95., nan], index=pd.date_range('2024-06-01', periods=6, freq='h', tz='UTC'))
    azi = pd.Series([180., 100., 95., 270., 280., 200.], index=zen.index)
    for t, a in itertools.product((0., 30, 90., 135.), (0., 90, 180., 359.)):
        ctx.state()
        m = pvsystem.FixedMount(t, a)
        for z, z2 in ((40., 180.), (zen, azi)):
            o = m.get_orientation(z, z2)
            ctx.expect(dict(o) == {'surface_tilt': t, 'surface_azimuth': a}, 'mount:fixed', got=str(o))
    d = pvsystem.FixedMount()
    ctx.expect((d.surface_tilt, d.surface_azimuth, d.racking_model, d.module_height) == (0., 180., None, None), 'mount:fixed-defaults')
    axes = itertools.product((0., 10.), (0., 180., 200.), (90., 45., (-30., 60.)), (True, False), (.3, .6), (0., -5.))
    for at, aa, mx, bt, gcr, ct in axes:
        ctx.state()
        m = pvsystem.SingleAxisTrackerMount(at, aa, mx, bt, gcr, ct)
        exp = quiet(tracking.singleaxis, zen, azi, axis_tilt=at, axis_azimuth=aa, max_angle=mx, backtrack=bt, gcr=gcr, cross_axis_tilt=ct)
        got = quiet(m.get_orientation, zen, azi)
        for k in ('surface_tilt', 'surface_azimuth'):
            same(ctx, got[k], exp[k], 'mount:tracker', out=k)
    got = quiet(pvsystem.SingleAxisTrackerMount().get_orientation, zen, azi)
    exp = quiet(tracking.singleaxis, zen, azi, 0., 0., 90., True, 2 / 7, 0.)
    for k in ('surface_tilt', 'surface_azimuth'):
        same(ctx, got[k], exp[k], 'mount:tracker-defaults', out=k)


@case(CASES)
def loss_combination(ctx):
    """combine_loss_factors: complement of the product of complements."""
    idx = pd.date_range('2024-01-01', periods=6, freq='h')
    ser = [pd.Series([0., .1, .2, .3, 1., 0.], index=idx), pd.Series([.05, .2, .4], index=idx[::2]),
           pd.Series([.1, .3], index=[idx[0] - pd.Timedelta('30min'), idx[3]])]

    def look(s, t, how):
        if how == 'ffill':
            c = [v for i, v in s.items() if i <= t]
            return c[-1] if c else nan
        if how == 'bfill':
            c = [v for i, v in s.items() if i >= t]
            return c[0] if c else nan
        return min(s.items(), key=lambda x: abs(x[0] - t))[1]

    for n in range(1, 4):
        for combo in itertools.product(range(3), repeat=n):
            for how in ('ffill', 'bfill', 'nearest', None):
                ss = [ser[c] for c in combo]
                keep = deepcopy(ss)
                if how == 'nearest' and (1 in combo):
                    continue            # equidistant labels
                ctx.state()
                got = pvsystem.combine_loss_factors(idx, *ss, **({'fill_method': how} if how else {}))
                exp = []
                for t in idx:
                    k = 1.
                    for s in ss:
                        k *= 1 - look(s, t, how or 'ffill')
                    exp.append(1 - k)
                ctx.close(got.to_numpy(), np.array(exp), 'combine', combo=combo, how=how)
                ctx.expect(got.index.equals(idx), 'combine:index')
                ctx.expect(same_value(ss, keep), 'combine:mutates')
