"""All subsets of parameter families per model slot x one or two arrays (every
pair of subsets) x single-key deletions x every name, case variant, near-miss
name, user function and non-model value, through the constructor and through
reassignment, against a precedence table."""
import itertools

from mc.core import case, quiet
from mc.ref import pvsys as R
from pvlib import location, modelchain, pvsystem

TECHNIQUE = ('explicit-state bounded model checking: exhaustive enumeration of parameter-family configurations on the '
             'real selection code against a decision table')
CASES = []
LOC = location.Location(32.2, -110.9, altitude=700.)

SAPM_DC = {'C0', 'C1', 'C2', 'C3', 'Isco', 'Impo', 'Voco', 'Vmpo', 'Aisc', 'Aimp', 'Bvoco', 'Mbvoc', 'Bvmpo', 'Mbvmp', 'N',
           'Cells_in_Series'}
DESOTO = {'alpha_sc', 'a_ref', 'I_L_ref', 'I_o_ref', 'R_sh_ref', 'R_s'}
CEC = DESOTO | {'Adjust'}
PVSYST = {'gamma_ref', 'mu_gamma', 'I_L_ref', 'I_o_ref', 'R_sh_ref', 'R_sh_0', 'R_s', 'alpha_sc', 'EgRef', 'cells_in_series'}
PVW = {'pdc0', 'gamma_pdc'}
DC_NEED = {'sapm': SAPM_DC, 'cec': CEC, 'desoto': DESOTO, 'pvsyst': PVSYST, 'pvwatts': PVW}
DC_INFER = [('sapm', {'A0', 'A1', 'C3'}), ('cec', CEC - {'alpha_sc'}), ('desoto', DESOTO - {'alpha_sc'}),
            ('pvsyst', (PVSYST | {'R_sh_exp'}) - {'alpha_sc', 'EgRef', 'cells_in_series'}), ('pvwatts', PVW)]
DC_FAM = {'sapm': SAPM_DC | {'A0', 'A1'}, 'cec': CEC, 'desoto': DESOTO, 'pvsyst': PVSYST | {'R_sh_exp'}, 'pvwatts': PVW}
DC_SLOT = {'sapm': 'sapm', 'cec': 'cec', 'desoto': 'desoto', 'pvsyst': 'pvsyst', 'pvwatts': 'pvwatts_dc'}

AOI_FAM = {'physical': {'n', 'K', 'L'}, 'sapm': {'B0', 'B1', 'B2', 'B3', 'B4', 'B5'}, 'ashrae': {'b'}, 'martin_ruiz': {'a_r'},
           'interp': {'theta_ref', 'iam_ref'}}
AOI_SLOT = {'physical': 'physical_aoi_loss', 'sapm': 'sapm_aoi_loss', 'ashrae': 'ashrae_aoi_loss', 'martin_ruiz': 'martin_ruiz_aoi_loss',
            'interp': 'interp_aoi_loss', 'schlick': 'schlick_aoi_loss', 'no_loss': 'no_aoi_loss'}
TEMP_FAM = {'sapm': {'a', 'b', 'deltaT'}, 'pvsyst': {'u_c', 'u_v'}, 'faiman': {'u0', 'u1'}, 'fuentes': {'noct_installed'},
            'noct_sam': {'noct', 'module_efficiency'}}
TEMP_SLOT = {k: k + '_temp' for k in TEMP_FAM}
AC_FAM = {'sandia': {'C0', 'C1', 'C2'}, 'adr': {'ADRCoefficients'}, 'pvwatts': {'pdc0'}}
AC_SLOT = {'sandia': 'sandia_inverter', 'adr': 'adr_inverter', 'pvwatts': 'pvwatts_inverter'}
SPEC_SLOT = {'first_solar': 'first_solar_spectral_loss', 'sapm': 'sapm_spectral_loss', 'no_loss': 'no_spectral_loss'}
OHM_SLOT = {'dc_ohms_from_percent': 'dc_ohms_from_percent', 'no_loss': 'no_dc_ohmic_loss'}
LOSS_SLOT = {'pvwatts': 'pvwatts_losses', 'no_loss': 'no_extra_losses'}


def user(chain):
    return chain


def subsets(names):
    names = list(names)
    for k in range(len(names) + 1):
        yield from itertools.combinations(names, k)


def system(modpars=({},), temppars=None, inv=None):
    temppars = temppars or ({},) * len(modpars)
    return pvsystem.PVSystem([pvsystem.Array(pvsystem.FixedMount(), module_parameters={k: 1. for k in m},
                                             temperature_model_parameters={k: 1. for k in t})
                              for m, t in zip(modpars, temppars)], inverter_parameters={k: 1. for k in (inv or ())})


def make(sys_, **given):
    """A chain whose other slots are user functions."""
    a = dict(dc_model=user, ac_model=user, aoi_model=user, spectral_model=user, temperature_model=user, dc_ohmic_model=user,
             losses_model=user)
    a.update(given)
    return modelchain.ModelChain(sys_, LOC, **a)


def check(ctx, sys_, slot, model, want, table, key, **d):
    """Selection through the constructor and by reassignment must give the
    method named by `want`, or an error when want is None."""
    ctx.state()
    if want is None:
        ctx.raises((ValueError, TypeError, NotImplementedError, AttributeError), lambda: make(sys_, **{slot: model}), key + ':accepted',
                   slot=slot, model=repr(model), **d)
        mc = make(sys_)
        ctx.raises((ValueError, TypeError, NotImplementedError, AttributeError), lambda: setattr(mc, slot, model), key + ':accepted-later',
                   slot=slot, model=repr(model), **d)
        return
    for how in ('constructor', 'assignment'):
        try:
            if how == 'constructor':
                mc = make(sys_, **{slot: model})
            else:
                mc = make(sys_)
                setattr(mc, slot, model)
        except Exception as e:      # noqa
            ctx.fail(f'{key}:rejected', repr(e)[:200], slot=slot, model=repr(model), want=want, how=how, **d)
            continue
        got = getattr(mc, slot)
        ctx.expect(got == getattr(mc, table[want]), key + ':selected', got=getattr(got, '__name__', repr(got)), want=table[want],
                   slot=slot, model=repr(model), how=how, **d)


def variants(name):
    return (name, name.upper(), name.title(), name.swapcase())


def near(name):
    """Strings that are not that name."""
    out = {'', ' ', name + ' ', ' ' + name, name + 's', name[1:], name[:-1], name[:2], name[-2:], name[0], name.replace('_', ''),
           name.replace('_', ' '), name * 2, 'x' + name, 'none', 'None', 'singlediode', 'unknown'}
    return sorted(out)


NOT_MODELS = (5, 0, 1.5, [], {}, object(), True)


def names(ctx, sys_, slot, table, extra=()):
    for n in table:
        for v in variants(n):
            check(ctx, sys_, slot, v, n, table, 'name')
    for n in set(itertools.chain.from_iterable(near(n) for n in table)) | set(extra):
        if n.lower() not in table:
            check(ctx, sys_, slot, n, None, table, 'near-name')
    for bad in NOT_MODELS:
        check(ctx, sys_, slot, bad, None, table, 'not-a-model')
    for how in ('constructor', 'assignment'):
        called = []
        mc = make(sys_, **({slot: called.append} if how == 'constructor' else {}))
        if how != 'constructor':
            setattr(mc, slot, called.append)
        getattr(mc, slot)()
        ctx.expect(called == [mc], 'function:' + how, slot=slot)


def infer_dc(keys):
    for m, k in DC_INFER:
        if k <= keys:
            return m if DC_NEED[m] <= keys else None
    return None


@case(CASES)
def dc(ctx):
    fam = list(subsets(DC_FAM))
    sets = [set().union(*(DC_FAM[f] for f in s)) for s in fam]
    for s, keys in zip(fam, sets):
        check(ctx, system([keys]), 'dc_model', None, infer_dc(keys), DC_SLOT, 'dc', families=s)
        for m in DC_NEED:
            check(ctx, system([keys]), 'dc_model', m, m if DC_NEED[m] <= keys else None, DC_SLOT, 'dc:named', families=s)
        check(ctx, system([keys]), 'dc_model', 'singlediode', None, DC_SLOT, 'dc:singlediode', families=s)
        for drop in sorted(keys):
            k2 = keys - {drop}
            check(ctx, system([k2]), 'dc_model', None, infer_dc(k2), DC_SLOT, 'dc:partial', families=s, without=drop)
    for (i, a), (j, b) in itertools.product(enumerate(sets), repeat=2):
        if not ctx.thorough and (i + j) % 3 == 0 and i > 8 and j > 8:
            continue
        c = a & b
        check(ctx, system([a, b]), 'dc_model', None, infer_dc(c), DC_SLOT, 'dc:arrays', first=fam[i], second=fam[j])
        for m in DC_NEED if ctx.thorough else ('cec', 'pvwatts'):
            check(ctx, system([a, b]), 'dc_model', m, m if DC_NEED[m] <= c else None, DC_SLOT, 'dc:arrays-named',
                  first=fam[i], second=fam[j])
    names(ctx, system([set().union(*DC_FAM.values())]), 'dc_model', DC_SLOT, ('pvwatts_dc', 'sandia', 'dc'))
    ctx.outcome('ok')


def first(fams, keys):
    return next((m for m, k in fams.items() if k <= keys), None)


@case(CASES)
def aoi(ctx):
    fam = list(subsets(AOI_FAM))
    sets = [set().union(*(AOI_FAM[f] for f in s)) for s in fam]
    for s, keys in zip(fam, sets):
        check(ctx, system([keys]), 'aoi_model', None, first(AOI_FAM, keys), AOI_SLOT, 'aoi', families=s)
        for m in AOI_SLOT:
            check(ctx, system([keys]), 'aoi_model', m, m, AOI_SLOT, 'aoi:named', families=s)
        for drop in sorted(keys):
            check(ctx, system([keys - {drop}]), 'aoi_model', None, first(AOI_FAM, keys - {drop}), AOI_SLOT, 'aoi:partial', without=drop)
    for (i, a), (j, b) in itertools.product(enumerate(sets), repeat=2):
        check(ctx, system([a, b]), 'aoi_model', None, first(AOI_FAM, a & b), AOI_SLOT, 'aoi:arrays', first=fam[i], second=fam[j])
    names(ctx, system([set()]), 'aoi_model', AOI_SLOT, ('martin-ruiz', 'fresnel', 'no loss', 'interpolate'))


@case(CASES)
def temp(ctx):
    fam = list(subsets(TEMP_FAM))
    sets = [set().union(*(TEMP_FAM[f] for f in s)) for s in fam]
    for s, keys in zip(fam, sets):
        want = first(TEMP_FAM, keys)
        check(ctx, system([()], [keys]), 'temperature_model', None, want, TEMP_SLOT, 'temp', families=s)
        for m in TEMP_FAM:
            for v in (m, m.upper()):
                # an explicit name must agree with the parameters
                if m == want or not TEMP_FAM[m] <= keys:
                    check(ctx, system([()], [keys]), 'temperature_model', v, m if m == want else None, TEMP_SLOT, 'temp:named', families=s)
        for drop in sorted(keys):
            check(ctx, system([()], [keys - {drop}]), 'temperature_model', None, first(TEMP_FAM, keys - {drop}), TEMP_SLOT, 'temp:partial',
                  without=drop)
    for (i, a), (j, b) in itertools.product(enumerate(sets), repeat=2):
        s = system([(), ()], [a, b])
        want = first(TEMP_FAM, a & b)
        check(ctx, s, 'temperature_model', None, want, TEMP_SLOT, 'temp:arrays', first=fam[i], second=fam[j])
        for m in TEMP_FAM:
            if m == want or not TEMP_FAM[m] <= (a & b):
                check(ctx, s, 'temperature_model', m, m if m == want else None, TEMP_SLOT, 'temp:arrays-named', first=fam[i], second=fam[j])
    for m in TEMP_FAM:
        s = system([()], [TEMP_FAM[m]])
        for n in set(itertools.chain.from_iterable(near(k) for k in TEMP_FAM)) | {'faiman_rad', 'ross', 'noct'}:
            if n.lower() not in TEMP_FAM:
                check(ctx, s, 'temperature_model', n, None, TEMP_SLOT, 'temp:near-name')
        for v in variants(m):
            check(ctx, s, 'temperature_model', v, m, TEMP_SLOT, 'temp:case')
        for bad in NOT_MODELS:
            check(ctx, s, 'temperature_model', bad, None, TEMP_SLOT, 'temp:not-a-model')
    for how in ('constructor', 'assignment'):
        called = []
        mc = make(system(), **({'temperature_model': called.append} if how == 'constructor' else {}))
        if how != 'constructor':
            mc.temperature_model = called.append
        mc.temperature_model()
        ctx.expect(called == [mc], 'function:' + how, slot='temperature_model')


@case(CASES)
def ac(ctx):
    for s in subsets(AC_FAM):
        keys = set().union(*(AC_FAM[f] for f in s))
        for n in (1, 2, 3):
            want = first(AC_FAM, keys)
            if want == 'adr' and n > 1:
                want = None
            sy = system([()] * n, None, keys)
            check(ctx, sy, 'ac_model', None, want, AC_SLOT, 'ac', families=s, arrays=n)
            for m in AC_FAM:
                check(ctx, sy, 'ac_model', m, m, AC_SLOT, 'ac:named', families=s, arrays=n)
            for drop in sorted(keys):
                k2 = keys - {drop}
                want = first(AC_FAM, k2)
                check(ctx, system([()] * n, None, k2), 'ac_model', None, None if want == 'adr' and n > 1 else want, AC_SLOT, 'ac:partial',
                      families=s, without=drop, arrays=n)
    names(ctx, system(), 'ac_model', AC_SLOT, ('snlinverter', 'a', 'd', 'r', 'ad', 'dr', 'adrinverter', 'pvwatts_inverter', 'sandia_multi'))


@case(CASES)
def others(ctx):
    """Slots without inference."""
    every = set().union(*DC_FAM.values(), *AOI_FAM.values(), {'first_solar_spectral_coefficients', 'Technology'})
    for keys in (set(), every):
        s = system([keys])
        names(ctx, s, 'spectral_model', SPEC_SLOT, ('firstsolar', 'first solar', 'no loss', 'pvspec', 'caballero'))
        names(ctx, s, 'dc_ohmic_model', OHM_SLOT, ('ohmic', 'percent', 'dc_ohms'))
        names(ctx, s, 'losses_model', LOSS_SLOT, ('pvwatts_losses', 'loss', 'no losses'))
        check(ctx, s, 'spectral_model', None, 'no_loss', SPEC_SLOT, 'spectral-default')
        check(ctx, s, 'dc_ohmic_model', None, None, OHM_SLOT, 'ohmic-none')
        check(ctx, s, 'losses_model', None, None, LOSS_SLOT, 'losses-none')


@case(CASES)
def defaults(ctx):
    """A chain given nothing infers every slot; anything missing is an error."""
    inv = AC_FAM['sandia']
    for d, a, t, i in itertools.product(list(DC_FAM) + [None], list(AOI_FAM) + [None], list(TEMP_FAM) + [None], (inv, {'pdc0'}, set())):
        keys = (DC_FAM[d] if d else set()) | (AOI_FAM[a] if a else set())
        s = system([keys], [TEMP_FAM[t] if t else ()], i)
        ctx.state()
        if None in (infer_dc(keys), first(AOI_FAM, keys), t) or not i:
            ctx.raises(ValueError, lambda: modelchain.ModelChain(s, LOC), 'defaults:accepted', dc=d, aoi=a, temp=t)
            continue
        mc = modelchain.ModelChain(s, LOC)
        want = dict(dc_model=DC_SLOT[infer_dc(keys)], aoi_model=AOI_SLOT[first(AOI_FAM, keys)], temperature_model=TEMP_SLOT[t],
                    ac_model=AC_SLOT[first(AC_FAM, set(i))], spectral_model='no_spectral_loss', dc_ohmic_model='no_dc_ohmic_loss',
                    losses_model='no_extra_losses')
        for k, v in want.items():
            ctx.expect(getattr(mc, k) == getattr(mc, v), 'defaults:' + k, want=v, dc=d, aoi=a, temp=t)
        ctx.expect((mc.transposition_model, mc.solar_position_method, mc.airmass_model, mc.clearsky_model) ==
                   ('haydavies', 'nrel_numpy', 'kastenyoung1989', 'ineichen'), 'defaults:names')


@case(CASES)
def shortcuts(ctx):
    """with_pvwatts and with_sapm on systems whose parameters fit every subset of the families name their documented
    models and hand on every other option; explicit options take precedence."""
    base = {'with_pvwatts': ({'dc': 'pvwatts', 'ac': 'pvwatts'}, dict(
                dc_model='pvwatts_dc', ac_model='pvwatts_inverter', losses_model='pvwatts_losses', aoi_model='physical_aoi_loss',
                spectral_model='no_spectral_loss', temperature_model='sapm_temp', dc_ohmic_model='no_dc_ohmic_loss'),
                dict(transposition_model='perez')),
            'with_sapm': ({'dc': 'sapm', 'ac': 'sandia'}, dict(
                dc_model='sapm', ac_model='sandia_inverter', losses_model='no_extra_losses', aoi_model='sapm_aoi_loss',
                spectral_model='sapm_spectral_loss', temperature_model='sapm_temp', dc_ohmic_model='no_dc_ohmic_loss'),
                dict(transposition_model='haydavies'))}
    names = dict(transposition_model='perez', solar_position_method='nrel_numpy', airmass_model='kastenyoung1989', clearsky_model='ineichen', name=None)
    other = dict(transposition_model='isotropic', solar_position_method='ephemeris', airmass_model='simple', clearsky_model='haurwitz', name='chain',
                 dc_model='desoto', ac_model='sandia', losses_model='no_loss', aoi_model='ashrae', spectral_model='first_solar',
                 dc_ohmic_model='dc_ohms_from_percent')
    tables = dict(dc_model=DC_SLOT, ac_model=AC_SLOT, losses_model=LOSS_SLOT, aoi_model=AOI_SLOT, spectral_model=SPEC_SLOT, dc_ohmic_model=OHM_SLOT)
    for how, (need, want, plain) in base.items():
        for fam in subsets([f for f in DC_FAM if f != need['dc']]):
            for aoi, ac_f in itertools.product(((), tuple(AOI_FAM)), subsets([f for f in AC_FAM if f != need['ac']])):
                keys = set().union(*(DC_FAM[f] for f in fam + (need['dc'], 'desoto')), *(AOI_FAM[f] for f in aoi))
                sy = system([keys], [set().union(*TEMP_FAM.values())], set().union(*(AC_FAM[f] for f in ac_f + (need['ac'], 'sandia'))))
                full = len(fam) == 4 and aoi
                for over in [()] + ([(o,) for o in other] + [tuple(other)] + list(itertools.combinations(other, 2)) if full else []):
                    ctx.state((how, fam, aoi, ac_f, over))
                    ctx.step()
                    mc = getattr(modelchain.ModelChain, how)(sy, LOC, **{o: other[o] for o in over})
                    for k, v in want.items():
                        v = tables[k][other[k]] if k in over else v
                        ctx.expect(getattr(mc, k) == getattr(mc, v), f'{how}:{k}', want=v, families=fam, given=over)
                    for k, v in {**names, **plain}.items():
                        v = other[k] if k in over else v
                        ctx.expect(getattr(mc, k) == v, f'{how}:{k}', got=getattr(mc, k), want=v, given=over)
                    ctx.expect(mc.system is sy and mc.location is LOC, f'{how}:parts')


@case(CASES)
def passed_names(ctx):
    """Names handed on to other components are rejected when unknown."""
    from mc.checks import X01
    from mc.ref import chain as H
    cfg = dict(dc='pvwatts', ac='pvwatts', inverter=R.PVW_INV)
    for slot, bad in (('transposition_model', ('', 'perez1990', 'hay', 'unknown')), ('airmass_model', ('', 'kasten', 'unknown')),
                      ('solar_position_method', ('', 'nrel', 'spa', 'unknown'))):
        for b in bad:
            ctx.state()
            mc = quiet(H.chain_object, H.specs_for(cfg, 1), X01.SITE, cfg)
            setattr(mc, slot, b)
            ctx.raises((ValueError, TypeError), lambda: quiet(mc.run_model, X01.W), 'unknown:' + slot, name=b)


@case(CASES)
def orientation(ctx):
    """Deprecated helper get_orientation keeps its two strategies."""
    for lat in (-35., 0., 40.):
        ctx.expect(quiet(modelchain.get_orientation, 'south_at_latitude_tilt', latitude=lat) == (lat, 180), 'orientation')
        ctx.expect(quiet(modelchain.get_orientation, 'flat', latitude=lat) == (0, 180), 'orientation')
    for bad in ('', 'south', 'FLAT', None):
        ctx.raises(ValueError, lambda: quiet(modelchain.get_orientation, bad, latitude=3), 'orientation:unknown')
