"""All histories of runs on one chain object: every ordered pair from a fresh
chain, then every window of two (thorough: three) operations inside one long
history (De Bruijn word), over entry points, data layouts, indexes, model
reassignments, completion and rejected runs; each completed run is compared
bit by bit with a fresh chain given the same data."""
import itertools
import math

import numpy as np
import pandas as pd

from mc.core import case, quiet, same_value, deepcopy
from mc.ref import pvsys as R, chain as H
from mc.checks import X01
from mc.checks.W01 import word_sequence

TECHNIQUE = ('explicit-state bounded model checking: exhaustive enumeration of run histories on the real chain against '
             'a fresh chain')
CASES = []
nan = math.nan
SITE = X01.SITE
FIELDS = ('times', 'weather', 'solar_position', 'airmass', 'albedo', 'total_irrad', 'aoi', 'aoi_modifier', 'spectral_modifier',
          'effective_irradiance', 'cell_temperature', 'diode_params', 'dc', 'dc_ohmic_losses', 'losses', 'ac', 'tracking')
IDX2 = pd.DatetimeIndex(['2024-07-01 09:00', '2024-07-01 12:00', '2024-07-01 16:30'], tz='Etc/GMT+7')


def snap(res):
    return {f: deepcopy(getattr(res, f)) for f in FIELDS}


def other(entry, n):
    """Different data on a different index."""
    out = []
    for d in X01.data_for(entry, n):
        e = d.iloc[[1, 3, 4]] * 1.02
        e.index = IDX2
        out.append(e.drop(columns=[c for c in ('albedo', 'pressure') if c in e]))
    return out


def ops_for(n):
    """name -> (method, data builder, None or exception types)"""
    ops = {}
    lay = (lambda d: d[0]) if n == 1 else tuple
    for e, m in X01.RUN.items():
        ops[e] = (m, lambda e=e: lay(X01.data_for(e, n)), None)
        ops[e + '/other'] = (m, lambda e=e: lay(other(e, n)), None)
        ops[e + '/list'] = (m, lambda e=e: list(X01.data_for(e, n)), None)
        ops[e + '/tcell'] = (m, lambda e=e: lay(X01.data_for(e, n, ('cell_temperature',))), None)
        need = {'weather': 'dni', 'poa': 'poa_direct', 'eff': 'effective_irradiance'}[e]
        ops[e + '!missing'] = (m, lambda e=e, need=need: lay([d.drop(columns=[need]) for d in other(e, n)]), ValueError)
        ops[e + '!count'] = (m, lambda e=e: tuple(other(e, n + 1)), ValueError)
    ops['weather/shared'] = ('run_model', lambda: X01.data_for('weather', 1)[0], None)
    ops['eff/nopoa'] = (X01.RUN['eff'], lambda: lay([d.drop(columns='poa_global') for d in X01.data_for('eff', n)]), None)
    ops['complete'] = ('complete_irradiance', lambda: lay([d.drop(columns='ghi') for d in X01.data_for('weather', n)]), None)
    ops['complete/list'] = ('complete_irradiance', lambda: [d.drop(columns='dhi') for d in other('weather', n)], None)
    if n == 2:
        ops['poa!bare'] = (X01.RUN['poa'], lambda: X01.P, TypeError)
        ops['complete!bare'] = ('complete_irradiance', lambda: X01.W, TypeError)
        ops['weather!index'] = ('run_model', lambda: (X01.W, other('weather', 1)[0]), ValueError)
    return ops


CONFIGS = {
    'pvwatts': dict(dc='pvwatts', ac='pvwatts', inverter=R.PVW_INV, losses='pvwatts', spectral='sapm', aoi='ashrae'),
    'cec': dict(dc='cec', ac='sandia', inverter=R.SNL_INV, ohmic='dc_ohms_from_percent', temp='noct_sam', losses='pvwatts',
                transposition='perez'),
    'sapm': dict(dc='sapm', ac='adr', inverter=R.ADR_INV, aoi='sapm', spectral='first_solar', temp='pvsyst'),
}


class Fresh:
    """Result of every operation on a fresh chain (computed once)."""

    def __init__(self, cfg, n):
        self.cfg, self.n = cfg, n
        self.specs = H.specs_for(cfg, n, (2, 0, 1)[:n])
        self.ops = ops_for(n)
        self.memo = {}

    def chain(self):
        return quiet(H.chain_object, self.specs, SITE, self.cfg)

    def result(self, op, conf=()):
        if (op, conf) not in self.memo:
            mc = self.chain()
            for k, v in conf:
                setattr(mc, k, v)
            m, data, exc = self.ops[op]
            quiet(getattr(mc, m), data())
            self.memo[op, conf] = snap(mc.results)
        return self.memo[op, conf]


def perform(ctx, fr, mc, op, hist, conf=()):
    m, build, exc = fr.ops[op]
    data = build()
    keep = deepcopy(data)
    sysb = [deepcopy(vars(a)) for a in mc.system.arrays]
    ctx.step()
    try:
        quiet(getattr(mc, m), data)
        err = None
    except Exception as e:      # noqa
        err = e
    d = dict(history=hist, conf=str(conf), arrays=fr.n)
    ctx.expect(same_value(data, keep), 'mutates-data:' + op, **d)
    ctx.expect(all(same_value(vars(a), b) for a, b in zip(mc.system.arrays, sysb)), 'mutates-system:' + op, **d)
    if exc is not None:
        if err is None:
            ctx.fail('accepted:' + op, 'data violating the contract were accepted', **d)
        elif not isinstance(err, exc):
            ctx.fail(f'rejected-with:{op}', repr(err)[:200], **d)
        return
    if err is not None:
        ctx.fail(f'failed:{op}:{type(err).__name__}', repr(err)[:200], **d)
        return
    exp = fr.result(op, conf)
    for f in FIELDS:
        if not same_value(getattr(mc.results, f), exp[f]):
            ctx.fail(f'history:{f}', f'{op}: differs from a fresh chain', field=f, **d)
    return data


def _pairs(cname, n):
    @case(CASES, name=f'pairs_{cname}_{n}')
    def f(ctx):
        fr = Fresh(CONFIGS[cname], n)
        for seq in itertools.product(fr.ops, repeat=2):
            mc = fr.chain()
            for i, op in enumerate(seq):
                perform(ctx, fr, mc, op, list(seq[:i + 1]))
            ctx.state()
        ctx.sample(dict(config=cname, arrays=n, history=list(seq)))
        ctx.outcome('ok')


def _long(cname, n):
    @case(CASES, name=f'words_{cname}_{n}')
    def f(ctx):
        fr = Fresh(CONFIGS[cname], n)
        ops = list(fr.ops)
        mc = fr.chain()
        k = 3 if ctx.thorough else 2
        word = word_sequence(len(ops), k)
        hist = []
        for w in word:
            hist.append(ops[w])
            ctx.state()
            perform(ctx, fr, mc, ops[w], hist[-4:])
        ctx.sample(dict(config=cname, arrays=n, length=len(word)))


_pairs('pvwatts', 1)
_pairs('pvwatts', 2)
_pairs('sapm', 1)
_long('pvwatts', 1)
_long('pvwatts', 2)
_long('cec', 1)
_long('cec', 2)
_long('sapm', 1)


@case(CASES)
def reassign(ctx):
    """Runs interleaved with model reassignment: all sequences of three."""
    fr = Fresh(CONFIGS['pvwatts'], 1)
    sets = [('aoi_model', 'physical'), ('aoi_model', 'no_loss'), ('spectral_model', 'no_loss'), ('losses_model', 'no_loss'),
            ('transposition_model', 'perez'), ('airmass_model', 'simple'), ('dc_model', 'sapm')]
    runs = ['weather', 'poa/list', 'eff/other', 'complete', 'weather!missing']
    words = list(itertools.product(runs, sets, runs)) + list(itertools.product(sets, runs, sets, runs[:3])) if ctx.thorough else \
        list(itertools.product(runs, sets, runs))
    for seq in words:
        mc = fr.chain()
        conf = {}
        for i, x in enumerate(seq):
            if isinstance(x, tuple):
                setattr(mc, *x)
                conf[x[0]] = x[1]
            else:
                perform(ctx, fr, mc, x, str(seq[:i + 1]), tuple(sorted(conf.items())))
        ctx.state()


@case(CASES)
def repeat(ctx):
    """The same call three times, and the caller editing its data afterwards."""
    for cname, n in itertools.product(CONFIGS, (1, 2)):
        if cname == 'sapm' and n == 2:
            continue
        fr = Fresh(CONFIGS[cname], n)
        for op, (m, build, exc) in fr.ops.items():
            if exc:
                continue
            mc = fr.chain()
            for k in range(3):
                data = perform(ctx, fr, mc, op, [op] * (k + 1))
            ctx.state()
            if data is None:
                continue
            for d in ([data] if isinstance(data, pd.DataFrame) else data):
                d.iloc[:, :] = -5.
                d['extra'] = 1
            exp = fr.result(op)
            for f in FIELDS:
                ctx.expect(same_value(getattr(mc.results, f), exp[f]), 'aliases-data:' + f, op=op, arrays=n)


@case(CASES)
def rejected(ctx):
    """Every violation of the input contract, for each entry point and count."""
    cols = {'weather': ('ghi', 'dni', 'dhi'), 'poa': ('poa_global', 'poa_direct', 'poa_diffuse'), 'eff': ('effective_irradiance',)}
    for n in (1, 2, 3):
        fr = Fresh(CONFIGS['pvwatts'], n)
        mc = fr.chain()
        for e, m in X01.RUN.items():
            f = getattr(mc, m)

            def bad(data, exc, why):
                ctx.state()
                keep = deepcopy(data)
                ctx.raises(exc, lambda: f(data), 'reject:' + why, entry=e, arrays=n)
                ctx.expect(same_value(data, keep), 'reject:mutates')
            for k in range(1, len(cols[e]) + 1):
                for drop in itertools.combinations(cols[e], k):
                    full = X01.data_for(e, n)
                    for pos in range(n):
                        d = [x.drop(columns=list(drop)) if i == pos else x for i, x in enumerate(full)]
                        bad(tuple(d), ValueError, 'columns')
                        bad(d, ValueError, 'columns')
                    if n == 1:
                        bad(d[0], ValueError, 'columns')
            for k in range(0, 5):
                if k != n:
                    bad(tuple(X01.data_for(e, k)), ValueError, 'count')
                    bad(list(X01.data_for(e, k)), ValueError, 'count')
            if n > 1:
                if e != 'weather':
                    bad(X01.data_for(e, 1)[0], TypeError, 'bare')
                for pos in range(n):
                    for name, alt in (('shift', lambda x: x.set_axis(x.index + pd.Timedelta('1min'))), ('short', lambda x: x.iloc[:-1]),
                                      ('order', lambda x: x.iloc[::-1]), ('naive', lambda x: x.set_axis(x.index.tz_localize(None)))):
                        full = X01.data_for(e, n)
                        full[pos] = alt(full[pos])
                        bad(tuple(full), ValueError, 'index-' + name)
        if n > 1:
            for k in range(0, 5):
                if k != n:
                    ctx.raises(ValueError, lambda: mc.complete_irradiance(tuple(X01.data_for('weather', k))), 'reject:count')
            ctx.raises(TypeError, lambda: mc.complete_irradiance(X01.W), 'reject:bare')
