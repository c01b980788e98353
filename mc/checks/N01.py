"""Lattice of DC voltage x DC power x inverter parameters (and every bundled
inverter) x input form, combinations of inverter inputs, synthetic-measurement
fits over permutations of the data, transformer loading; oracle: scalar
equations, limits and the loss balance."""
import itertools
import math

import numpy as np
import pandas as pd

from mc.core import case, lattice, quiet, dt_index, same_value
from pvlib import inverter, pvsystem, transformer

CASES = []
nan = math.nan
F = ('array', 'series', 'scalar', 'int', 'mixed', 'len1', 'array2d')
S1 = dict(Paco=250., Pdco=259.588593, Vdco=40., Pso=2.089607, C0=-4.1e-5, C1=-9.1e-5, C2=4.94e-4, C3=-.013171, Pnt=.075)
S2 = dict(Paco=5000., Pdco=5160., Vdco=400., Pso=30., C0=-3e-6, C1=2e-5, C2=1e-3, C3=-8e-4, Pnt=-1.2)
S3 = dict(S1, Pnt=0., C1=0., C2=0., C3=0.)


def eff(v, p, m):
    dv = v - m['Vdco']
    a, b, c = m['Pdco'] * (1 + m['C1'] * dv), m['Pso'] * (1 + m['C2'] * dv), m['C0'] * (1 + m['C3'] * dv)
    return (m['Paco'] / (a - b) - c * (a - b)) * (p - b) + c * (p - b) ** 2


def limit(ac, p, m):
    if p < m['Pso']:
        return -abs(m['Pnt'])
    if ac != ac:
        return nan
    return min(m['Paco'], ac)


def sandia(v, p, m):
    return limit(eff(v, p, m), p, m)


@case(CASES)
def sandia_model(ctx):
    for nm, m in (('a', S1), ('b', S2), ('c', S3)):
        V = [m['Vdco'] * u for u in ctx.pick([.6, .95, 1, 1.2], [.5, .6, .7, .8, .9, .95, 1, 1.05, 1.1, 1.2, 1.4])]
        P = [0, 1, m['Pso'] * .999, m['Pso'], m['Pso'] * 1.001, 3, m['Pdco'] * .1, 100, m['Pdco'] * .5, m['Pdco'] * .97, m['Pdco'],
             m['Pdco'] * 1.01, m['Pdco'] * 1.5] + ctx.pick([], [m['Pdco'] * k / 40 for k in range(45)])
        for mod in (m, pd.Series(m)):
            lattice(ctx, f'sandia {nm} {type(mod).__name__}', lambda **k: inverter.sandia(**k, inverter=mod),
                    lambda v_dc, p_dc: sandia(v_dc, p_dc, m), dict(v_dc=V + [40], p_dc=P), forms=F, rtol=1e-9, atol=1e-9,
                    nan=['p_dc'])
        v, p = (x.ravel() for x in np.meshgrid(V, P))
        r = quiet(inverter.sandia, v, p, m)
        ctx.step(len(p))
        ctx.expect(bool((r <= m['Paco'] + 1e-9).all()), f'sandia rating {nm}')
        ctx.expect(bool((r <= np.maximum(p, 0) + 1e-9).all()), f'sandia creates power {nm}')
        ctx.expect(bool((r[p < m['Pso']] == -abs(m['Pnt'])).all()), f'sandia night {nm}')
        ctx.close(quiet(inverter.sandia, m['Vdco'], m['Pdco'], m), m['Paco'], f'sandia rated point {nm}')
        ctx.close(quiet(inverter.sandia, pd.Series([m['Vdco'], m['Vdco'] * .9]), m['Pdco'] / 2, m),
                  [sandia(m['Vdco'], m['Pdco'] / 2, m), sandia(m['Vdco'] * .9, m['Pdco'] / 2, m)], f'sandia voltage series {nm}')
        r = quiet(inverter.sandia, m['Vdco'], pd.Series([0., 100.], index=dt_index(2)), m)
        ctx.expect(isinstance(r, pd.Series) and r.index.equals(dt_index(2)), f'sandia index {nm}')


@case(CASES)
def sandia_database(ctx):
    for name in ('cecinverter', 'sandiainverter'):
        try:
            db = pvsystem.retrieve_sam(name)
        except FileNotFoundError:
            ctx.state((name, 'absent'))
            continue
        for n in list(db)[::ctx.pick(12, 1)]:
            m = {k: db[n][k] for k in ('Paco', 'Pdco', 'Vdco', 'Pso', 'C0', 'C1', 'C2', 'C3', 'Pnt')}
            v = np.array([m['Vdco']] * 6 + [m['Vdco'] * .9] * 3)
            p = np.array([0., m['Pso'] * .5, m['Pdco'] * .1, m['Pdco'] * .5, m['Pdco'], m['Pdco'] * 1.2, 0., m['Pdco'] * .3, m['Pdco']])
            ctx.state((name, n))
            ctx.step(len(p))
            ctx.close(quiet(inverter.sandia, v, p, db[n]), [sandia(a, b, m) for a, b in zip(v, p)], 'sandia database', rtol=1e-9,
                      atol=1e-9, entry=n)


@case(CASES)
def sandia_multi(ctx):
    """Every tuple of up to three inputs from a power and voltage set."""
    def ref(v, p, m):
        tot = sum(p)
        if tot < m['Pso']:
            return -abs(m['Pnt'])
        return limit(sum(pi / tot * eff(vi, tot, m) for vi, pi in zip(v, p)), tot, m)
    for nm, m in (('a', S1), ('b', S2)):
        V = [m['Vdco'] * u for u in (.8, 1., 1.15)]
        P = [0., m['Pso'] * .5, m['Pdco'] * .2, m['Pdco'] * .6] + ([m['Pdco'], m['Pdco'] * .4] if ctx.thorough else [])
        for k in (1, 2, 3):
            cells = list(itertools.product(itertools.product(V, repeat=k), itertools.product(P, repeat=k)))
            if k == 3 and not ctx.thorough:
                cells = [c for c in cells if len(set(c[0])) >= 2 or c[0][0] == V[0]]
            exp = [ref(v, p, m) for v, p in cells]
            vs = [np.array([c[0][i] for c in cells]) for i in range(k)]
            pw = [np.array([c[1][i] for c in cells]) for i in range(k)]
            ctx.state(n=len(cells))
            idx = dt_index(len(cells))
            for form in ('tuple', 'list', 'array', 'series', 'int'):
                if form == 'array':
                    a, b = np.array(vs), np.array(pw)
                elif form == 'series':
                    a, b = tuple(pd.Series(x, index=idx) for x in vs), tuple(pd.Series(x, index=idx) for x in pw)
                elif form == 'int':
                    a, b = [x.astype(int) for x in vs], [x.astype(int) for x in pw]
                else:
                    a, b = (tuple(vs), tuple(pw)) if form == 'tuple' else (list(vs), list(pw))
                e = exp if form != 'int' else [ref([int(x) for x in v], [int(x) for x in p], m) for v, p in cells]
                before = [x.copy() for x in b]
                r = quiet(inverter.sandia_multi, a, b, m)
                ctx.step(len(cells))
                ctx.close(np.asarray(r), e, f'sandia_multi {nm} {k} {form}', rtol=1e-9, atol=1e-9)
                ctx.expect(all(same_value(x, y) for x, y in zip(b, before)), f'sandia_multi changed its input {form}')
                if form == 'series':
                    ctx.expect(isinstance(r, pd.Series) and r.index.equals(idx), f'sandia_multi index {k}')
            for v, p in cells[::7]:
                ctx.step()
                try:
                    r = quiet(inverter.sandia_multi, v, p, m)
                except Exception as ex:
                    ctx.fail('sandia_multi scalar raised', f'{type(ex).__name__}: {ex}', v=v, p=p)
                    continue
                ctx.close(r, ref(v, p, m), f'sandia_multi scalar {k}', rtol=1e-9, atol=1e-9)
                if k == 1:
                    ctx.close(r, quiet(inverter.sandia, v[0], p[0], m), 'sandia_multi one input', rtol=1e-9, atol=1e-9)
                if len(set(v)) == 1:
                    ctx.close(r, quiet(inverter.sandia, v[0], sum(p), m), 'sandia_multi equal voltages', rtol=1e-9, atol=1e-9)
    x = quiet(inverter.sandia_multi, (40., 40.), (nan, 100.), S1)
    ctx.expect(np.isnan(x), 'sandia_multi missing', repr(x))
    ctx.raises(ValueError, lambda: inverter.sandia_multi((40.,), (1., 2.), S1), 'sandia_multi length')
    ctx.raises(ValueError, lambda: inverter.sandia_multi((40., 30., 20.), (1., 2.), S1), 'sandia_multi length 2')


AD = dict(Pnom=2000., Vnom=635., Vmin=315., Vmax=800., Vdcmax=1000., MPPTHi=900., MPPTLow=335., Pacmax=1980., Pnt=.5,
          ADRCoefficients=[0.01385, 0.0152, 0.00794, 0.00286, -0.01872, -0.01305, .001, -.002, .0015])


def adr(v, p, m, vtol=.1):
    hi = np.nanmax([m['Vmax'], m['Vdcmax'], m['MPPTHi']]) * (1 + vtol)
    lo = np.nanmax([m['Vmin'], m['MPPTLow']]) * (1 - vtol)
    nt = -abs(m['Pnt'])
    if v == 0:
        return nt
    if v > hi or v < lo:
        return nan
    x, y = p / m['Pnom'], v / m['Vnom']
    c = m['ADRCoefficients']
    loss = sum(c[3 * j + i] * x ** i * (1, y - 1, 1 / y - 1)[j] for j in range(3) for i in range(3))
    ac = m['Pnom'] * (x - loss)
    if ac != ac:
        return nan
    return min(max(ac, nt), m['Pacmax'])


@case(CASES)
def adr_model(ctx):
    for nm, ch in (('base', {}), ('negative night', dict(Pnt=-.7)), ('no vdcmax', dict(Vdcmax=nan)), ('no mppt', dict(MPPTHi=nan, MPPTLow=nan)),
                   ('low mppt', dict(MPPTLow=200., MPPTHi=700., Vdcmax=500.)), ('no vmin', dict(Vmin=nan)), ('series', None)):
        m = dict(AD, **(ch or {}))
        mod = pd.Series(m) if ch is None else m
        for vt in (None, 0., .2):
            t = .1 if vt is None else vt
            hi = np.nanmax([m['Vmax'], m['Vdcmax'], m['MPPTHi']]) * (1 + t)
            lo = np.nanmax([m['Vmin'], m['MPPTLow']]) * (1 - t)
            V = [0, lo * .99, lo * 1.001, 400, 635, hi * .999, hi * 1.01, 2000]
            P = [0, .1, 10, 250, 1000, 1950, 2000, 2500] + ctx.pick([], list(range(50, 2500, 50)))
            lattice(ctx, f'adr {nm} {vt}', lambda **k: inverter.adr(**k, inverter=mod, **({} if vt is None else dict(vtol=vt))),
                    lambda v_dc, p_dc: adr(v_dc, p_dc, m, t), dict(v_dc=V, p_dc=P), forms=tuple(f for f in F if f != 'array2d'),
                    rtol=1e-9, atol=1e-9, nan=False)
            v, p = (x.ravel() for x in np.meshgrid(V, P))
            r = quiet(inverter.adr, v, p, m, t)
            ok = ~np.isnan(r)
            ctx.step(len(p))
            ctx.expect(bool((r[ok] <= m['Pacmax']).all() and (r[ok] >= -abs(m['Pnt'])).all()), f'adr limits {nm}')
            ctx.expect(bool((r[ok] <= np.maximum(p[ok], 0) + 1e-9).all()), f'adr creates power {nm}')
        # exactly at the limits (zero tolerance) the voltage is accepted
        hi, lo = np.nanmax([m['Vmax'], m['Vdcmax'], m['MPPTHi']]), np.nanmax([m['Vmin'], m['MPPTLow']])
        for v in (hi, lo):
            ctx.expect(np.isfinite(quiet(inverter.adr, v, 500., m, 0.)), f'adr inclusive limit {nm}', v=v)
    ctx.expect(np.isnan(inverter.adr(600., nan, AD)) and np.isnan(inverter.adr(nan, 100., AD)), 'adr missing')
    r = quiet(inverter.adr, pd.Series([0., 600.], index=dt_index(2)), pd.Series([0., 500.], index=dt_index(2)), AD)
    ctx.expect(isinstance(r, pd.Series) and r.index.equals(dt_index(2)), 'adr index')


@case(CASES)
def adr_database(ctx):
    try:
        db = pvsystem.retrieve_sam('adrinverter')
    except FileNotFoundError:
        ctx.state('absent')
        return
    for n in list(db)[::ctx.pick(12, 1)]:
        m = db[n].to_dict()
        if not m['Vnom'] > 0:          # placeholder entry without ratings
            continue
        v = np.array([m['Vnom']] * 5 + [0., m['Vnom'] * .95, m['Vnom'] * 5])
        p = np.array([0., .1, .5, 1., 1.2, 0., .7, .5]) * m['Pnom']
        ctx.state(n)
        ctx.step(8)
        ctx.close(quiet(inverter.adr, v, p, db[n]), [adr(a, b, m) for a, b in zip(v, p)], 'adr database', entry=n)


def pvw(p, pdc0, nom=.96, rf=.9637):
    if p == 0:
        return 0.
    z = p / pdc0
    ac = nom / rf * (-.0162 * z - .0059 / z + .9858) * p
    return nan if ac != ac else max(0., min(nom * pdc0, ac))


@case(CASES)
def pvwatts(ctx):
    for extra in ({}, dict(eta_inv_nom=.95), dict(eta_inv_ref=.95), dict(eta_inv_nom=.98, eta_inv_ref=.97)):
        cfg = (extra.get('eta_inv_nom', .96), extra.get('eta_inv_ref', .9637))
        lattice(ctx, f'pvwatts {extra}', lambda **k: inverter.pvwatts(**k, **extra), lambda pdc, pdc0: pvw(pdc, pdc0, *cfg),
                dict(pdc=[0, .1, .5, 1, 20, 50, 99, 100, 101, 130, 4000] + ctx.pick([], list(range(2, 140, 2))), pdc0=[100, 3000.5]), forms=F)
    for n in (1, 2, 3):
        for ps in itertools.product([0., 1., 40., 90.], repeat=n):
            ctx.state(ps)
            for mk in (tuple, list, np.array, lambda t: tuple(np.array([x]) for x in t),
                       lambda t: tuple(pd.Series([x], index=dt_index(1)) for x in t), lambda t: [int(x) for x in t]):
                r = quiet(inverter.pvwatts_multi, mk(ps), 100.)
                ctx.step()
                ctx.close(np.asarray(r, float).reshape(-1), [pvw(sum(ps), 100.)], f'pvwatts_multi {n}')
            r = quiet(inverter.pvwatts_multi, ps, 110., .95, .96)
            ctx.close(r, pvw(sum(ps), 110., .95, .96), f'pvwatts_multi parameters {n}')


@case(CASES)
def fit_sandia(ctx):
    """Exact recovery from noise-free data, for all level orders and input kinds."""
    for nm, m in (('a', S1), ('b', S2), ('d', dict(S2, C1=-3e-5, C2=-5e-4, C3=1e-3))):
        lv = dict(Vmin=m['Vdco'] * .8, Vnom=m['Vdco'], Vmax=m['Vdco'] * 1.25)
        # at 80 % voltage the curve is a parabola in power; the rating applies beyond its crossing
        u = np.array([.1, .2, .3, .5, .75, .9])
        for order in itertools.permutations(lv):
            p = np.concatenate([u * m['Pdco'] for _ in order])
            v = np.concatenate([np.full(len(u), lv[k]) for k in order])
            lab = np.concatenate([np.full(len(u), k) for k in order])
            if order[0] == 'Vnom':           # interleave the levels
                j = np.argsort(np.arange(len(p)) % len(u), kind='stable')
                p, v, lab = p[j], v[j], lab[j]
            ac = np.array([eff(a, b, m) for a, b in zip(v, p)])
            for form in ('array', 'series', 'frame'):
                idx = dt_index(len(p))
                cols = [ac, p, v, lab]
                if form == 'series':
                    cols = [pd.Series(c, index=idx) for c in cols]
                elif form == 'frame':
                    df = pd.DataFrame(dict(ac=ac, p=p, v=v, lab=lab), index=np.arange(len(p))[::-1] + 100)
                    cols = [df.ac, df.p, df.v, df.lab]
                ctx.state((nm, order, form))
                ctx.step()
                r = quiet(inverter.fit_sandia, *cols, m['Paco'], m['Pnt'])
                ctx.expect(set(r) == set(m), 'fit_sandia keys', str(list(r)))
                for k in m:
                    ctx.close(r[k], m[k], f'fit_sandia {k} {form}', rtol=2e-5, atol=1e-12, order=order, model=nm)
                # and the fitted model predicts the data
                ctx.close(quiet(inverter.sandia, v, p, {k: float(x) for k, x in r.items()}), [sandia(a, b, m) for a, b in zip(v, p)],
                          f'fit_sandia prediction {form}', rtol=1e-6, atol=1e-6)


@case(CASES)
def fit_sandia_measured(ctx):
    """Measurements that no model describes exactly: the published regression steps."""
    labels = ('Vmin', 'Vnom', 'Vmax')
    for (ka, kb, kc), (noise, dv) in itertools.product(
            ((1., 1., 1.), (.6, 1., 1.3), (1.5, 1., 1.5), (.8, 1.2, .9)), ((0., 0.), (.4, 0.), (.4, 3.), (2., 10.))):
        for m in (S1, S2):
            P, V = m['Pdco'], m['Vdco']
            ac, p, v, lab = [], [], [], []
            for j, (k, f) in enumerate(zip((ka, kb, kc), (.8, 1., 1.25))):
                for i, u in enumerate((.1, .2, .3, .5, .75, .9, 1.)):
                    w = V * f + dv * ((i * 5 + j) % 7 - 3)
                    p.append(u * P), v.append(w), lab.append(labels[j])
                    ac.append(eff(V, u * P, dict(m, C0=m['C0'] * k)) * (1 - .002 * j) + noise * ((i * 3 + j * 2) % 5 - 2))
            ac, p, v, lab = map(np.array, (ac, p, v, lab))
            ctx.state((ka, kb, kc, noise, dv, P))
            ctx.step()
            r = quiet(inverter.fit_sandia, ac, p, v, lab, m['Paco'], m['Pnt'])
            vd = np.array([v[lab == k].mean() for k in labels])
            q = [np.polyfit(p[lab == k], ac[lab == k], 2) for k in labels]
            def root(a, b, c):
                return (-b + math.sqrt(b * b - 4 * a * c)) / (2 * a)
            e = {}
            for key, slope, ys in (('Pdco', 'C1', [root(a, b, c - m['Paco']) for a, b, c in q]), ('Pso', 'C2', [root(*x) for x in q]),
                                   ('C0', 'C3', [x[0] for x in q])):
                b1, b0 = np.polyfit(vd - vd[1], ys, 1)
                e[key], e[slope] = b0, b1 / b0
            e.update(Paco=m['Paco'], Pnt=m['Pnt'], Vdco=vd[1])
            ctx.expect(set(r) == set(e), 'fit_sandia measured keys')
            for k in e:
                ctx.close(float(r[k]), e[k], f'fit_sandia measured {k}', rtol=1e-5, atol=1e-12, noise=noise, scale=(ka, kb, kc))


@case(CASES)
def simple_transformer(ctx):
    def ref(input_power, no_load_loss, load_loss, transformer_rating):
        x = input_power / transformer_rating - no_load_loss
        if load_loss == 0:
            return x * transformer_rating
        return transformer_rating * (-1 + math.sqrt(1 + 4 * load_loss * x)) / (2 * load_loss)
    ax = dict(input_power=[0, 1, 25, 100, 180.5, 500] + ctx.pick([], list(range(2, 200, 3))), no_load_loss=[0, .005, .01, .05],
              load_loss=[0, 1e-3, .02, .1], transformer_rating=[100, 750])
    lattice(ctx, 'simple_efficiency', transformer.simple_efficiency, ref, ax, forms=F, rtol=1e-9, atol=1e-8, nan=True)
    g = [np.array(c, float) for c in zip(*itertools.product(*ax.values()))]
    out = quiet(transformer.simple_efficiency, *g)
    ctx.step(len(out))
    u = out / g[3]
    ctx.close(u + g[1] + g[2] * u * u, g[0] / g[3], 'transformer loss balance', rtol=1e-9, atol=1e-9)
    ctx.expect(bool((out <= g[0] + 1e-9).all()), 'transformer output above its input')
