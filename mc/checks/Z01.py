"""All option combinations of the deprecation decorators x all kinds of
decorated object x all call forms and call histories, run on the real
decorators and compared with a plain undecorated twin; then every deprecated
name, parameter and option of the package in every call form against its
replacement; then every model of the registry and whole model-chain runs with
deprecation warnings turned into failures."""
import copy
import inspect
import io
import itertools
import warnings

import numpy as np
import pandas as pd

from mc.core import case, same_value
from mc.ref import registry as G
from pvlib import _deprecation as D

TECHNIQUE = ('explicit-state bounded model checking: exhaustive enumeration of decorator options, object kinds, call forms '
             'and call histories on the real decorators against undecorated twins')
CASES = []
HERE = __file__.replace('.pyc', '.py')


def record(fn):
    """(outcome, value, warnings): run fn recording every warning."""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            r = ('ok', fn())
        except Exception as e:    # noqa
            r = ('err', (type(e).__name__, str(e)))
    return r[0], r[1], w


def dep(w):
    return [x for x in w if issubclass(x.category, D.pvlibDeprecationWarning)]


MSG = ('', 'custom text about %(name)s')
NAME = ('', 'pkg.shown')
ALT = ('', 'pkg.other')
ADD = ('', 'More words.')
REM = ('', '2.5', None, False)
OPTIONS = [dict(message=m, name=n, alternative=a, pending=p, addendum=d, removal=r)
           for m, n, a, p, d, r in itertools.product(MSG, NAME, ALT, (False, True), ADD, REM)]


def body(log, tag, *args, **kwargs):
    log.append((tag, args, dict(kwargs)))
    if kwargs.get('fail') or 'boom' in args:
        raise KeyError('inner')
    return (tag, args, kwargs)


# (positional, keyword) call forms
FORMS = [((), {}), ((1,), {}), ((), {'a': 1}), ((1, 2), {}), ((1,), {'b': 2}), ((), {'b': 2, 'a': 1}),
         ((1, 2, 3, 4), {'z': 5}), (('boom',), {}), ((None, []), {'c': None})]


def twins(kind, decorate, log):
    """(call decorated, call plain, decorated object, plain object) for an object kind."""
    if kind == 'function':
        def f(a=0, b=0, *rest, **kw):
            """Doc of f.

            More.
            """
            return body(log, 'f', a, b, *rest, **kw)
        g = decorate(f)
        return (lambda *a, **k: g(*a, **k)), (lambda *a, **k: f(*a, **k)), g, f
    if kind == 'nodoc':
        def f(a=0, b=0, *rest, **kw):
            return body(log, 'f', a, b, *rest, **kw)
        g = decorate(f)
        return (lambda *a, **k: g(*a, **k)), (lambda *a, **k: f(*a, **k)), g, f
    if kind == 'method':
        def m(self, a=0, b=0, *rest, **kw):
            """Doc of m."""
            return body(log, 'm', a, b, *rest, **kw)

        class C:
            plain = m
            old = decorate(m)
        c = C()
        return (lambda *a, **k: c.old(*a, **k)), (lambda *a, **k: c.plain(*a, **k)), C.old, C.plain
    if kind == 'classmethod':
        class B:
            @classmethod
            def plain(cls, a=0, b=0, *rest, **kw):
                """Doc of cm."""
                return body(log, cls.__name__, a, b, *rest, **kw)

        B.old = decorate(B.__dict__['plain'])

        class S(B):
            pass
        return (lambda *a, **k: S.old(*a, **k)), (lambda *a, **k: S.plain(*a, **k)), B.old, B.plain
    if kind in ('class', 'subclass'):
        def make():
            class K:
                """Doc of K."""

                def __init__(self, a=0, b=0, *rest, **kw):
                    self.v = body(log, 'K', a, b, *rest, **kw)
            return K
        P0, K1 = make(), make()
        K2 = decorate(K1)
        if kind == 'subclass':
            class SP(P0):
                def __init__(self, *a, **k):
                    super().__init__(*a, **k)

            class SK(K2):
                def __init__(self, *a, **k):
                    super().__init__(*a, **k)
            return (lambda *a, **k: SK(*a, **k).v), (lambda *a, **k: SP(*a, **k).v), K2, P0
        return (lambda *a, **k: K2(*a, **k).v), (lambda *a, **k: P0(*a, **k).v), K2, P0
    raise ValueError(kind)


KINDS = ('function', 'nodoc', 'method', 'classmethod', 'class', 'subclass')


def expected_message(opt, shown, obj_type, since):
    parts = []
    if opt['message']:
        parts.append('custom text about ' + shown)
    else:
        parts += [shown, obj_type]
        if opt['pending']:
            parts.append('will be deprecated')
        else:
            parts += ['was deprecated', since]
            if opt['removal'] == '':
                parts.append('soon')
            elif opt['removal']:
                parts.append('removed in ' + opt['removal'])
        if opt['alternative']:
            parts.append('Use ' + opt['alternative'])
        if opt['addendum']:
            parts.append(opt['addendum'])
    return parts


@case(CASES)
def decorated(ctx):
    """deprecated(...): every option combination x object kind x call form."""
    for opt in OPTIONS:
        for kind in KINDS:
            log = []
            if opt['pending'] and opt['removal']:
                ctx.raises(ValueError, lambda: twins(kind, D.deprecated('1.5', **opt), log), 'options:pending-removal')
                continue
            st, val, w = record(lambda: twins(kind, D.deprecated('1.5', **opt), log))
            ctx.state()
            ctx.step()
            if not ctx.expect(st == 'ok', 'options:decorate', f'{kind}: {val}', opt=opt):
                continue
            ctx.expect(not w, 'options:decorate-warns', 'decorating warned', opt=opt)
            old, plain, dobj, pobj = val
            name = opt['name'] or (pobj.__name__ if kind not in ('class', 'subclass') else 'K')
            otype = 'class' if kind in ('class', 'subclass') else 'function'
            parts = expected_message(opt, name, otype, '1.5')
            doc = inspect.getdoc(dobj) or ''
            ctx.expect('.. deprecated:: 1.5' in doc, 'doc:directive', f'{kind}: {doc[:80]!r}')
            if inspect.getdoc(pobj) and kind not in ('nodoc',):
                for line in inspect.getdoc(pobj).splitlines():
                    ctx.expect(line.strip() in doc, 'doc:kept', f'{kind}: lost line {line!r}')
            if otype == 'function':
                ctx.expect(dobj.__name__ == pobj.__name__, 'meta:name', f'{kind}: {dobj.__name__}')
                ctx.expect(str(inspect.signature(dobj)) == str(inspect.signature(pobj)), 'meta:signature', kind)
            for a, k in FORMS:
                ctx.state()
                ctx.step(2)
                del log[:]
                a1, k1 = copy.deepcopy(a), copy.deepcopy(k)
                st, v, w = record(lambda: old(*a, **k))
                l1 = list(log)
                del log[:]
                st2, v2, w2 = record(lambda: plain(*a, **k))
                ctx.expect((st, v) == (st2, v2), 'call:result', f'{kind}{a}{k}: {v} instead of {v2}', opt=opt)
                ctx.expect(l1 == log and len(log) == 1, 'call:body', f'{kind}{a}{k}: the body ran {len(l1)} times')
                ctx.expect(a == a1 and k == k1, 'call:args-changed', f'{kind}{a}{k}')
                ctx.expect(len(w) == 1, 'call:one-warning', f'{kind}{a}{k}: {len(w)} warnings', opt=opt)
                ctx.expect(not w2, 'call:plain-warns', f'{kind}: the original object warns')
                for x in w[:1]:
                    cat = PendingDeprecationWarning if opt['pending'] else D.pvlibDeprecationWarning
                    ctx.expect(x.category is cat, 'call:category', f'{kind}: {x.category}', opt=opt)
                    for part in parts:
                        ctx.expect(part in str(x.message), 'call:message', f'{part!r} not in {x.message}', opt=opt)
                    if not opt['message']:
                        ctx.expect(('removed' in str(x.message)) == (not opt['pending'] and opt['removal'] not in
                                                                     (None, False)), 'call:removal', str(x.message))
                        ctx.expect(opt['alternative'] != '' or 'Use ' not in str(x.message), 'call:alternative',
                                   str(x.message))


@case(CASES)
def location(ctx):
    """The warning points at the calling line: shown once per line under the default filter."""
    for kind in KINDS:
        if kind == 'subclass':
            continue
        log = []
        old, plain, dobj, pobj = twins(kind, D.deprecated('1.5'), log)
        # each lambda line is the caller
        src = 'def one(f):\n    return f(1)\ndef two(f):\n    x = 0\n    return f(2)\n'
        for hist in itertools.product((1, 2), repeat=3):
            reg = {}
            exec(compile(src, 'caller_%s.py' % kind, 'exec'), reg)
            if kind == 'method':
                class H:
                    pass
                H.m = dobj
                target = H().m
            else:
                target = dobj
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                for h in hist:
                    (reg['one'] if h == 1 else reg['two'])(target)
            ctx.state(('loc', kind, hist))
            ctx.step(3)
            ctx.expect([(x.filename, x.lineno) for x in w] == [('caller_%s.py' % kind, 2 if h == 1 else 5) for h in hist],
                       'location:' + kind, f'{[(x.filename, x.lineno) for x in w]}')
            reg = {}
            exec(compile(src, 'caller_%s.py' % kind, 'exec'), reg)
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('default')
                for h in hist:
                    (reg['one'] if h == 1 else reg['two'])(target)
            ctx.expect(len(w) == len(set(hist)), 'location:default-filter:' + kind, f'{len(w)} warnings for {hist}')
            del log[:]
            with warnings.catch_warnings():
                warnings.simplefilter('error')
                ctx.raises(D.pvlibDeprecationWarning, lambda: target(1), 'location:error:' + kind)
    for pending in (False, True):
        for add in ADD:
            for rem in REM:
                for alt in ALT:
                    for ot in ('attribute', 'module'):
                        ctx.state()
                        ctx.step()
                        kw = dict(name='nm', alternative=alt, pending=pending, obj_type=ot, addendum=add, removal=rem)
                        if pending and rem:
                            ctx.raises(ValueError, lambda: D.warn_deprecated('3.1', **kw), 'warn:pending-removal')
                            continue
                        st, v, w = record(lambda: D.warn_deprecated('3.1', **kw))
                        ctx.expect(st == 'ok' and len(w) == 1, 'warn:one', f'{st} {v} {len(w)}')
                        for x in w[:1]:
                            ctx.expect(x.category is (PendingDeprecationWarning if pending else D.pvlibDeprecationWarning),
                                       'warn:category', str(x.category))
                            for part in expected_message(dict(kw, message=''), 'nm', ot, '3.1'):
                                ctx.expect(part in str(x.message), 'warn:message', f'{part!r} not in {x.message}')


# ------------------------------------------------------------------------------------ renamed parameters
VALUES = (1, 0, None, '', False, [], 'text')


def renamed_twins(shape, log, removal):
    dec = D.renamed_kwarg_warning('1.5', 'old', 'new', **({'removal': removal} if removal is not None else {}))
    if shape == 'only':
        def f(new=7):
            return log.append(('f', new)) or new
    elif shape == 'second':
        def f(a, new=7):
            return log.append(('f', a, new)) or (a, new)
    elif shape == 'kwonly':
        def f(a=1, *, new=7, c=3):
            return log.append(('f', a, new, c)) or (a, new, c)
    elif shape == 'required':
        def f(new, b=2):
            return log.append(('f', new, b)) or (new, b)
    elif shape == 'varkw':
        def f(a=1, new=7, **kw):
            return log.append(('f', a, new, kw)) or (a, new, kw)
    elif shape == 'first':
        def f(new=7, b=2, c=3):
            return log.append(('f', new, b, c)) or (new, b, c)
    f.__doc__ = 'Doc.'
    return dec(f), f


SHAPES = ('only', 'second', 'kwonly', 'required', 'varkw', 'first')


@case(CASES)
def renamed(ctx):
    """renamed_kwarg_warning: every signature shape x call form (old/new/both/neither/positional) x value x history."""
    for shape in SHAPES:
        for removal in (None, '', '2.5'):
            log = []
            g, f = renamed_twins(shape, log, removal)
            ctx.expect(str(inspect.signature(g)) == str(inspect.signature(f)) and g.__name__ == f.__name__ and
                       g.__doc__ == f.__doc__, 'renamed:meta', shape)
            forms = []
            for npos in (0, 1, 2):
                for use in ('none', 'new', 'old', 'both'):
                    for extra in ({}, {'a': 5}, {'b': 6}, {'c': 9}, {'zz': 1}):
                        forms.append((npos, use, extra))
            for npos, use, extra in forms:
                for v in VALUES:
                    ctx.state((shape, removal, npos, use, tuple(extra), repr(v)))
                    ctx.step(2)
                    pos = tuple(range(10, 10 + npos))
                    kw = dict(extra)
                    if use in ('new', 'both'):
                        kw['new'] = 'N'
                    ref = dict(extra)
                    if use == 'new':
                        ref['new'] = 'N'
                    if use in ('old', 'both'):
                        kw['old'] = v
                    if use == 'old':
                        ref['new'] = v
                    given = dict(kw)
                    del log[:]
                    st, r, w = record(lambda: g(*pos, **kw))
                    l1 = list(log)
                    ctx.expect(kw == given, 'renamed:kwargs-changed', shape)
                    if use == 'both':
                        ctx.expect(st == 'err' and r[0] == 'ValueError' and not l1, 'renamed:both',
                                   f'{shape} {pos} {kw}: {st} {r}')
                        if st == 'err':
                            ctx.expect('old' in r[1] and 'new' in r[1], 'renamed:both-message', r[1])
                        # the values do not matter: equal, missing or false ones clash as well
                        for other in (None, 0, v):
                            ctx.step()
                            st, r, w = record(lambda: g(*pos, **{**kw, 'new': other}))
                            ctx.expect(st == 'err' and r[0] == 'ValueError' and not log, 'renamed:both-value',
                                       f'{shape} {pos} {kw} new={other!r}: {st} {r}')
                        continue
                    del log[:]
                    st2, r2, w2 = record(lambda: f(*pos, **ref))
                    ctx.expect(st == st2 and l1 == log, 'renamed:result', f'{shape} {pos} {kw}: {st} {r} instead of {r2}')
                    if st == st2 == 'ok':
                        ctx.expect(r == r2, 'renamed:value', shape)
                    elif st == 'err':
                        ctx.expect(st2 == 'err' and r[0] == r2[0], 'renamed:error', f'{r} instead of {r2}')
                    ctx.expect(len(w) == (1 if use == 'old' else 0), 'renamed:one-warning',
                               f'{shape} {pos} {kw}: {len(w)} warnings')
                    for x in w[:1]:
                        ctx.expect(x.category is D.pvlibDeprecationWarning and x.filename == HERE, 'renamed:category',
                                   f'{x.category} at {x.filename}')
                        m = str(x.message)
                        ctx.expect("'old'" in m and "'new'" in m and '1.5' in m and (('in 2.5' in m) == (removal == '2.5')),
                                   'renamed:message', m)
            # histories: every word of three calls behaves as three independent calls
            words = {'n': {'new': 1}, 'o': {'old': 2}, 'b': {'new': 1, 'old': 2}}
            for word in itertools.product('nob', repeat=3):
                ctx.state((shape, word))
                for c in word:
                    ctx.step()
                    st, r, w = record(lambda: g(*((0,) if shape == 'second' else ()), **words[c]))
                    ctx.expect((st == 'err') == (c == 'b') and len(w) == (c == 'o'), 'renamed:history', f'{shape} {word}')


@case(CASES)
def stacked(ctx):
    """Two renamings on one function and a renaming under a deprecation: all subsets of old and new names."""
    log = []

    @D.renamed_kwarg_warning('1.1', 'p', 'x')
    @D.renamed_kwarg_warning('1.2', 'q', 'y', '2.0')
    def f(x=0, y=0, z=0):
        log.append((x, y, z))
        return x, y, z
    for names in itertools.chain.from_iterable(itertools.combinations('pqxyz', n) for n in range(6)):
        ctx.state(('stack', names))
        ctx.step()
        del log[:]
        st, r, w = record(lambda: f(**{n: n for n in names}))
        if ('p' in names and 'x' in names) or ('q' in names and 'y' in names):
            ctx.expect(st == 'err' and r[0] == 'ValueError' and not log, 'stacked:both', f'{names}: {r}')
            continue
        exp = tuple(next((o for o in (a, b) if o in names), 0) for a, b in (('p', 'x'), ('q', 'y'), ('z', 'z')))
        ctx.expect(st == 'ok' and r == exp, 'stacked:result', f'{names}: {r} instead of {exp}')
        ctx.expect(len(w) == ('p' in names) + ('q' in names), 'stacked:warnings', f'{names}: {len(w)}')
    for cls in (False, True):
        class K:
            @D.renamed_kwarg_warning('1.1', 'old', 'new')
            def m(self, new=3):
                return self, new

            @classmethod
            @D.renamed_kwarg_warning('1.1', 'old', 'new')
            def c(klass, new=3):
                return klass, new
        k = K()
        who, call = (K, k.c) if cls else (k, k.m)
        for kw, exp, n in (({}, 3, 0), ({'new': 4}, 4, 0), ({'old': 5}, 5, 1)):
            ctx.state()
            ctx.step()
            st, r, w = record(lambda: call(**kw))
            ctx.expect(st == 'ok' and r == (who, exp) and len(w) == n, 'stacked:method', f'{cls} {kw}: {r} {len(w)}')
        ctx.raises(ValueError, lambda: call(old=1, new=2), 'stacked:method-both')


# ------------------------------------------------------------------------------------ the package's own names
def same(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return same_value(a, b)


EPW_HEAD = ['LOCATION,City,ST,USA,TMY3,1,40.0,-105.0,-7.0,1600.0'] + ['X'] * 7
EPW_ROW = '1990,1,1,%d,0,flags,5.0,-1.0,60,84000,0,1415,300,100,50,80,0,0,0,0,180,2.0,5,5,20.0,77777,9,999999999,10,0.1,0,88,0.2,0,1'
CAMS_TEXT = ('# Latitude (positive North, ISO 19115): 55\n# Time reference: Universal time (UT)\n'
             '# Summarization (integration) period: 0 year 0 month 0 day 1 h 0 min 0 s\n'
             '# Observation period;TOA;Clear sky GHI;Clear sky BHI;Clear sky DHI;Clear sky BNI\n'
             '2020-06-01T12:00:00.0/2020-06-01T13:00:00.0;1100;800;700;100;850\n'
             '2020-06-01T13:00:00.0/2020-06-01T14:00:00.0;1000;700;600;100;800\n')
BSRN = None


def epw_buf():
    return io.StringIO('\n'.join(EPW_HEAD + [EPW_ROW % h for h in (1, 2, 24)]) + '\n')


@case(CASES)
def names(ctx):
    """Every deprecated function, parameter and option of the package against its replacement."""
    from pvlib import bifacial, irradiance, iam, location as loc, modelchain, tracking
    from pvlib.bifacial import utils
    from pvlib.iotools import epw, sodapro, bsrn, meteonorm
    z, a = np.array([30., 80., 100.]), np.array([100., 200., 300.])

    def equal(nm, old, new, n=1, loc_check=True):
        """old() and new() give the same; old warns n times here, new never."""
        ctx.state(nm)
        ctx.step(2)
        st, r, w = record(old)
        st2, r2, w2 = record(new)
        ctx.expect(st == st2, nm + ':outcome', f'{st} {str(r)[:200]} instead of {st2} {str(r2)[:200]}')
        if st == st2 == 'ok':
            ctx.expect(same(r, r2), nm + ':value', f'{r} instead of {r2}')
        elif st == 'err':
            ctx.expect(r[0] == r2[0], nm + ':error', f'{r} instead of {r2}')
        d = dep(w)
        ctx.expect(len(d) == n, nm + ':warnings', f'{len(d)} warnings')
        if loc_check:
            ctx.expect(all(x.filename == HERE for x in d), nm + ':location', f'{[x.filename for x in d]}')
        ctx.expect(all(x.category is D.pvlibDeprecationWarning for x in d), nm + ':category', str(d))
        ctx.expect(not dep(w2), nm + ':replacement-warns', str([str(x.message) for x in dep(w2)]))

    def has(mod, name):
        return getattr(mod, name, None)

    # renamed parameters of the package: every form
    if 'solar_azimuth' in inspect.signature(tracking.singleaxis).parameters:
        S = tracking.singleaxis
        equal('singleaxis:old', lambda: S(z, apparent_azimuth=a), lambda: S(z, solar_azimuth=a))
        equal('singleaxis:old-all-kw', lambda: S(apparent_azimuth=a, apparent_zenith=z, gcr=.5),
              lambda: S(z, a, gcr=.5))
        equal('singleaxis:positional', lambda: S(z, a), lambda: S(z, solar_azimuth=a), n=0)
        ctx.raises(ValueError, lambda: S(z, apparent_azimuth=a, solar_azimuth=a), 'singleaxis:both')
        ctx.raises((ValueError, TypeError), lambda: S(z, a, apparent_azimuth=a), 'singleaxis:both-positional')
        ctx.raises(ValueError, lambda: S(z, apparent_azimuth=a, solar_azimuth=None), 'singleaxis:both-none')
        ctx.raises(ValueError, lambda: S(z, apparent_azimuth=None, solar_azimuth=a), 'singleaxis:both-old-none')
    V = utils.vf_ground_sky_2d_integ
    for rot in (-30., 20., np.array([0., 45.])):
        equal('vf_ground_sky:old', lambda: V(surface_tilt=rot, gcr=.4, height=1, pitch=4),
              lambda: V(tracker_rotation=rot, gcr=.4, height=1, pitch=4))
        equal('vf_ground_sky:positional', lambda: V(rot, .4, 1, 4), lambda: V(tracker_rotation=rot, gcr=.4, height=1, pitch=4),
              n=0)
        ctx.raises(ValueError, lambda: V(surface_tilt=rot, tracker_rotation=rot, gcr=.4, height=1, pitch=4),
                   'vf_ground_sky:both')
        ctx.raises(ValueError, lambda: V(surface_tilt=rot, tracker_rotation=None, gcr=.4, height=1, pitch=4),
                   'vf_ground_sky:both-none')
        for kw in ({'npoints': 10}, {'vectorize': True}, {'vectorize': False}, {'npoints': 5, 'vectorize': False}):
            equal('vf_ground_sky:noeffect', lambda: V(rot, .4, 1, 4, **kw), lambda: V(rot, .4, 1, 4), loc_check=False)
    # functions
    if has(irradiance, 'king'):
        ctx.expect(len(dep(record(lambda: irradiance.king(30, 100., 500., 40.))[2])) == 1, 'king:warnings')
        exp = 100. * (1 + np.cos(np.radians(30))) / 2 + 500. * (.012 * 40. - .04) * (1 - np.cos(np.radians(30))) / 2
        ctx.close(record(lambda: irradiance.king(30, dhi=100., ghi=500., solar_zenith=40.))[1], exp, 'king:value')
    if has(irradiance, 'ghi_from_poa_driesse_2023'):
        args = (30., 180., np.array([40., 60.]), np.array([170., 120.]), np.array([800., 300.]), 1366.)
        equal('ghi_from_poa_2023', lambda: irradiance.ghi_from_poa_driesse_2023(*args),
              lambda: irradiance.ghi_from_poa_driesse_2024(*args))
        equal('ghi_from_poa_2023:kw', lambda: irradiance.ghi_from_poa_driesse_2023(*args, albedo=.5, full_output=True),
              lambda: irradiance.ghi_from_poa_driesse_2024(*args, albedo=.5, full_output=True))
    if has(modelchain, 'get_orientation'):
        go = modelchain.get_orientation
        for lat in (0, 35.5, -20):
            st, r, w = record(lambda: go('south_at_latitude_tilt', latitude=lat))
            ctx.expect(st == 'ok' and r == (lat, 180) and len(dep(w)) == 1 and w[0].filename == HERE,
                       'get_orientation:latitude', f'{r}')
        st, r, w = record(lambda: go('flat'))
        ctx.expect(st == 'ok' and r == (0, 180) and len(dep(w)) == 1, 'get_orientation:flat', f'{r}')
        st, r, w = record(lambda: go('other'))
        ctx.expect(st == 'err' and r[0] == 'ValueError' and len(dep(w)) == 1, 'get_orientation:invalid', f'{r}')
    if has(bifacial, 'pvfactors_timeseries'):
        k = dict(solar_zenith=[20.], solar_azimuth=[180.], surface_azimuth=[180.], surface_tilt=[20.], axis_azimuth=90.,
                 timestamps=pd.DatetimeIndex(['2020-06-01 12:00']), dni=[900.], dhi=[100.], gcr=.4, pvrow_height=1.5,
                 pvrow_width=2., albedo=.2)
        equal('pvfactors_timeseries', lambda: bifacial.pvfactors_timeseries(**k),
              lambda: bifacial.pvfactors.pvfactors_timeseries(**k))
    # readers
    if has(epw, 'parse_epw'):
        equal('parse_epw', lambda: epw.parse_epw(epw_buf()), lambda: epw.read_epw(epw_buf()))
        equal('parse_epw:kw', lambda: epw.parse_epw(epw_buf(), coerce_year=2001),
              lambda: epw.read_epw(epw_buf(), coerce_year=2001))
    if has(sodapro, 'parse_cams'):
        for mp in (True, False):
            for lb in (None, 'left', 'right'):
                for integ in (True, False):
                    equal('parse_cams', lambda: sodapro.parse_cams(io.StringIO(CAMS_TEXT), integ, lb, mp),
                          lambda: sodapro.read_cams(io.StringIO(CAMS_TEXT), integrated=integ, label=lb, map_variables=mp))
    if has(bsrn, 'parse_bsrn'):
        for lr in (['0100'], ['9999']):
            equal('parse_bsrn', lambda: bsrn.parse_bsrn(io.StringIO('*U0001\n 1 1 2020 1\n'), logical_records=lr),
                  lambda: bsrn.read_bsrn(io.StringIO('*U0001\n 1 1 2020 1\n'), logical_records=lr))
    # clients, with the transport replaced
    calls = []

    class Resp:
        status_code = 200
        ok = True
        text = CAMS_TEXT
        headers = {'Content-Type': 'application/csv'}

        def raise_for_status(self):
            pass

        def json(self):
            return {}

    def fake(url, *a, **k):
        calls.append((url, a, {n: v for n, v in k.items()}))
        return Resp()
    import requests
    real = requests.get
    requests.get = fake
    try:
        base = dict(start='2020-06-01', end='2020-06-01', email='a@b.c')
        cams = lambda **k: (sodapro.get_cams(55, 12, **base, **k), copy.deepcopy(calls[-1]))   # noqa
        if 'url' in inspect.signature(sodapro.get_cams).parameters:
            equal('get_cams:server', lambda: cams(server='www.example.org'), lambda: cams(url='www.example.org'))
            equal('get_cams:none', lambda: cams(), lambda: cams(), n=0)
            for u, v in (('u', 'u'), ('u', None), (None, 'u'), (None, None), ('', '')):
                ctx.raises(ValueError, lambda: cams(server=u, url=v), 'get_cams:both')
        if 'data_version' in inspect.signature(meteonorm.get_meteonorm_tmy).parameters:
            st, r, w = record(lambda: meteonorm.get_meteonorm_tmy(50, 10, 'key', data_version='latest'))
            ctx.expect(len(dep(w)) == 1, 'meteonorm:data_version', f'{len(dep(w))}')
            d1 = calls[-1]
            st, r, w = record(lambda: meteonorm.get_meteonorm_tmy(50, 10, 'key'))
            ctx.expect(len(dep(w)) == 0 and calls[-1] == d1, 'meteonorm:data_version-ignored', f'{calls[-1]} {d1}')
    finally:
        requests.get = real
    # options
    th, im, x = [0, 30, 60, 90], [1, .98, .9, 0], np.array([0., 15., 30., 44., 75.])
    for m, exp in (('nearest', [1, 1, .98, .98, .9]), ('zero', [1, 1, .98, .98, .9]), ('previous', [1, 1, .98, .98, .9]),
                   ('slinear', [1, .99, .98, .98 - .08 * 14 / 30, .45]), ('next', [1, .98, .98, .9, 0]),
                   ('nearest-up', [1, .98, .98, .98, 0])):
        st, r, w = record(lambda: iam.interp(x, th, im, method=m))
        ctx.expect(st == 'ok' and len(dep(w)) == 1, 'iam.interp:' + m, f'{st} {len(dep(w))}')
        if st == 'ok':
            ctx.close(r, exp, 'iam.interp:value:' + m)
    for m in ('linear', 'quadratic', 'cubic'):
        ctx.expect(not dep(record(lambda: iam.interp(x, th, im, method=m))[2]), 'iam.interp:quiet:' + m)
    for tz in ('UTC', 'America/Denver', 'Etc/GMT+7', -7, 5):
        L = loc.Location(40, -105, tz=tz)
        st, r, w = record(lambda: L.pytz)
        ctx.expect(st == 'ok' and len(dep(w)) == 1 and str(r) == L.tz, 'location.pytz', f'{r} {L.tz} {len(dep(w))}')
        ctx.expect(not dep(record(lambda: (L.tz, repr(L)))[2]), 'location.tz:quiet')


@case(CASES)
def quiet_models(ctx):
    """No model of the registry and no model chain uses a deprecated feature unless the caller does."""
    allowed = {'get_sky_diffuse:king': 1, 'get_total_irradiance:king': 1}
    for e in G.ENTRIES:
        rows = e.rows or tuple(range(G.NROW))
        for form in e.forms:
            ctx.state((e.name, form))
            ctx.step()
            ix = G.TIMES[list(rows)].tz_localize('UTC') if form == 'series' or 'times' in e.cols.values() else None
            st, r, w = record(lambda: e.fn(**G.args_of(e, rows, form, ix)))
            n = [x for x in w if issubclass(x.category, D.pvlibDeprecationWarning)]
            ctx.expect(len(n) <= allowed.get(e.name, 0), 'quiet:' + e.name, f'{[str(x.message) for x in n]}')
    from pvlib import location as loc, modelchain, pvsystem
    from mc.ref import pvsys as R
    idx = pd.date_range('2021-06-21 08:00', periods=3, freq='3h', tz='Etc/GMT+7')
    wx = pd.DataFrame({'ghi': [300., 900., 400.], 'dni': [500., 850., 450.], 'dhi': [100., 120., 150.],
                       'temp_air': [15., 25., 24.], 'wind_speed': [1., 2., 3.], 'precipitable_water': [1., 1.2, 1.4]}, idx)
    inv = {'Paco': 250., 'Pdco': 259.5, 'Vdco': 40., 'Pso': 2., 'C0': -4e-5, 'C1': -9e-5, 'C2': .0005, 'C3': -.013,
           'Pnt': .1}
    for sky, trans, air in itertools.product(('ineichen', 'haurwitz', 'simplified_solis'),
                                             ('isotropic', 'haydavies', 'perez', 'perez-driesse', 'reindl', 'klucher'),
                                             ('kastenyoung1989', 'simple')):
        def build():
            s = pvsystem.PVSystem(surface_tilt=30, surface_azimuth=180, module_parameters=dict(R.SAPM),
                                  temperature_model_parameters={'a': -3.47, 'b': -.0594, 'deltaT': 3},
                                  inverter_parameters=inv)
            mc = modelchain.ModelChain(s, loc.Location(40, -105, tz='Etc/GMT+7'), clearsky_model=sky,
                                       transposition_model=trans, airmass_model=air, aoi_model='physical',
                                       spectral_model='no_loss')
            return mc.run_model(wx).results.ac
        ctx.state((sky, trans, air))
        ctx.step()
        st, r, w = record(build)
        ctx.expect(st == 'ok', 'quiet:chain', str(r))
        ctx.expect(not [x for x in w if issubclass(x.category, D.pvlibDeprecationWarning)], 'quiet:chain-warns',
                   f'{sky} {trans}: {[str(x.message)[:100] for x in w]}')
