"""Equipment tables: every record and field of each bundled database against an
independent reading of the file; synthetic tables over every special character
x position x duplicates, number spellings, missing marks, text columns, line
ends and coefficient lists, through paths and scripted URLs; names in every
letter case; argument errors; call histories with the returned table edited."""
import csv
import io
import itertools
import math
import os
import shutil
import tempfile
import warnings

import numpy as np
import pandas as pd

from mc import net
from mc.core import case, quiet
import pvlib
from pvlib import pvsystem

CASES = []
BAD = ' -.()[]:+/",'
NA = {'', '#N/A', '#N/A N/A', '#NA', '-1.#IND', '-1.#QNAN', '-NaN', '-nan', '1.#IND', '1.#QNAN', '<NA>', 'N/A', 'NA', 'NULL',
      'NaN', 'None', 'n/a', 'nan', 'null'}
DATA = os.path.join(os.path.dirname(pvlib.__file__), 'data')
DB = {'CECMod': 'sam-library-cec-modules-2019-03-05.csv', 'SandiaMod': 'sam-library-sandia-modules-2015-6-30.csv',
      'ADRInverter': 'adr-library-cec-inverters-2019-03-05.csv', 'CECInverter': 'sam-library-cec-inverters-2019-03-05.csv',
      'SandiaInverter': 'sam-library-cec-inverters-2019-03-05.csv'}


def clean(name):
    return ''.join('_' if c in BAD else c for c in name)


def number(s):
    try:
        return float(s)
    except ValueError:
        return None


def reading(text):
    """(names, fields, {(field, record number): value}) of a table."""
    rows = [r for r in csv.reader(io.StringIO(text)) if r]
    head, body = rows[0], rows[3:]
    fields = [h.replace(' ', '_') for h in head[1:]]
    body = [r + [''] * (len(head) - len(r)) for r in body]
    out = {}
    for j, f in enumerate(fields, 1):
        cells = [r[j] for r in body]
        numeric = all(c in NA or number(c) is not None for c in cells)
        for i, c in enumerate(cells):
            if f == 'ADRCoefficients':
                out[f, i] = [float(x) for x in c.strip(' []').split()]
            elif c in NA:
                out[f, i] = math.nan
            else:
                out[f, i] = number(c) if numeric else c
    return [clean(r[0]) for r in body], fields, out


def same(g, e):
    if isinstance(e, list):
        return isinstance(g, list) and len(g) == len(e) and all(type(x) is float and x == y for x, y in zip(g, e))
    if isinstance(e, str):
        return g == e
    if not isinstance(g, (int, float, np.number)):
        return False
    return (math.isnan(g) and math.isnan(e)) or abs(g - e) <= 1e-14 * abs(e)


def compare(ctx, df, text, key):
    names, fields, want = reading(text)
    if not ctx.expect(isinstance(df, pd.DataFrame), key, f'{type(df).__name__} instead of a table'):
        return
    ok = ctx.expect(list(df.columns) == names, f'{key}/names', 'record names differ: ' + str(
        [(a, b) for a, b in itertools.zip_longest(df.columns, names) if a != b][:2]))
    ok &= ctx.expect(list(df.index) == fields, f'{key}/fields', f'{list(df.index)} instead of {fields}')
    if ok:
        for j, f in enumerate(fields):
            row = list(df.iloc[j])
            for i, g in enumerate(row):
                ctx.traces += 1
                if not same(g, want[f, i]):
                    ctx.fail(f'{key}/value', f'{names[i]} {f}: {g!r} instead of {want[f, i]!r}')


def letter_cases(name):
    return dict.fromkeys([name, name.lower(), name.upper(), name.swapcase(), name[:1].lower() + name[1:], name.title()])


def _bundled(name):
    def f(ctx):
        path = os.path.join(DATA, DB[name])
        if not os.path.exists(path):        # not part of this source tree
            ctx.state()
            return
        text = open(path, encoding='utf-8').read()
        for n, spelled in enumerate(letter_cases(name)):
            df = quiet(pvsystem.retrieve_sam, spelled) if n % 2 else quiet(pvsystem.retrieve_sam, name=spelled)
            ctx.state(n=df.shape[1])
            ctx.step()
            if n == 0:
                first = df.copy(deep=True)
                compare(ctx, df, text, name)
            else:
                ctx.expect(df.equals(first), f'{name}/spelling', f'{spelled!r} gives another table')
            df.iloc[:, 0] = 0.                 # the caller may edit the table
            if n == 1:
                break
        for spelled in list(letter_cases(name))[2:]:
            ctx.state()
            ctx.step()
            ctx.expect(quiet(pvsystem.retrieve_sam, spelled).shape == first.shape, f'{name}/spelling', f'{spelled!r}')
        df = quiet(pvsystem.retrieve_sam, path=path)
        ctx.expect(df.equals(first), f'{name}/path', 'the file read by path gives another table')
        ctx.sample(dict(name=name, records=first.shape[1], fields=first.shape[0]))
    return f


for _n in DB:
    CASES.append((f'bundled_{_n}', _bundled(_n), False))


def table(names, columns, eol='\n', blank=False):
    """columns: list of (title, cells)."""
    s = io.StringIO()
    w = csv.writer(s, lineterminator=eol)
    w.writerow(['Name'] + [c for c, _ in columns])
    w.writerow(['Units'] + ['W'] * len(columns))
    w.writerow(['[0]'] + ['key'] * len(columns))
    for i, n in enumerate(names):
        w.writerow([n] + [cells[i] for _, cells in columns])
    return s.getvalue() + (eol if blank else '')


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='i03_')
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir)

    def write(self, text, name='t.csv', enc='utf-8'):
        p = os.path.join(self.dir, name)
        with open(p, 'wb') as f:
            f.write(text.encode(enc))
        return p


def by_url(text, url):
    body = text if isinstance(text, bytes) else text.encode('utf-8')
    seen = []

    def handler(req):
        seen.append(req.url)
        return net.Answer(200, body)
    with net.Net(handler):
        df = quiet(pvsystem.retrieve_sam, path=url)
    return df, seen


@case(CASES)
def record_names(ctx):
    """Every special character at every place of a name, every pair of them, and names that meet after cleaning."""
    with Scratch() as s:
        names = ['plain', 'Maker: X-1 [2020]', 'A, Inc.', 'q"q', 'umlaut ä', "apo's", 'under_score', 'hash#1', 'star*', 'a\\b', 'semi;colon', 'per%']
        names += [f'{a}{c}{b}' for c in BAD for a in ('', 'X') for b in ('', 'Y', '9') if a + b]
        names += [f'm{i}{a}{b}n' for i, (a, b) in enumerate(itertools.product(BAD, repeat=2))]
        names += ['dup one', 'dup-one', 'dup.one', 'dup one']
        cols = [('Pac max', [str(i) for i in range(len(names))]), ('B 1 c', [str(.5 * i) for i in range(len(names))])]
        for eol in ('\n', '\r\n'):
            ctx.state(n=len(names))
            ctx.step()
            t = table(names, cols, eol)
            compare(ctx, quiet(pvsystem.retrieve_sam, path=s.write(t)), t, 'names')
        # each alone, and each before and after another
        for n in (x for x in names if number(x) is None and x not in NA):      # pandas reads a column of numbers as numbers
            for word in ((n,), (n, 'other'), ('other', n)):
                ctx.state()
                ctx.step()
                t = table(word, [('Pac max', ['1.5', '2.5'][:len(word)])])
                with warnings.catch_warnings(record=True) as log:
                    warnings.simplefilter('always')
                    df = pvsystem.retrieve_sam(path=s.write(t))
                compare(ctx, df, t, 'name alone')
                ctx.expect(not [x for x in log if 'duplicate' in str(x.message)], 'no duplicate, no warning', repr(word))
        for word, want in ((('a b', 'a b'), 2), (('a b', 'a-b'), 1), (('a b', 'c'), 0), (('x', 'y', 'x.'), 0)):
            with warnings.catch_warnings(record=True) as log:
                warnings.simplefilter('always')
                pvsystem.retrieve_sam(path=s.write(table(word, [('P', ['1'] * len(word))])))
            n = len([x for x in log if 'duplicate' in str(x.message)])
            ctx.state()
            ctx.expect(n == want, 'duplicate names warn', f'{word}: {n} warnings')


@case(CASES)
def field_values(ctx):
    """Words over an alphabet of cells: integers, decimals, exponents, missing marks, text."""
    cells = ['0', '-3', '12.5', '-1.36E-09', '.075', '1e3', '', 'n/a', 'NaN', 'text', 'Utility Interactive', '12/5/2012', '007', '[1 2]']
    with Scratch() as s:
        n = ctx.pick(2, 3)
        words = list(itertools.product(cells, repeat=n))
        for k in range(0, len(words), 7):
            cols = [(f'Field {i}', list(w)) for i, w in enumerate(words[k:k + 7])]
            ctx.state(n=len(cols))
            ctx.step()
            t = table([f'rec {i}' for i in range(n)], cols)
            compare(ctx, quiet(pvsystem.retrieve_sam, path=s.write(t)), t, 'values')
        titles = ['C0', 'MPPT Low', ' lead', 'trail ', 'a  b', 'T-1', 'Mppt.x', 'Cells in Series']
        t = table(['r1', 'r2'], [(c, ['1', '2.5']) for c in titles])
        ctx.state()
        compare(ctx, quiet(pvsystem.retrieve_sam, path=s.write(t)), t, 'titles')


@case(CASES)
def adr_coefficients(ctx):
    forms = ['[{}]', '[ {} ]', '{}', ' [ {} ]', '[{}     ]']
    numsets = [('0.01385', '0.0152', '0.', '-0.01872', '0', '1e-05', '-2.5E-3', '1.', '.5'), tuple('123456789'),
               ('-1',) * 9, ('0.0',) * 9, ('1', '2', '3')]
    with Scratch() as s:
        for a, b in itertools.product(itertools.product(forms, numsets, (' ', '   ')), repeat=1 if not ctx.thorough else 2) if ctx.thorough else \
                [((f, ns, sep), ('[{}]', numsets[0], ' ')) for f in forms for ns in numsets for sep in (' ', '   ')]:
            ctx.state()
            ctx.step()
            cell = [x[0].format(x[2].join(x[1])) for x in (a, b)]
            t = table(['inv a', 'inv b'], [('Pnom', ['200', '300']), ('ADRCoefficients', cell), ('Pnt', ['.1', ''])])
            compare(ctx, quiet(pvsystem.retrieve_sam, path=s.write(t)), t, 'adr')


@case(CASES)
def urls(ctx):
    t = table(['Maker: X-1', 'b'], [('Pac max', ['1', '2.5']), ('Note', ['x', 'y'])])
    for url in ('http://x.test/a.csv', 'https://x.test/a%20b.csv', 'HTTP://x.test/A.csv', 'HttpS://x.test/Data/CEC%20Modules.CSV?x=Y'):
        for eol in ('\n', '\r\n'):
            ctx.state((url, eol))
            ctx.step()
            df, seen = by_url(t.replace('\n', eol), url)
            compare(ctx, df, t, 'url')
            tail = url.split('://', 1)[1]
            ctx.expect(len(seen) == 1 and seen[0].split('://', 1)[1] == tail, 'url/asked', f'{seen} for {url}')
    df, _ = by_url(t.encode('ascii').replace(b'Maker', b'M\xffaker'), 'HTTP://x.test/a.csv')
    compare(ctx, df, t, 'url/undecodable bytes are left out')
    df, _ = by_url(t.replace('Maker', 'Mäker'), 'http://x.test/a.csv')
    compare(ctx, df, t.replace('Maker', 'Mäker'), 'url/utf-8')
    for status in (404, 500, 403):
        def handler(req):
            return net.Answer(status, t)
        ctx.state(status)
        ctx.step()
        out = net.run(net.Net(handler), pvsystem.retrieve_sam, path='http://x.test/a.csv')
        ctx.expect(not out.ok, 'url/error status', f'{status} gave a table')


@case(CASES)
def argument_errors(ctx):
    with Scratch() as s:
        p = s.write(table(['a'], [('P', ['1'])]))
        for args, kw, want in (((), {}, ValueError), ((None, None), {}, ValueError), (('CECInverter', p), {}, ValueError),
                               ((), dict(name='CECInverter', path=p), ValueError), ((), dict(name='', path=p), ValueError),
                               (('nothing',), {}, KeyError), (('',), {}, KeyError), (('CECInverter ',), {}, KeyError),
                               (('sam-library-cec-inverters-2019-03-05.csv',), {}, KeyError), ((p,), {}, KeyError),
                               ((), dict(path=os.path.join(s.dir, 'none.csv')), FileNotFoundError),
                               ((), dict(path=os.path.join(s.dir, 'http.csv')), FileNotFoundError)):
            ctx.state()
            ctx.step()
            try:
                quiet(pvsystem.retrieve_sam, *args, **kw)
                got = None
            except Exception as e:    # noqa
                got = e
            ctx.expect(isinstance(got, want), 'error', f'{args} {kw}: {got!r} instead of {want.__name__}')
        # a local file whose name begins like a scheme, relative paths
        here = os.getcwd()
        try:
            os.chdir(s.dir)
            t = table(['a b'], [('P', ['1'])])
            for name in ('x.csv', 'sub.http.csv'):
                s.write(t, name)
                ctx.state(name)
                compare(ctx, quiet(pvsystem.retrieve_sam, path=name), t, 'relative path')
        finally:
            os.chdir(here)


@case(CASES)
def histories(ctx):
    """Every sequence of three calls over files that change between the calls: nothing is remembered."""
    a = table(['a 1', 'b'], [('P', ['1', '2'])])
    b = table(['a 1'], [('P', ['7']), ('Q', ['z'])])
    with Scratch() as s:
        for word in itertools.product((a, b), repeat=ctx.pick(3, 5)):
            for t in word:
                ctx.state()
                ctx.step()
                df = quiet(pvsystem.retrieve_sam, path=s.write(t))
                compare(ctx, df, t, 'history')
                df.iloc[0, 0] = -1
                df, _ = by_url(t, 'http://x.test/a.csv')
                compare(ctx, df, t, 'history url')
