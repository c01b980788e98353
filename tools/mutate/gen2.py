"""Second family of mutants, closer to slips people make: updates in place,
shared instead of copied data, other handling of missing values, swapped or
substituted names, dropped clauses, small constants, shortened loops."""
import ast

NANS = {'maximum': 'fmax', 'minimum': 'fmin', 'max': 'nanmax', 'min': 'nanmin', 'sum': 'nansum', 'mean': 'nanmean',
        'fmax': 'maximum', 'fmin': 'minimum', 'nanmax': 'max', 'nanmin': 'min', 'nansum': 'sum', 'nanmean': 'mean',
        'array': 'asarray', 'floor': 'round', 'ceil': 'round', 'arctan2': 'arctan2_swapped', 'expm1': 'exp', 'log1p': 'log'}
DROP = {'astype', 'deepcopy', 'copy', 'to_numpy', 'sort_values', 'sorted', 'dict', 'list', 'float', 'str', 'lower', 'strip', 'dropna',
        'interpolate', 'sort_index', 'unique', 'drop_duplicates', 'isnan', 'int', 'normalize', 'tz_convert', 'set_index', 'as_unit'}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for x in lines:
        off.append(off[-1] + len(x.encode()))
    raw = src.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = pos(n)
        return raw[a:b].decode()
    out = []

    def add(n, kind, new, fn):
        a, b = pos(n)
        try:
            compile(raw[:a].decode() + new + raw[b:].decode(), 'x', 'exec')
        except SyntaxError:
            return
        out.append(dict(line=n.lineno, end=n.end_lineno, fn=fn, kind=kind, a=a, b=b, new=new, old=raw[a:b].decode()))

    def params(f):
        a = f.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs if x.arg not in ('self', 'cls')]

    def walk(n, fn, ps):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            f = fn + '.' + n.name if fn else n.name
            q = ps + params(n) if isinstance(n, ast.FunctionDef) else ps
            for s in n.body:
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                    continue
                walk(s, f, q)
            return
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom, ast.Global)):
            return
        if isinstance(n, ast.Call) and 'warn' in ast.unparse(n.func):
            return
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.value, ast.BinOp):
            o = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/'}.get(type(n.value.op))
            t = text(n.targets[0])
            if o and text(n.value.left) == t:
                add(n, 'inplace', f'{t} {o}= {text(n.value.right)}', fn)
        if isinstance(n, ast.Call):
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ''
            mod = isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ('np', 'pd', 'math')
            if mod and nm in NANS:
                new = NANS[nm]
                if new == 'arctan2_swapped':
                    add(n, 'nan', f'np.arctan({text(n.args[0])} / ({text(n.args[1])}))', fn)
                else:
                    add(n.func, 'nan', f'np.{new}', fn)
            if nm in DROP:
                if isinstance(n.func, ast.Attribute) and not mod and nm not in ('deepcopy',) or (nm == 'copy' and not n.args):
                    if not (isinstance(n.func.value, ast.Name) and n.func.value.id == 'copy'):
                        add(n, 'drop', f'({text(n.func.value)})', fn)
                    elif n.args:
                        add(n, 'drop', f'({text(n.args[0])})', fn)
                elif n.args:
                    add(n, 'drop', f'({text(n.args[0])})', fn)
            for i in range(len(n.args) - 1):
                x, y = n.args[i], n.args[i + 1]
                if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(y, (ast.Name, ast.Attribute)) and text(x) != text(y):
                    args = [text(z) for z in n.args]
                    args[i], args[i + 1] = args[i + 1], args[i]
                    args += [f'{k.arg}={text(k.value)}' if k.arg else f'**{text(k.value)}' for k in n.keywords]
                    add(n, 'swap', f'{text(n.func)}({", ".join(args)})', fn)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in ps and len(ps) > 1:
            i = ps.index(n.id)
            for j in {(i + 1) % len(ps), (i - 1) % len(ps)}:
                if ps[j] != n.id:
                    add(n, 'name', ps[j], fn)
        if isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                rest = [f'({text(v)})' for j, v in enumerate(n.values) if j != i]
                add(n, 'clause', '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(rest) + ')', fn)
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.BitAnd, ast.BitOr, ast.Add, ast.Sub, ast.Mult, ast.Div)):
            add(n, 'operand', f'({text(n.left)})', fn)
            if isinstance(n.op, (ast.BitAnd, ast.BitOr, ast.Add, ast.Mult)):
                add(n, 'operand', f'({text(n.right)})', fn)
        if isinstance(n, ast.Constant) and isinstance(n.value, float) and n.value:
            add(n, 'small', repr(n.value * 1.00003), fn)
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.comparators[0], ast.Constant) \
                and isinstance(n.comparators[0].value, (int, float)) and not isinstance(n.comparators[0].value, bool):
            v = n.comparators[0].value
            add(n.comparators[0], 'edge', repr(v + (1e-3 * abs(v) or 1e-3)), fn)
            add(n.comparators[0], 'edge', repr(v - (1e-3 * abs(v) or 1e-3)), fn)
        if isinstance(n, ast.For):
            add(n.iter, 'loop', f'list({text(n.iter)})[:-1]', fn)
            add(n.iter, 'loop', f'list({text(n.iter)})[1:]', fn)
            add(n.iter, 'loop', f'list({text(n.iter)})[::-1]', fn)
        if isinstance(n, ast.comprehension) and fn:
            add(n.iter, 'loop', f'list({text(n.iter)})[:-1]', fn)
        if isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple) and len(n.value.elts) > 1:
            e = [text(x) for x in n.value.elts]
            add(n, 'ret', f'return {e[1]}, {e[0]}' + ''.join(', ' + x for x in e[2:]), fn)
        for c in ast.iter_child_nodes(n):
            walk(c, fn, ps)
    for s in tree.body:
        if not isinstance(s, ast.Expr):
            walk(s, '', [])
    seen, res = set(), []
    for m in out:
        k = m['a'], m['b'], m['new']
        if k not in seen and m['new'] != m['old']:
            seen.add(k)
            res.append(m)
    return res
