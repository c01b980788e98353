"""Mutants of one source text: (line, function, kind, new_source, note)."""
import ast


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    raw = src.encode()

    def pos(n):
        return (off[n.lineno - 1] + n.col_offset,
                off[n.end_lineno - 1] + n.end_col_offset)

    def text(n):
        a, b = pos(n)
        return raw[a:b].decode()

    out = []

    def add(n, kind, new, span=None, fn=''):
        a, b = span or pos(n)
        s = raw[:a].decode() + new + raw[b:].decode()
        try:
            compile(s, 'x', 'exec')
        except SyntaxError:
            return
        out.append(dict(line=n.lineno, end=n.end_lineno, fn=fn, kind=kind, a=a, b=b, new=new,
                        old=raw[a:b].decode()))

    CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>',
           ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is',
           ast.In: 'not in', ast.NotIn: 'in'}
    BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*',
           ast.Pow: '*', ast.BitAnd: '|', ast.BitOr: '&', ast.Mod: '*',
           ast.FloorDiv: '/'}
    UNW = {'maximum', 'minimum', 'clip', 'abs', 'nan_to_num', 'fillna', 'sqrt',
           'copy', 'round', 'asarray', 'atleast_1d', 'squeeze', 'radians',
           'deg2rad', 'degrees', 'rad2deg', 'max', 'min', 'array', 'sign',
           'shift', 'where', 'mask', 'bfill', 'ffill', 'tz_localize',
           'tz_convert', 'rename', 'drop', 'replace', 'reindex', 'total_seconds',
           'sort_index', 'floor', 'ceil', 'cumsum', 'diff'}

    def walk(n, fn, inraise):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            f = fn + '.' + n.name if fn else n.name
            body = n.body
            if isinstance(n, ast.FunctionDef):
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                    walk(d, f, False)
            for d in n.decorator_list:
                walk(d, f, False)
            doc = body[0] if body and isinstance(body[0], ast.Expr) and \
                isinstance(body[0].value, ast.Constant) else None
            for s in body:
                if s is not doc:
                    walk(s, f, inraise)
            return
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom, ast.Global)):
            return
        if isinstance(n, ast.Call) and 'warn' in ast.unparse(n.func):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = CMP.get(type(n.ops[0]))
            if o:
                add(n, 'cmp', f'{text(n.left)} {o} {text(n.comparators[0])}', fn=fn)
        if isinstance(n, ast.BinOp):
            o = BIN.get(type(n.op))
            if o and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                add(n, 'bin', f'({text(n.left)}) {o} ({text(n.right)})', fn=fn)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
            add(n, 'un', f'({text(n.operand)})', fn=fn)
        if isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, 'bool', '(' + o.join(f'({text(v)})' for v in n.values) + ')', fn=fn)
        if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) \
                and n.value is not Ellipsis:
            v = n.value
            if v is None:
                pass
            elif isinstance(v, bool):
                add(n, 'const', str(not v), fn=fn)
            elif isinstance(v, int):
                add(n, 'const', f'{v + 1}', fn=fn)
            elif isinstance(v, float):
                add(n, 'const', repr(v * 1.01 if v else 0.01), fn=fn)
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value \
                and len(n.value) < 30:
            add(n, 'str', repr(n.value + '_'), fn=fn)
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    args = [text(a) for a in n.args] + [
                        (f'{q.arg}={text(q.value)}' if q.arg else f'**{text(q.value)}')
                        for q in n.keywords if q is not k]
                    add(n, 'kw-' + k.arg, f'{text(n.func)}({", ".join(args)})', fn=fn)
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else \
                n.func.id if isinstance(n.func, ast.Name) else ''
            if nm in UNW:
                mod = isinstance(n.func, ast.Attribute) and isinstance(
                    n.func.value, ast.Name) and n.func.value.id in ('np', 'pd', 'math')
                if nm == 'where' and mod and len(n.args) == 3:
                    add(n, 'unwrap', f'({text(n.args[1])})', fn=fn)
                    add(n, 'unwrap', f'({text(n.args[2])})', fn=fn)
                elif isinstance(n.func, ast.Attribute) and not mod:
                    add(n, 'unwrap', f'({text(n.func.value)})', fn=fn)
                elif n.args:
                    add(n, 'unwrap', f'({text(n.args[0])})', fn=fn)
                    if nm in ('maximum', 'minimum', 'max', 'min') and len(n.args) == 2:
                        add(n, 'unwrap', f'({text(n.args[1])})', fn=fn)
        if isinstance(n, ast.If):
            add(n.test, 'if', 'False', fn=fn)
            add(n.test, 'if', 'True', fn=fn)
        if isinstance(n, ast.IfExp):
            add(n, 'ifexp', text(n.body), fn=fn)
            add(n, 'ifexp', text(n.orelse), fn=fn)
        if fn and isinstance(n, (ast.AugAssign,)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)) \
                or (isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name)
                    and not isinstance(n.targets[0], ast.Tuple)) \
                or (isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)
                    and any(isinstance(c, ast.Name) and c.id == n.targets[0].id
                            for c in ast.walk(n.value))) or isinstance(n, (ast.Break, ast.Continue)):
            if fn:
                add(n, 'del', 'pass', fn=fn)
        for c in ast.iter_child_nodes(n):
            walk(c, fn, inraise)

    for s in tree.body:
        if isinstance(s, ast.Expr):
            continue
        walk(s, '', False)
    seen, res = set(), []
    for m in out:
        k = (m['a'], m['b'], m['new'])
        if k not in seen and m['new'] != m['old']:
            seen.add(k)
            res.append(m)
    return res
