"""run.py COVER.json FILE[:func] ... [--kinds a,b] [--step k] [--out F]: every
mutant of the files against the cases that execute the mutated line."""
import sys, os, json, time, select, signal, argparse, ast, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from base import *
import gen, gen2
ap = argparse.ArgumentParser()
ap.add_argument('cover')
ap.add_argument('files', nargs='+')
ap.add_argument('--kinds', default='')
ap.add_argument('--step', type=int, default=1)
ap.add_argument('--phase', type=int, default=0)
ap.add_argument('--out', default='/tmp/mut.out')
ap.add_argument('--jobs', type=int, default=8)
ap.add_argument('--budget', type=float, default=40)
ap.add_argument('--gen', type=int, default=1)
a = ap.parse_args()
mutants = (gen, gen2)[a.gen - 1].mutants
cov = json.load(open(a.cover))


def install(path, source):
    import importlib.machinery as im
    orig = im.SourceFileLoader.get_data
    def get_data(self, p):
        if p == path:
            return source
        return orig(self, p)
    im.SourceFileLoader.get_data = get_data
    oc = im.SourceFileLoader.get_code
    def get_code(self, name):
        if self.get_filename(name) == path:
            return compile(source, path, 'exec')
        return oc(self, name)
    im.SourceFileLoader.get_code = get_code


def cases_for(f, m, src_tree):
    want = set(range(m['line'], m['end'] + 1))
    # statement containing the mutant: any of its lines
    res = []
    for d in cov:
        ls = d['lines'].get(f)
        if ls and want & set(ls):
            res.append(d)
    if not res:
        # multi-line statement: look for statement span
        best = None
        for n in ast.walk(src_tree):
            if isinstance(n, (ast.stmt, ast.FunctionDef)) and n.lineno <= m['line'] <= n.end_lineno:
                if best is None or (n.end_lineno - n.lineno) < (best.end_lineno - best.lineno):
                    best = n
        if best is not None:
            span = set(range(best.lineno, best.end_lineno + 1))
            # default arguments / module constants: whole function or module
            while True:
                for d in cov:
                    if span & set(d['lines'].get(f, ())):
                        res.append(d)
                break
        if not res and not m['fn']:
            names = set()
            res = [d for d in cov if d['lines'].get(f)]
    # specific and short cases first, within a time budget
    for d in res:
        if 'n' not in d:
            d['n'] = sum(len(v) for v in d['lines'].values())
    res.sort(key=lambda d: (d['t'] + .05) * d['n'])
    out, total = [], 0
    for d in res:
        if total + d['t'] <= a.budget or not out:
            out.append(d)
            total += d['t']
    return out


def child(f, m, src, cases, w):
    install(os.path.join(R, f), (src[:m['a']] + m['new'].encode() + src[m['b']:]))
    os.setpgid(0, 0)
    dn = os.open('/dev/null', os.O_WRONLY)
    os.dup2(dn, 1); os.dup2(dn, 2)

    def say(*x):
        os.write(w, (json.dumps(x) + '\n').encode())
    try:
        import pvlib  # noqa
    except BaseException as e:
        say('killed', 'import ' + type(e).__name__)
        os._exit(0)
    for d in cases:
        pid = os.fork()
        if pid == 0:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(int(d['t'] * 5 + 15))
            try:
                one(d['pid'], d['case'])
            except Killed as e:
                say('killed', d['pid'], d['case'], str(e)[:150])
                os._exit(1)
            except BaseException as e:
                say('killed', d['pid'], d['case'], 'exc ' + type(e).__name__ + str(e)[:100])
                os._exit(1)
            os._exit(0)
        _, st = os.waitpid(pid, 0)
        if os.WIFSIGNALED(st):
            say('killed', d['pid'], d['case'], 'signal')
            os._exit(0)
        if os.WEXITSTATUS(st):
            os._exit(0)
    say('survived', len(cases))
    os._exit(0)


def main():
    preload()
    todo = []
    done = {}
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l)
            done[d['file'], d['a'], d['b'], d['new'], d['old']] = d
    for spec in a.files:
        f, _, fn = spec.partition(':')
        src = open(os.path.join(R, f), 'rb').read()
        tree = ast.parse(src.decode())
        ms = [m for m in mutants(src.decode())
              if not fn or re.match(fn + r'(\.|$)', m['fn'])]
        if a.kinds:
            ks = a.kinds.split(',')
            ms = [m for m in ms if any(m['kind'].startswith(k) for k in ks)]
        for i, m in enumerate(ms):
            if i % a.step == a.phase and (f, m['a'], m['b'], m['new'], m['old']) not in done:
                todo.append((f, m, src, tree))
    print(len(todo), 'mutants', flush=True)
    out = open(a.out, 'a')
    live = {}
    n = k = s = u = 0
    t0 = time.time()
    it = iter(todo)
    end = False

    def finish(f, m, res):
        nonlocal n, k, s, u
        n += 1
        r = res[-1] if res else ['killed', 'died']
        if r[0] == 'killed':
            k += 1
        elif r[0] == 'survived':
            s += 1
        else:
            u += 1
        out.write(json.dumps(dict(file=f, **m, res=r)) + '\n')
        out.flush()
        if n % 100 == 0:
            print(n, 'killed', k, 'survived', s, 'uncovered', u, round(time.time() - t0), flush=True)
    while True:
        while len(live) < a.jobs and not end:
            x = next(it, None)
            if x is None:
                end = True
                break
            f, m, src, tree = x
            cs = cases_for(f, m, tree)
            if not cs:
                finish(f, m, [['uncovered']])
                continue
            r, w = os.pipe()
            p = os.fork()
            if p == 0:
                os.close(r)
                child(f, m, src, cs, w)
            os.close(w)
            live[r] = [p, f, m, b'']
        if not live:
            break
        for r in select.select(list(live), [], [], 5)[0]:
            b = os.read(r, 65536)
            if b:
                live[r][3] += b
            else:
                p, f, m, buf = live.pop(r)
                os.close(r)
                os.waitpid(p, 0)
                finish(f, m, [json.loads(l) for l in buf.decode().splitlines()])
    print('total', n, 'killed', k, 'survived', s, 'uncovered', u, round(time.time() - t0))


main()
