"""again.py OUT REGEX PID[,PID] [--jobs n]: the survivors of OUT whose 'file:function' matches
REGEX, against every quick case of the given properties (no coverage filter, no time budget).
Appends their results to OUT.again (show.py reads both)."""
import json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
OUT, RX, WANT = sys.argv[1], sys.argv[2], sys.argv[3].split(',')
JOBS = int(sys.argv[sys.argv.index('--jobs') + 1]) if '--jobs' in sys.argv else 6
SKIP = set(sys.argv[sys.argv.index('--skip') + 1].split(',')) if '--skip' in sys.argv else set()
sys.argv = ['run.py', '/tmp/cov.json', 'x']
src_run = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'run.py')).read()
exec(src_run.rsplit('main()', 1)[0])
preload()
import importlib
cases = []
for p in WANT:
    for c in importlib.import_module('mc.checks.' + p).CASES:
        if c[0] not in SKIP:
            cases.append(dict(pid=p, case=c[0], t=60))
rows = list({(m['file'], m['a'], m['b'], m['new'], m['old']): m for m in map(
    json.loads, [*open(OUT), *(open(OUT + '.again') if os.path.exists(OUT + '.again') else ())])}.values())
live, n, k = {}, 0, 0
todo = [r for r in rows if r['res'][0] != 'killed' and re.search(RX, r['file'] + ':' + r['fn'])]
print(len(todo), 'survivors', len(cases), 'cases', flush=True)
it = iter(todo)
end = False
while True:
    while len(live) < JOBS and not end:
        m = next(it, None)
        if m is None:
            end = True
            break
        src = open(os.path.join(R, m['file']), 'rb').read()
        if src[m['a']:m['b']] != m['old'].encode() and m['old'][:40].encode() not in src[m['a']:m['b']]:
            print('moved', m['file'], m['line'])
            continue
        r, w = os.pipe()
        if os.fork() == 0:
            os.close(r)
            child(m['file'], m, src, cases, w)
        os.close(w)
        live[r] = [m, b'']
    if not live:
        break
    for r in select.select(list(live), [], [], 5)[0]:
        b = os.read(r, 65536)
        if b:
            live[r][1] += b
        else:
            m, buf = live.pop(r)
            os.close(r)
            res = [json.loads(l) for l in buf.decode().splitlines()]
            m['res'] = res[-1] if res else ['killed', 'died']
            n += 1
            k += m['res'][0] == 'killed'
            if m['res'][0] != 'killed':
                print('SURVIVES', m['file'], m['line'], m['fn'], repr(m['old'])[:70], '->', repr(m['new'])[:70], flush=True)
print('rerun', n, 'killed', k)
with open(OUT + '.again', 'a') as f:
    for m in todo:
        f.write(json.dumps(m) + '\n')
