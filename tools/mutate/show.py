"""show.py OUT [FILE-substring]: surviving mutants with their source line."""
import json, sys, os
R = os.environ.get('VERIF_REPO', '/repo')
rows = {}
for p in (sys.argv[1], sys.argv[1] + '.again'):
    if os.path.exists(p):
        for l in open(p):
            d = json.loads(l)
            rows[d['file'], d['a'], d['b'], d['new'], d['old']] = d
for d in rows.values():
    if d['res'][0] == 'killed' or (len(sys.argv) > 2 and sys.argv[2] not in d['file']):
        continue
    L = open(os.path.join(R, d['file'])).read().splitlines()
    print(f"{d['file'][6:]}:{d['line']} {d['fn'].split('.')[-1]} [{d['res'][0][0]}] {d['kind']}: {d['old'][:70]!r} -> {d['new'][:70]!r}   | {L[d['line']-1].strip()[:70]}")
