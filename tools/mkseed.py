"""mkseed.py SPEC.py: build and confirm planted bugs in a scratch copy of /repo.

SPEC.py calls seed(id, prop, needs, breaks, edits, demo).  For each: patch.diff,
demo.sh, demo.py and meta.json under seeded/<id>/, kept only when the patch
applies, the stable tests pass with it, and the demo separates both trees.
Prints whether the property's quick check catches it.
"""
import json, os, re, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedrepo'
BASE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **k)


def fresh():
    if os.path.exists(W):
        shutil.rmtree(W)
    sh(f'cp -a /repo {W}')
    sh(f'git -C {W} checkout -q -- .')


def stable():
    out = '/tmp/seedtest.xml'
    r = sh(f'. /opt/vp/env.sh; export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH={W}; '
           f'cd {W} && python -m pytest tests -q -p no:cacheprovider --timeout=300 -n 8 '
           '--dist loadfile --continue-on-collection-errors --disable-warnings --tb=no '
           f'-o junit_family=xunit2 --junitxml={out}', executable='/bin/bash')
    sh(f'python3 /opt/vp/results.py /tmp/seedtest.json junit:{out}')
    d = json.load(open('/tmp/seedtest.json'))
    bad = sorted(BASE - set(d['passed']))
    return bad


def seed(id, prop, needs, breaks, edits, demo, checks=None):
    only = sys.argv[2:]
    if only and id not in only:
        return
    d = os.path.join(H, 'seeded', id)
    fresh()
    for f, a, b in edits:
        p = os.path.join(W, f)
        s = open(p).read()
        if s.count(a) != 1:
            print(id, 'EDIT NOT UNIQUE', f, s.count(a), repr(a)[:80])
            return
        open(p, 'w').write(s.replace(a, b))
    diff = sh(f'git -C {W} diff').stdout
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(demo.strip() + '\n')
    open(d + '/demo.sh', 'w').write(
        '#!/bin/bash\nexport TZ=UTC OMP_NUM_THREADS=1\n'
        'export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n'
        'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks),
              open(d + '/meta.json', 'w'), indent=1)
    a = sh(f'cd /repo && bash {d}/demo.sh')
    b = sh(f'cd {W} && bash {d}/demo.sh')
    ok = a.returncode == 0 and b.returncode != 0
    if not ok:
        print(id, 'DEMO BAD', a.returncode, a.stdout[-300:], a.stderr[-600:],
              b.returncode, b.stdout[-300:])
    bad = stable()
    if bad:
        print(id, 'STABLE TESTS FAIL', bad[:5])
    if bad or not ok:
        shutil.rmtree(d)
        return
    res = []
    for c in (checks or [prop]):
        r = sh(f'VERIF_REPO={W} /opt/venv/bin/python {H}/run.py {c}')
        res.append((c, r.returncode, [l for l in r.stdout.splitlines()
                                      if 'VIOLATION' in l][:1]))
        sh(f'rm -rf {H}/replays_tmp')
    print(id, 'OK', 'demo:', b.stdout.strip()[-120:] or b.stderr.strip()[-120:], res, flush=True)


if __name__ == '__main__':
    exec(open(sys.argv[1]).read())
    if os.path.exists(W):
        shutil.rmtree(W)
