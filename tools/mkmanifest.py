"""Regenerates MANIFEST.json: every property with a check module is claimed."""
import importlib, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = ['/repo', H]
PY = '/opt/venv/bin/python'
checks, na = [], []
NA = {}
DEF_T = ('explicit-state bounded model checking: exhaustive enumeration of a finite input/configuration space '
         'on the real code against a scalar reference model')
for line in open(os.path.join(H, 'properties.jsonl')):
    d = json.loads(line)
    pid = d['id']
    f = os.path.join(H, 'mc', 'checks', pid + '.py')
    if os.path.exists(f):
        m = importlib.import_module(f'mc.checks.{pid}')
        doc = ' '.join((m.__doc__ or '').split())
        checks.append(dict(
            property=pid,
            quick_cmd=f'{PY} run.py {pid} --tier quick',
            thorough_cmd=f'{PY} run.py {pid} --tier thorough',
            technique=getattr(m, 'TECHNIQUE', DEF_T),
            level=getattr(m, 'LEVEL', 'model_checking'),
            level_note=getattr(m, 'NOTE', doc + ' Every element of the stated finite space is executed on the '
                'implementation and compared with the model (nothing is sampled); values between or beyond the lattice '
                'points are not covered. Trusts numpy/pandas arithmetic and the reference model.')))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, 'check under construction')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='No hooks are needed in /repo: the checks drive public and module-level functions.'),
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed;', [n['property'] for n in na])
