"""Writes DESIGN.md from the hand-written parts below, the check modules, the
last evidence files (sizes) and the planted-bug folders."""
import ast, glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = open(os.path.join(H, 'tools', 'design_head.md')).read()
TAIL = open(os.path.join(H, 'tools', 'design_tail.md')).read()
NOTES = {}
exec(open(os.path.join(H, 'tools', 'design_notes.py')).read())
caught = json.load(open(os.path.join(H, 'tools', 'seed_results.json'))) if os.path.exists(os.path.join(H, 'tools', 'seed_results.json')) else {}
seeds = {}
for f in sorted(glob.glob(os.path.join(H, 'seeded', '*', 'meta.json'))):
    d = json.load(open(f)); seeds.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(f)), d))
out = [HEAD, '\n## 4. The properties, one by one\n']
for line in open(os.path.join(H, 'properties.jsonl')):
    d = json.loads(line); pid = d['id']
    src = os.path.join(H, 'mc', 'checks', pid + '.py')
    doc = ' '.join(ast.get_docstring(ast.parse(open(src).read())).split())
    out.append(f"### {pid} {d['title']}\n")
    out.append(f"*Explored against what.* {doc}\n")
    n = NOTES.get(pid, {})
    out.append(f"*Why the tests cannot settle it.* {d['why_tests_cant']}\n")
    if 'reach' in n: out.append(f"*Bounds worth knowing.* {n['reach']}\n")
    if 'limits' in n: out.append(f"*Not covered / deliberate limits of the statement.* {n['limits']}\n")
    ev = os.path.join(H, 'evidence', pid + '.json')
    if os.path.exists(ev):
        e = json.load(open(ev)); c = e['coverage']
        cs = ', '.join(f"{k['case'].replace('|', '/')} ({k['states']})" for k in c['cases'])
        out.append(f"*Quick tier* ({c['states']} states, {c['transitions']} deliveries, {c['traces_validated_against_impl']} comparisons, "
                   f"about {max(1, round(e['wall_s']))} s on 8 cores; case (states)): {cs}.\n")
    for name, m in seeds.get(pid, []):
        r = caught.get(name, 'caught by this check')
        out.append(f"*Planted bug* `{name}`: {m['what_it_breaks']} Needs: {m['needs']}. Result: {r}.\n")
k = json.load(open(os.path.join(H, 'known_findings.json')))
out.append(TAIL)
out.append('\n### Known findings (defects recorded, not repaired)\n')
out += [f"- {x['property']} `{x['key']}`: {x['what']}" for x in k['findings']]
out.append('\n### Repaired defects ("fix:" commits in /repo)\n')
out += ['- ' + x for x in k['fixed']]
open(os.path.join(H, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
print(len('\n'.join(out)))
