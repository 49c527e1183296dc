"""Regenerates DESIGN.md: tools/design_head.md + one section per property (from tools/how.py, the checks and props) + tools/design_tail.md"""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(V, 'tools')
how = {}
exec(open(os.path.join(T, 'how.py')).read(), how)
seeds = {}
res = json.load(open(os.path.join(T, 'seeds.json'))) if os.path.exists(os.path.join(T, 'seeds.json')) else {}
for s in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', s, 'meta.json')))
    seeds.setdefault(m['property'], []).append((s, m, res.get(s)))
out = [open(os.path.join(T, 'design_head.md')).read(), '## 2. Per property\n']
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    c = {}
    for n in ast.parse(open(os.path.join(V, 'checks', i.lower() + '.py')).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('BOUNDS', 'OUTSIDE', 'ASSUMPTIONS'):
            c[n.targets[0].id] = ast.literal_eval(n.value)
    out.append(f"### {i} {p['title']}\n\n{how['HOW'][i].strip()}\n\n* Bounds (quick): {c['BOUNDS']['quick']}\n* Bounds (thorough): {c['BOUNDS']['thorough']}\n"
               f"* Outside: {c['OUTSIDE']}" + (f"\n* Assumed: {'; '.join(c['ASSUMPTIONS'])}" if c.get('ASSUMPTIONS') else '')
               + f"\n* Cost of the quick check: about {how['COST'][i]} s\n"
               + ''.join(f"* Planted `{s}` ({m['what_it_breaks']}): {r or 'not run'}\n" for s, m, r in seeds.get(i, [])))
out.append(open(os.path.join(T, 'design_tail.md')).read())
k = json.load(open(os.path.join(V, 'known_findings.json')))
es = k if isinstance(k, list) else k.get('findings', []) + k.get('fixed', [])
out.append('## 7. Defects found on the unchanged tree\n\nRecorded, not repaired (known findings):\n')
out += [f"* `{e['id']}` ({e['property']}): {e['what']}" for e in es if 'id' in e]
out.append('\nRepaired by `fix:` commits in /repo:\n')
out += [f"* {e['property']} `{e['commit']}`: {e['what'].split(' ', 3)[3]}" for e in es if 'commit' in e]
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
