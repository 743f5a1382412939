"""Writes DESIGN.md from docs/intro.md, the catalogue, the monitors, KNOWN_FINDINGS.txt, seeded/ and docs/notes.md."""
import ast
import glob
import json
import os
import re
import sys

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(H)
props = [json.loads(l) for l in open('properties.jsonl')]
man = {c['property']: c for c in json.load(open('MANIFEST.json'))['checks']}
costs = json.load(open('docs/costs.json')) if os.path.exists('docs/costs.json') else {}
find = {}
for l in open('KNOWN_FINDINGS.txt'):
    m = re.match(r'(fixed|finding): property=(\S+) (.*)', l)
    if m:
        find.setdefault(m.group(2), []).append((m.group(1), m.group(3)))
seeds = []
for f in sorted(glob.glob('seeded/*/meta.json')):
    seeds.append((os.path.basename(os.path.dirname(f)), json.load(open(f))))
out = [open('docs/intro.md').read().rstrip(), '', '## The properties', '']


def const(n):
    try:
        return ast.literal_eval(n)
    except Exception:
        return ast.unparse(n)


for p in props:
    i = p['id']
    t = ast.parse(open(f'checks/{i}.py').read())
    consts = {n.targets[0].id: const(n.value) for n in t.body if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)
              and n.targets[0].id in ('RULE', 'ASSUMPTIONS')}
    out += [f'### {i} {p["title"]}', '', p['statement'], '', f'*Why tests cannot settle it:* {p["why_tests_cant"]}', '']
    note = man.get(i, {}).get('level_note', '')
    out += [f'*Workloads and oracles* ({ast.get_docstring(t)})', '']
    for n in t.body:
        if not isinstance(n, ast.FunctionDef):
            continue
        for d in n.decorator_list:
            if isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'monitor':
                a = [const(x) for x in d.args]
                k = {x.arg: const(x.value) for x in d.keywords}
                q = a[0] if a else k.get('quick')
                th = a[1] if len(a) > 1 else k.get('thorough')
                need = k.get('need')
                need = '' if not need else f'; inconclusive below {need}'
                out.append(f'- `{n.name}` ({q} / {th} cases quick / thorough{need}): {" ".join((ast.get_docstring(n) or "").split())}')
    out += ['', f'*Case rule:* {consts.get("RULE", "")}', '', f'*Assumptions:* {"; ".join(consts.get("ASSUMPTIONS", []))}.']
    c = costs.get(i)
    if c:
        out.append('')
        out.append(f'*Cost on 8 cores:* quick {c.get("quick", "?")} s, thorough {c.get("thorough", "?")} s.')
    out += ['', f'*Bounds:* {note}']
    for kind, text in find.get(i, []):
        out.append(f'- {kind}: {text}')
    s = [n for n, m in seeds if m['property'] == i]
    if s:
        out += ['', 'Planted bugs it reports: ' + ', '.join(f'`{x}`' for x in s) + '.']
    out.append('')
out += [open('docs/notes.md').read().rstrip(), '', '| planted bug | property | what it breaks | needs |', '|---|---|---|---|']
for n, m in seeds:
    out.append(f'| `{n}` | {m["property"]} | {m["what_it_breaks"]} | {m["needs"]} |')
open('DESIGN.md', 'w').write('\n'.join(out) + '\n')
