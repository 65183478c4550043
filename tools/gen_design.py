#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the property modules, properties.jsonl and the planted changes."""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(V)
out = [open('tools/design_head.md').read()]
tech = dict(l.strip().split('|', 1) for l in open('tools/technique.txt') if '|' in l)
props = [json.loads(l) for l in open('properties.jsonl')]
caught = json.load(open('tools/planted.json')) if os.path.exists('tools/planted.json') else {}
out.append('\n## Properties\n')
for p in props:
    mod = open(f"rt/props/{p['id'].lower()}.py").read()
    g = {}
    stages = []
    for n in ast.parse(mod).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            t = n.targets[0].id
            if t in ('RULE', 'ASSUMPTIONS'):
                g[t] = ast.literal_eval(n.value)
            if t == 'STAGES':
                for c in n.value.elts:
                    a = [x.value for x in c.args if isinstance(x, ast.Constant)]
                    large = [k.value.value for k in c.keywords if k.arg == 'large']
                    stages.append(f'{a[0]} {a[1]}/{a[2]}' + (f' (every {large[0]}th large)' if large else ''))
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(f"*Technique.* {tech[p['id']].strip()}.\n")
    out.append(f"*Workload and oracle.* {g['RULE']}\n")
    if g['ASSUMPTIONS']:
        out.append('*Assumptions.* ' + ' '.join(a.rstrip('.') + '.' for a in g['ASSUMPTIONS']) + '\n')
    out.append(f"*Bounds (cases per run, quick/thorough).* {', '.join(stages)}.\n")
    out.append(f"*Beyond the tests.* {p['why_tests_cant']}\n")
out.append('## Planted changes\n\nEach is a patch in `seeded/` with a demonstration; all pass the existing tests. "missed at first" names those that '
           'led to a stronger check.\n\n| change | property | caught by | note |\n|---|---|---|---|\n')
rows = ''
for d in sorted(glob.glob('seeded/*/meta.json')):
    i = d.split('/')[1]
    m = json.load(open(d))
    c = caught.get(i, {})
    rows += f"| {i}: {m['what_it_breaks']} | {m['property']} | {', '.join(c.get('by', [])) or '–'} | {'missed at first' if c.get('missed') else ''} |\n"
out[-1] += rows
open('DESIGN.md', 'w').write('\n'.join(out))
