#!/usr/bin/env python3
"""Writes DESIGN.md: design_head.md, one section per property (docstring of its check), fixes, planted bugs, notes."""
import ast, json, os, sys, glob
T = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(T)
sys.path.insert(0, T)
from props import PROPS, NOT_APPLICABLE
out = [open(T + '/design_head.md').read().rstrip(), '']
for p in PROPS:
    doc = ast.get_docstring(ast.parse(open(f"{V}/hstat/checks/{p['id'].lower()}.py").read()))
    doc = doc.split('  ', 1)[1] if doc.startswith('P') and '  ' in doc else doc
    doc = ' '.join(doc.split())
    ev = f"{V}/tools/cost.json"
    c = json.load(open(ev)).get(p['id']) if os.path.exists(ev) else None
    out += [f"### {p['id']} {p['title']}", '', f"*Decided:* {doc}", '', f"*Bounds and level:* {p['note']}", '',
            f"*Beyond the tests:* {p['why']}" + (f" *Cost:* {c[0]} obligations over {c[1]} functions, {c[2]} s." if c else ''), '']
out += ['## Not applicable', '']
out += [f"* {p['id']} {p['title']}: {p['reason']}" for p in NOT_APPLICABLE] or ['None of the listed properties is declined.']
out += ['', open(T + '/design_tail.md').read().rstrip(), '', '## Genuine defects found', '',
        'Each was shown against the real code before it was repaired; all are separate `fix:` commits in `/repo`, recorded in '
        '`known_findings.json`.', '']
k = json.load(open(V + '/known_findings.json'))['findings']
for f in k:
    out.append(f"* {f['status']} {f['property']} {f.get('commit', '')}: {f['what']}")
out += ['', '## Planted bugs (`seeded/`) and the checks that catch them', '', '| bug | property | what it breaks | caught by |', '|---|---|---|---|']
r = json.load(open(T + '/seed_results.json')) if os.path.exists(T + '/seed_results.json') else {}
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    out.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {r.get(i, '-')} |")
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
