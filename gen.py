#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
PROPS = sorted(PROPS, key=lambda p: p['id'])
for p in PROPS:
    assert os.path.exists(f"contracts/{p['id'].lower()}.py"), p['id']
with open('properties.jsonl', 'w') as f:
    for p in PROPS + NOT_APPLICABLE:
        d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
man = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -c "import numpy, torch" && python3 -m compileall -q pydv contracts check.py >/dev/null && which cvc5 >/dev/null',
       'checks': [{'property': p['id'], 'quick_cmd': f"./check.py {p['id']} --tier quick",
                   'thorough_cmd': f"./check.py {p['id']} --tier thorough",
                   'technique': 'contract-based deductive verification: pre/postconditions, loop and data invariants on the real functions, '
                                'verification conditions generated from the current source by PyDV and discharged by z3/cvc5; '
                                'counter-models replayed on the real code',
                   'level': 'proof', 'level_note': p['note']} for p in PROPS],
       'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NOT_APPLICABLE],
       'notes': 'see DESIGN.md; evidence/<id>.json lists every contract with its own verdict (proved / bounded)'}
json.dump(man, open('MANIFEST.json', 'w'), indent=1)

# ---- DESIGN.md
import ast, glob, re


def contracts(pid):
    out = []
    src = open(f'contracts/{pid.lower()}.py').read()
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'harness' and len(d.args) > 1:
                    nm = d.args[1]
                    nm = pat(nm)
                    doc = ' '.join((ast.get_docstring(n) or '').split())
                    kw = {k.arg for k in d.keywords}
                    tag = ' *(bounded)*' if 'bounded_only' in kw else ' *(thorough)*' if 'thorough' in kw else ''
                    out.append((n.lineno, nm, doc, tag))
        # contracts registered in a loop: harness(P, f'..')(f)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Call) and getattr(n.func.func, 'id', '') == 'harness':
            nm = n.func.args[1]
            out.append((n.lineno, pat(nm), '', ''))
    return sorted(set(out))


def pat(nm):
    if isinstance(nm, ast.Constant):
        return str(nm.value)
    if isinstance(nm, ast.JoinedStr):
        return ''.join(v.value if isinstance(v, ast.Constant) else '*' for v in nm.values)
    if isinstance(nm, ast.BinOp):
        return pat(nm.left) + pat(nm.right)
    return '*'


def put(text, tag, body):
    a, b = f'<!-- {tag}:begin -->', f'<!-- {tag}:end -->'
    i, j = text.index(a) + len(a), text.index(b)
    return text[:i] + '\n' + body + '\n' + text[j:]


g = []
for p in PROPS:
    g.append(f"### {p['id']} {p['title']}\n")
    g.append('Code: ' + ', '.join('`' + f + '`' for f in p['anchors']['files']) + '.')
    g.append(f"Scope: {p['note']}.")
    g.append('Contracts: ' + '; '.join('`' + n + '`' + t + (' - ' + d.rstrip('.') if d else '') for _, n, d, t in contracts(p['id'])) + '.\n')
s = ['| bug | property | needs | caught |', '|---|---|---|---|']
caught = json.load(open('caught.json')) if os.path.exists('caught.json') else {}
for d in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(d))
    i = d.split('/')[1]
    s.append(f"| {i} | {m['property']} | {m['needs']} | {caught.get(i, 'not run')} |")
k = json.load(open('known_findings.json'))
kn = [f"* {x['property']} `{x['contract']}`: {x['what']}." for x in k['known']]
kn.append(f"\nRepaired: {len(k['fixed'])}.")
t = open('DESIGN.md').read()
t = put(t, 'generated', '\n'.join(g))
t = put(t, 'seeds', '\n'.join(s))
t = put(t, 'known', '\n'.join(kn))
open('DESIGN.md', 'w').write(t)
