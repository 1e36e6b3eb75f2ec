#!/usr/bin/env python3
"""fixed.py PROP 'commit subject substring' 'what failed' - record a repair in known_findings.json"""
import json, subprocess, sys
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
m = [l for l in log if sys.argv[2] in l]
assert len(m) == 1, m
p = '/verif/known_findings.json'
f = json.load(open(p))
e = f'fixed: property={sys.argv[1]} {m[0].split()[0]} {sys.argv[3]}'
if e not in f['fixed']:
    f['fixed'].append(e)
json.dump(f, open(p, 'w'), indent=1)
