#!/usr/bin/env python3
"""writes MANIFEST.json from vf/props.py and properties.jsonl"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.dont_write_bytecode = True
from vf.props import PROPS
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
NA = {}
exec(open(os.path.join(H, 'tools', 'na.py')).read())
checks, na = [], []
for p in props:
    i = p['id']
    if i in PROPS:
        s = PROPS[i]
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s --tier quick' % i, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
                       'technique': s.get('technique', 'contract-based deductive verification of the real C++ source (verification conditions from clang\'s AST, Z3, Lean lemmas)'),
                       'level': s.get('level', 'proof'), 'level_note': s.get('note', 'see DESIGN.md')})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'not built yet')})
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3"', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: /repo is compiled and extracted as it is. Every check extracts the AST of, and builds, /repo/src from its current tree in a scratch directory.'}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
