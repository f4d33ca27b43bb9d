#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules' declarations (tools/claims.json)."""
import json
C = json.load(open('/verif/tools/claims.json'))
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    c = C.get(i)
    if c and 'na' not in c:
        checks.append(dict(property=i, quick_cmd=f'python3-vt check.py {i}', thorough_cmd=f'python3-vt check.py {i}', technique=c['technique'], level=c['level'], level_note=c['note']))
    else:
        na.append(dict(property=i, reason=(c or {}).get('na', 'no check yet')))
json.dump(dict(version=1, setup_cmd='python3-vt -m dv.setup', checks=checks, not_applicable=na,
               notes='Deductive verification: cxx2json (clang 18) extracts the typed AST of /repo on every run, dv/ generates verification conditions from contracts, z3/cvc5 discharge them; replay/ searches failing inputs on the compiled code.'),
          open('/verif/MANIFEST.json', 'w'), indent=1)
