#!/usr/bin/env python3
"""Writes MANIFEST.json: the claimed checks and the not-applicable list."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
claims = json.load(open(os.path.join(here, 'tools/claims.json')))
TECH = 'contract-based deductive verification of the Go functions (weakest-precondition style obligations from go/ssa, discharged by z3/cvc5)'
checks, na = [], []
for p in props:
    c = claims['claimed'].get(p['id'])
    if c is None:
        na.append({'property': p['id'], 'reason': claims['not_applicable'].get(p['id'], 'no check built yet')})
        continue
    checks.append({'property': p['id'],
        'quick_cmd': 'bash run.sh check ' + p['id'],
        'thorough_cmd': 'VERIF_TIER=thorough bash run.sh check ' + p['id'],
        'technique': TECH, 'level': 'proof', 'level_note': c['note'],
        **({'theorems': c['theorems']} if c.get('theorems') else {})})
m = {'version': 1, 'setup_cmd': 'bash run.sh build', 'checks': checks, 'not_applicable': na}
if claims.get('hooks'): m['hooks'] = claims['hooks']
m['notes'] = claims.get('notes', '')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
