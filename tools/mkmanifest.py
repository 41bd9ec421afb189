#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl and cm/registry.py"""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from cm import registry
checks, na = [], []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)['id']
    if p in registry.PROPS:
        P = registry.PROPS[p]
        checks.append({'property': p, 'quick_cmd': 'python3 check.py %s quick' % p, 'thorough_cmd': 'python3 check.py %s thorough' % p,
                       'technique': P.get('technique', registry.TECHNIQUE), 'level': P.get('level', 'model_checking'),
                       'level_note': P.get('note', registry.NOTE)})
    else:
        na.append({'property': p, 'reason': registry.NA.get(p, 'not built yet')})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: the programs are observed through their files; time and file operations are controlled by an LD_PRELOAD library (cm/shim.c).'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
