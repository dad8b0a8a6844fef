#!/usr/bin/env python3
"""Rewrites MANIFEST.json from the rule modules present in rules/props."""
import importlib
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'rules'))
NA = {}
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    if not os.path.exists(os.path.join(V, 'rules', 'props', p.lower() + '.py')):
        na.append({'property': p, 'reason': NA.get(p, 'check under construction')})
        continue
    m = importlib.import_module('props.' + p.lower())
    checks.append({'property': p, 'quick_cmd': 'python3 rules/run.py ' + p, 'evidence_file': 'evidence/%s.json' % p, 'technique': m.TECHNIQUE, 'level': 'other', 'level_note': m.NOTE})
out = {'version': 1, 'setup_cmd': 'python3 rules/run.py --setup', 'checks': checks, 'not_applicable': na,
       'notes': 'Static analysis only: witness files that name the public API are compiled against the current /repo sources to a typed graph (clang/LLVM 18) and the rules in rules/props are decided on that graph; type-level rules use compile-fail witnesses. Nothing from /repo is executed. Exit 2 means no answer (an anchor was not found).'}
json.dump(out, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
