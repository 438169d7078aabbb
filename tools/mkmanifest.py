#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from registry import CHECKS
NA = {}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'bash engine/build.sh',
     'hooks': {'guard': 'REFLEX_VERIF_BLOCK', 'enable': '-DREFLEX_VERIF_BLOCK=16 (smaller buffer block) and -DREFLEX_VERIF_LONG=12 (lower threshold of 64 bit jump opcodes): compile defines, set by check.py for the harnesses that exercise buffer shifting and long jumps', 'source_commits': ['dba9a61', '6a073b1']},
     'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in CHECKS:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
            'technique': CHECKS[i].get('technique', 'symbolic execution of the LLVM IR of /repo with Z3 (symx), counterexamples replayed natively'), 'level': 'model_checking',
            'level_note': CHECKS[i].get('note', 'bounded: exhaustive over all values of the symbolic bytes within the bounds stated in the evidence; patterns and sizes outside the bounds are not covered')})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
