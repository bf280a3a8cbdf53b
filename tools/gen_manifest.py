#!/usr/bin/env python3
"""Regenerates MANIFEST.json from harness/configs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/harness'); sys.dont_write_bytecode = True
import configs
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NOTE = ('Every input, schedule, wakeup choice and fault within the stated bounds (listed per task in the evidence) is decided by SAT/SMT over the real code\'s LLVM IR; '
        'counterexamples and reachability witnesses are replayed natively. Trusts the pthread/heap models, sequential consistency, clang and the engine. ')
m = {'version': 1, 'setup_cmd': 'python3 run.py --setup', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in configs.CHECKS:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 run.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 run.py ' + i, 'evidence_file': 'evidence/%s.json' % i,
            'technique': 'symbolic execution of the compiled sources (LLVM IR) over inputs and schedules, decided by SAT/SMT', 'level': 'model_checking', 'level_note': NOTE + configs.NOTES.get(i, '')})
    else: m['not_applicable'].append({'property': i, 'reason': configs.NA.get(i, 'check not built yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
