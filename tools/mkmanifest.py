#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NOTE = {'C': 'Complete for all inputs within the bounds named in evidence (bounds); trusts rustc/LLVM IR generation, the executor (validated by native replay of sampled paths and of every counterexample) and z3.',
        'T': 'Complete for all histories and strings within the bounds named in evidence; hash maps are iterated in one order; trusts the IR, the executor (validated by native replay) and z3.',
        'S': 'Complete for the stated scenarios, inputs and scheduling choices; tokio\'s I/O, timers and scheduler are replaced by a model (single thread, preemption at awaits), sync primitives are the real ones; trusts the IR, the executor and z3.',
        'G': 'Complete for all configuration values; trusts the IR, the executor and z3.'}
m = {'version': 1, 'setup_cmd': 'python3 tools/prep.py',
     'checks': [{'property': p, 'quick_cmd': 'python3 tools/check.py %s quick' % p, 'thorough_cmd': 'python3 tools/check.py %s thorough' % p, 'technique': plan.TECH[p[0]], 'level': plan.LEVEL, 'level_note': NOTE[p[0]]} for p in ids if p in plan.PLAN],
     'not_applicable': [{'property': p, 'reason': plan.NA.get(p, 'No check yet.')} for p in ids if p not in plan.PLAN],
     'notes': 'Checks need no hooks in /repo: they compile a staged copy of /repo/src together with /verif/harness (see tools/prep.py).'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(m['checks']), 'checks')
