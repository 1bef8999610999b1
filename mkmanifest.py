#!/usr/bin/env python3
"""writes MANIFEST.json from spec.py and properties.jsonl"""
import json, spec
props = [json.loads(l) for l in open('properties.jsonl')]
TECH = 'symbolic execution of the compiled code (LLVM IR regenerated from /repo) with z3/cvc5 deciding every branch and assertion; counterexamples replayed natively'
NOTE = 'Bounded: %s. Outside: %s Trusted: the symbolic executor, clang -O1, z3/cvc5, and the environment model (threads, mutexes, condition variables, futures, named semaphores, POSIX shared memory, clocks) in models/env.cpp, which the native replays share; sampled paths are re-run on the natively compiled code and must behave identically.'
checks, na = [], []
for p in props:
    i = p['id']
    if i in spec.PROPS:
        P = spec.PROPS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i, 'evidence_file': 'evidence/%s.json' % i, 'technique': TECH, 'level': 'model_checking', 'level_note': NOTE % (P['bounds'].rstrip('.'), P.get('outside', 'larger sizes.'))})
    else: na.append({'property': i, 'reason': spec.NA.get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': 'bash engine/build.sh', 'checks': checks, 'not_applicable': na, 'notes': 'No hooks in /repo: the checks compile the unmodified sources. known_findings.jsonl lists what was found and repaired.'}, open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
