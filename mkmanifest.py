#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
from checks import CHECKS
NA = {'C26': 'The claim is about interleavings of threads. The engine executes one thread; encoding all interleavings of the search loop of two contexts is out of reach, and the part that can be decided sequentially (contexts are independent and the program is not written to during a search) is decided under C10.',
      'C27': 'The bindings run inside the JVM and CPython; their glue (JNI calls, ctypes marshalling) executes in runtimes that cannot be encoded for a solver here. What they call, the C API, is covered by the other checks.'}
ps = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': [], 'not_applicable': []}
for p in ps:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py ' + i, 'technique': c.get('technique', 'bounded symbolic execution of the real code (LLVM IR) with an SMT solver, against an independent oracle'),
            'level': 'model_checking', 'level_note': c.get('note') or ('Within the bounds every input is decided: each path condition is checked by the solver, and counterexamples are replayed against the real build before being reported. Bounds (quick): ' + (c['bounds']['quick'] if isinstance(c['bounds'], dict) else c['bounds']) + '. Trusts the instrumentation (sampled paths are compared with the native build) and z3.')})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'No check yet.')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
