#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property that has a harness, not_applicable for the rest."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = ''.join(open(f).read() for f in glob.glob(V + '/engine/harness/src/*.rs'))
have = set(re.findall(r'prop: "(C\d\d)"', src)) | set(re.findall(r'\bh\("\w+", "(C\d\d)"', src))
have.add('C22')
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {}
REAL = 'real functions of k executed symbolically from their LLVM IR (rewritten from the compiler output of the current tree); every branch and assertion decided by z3 over all values within the bounds printed in the evidence; '
NOTE = {
    'C22': 'Kani compiles the derived serde code of Constraints and an in-memory format; CBMC decides every assertion for all flag values, subsets of fields and names within the bounds; counterexamples are replayed natively.',
    'C03': REAL + 'IEEE-754 bit-precise for f64 and f32.',
    'C23': REAL + 'the mutex requests and releases of each operation are recorded from the same IR for every path; z3 decides whether up to four threads can wait for each other in a circle and finds the schedule, which is replayed on real threads.',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        checks.append({'property': i, 'quick_cmd': './check %s' % i, 'thorough_cmd': './check %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': 'bounded model checking of the compiled code with Kani/CBMC (SAT)' if i == 'C22' else 'symbolic execution of the compiled code (LLVM IR) with SMT (z3) deciding every branch and assertion',
                       'level': 'model_checking',
                       'level_note': NOTE.get(i, REAL + 'floats as exact reals (no rounding, NaN, overflow); bounded joints / operations as listed in the evidence. Trusted: the IR rewriting, the runtime, z3, native replay.')})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'bash engine/build.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks share one engine: see DESIGN.md. No hooks in /repo are needed (the IR is rewritten at link time).'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
