#!/usr/bin/env python3
"""Writes MANIFEST.json from engine/props.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'engine'))
import props
NA = {
 'C26': 'The rejection happens in the Rust type checker: no execution of the code decides it and no symbolic execution of the library can; checking it means compiling programs one by one (the compile_fail doc tests of the repository), which is enumeration, not solving.',
 'C27': 'The property is about a distribution delivered by the external rand crate and the operating system; single-run assertions over symbolic inputs cannot express it.',
 'C28': 'The round trip goes through serde_json and the file system, both outside the repository; the repository contributes only the two calls. Encoding the JSON printer/parser and file IO symbolically is not within reach.',
}
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks = []; na = []
for i in ids:
    if i in props.PROPS:
        P = props.PROPS[i]
        checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i, evidence_file='evidence/%s.json' % i,
            technique=P.technique, level='model_checking',
            level_note='Bounds: ' + P.bounds('quick') + '. ' + ' '.join(a + '.' for a in P.assumptions) + ' Trusts rustc/LLVM, the executor in engine/ and the SMT solvers; counterexamples are replayed on the native build before they are reported.'))
    else: na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
fixes = [k for k in []]
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
