#!/usr/bin/env python3
"""Writes MANIFEST.json from spec.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from spec import SPEC
import spec
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = getattr(spec, 'NOT_APPLICABLE', {})
checks, na = [], []
for p in props:
    i = p['id']
    if i in SPEC:
        s = SPEC[i]
        checks.append(dict(property=i, quick_cmd=f'python3 check.py {i} --tier quick', thorough_cmd=f'python3 check.py {i} --tier thorough', evidence_file=f'evidence/{i}.json',
            technique='bounded symbolic execution of the LLVM IR of the real code, assertions decided by Z3, counterexamples replayed natively',
            level='model_checking',
            level_note=('Every input within the bounds is covered, nothing outside them. Bounds: ' + s['bounds'] + '. Outside: ' + s['outside'] + '. Trusted: clang 18 IR generation, the interpreter in engine/, Z3, the iostream/libstdc++ models in shim/ and rt/ (cross-checked by native replay of sampled paths).')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='make -j8 -C engine', checks=checks, not_applicable=na)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
