#!/usr/bin/env python3
"""Replays a counterexample file written by check.py against the real code."""
import sys, os, re, json, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
p = sys.argv[1]
head, inputs = {}, []
for l in open(p):
    m = re.match(r'# (\w+): (.*)', l)
    if m:
        head[m.group(1)] = m.group(2).strip()
    elif not l.startswith('#') and l.strip():
        n, v = l.split()
        inputs.append((n, int(v)))
harness, entry = re.match(r'(\S+) entry (\w+)', head['harness']).groups()
from spec import SPEC
g = next(g for s in SPEC.values() for g in s['groups'] if g['harness'] == harness and any(e['name'] == entry for e in g['entries']))
w = tempfile.mkdtemp(prefix='rcreplay_')
try:
    exe = w + '/n'
    check.Builder().native(harness, g['stub'], exe, g['flags'], g['threads'])
    rc, out, _ = check.run_native(exe, entry, inputs, json.loads(head['params']), w)
    print(out)
    v = check.native_verdict(rc, out)
    print(v)
    code = 0 if v == 'ok' else 1
finally:
    shutil.rmtree(w, ignore_errors=True)
sys.exit(code)
