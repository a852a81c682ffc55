#!/usr/bin/env python3
"""Writes DESIGN.md from tools/DESIGN.tmpl, spec.py, properties.jsonl, KNOWN_FINDINGS.json and seeded/."""
import glob
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from spec import SPEC
sys.path.insert(0, V + '/tools')
from design_text import HOW

t = open(V + '/tools/DESIGN.tmpl').read()
out = []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    s = SPEC[i]
    out.append(f"**{i} {p['title']}.** {HOW[i]}\n*Bounds:* {s['bounds']}.\n*Outside:* {s['outside']}.\n")
t = t.replace('%%TABLE%%', '\n'.join(out))
k = json.load(open(V + '/KNOWN_FINDINGS.json'))
t = t.replace('%%FINDINGS%%', '\n'.join(f"* {x['id']}: {x['what']}" for x in k))
rows = ['| change | needs | breaks | caught by |', '|---|---|---|---|']
res = json.load(open(V + '/tools/seed_results.json')) if os.path.exists(V + '/tools/seed_results.json') else {}
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    rows.append(f"| {n} | {m['needs']} | {m['what_it_breaks']} | {res.get(n, m['property'])} |")
t = t.replace('%%SEEDS%%', '\n'.join(rows))
open(V + '/DESIGN.md', 'w').write(t)
