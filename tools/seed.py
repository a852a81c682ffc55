#!/usr/bin/env python3
"""seed.py new ID PROPERTY FILE: reads JSON {edits:[[file,old,new]...],needs,breaks,demo} from FILE (python literal) and creates seeded/ID.
seed.py try ID...: applies each patch to /repo, builds, tests, runs its demo with and without, runs its check; undoes it."""
import sys, os, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('SEED_REPO', '/tmp/seedrepo') # a scratch clone of /repo with a build of its own
if not os.path.exists(R):
    subprocess.run(f'git clone -q /repo {R} && mkdir -p {R}/ext && cp -a /repo/ext/. {R}/ext/ && cd {R} && echo _build/ >> .git/info/exclude && for f in build test; do sed -e "s#/repo#{R}#g" -e "s#/opt/vp/build.sh#{R}-build.sh#" /opt/vp/$f.sh > {R}-$f.sh; done; sed -i "s#_FLAGS_DEBUG=-O1#_FLAGS_DEBUG=-O0#" {R}-build.sh', shell=True, check=True)
BUILD, TEST = f'bash {R}-build.sh', f'bash {R}-test.sh {R}-out.json'
os.environ['RC_REPO'] = R
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
DEMO = '''#!/bin/bash
# exit 0 if the guarantee holds on the tree in the current directory
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -r "$T"' EXIT
unset RC_PARAMS
g++ -std=c++14 -O1 -w -Iinclude -Isrc %s "$D/demo.cpp" _build/librapidcheck.a -pthread -o "$T/demo" || exit 1
cd "$T" && timeout 120 ./demo
'''
def new(i, d):
    o = f'{V}/seeded/{i}'
    os.makedirs(o, exist_ok=True)
    assert not sh(f'git -C {R} status --short').stdout.strip(), 'repo dirty'
    try:
        for f, a, b in d['edits']:
            p = f'{R}/{f}'
            s = open(p).read()
            assert s.count(a) == 1, (i, f, s.count(a), a)
            open(p, 'w').write(s.replace(a, b))
        diff = sh(f'git -C {R} diff').stdout
    finally:
        sh(f'git -C {R} checkout -- .')
    open(f'{o}/patch.diff', 'w').write(diff)
    open(f'{o}/demo.cpp', 'w').write(d['demo'].lstrip())
    open(f'{o}/demo.sh', 'w').write(DEMO % d.get('flags', ''))
    os.chmod(f'{o}/demo.sh', 0o755)
    json.dump(dict(property=d['property'], needs=d['needs'], what_it_breaks=d['breaks']), open(f'{o}/meta.json', 'w'), indent=1)
def demo(i):
    return subprocess.run(['bash', f'{V}/seeded/{i}/demo.sh'], cwd=R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
def attempt(ids):
    assert not sh(f'git -C {R} status --short').stdout.strip(), 'repo dirty'
    sh(TEST)
    base = {i: demo(i) for i in ids}
    ok = True
    for i in ids:
        prop = json.load(open(f'{V}/seeded/{i}/meta.json'))['property']
        msg = []
        if base[i].returncode: msg.append('DEMO FAILS ON CLEAN TREE: ' + base[i].stdout[-500:])
        try:
            a = sh(f'git -C {R} apply {V}/seeded/{i}/patch.diff')
            if a.returncode: msg.append('NO APPLY ' + a.stdout)
            t = sh(TEST)
            if '1515 passed, 0 failed' not in t.stdout:
                err = [l for l in t.stdout.splitlines() if 'error' in l]
                try: err += sorted(set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - set(json.load(open(f'{R}-out.json'))['passed']))
                except Exception as e: err.append(repr(e))
                msg.append('TESTS: ' + ' | '.join(err[:6]))
            x = demo(i)
            if x.returncode == 0: msg.append('DEMO PASSES WITH PATCH')
            c = sh(f'python3 {V}/check.py {prop}')
            caught = c.returncode == 1 and f'VIOLATION property={prop}' in c.stdout
        finally:
            sh(f'git -C {R} checkout -- .')
        print(i, prop, 'CAUGHT' if caught else 'missed', '; '.join(msg), flush=True)
if __name__ == '__main__':
    if sys.argv[1] == 'new':
        for i, d in eval(open(sys.argv[2]).read()).items(): new(i, d)
    else: attempt(sys.argv[2:])
