#!/usr/bin/env python3
"""Solver-based check of one property of /repo (rapidcheck).

  check.py PROPERTY [--tier quick|thorough] [--keep] [--entry NAME]

Steps: build the symbolic engine if needed; compile /repo's current sources and
the property's harness to LLVM IR and, separately, natively; run every harness
entry in the engine (all inputs within the stated bounds, decided by Z3);
replay counterexamples natively and report those that reproduce; replay sampled
paths natively to cross-check the engine; write evidence/<id>.json.
"""
import sys, os, re, json, time, glob, hashlib, subprocess, threading, shutil, tempfile, queue
import concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('RC_REPO', '/repo')
sys.path.insert(0, VERIF)
LLVM = '/usr/lib/llvm-18/bin/'
CACHE = os.path.join(VERIF, '.cache')
NPROC = max(2, min(8, os.cpu_count() or 8))
IRFLAGS = ['-O1', '-g', '-emit-llvm', '-fno-vectorize', '-fno-slp-vectorize', '-w', '-isystem', VERIF + '/shim', '-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + VERIF + '/harness']
NATFLAGS = ['-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer', '-w', '-DSYM_NATIVE=1', '-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + VERIF + '/harness']
T0 = time.time()


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        for f in sorted(glob.glob(p + '/**', recursive=True)) if os.path.isdir(p) else [p]:
            if os.path.isfile(f):
                h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    return h.hexdigest()


class BuildError(Exception):
    pass


class Builder:
    def __init__(self):
        os.makedirs(CACHE, exist_ok=True)
        self.hdr = tree_hash([REPO + '/include', REPO + '/extras', VERIF + '/shim'] + sorted(glob.glob(VERIF + '/harness/*.h')) + [VERIF + '/harness/hosts', VERIF + '/harness/hosts17'] + sorted(glob.glob(REPO + '/src/**/*.h', recursive=True)))
        self.ex = cf.ThreadPoolExecutor(NPROC)

    def obj(self, src, flags, ext, post=None, extra=''):
        key = hashlib.sha256((self.hdr + src + ' '.join(flags) + extra).encode() + open(src, 'rb').read()).hexdigest()[:24]
        out = f'{CACHE}/{key}.{ext}'
        if os.path.exists(out):
            os.utime(out)
            return out
        tmp = f'{out}.{os.getpid()}.{threading.get_ident()}'
        r = sh([LLVM + 'clang++', '-c', src, '-o', tmp] + flags)
        if r.returncode:
            raise BuildError(f'{src}\n' + '\n'.join([l for l in r.stdout.splitlines() if 'error' in l][:10]))
        if post:
            post(tmp)
        os.replace(tmp, out)
        return out

    def sources(self):
        return sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True))

    def ir(self, harness, stub, flags=()):
        fs = [self.ex.submit(self.obj, VERIF + '/harness/' + harness, ['-std=c++14'] + IRFLAGS + list(flags), 'bc')]
        fs += [self.ex.submit(self.obj, s, ['-std=c++11'] + IRFLAGS, 'bc') for s in self.sources()]
        fs.append(self.ex.submit(self.obj, VERIF + '/rt/rt.cpp', ['-std=c++14', '-fno-builtin'] + IRFLAGS, 'bc'))
        if stub:
            fs.append(self.ex.submit(self.obj, VERIF + '/harness/randstub.cpp', ['-std=c++14'] + IRFLAGS, 'bc'))
        return [f.result() for f in fs]

    def link_ir(self, objs, out):
        r = sh([LLVM + 'llvm-link', '-o', out] + objs)
        if r.returncode:
            raise BuildError('llvm-link: ' + r.stdout[:500])

    def native(self, harness, stub, out, flags=(), threads=False):
        if threads:
            return self.native_threads(harness, out, flags)

        def ren(p):
            sh(['objcopy', '--redefine-sym', '_ZN2rc6Random4nextEv=rc_real_random_next', p])
        fs = [self.ex.submit(self.obj, VERIF + '/harness/' + harness, ['-std=c++14'] + NATFLAGS + list(flags), 'o')]
        for s in self.sources():
            if stub and s.endswith('/Random.cpp'):
                fs.append(self.ex.submit(self.obj, s, ['-std=c++11'] + NATFLAGS, 'o', ren, 'renamed'))
            else:
                fs.append(self.ex.submit(self.obj, s, ['-std=c++11'] + NATFLAGS, 'o'))
        fs.append(self.ex.submit(self.obj, VERIF + '/harness/native.cpp', ['-std=c++14'] + NATFLAGS, 'o'))
        if stub:
            fs.append(self.ex.submit(self.obj, VERIF + '/harness/randstub.cpp', ['-std=c++14'] + NATFLAGS, 'o'))
        objs = [f.result() for f in fs]
        r = sh([LLVM + 'clang++', '-fsanitize=address', '-Wl,--wrap=getenv', '-Wl,--allow-multiple-definition', '-o', out] + objs)
        if r.returncode:
            raise BuildError('native link: ' + r.stdout[-600:])


    def native_threads(self, harness, out, flags):
        base = [f for f in NATFLAGS if 'sanitize' not in f]
        fs = [self.ex.submit(self.obj, VERIF + '/harness/' + harness, ['-std=c++14', '-fsanitize=thread', '-mllvm', '-tsan-instrument-read-before-write'] + base + list(flags), 'o')]
        fs += [self.ex.submit(self.obj, s, ['-std=c++11'] + base, 'o') for s in self.sources()]
        fs.append(self.ex.submit(self.obj, VERIF + '/harness/native.cpp', ['-std=c++14', '-DSYM_THREADS=1'] + base, 'o', None, open(VERIF + '/harness/threads_native.h').read()))
        objs = [f.result() for f in fs]
        r = sh([LLVM + 'clang++', '-Wl,--wrap=getenv', '-o', out] + objs)
        if r.returncode:
            raise BuildError('native link: ' + r.stdout[-600:])


def build_engine():
    exe = VERIF + '/engine/build/rcsym'
    srcs = [f for f in glob.glob(VERIF + '/engine/*') if os.path.isfile(f)]
    if os.path.exists(exe) and all(os.path.getmtime(exe) >= os.path.getmtime(s) for s in srcs):
        return exe
    r = sh(['make', '-j8', '-C', VERIF + '/engine'])
    if r.returncode or not os.path.exists(exe):
        raise BuildError('engine: ' + r.stdout[-1500:])
    return exe


def prune_cache(limit=1500 << 20):
    try:
        fs = [(os.path.getmtime(f), os.path.getsize(f), f) for f in glob.glob(CACHE + '/*') if os.path.isfile(f)]
        tot = sum(f[1] for f in fs)
        for m, s, f in sorted(fs):
            if tot <= limit:
                break
            os.unlink(f)
            tot -= s
    except OSError:
        pass


def run_native(exe, entry, inputs, params, wdir, timeout=60):
    fd, p = tempfile.mkstemp(dir=wdir, suffix='.wit')
    with os.fdopen(fd, 'w') as f:
        for n, v in inputs:
            f.write(f'{n} {v}\n')
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:detect_container_overflow=0')
    env.pop('RC_PARAMS', None)
    try:
        r = subprocess.run([exe, entry, p] + [f'{k}={v}' for k, v in params.items()], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace', timeout=timeout, env=env, cwd=wdir)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), 'timeout'
    return rc, out, p


def native_verdict(rc, out):
    """what the real code did on this input: 'ok', 'fail: ...', or 'invalid: ...'"""
    if rc == 0 and 'DONE' in out:
        return 'ok'
    if rc == 'timeout':
        return 'fail: does not terminate'
    for l in out.splitlines():
        if l.startswith('ASSERT-FAIL'):
            return 'fail: ' + l[12:]
        if l.startswith('UNCAUGHT'):
            return 'fail: uncaught exception ' + l[9:]
        if l.startswith(('REPLAY', 'ASSUME-FAIL', 'NO-ENTRY')):
            return 'invalid: ' + l
    if rc in (77, 78, 79, 98, 99):
        return 'invalid: rc %s' % rc
    return 'fail: crashed or memory error (exit %s)' % rc


def main():
    from spec import SPEC
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    keep = '--keep' in args
    if '--tier' in args:
        tier = args[args.index('--tier') + 1]
    if '--entry' in args:
        only = args[args.index('--entry') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = SPEC[prop]
    budget = spec.get('budget', {}).get(tier, 240 if tier == 'quick' else 780)
    hard = 820.0
    wdir = tempfile.mkdtemp(prefix=f'rcv_{prop}_')
    jobs, build_errs = [], []
    try:
        exe = build_engine()
        b = Builder()
        groups = spec['groups']
        natf = {}
        irerr = {}
        # IR first, native builds run behind it while the engine works
        for gi, g in enumerate(groups):
            try:
                objs = b.ir(g['harness'], g.get('stub', False), g.get('flags', ()))
                g['bc'] = f'{wdir}/g{gi}.bc'
                b.link_ir(objs, g['bc'])
            except BuildError as e:
                build_errs.append(str(e))
                print(f'NOT-ANALYSED: {g["harness"]} does not build against this tree: {e}')
                continue
            for e in g['entries']:
                e = dict(name=e) if isinstance(e, str) else dict(e)
                if e.get('tier') == 'thorough' and tier == 'quick':
                    continue
                if e.get('tier') == 'quick' and tier == 'thorough':
                    continue
                if only and e['name'] != only:
                    continue
                e['gi'] = gi
                e['params'] = dict(e.get('params', {}))
                if tier == 'thorough':
                    e['params'].update(e.get('tparams', {}))
                jobs.append(e)
        if not jobs:
            print('no harness entry could be built')
            return 2

        def build_nat(gi):
            g = groups[gi]
            out = f'{wdir}/n{gi}'
            b.native(g['harness'], g.get('stub', False), out, g.get('flags', ()), g.get('threads', False))
            return out

        natex = cf.ThreadPoolExecutor(1)
        for gi in sorted({j['gi'] for j in jobs}):
            natf[gi] = natex.submit(build_nat, gi)

        tl = max(20.0, budget - (time.time() - T0))
        mem = spec.get('mem', 3000)

        def run_job(i):
            j = jobs[i]
            rem = T0 + budget - time.time()
            out = f'{wdir}/r{i}.json'
            t = j.get('time', tl)
            t = max(5.0, min(t, rem))
            cmd = [exe, groups[j['gi']]['bc'], '--entry', j['name'], '--out', out, '--time', '%.1f' % t, '--qt', str(j.get('qt', 15000)), '--witness', str(j.get('witness', 6)), '--seed', str(seed), '--mem', str(mem), '--prefix', REPO + '/']
            for k, v in j['params'].items():
                cmd += ['--param', f'{k}={v}']
            for k in ('steps', 'paths', 'enum'):
                if k in j:
                    cmd += ['--' + k, str(j[k])]
            t1 = time.time()
            try:
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=t + 90)
                rc, err = r.returncode, r.stderr[-400:]
            except subprocess.TimeoutExpired:
                rc, err = 'timeout', 'engine did not stop in time'
            rep = None
            if os.path.exists(out):
                try:
                    rep = json.load(open(out))
                except ValueError:
                    err += ' (bad report)'
            return i, rc, err, rep, time.time() - t1

        order = sorted(range(len(jobs)), key=lambda i: -jobs[i].get('weight', 1))
        results = {}
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for i, rc, err, rep, dt in ex.map(run_job, order):
                results[i] = (rc, err, rep, dt)
        return conclude(prop, tier, seed, spec, groups, jobs, results, natf, wdir, build_errs, hard)
    except BuildError as e:
        print('BUILD-ERROR', e)
        return 2
    finally:
        if not keep:
            shutil.rmtree(wdir, ignore_errors=True)
        prune_cache()


def conclude(prop, tier, seed, spec, groups, jobs, results, natf, wdir, build_errs, hard):
    incomplete, viol_lines, known_lines, unconfirmed, mismatches = [], [], [], [], []
    tot = dict(paths=0, states=0, steps=0, asserts=0, symbolic_asserts=0, queries=0, z3_queries=0, solver_s=0.0, sat=0, unsat=0, unknown=0, forks=0)
    functions, covers, samples, per_entry, files = set(), set(), [], [], {}
    validated = 0
    known = []
    kf = os.path.join(VERIF, 'KNOWN_FINDINGS.json')
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)) if k.get('property') == prop and not k.get('fixed')]
    seen_known = set()
    nat = {}
    for gi, f in natf.items():
        try:
            nat[gi] = f.result()
        except BuildError as e:
            incomplete.append(f'native replay unavailable for {groups[gi]["harness"]}: {e}')
    replay_dir = os.path.join(VERIF, 'evidence', 'replay')
    nviol = 0
    tasks = []
    for i in sorted(results):
        rc, err, rep, dt = results[i]
        j = jobs[i]
        label = j['name'] + (''.join(f' {k}={v}' for k, v in j['params'].items()))
        if rep is None:
            incomplete.append(f'{label}: engine failed (exit {rc}) {err.strip()[:300]}')
            continue
        for k in tot:
            tot[k] += rep.get(k, 0)
        functions.update(f for f in rep['repo_functions'] if f)
        covers.update(rep['covers'])
        for f, n in rep['repo_lines'].items():
            files[f] = max(files.get(f, 0), n)
        for m in rep['incomplete']:
            incomplete.append(f'{label}: {m}'[:400])
        per_entry.append(dict(entry=label, paths=rep['paths'], queries=rep['queries'], z3_queries=rep['z3_queries'], solver_s=rep['solver_s'], max_query_s=rep.get('solver_max_s'), wall_s=round(dt, 2), asserts=rep['asserts'], symbolic_asserts=rep['symbolic_asserts'], complete=not rep['incomplete'], violations=len(rep['violations']), bound=j.get('bound', '')))
        for v in rep['violations']:
            tasks.append(('v', i, j, label, v))
        for w in rep['witnesses'][: j.get('witness', 6)]:
            tasks.append(('w', i, j, label, w))

    def do(t):
        kind, i, j, label, x = t
        if j['gi'] not in nat:
            return t, None
        left = T0 + hard - time.time()
        if left < 3 and kind == 'w':
            return t, None
        # a run that does not end natively within this many seconds does not terminate
        # schedules are only searched for counterexamples
        ins = [y for y in x['inputs'] if kind == 'v' or not y[0].startswith('@')]
        return t, run_native(nat[j['gi']], j['name'], ins, j['params'], wdir, timeout=max(3.0, min(30.0 if kind == 'v' else 60.0, left)))

    with cf.ThreadPoolExecutor(NPROC) as ex:
        done = list(ex.map(do, tasks))
    for (kind, i, j, label, x), r in done:
        if kind == 'w':
            if r is None:
                continue
            rc, out, p = r
            got = [l.split()[1:3] for l in out.splitlines() if l.startswith('OUT ')]
            want = [[a, str(v)] for a, v in x['outs']]
            verdict = native_verdict(rc, out)
            if verdict == 'ok' and got == want:
                validated += 1
                if len(samples) < 8:
                    samples.append(dict(entry=label, inputs=x['inputs'][:24], outputs=x['outs'][:24]))
            elif verdict.startswith('fail'):
                # the real code fails on an input the solver produced
                x = dict(kind='native', msg=verdict[6:].strip(), where='native run', inputs=x['inputs'])
                kind = 'v'
            else:
                mismatches.append(dict(entry=label, inputs=x['inputs'], want=want[:40], got=got[:40], native=verdict))
            if kind == 'w':
                continue
        if r is None:
            unconfirmed.append(dict(entry=label, msg=x['msg'], reason='no native build'))
            continue
        rc, out, p = r
        verdict = native_verdict(rc, out)
        if not verdict.startswith('fail'):
            unconfirmed.append(dict(entry=label, kind=x['kind'], msg=x['msg'], where=x['where'], native=verdict, inputs=x['inputs'][:60]))
            continue
        desc = f'{label}: {x["msg"]}'
        k = match_known(known, j, x)
        if k is not None:
            if k['id'] not in seen_known:
                seen_known.add(k['id'])
                known_lines.append(f'KNOWN-FINDING: property={prop} {k["what"]}')
            continue
        os.makedirs(replay_dir, exist_ok=True)
        rp = f'{replay_dir}/{prop}_{j["name"]}_{nviol}.txt'
        with open(rp, 'w') as f:
            f.write(f'# {desc}\n# kind: {x["kind"]}\n# where: {x["where"]}\n# native: {verdict}\n# params: {json.dumps(j["params"])}\n# harness: {groups[j["gi"]]["harness"]} entry {j["name"]}\n# replay: python3 /verif/replay.py {rp}\n')
            for n, v in x['inputs']:
                f.write(f'{n} {v}\n')
        nviol += 1
        viol_lines.append(f'VIOLATION property={prop} replay={rp}')
        print(f'  {desc}\n    kind {x["kind"]} at {x["where"]}\n    real code: {verdict}\n    inputs: {x["inputs"][:40]}')
    # vacuity: every reachability marker of the entries that ran must be reached
    want_cov = set()
    for g in groups:
        src = open(f'{VERIF}/harness/{g["harness"]}').read()
        names = {jj['name'] for jj in jobs if groups[jj['gi']] is g}
        for m in re.finditer(r'^ENTRY\((\w+)\)(.*?)^}', src, re.S | re.M):
            if m.group(1) in names:
                want_cov.update(re.findall(r'COVER\("([^"]+)"\)', m.group(2)))
    missing = sorted(want_cov - covers)
    for m in missing:
        incomplete.append('reachability marker not reached: ' + m)
    for e in build_errs:
        incomplete.append('harness does not build: ' + e[:300])
    for m in mismatches:
        incomplete.append(f'engine and native run disagree on a sampled path of {m["entry"]} ({m["native"]})')
    for u in unconfirmed:
        incomplete.append(f'counterexample did not reproduce natively: {u["entry"]}: {u["msg"]}')
    wall = time.time() - T0
    names = sorted({n if len(n) <= 100 else n[:97] + '...' for n in functions})[:3000] # instantiations of one template share an entry
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(wall, 2), violations=nviol,
              assumptions=spec.get('assumptions', []) + COMMON_ASSUMPTIONS,
              coverage=dict(states=tot['states'], transitions=tot['steps'], traces_validated_against_impl=validated, samples=samples,
                            exhaustive=not incomplete, paths=tot['paths'], functions_encoded=names, functions_encoded_count=len(functions), repo_lines_executed=files, bounds=spec.get('bounds', ''), outside=spec.get('outside', ''),
                            assertions_checked=tot['asserts'], assertions_decided_by_solver=tot['symbolic_asserts'],
                            queries=tot['queries'], queries_sent_to_z3=tot['z3_queries'], sat=tot['sat'], unsat=tot['unsat'], unknown=tot['unknown'], solver_s=round(tot['solver_s'], 3),
                            entries=per_entry, reachability_markers=sorted(covers), reachability_missing=missing, incomplete=incomplete, unconfirmed=unconfirmed, engine_native_mismatches=mismatches, known_findings=sorted(seen_known)))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(f'{VERIF}/evidence/{prop}.json', 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{prop} [{tier}] {len(per_entry)} entries, {tot["paths"]} paths, {tot["asserts"]} assertions ({tot["symbolic_asserts"]} by solver), {tot["z3_queries"]} Z3 queries in {tot["solver_s"]:.1f}s, {validated} paths cross-checked natively, {wall:.1f}s')
    for l in sorted(set(incomplete)):
        print('INCOMPLETE', l[:300])
    for l in known_lines:
        print(l)
    for l in viol_lines:
        print(l)
    return 1 if viol_lines else 0


def match_known(known, j, x):
    for k in known:
        if k.get('entry') == j['name'] and k.get('msg') == x['msg']:
            where = k.get('inputs')
            if where is None or all(any(n == a and v == b for a, b in x['inputs']) for n, v in where):
                return k
    return None


COMMON_ASSUMPTIONS = [
    'clang 18 -O1 LLVM IR of the current sources represents the code (x86-64, libstdc++ 13 headers)',
    'iostreams and the out-of-line parts of libstdc++ are replaced by the models in /verif/shim and /verif/rt; sampled paths are replayed natively against the real library',
    'the interpreter in /verif/engine and Z3 are trusted; a counterexample is only reported when the native run of the real code fails too',
    'single threaded execution, no allocation failure unless the harness injects one',
]

if __name__ == '__main__':
    sys.exit(main())
