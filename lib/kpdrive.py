"""Driver: builds the engine, the bitcode of /repo plus models plus harness, runs the symbolic jobs of one property,
replays counterexamples and sampled paths on a native build of the same harness, and writes the evidence."""
import concurrent.futures as cf, hashlib, json, os, resource, shutil, signal, subprocess, sys, tempfile, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('KP_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
B = os.path.join(V, 'build')
NCPU = max(2, int(os.environ.get('KP_JOBS', os.cpu_count() or 4)))
CLANG = shutil.which('clang++-18') or shutil.which('clang++') or '/usr/lib/llvm-18/bin/clang++'
LINK = shutil.which('llvm-link-18') or '/usr/lib/llvm-18/bin/llvm-link'
BCF = ('-O1 -gline-tables-only -fno-vectorize -fno-slp-vectorize -fno-strict-aliasing -w -fwrapv -fno-threadsafe-statics '
       '-fno-delete-null-pointer-checks -DDEBUG').split()
NATF = {'asan': '-O1 -g -w -fsanitize=address -fno-omit-frame-pointer -fno-strict-aliasing -fwrapv -DDEBUG'.split(),
        'plain': '-O0 -g -w -DDEBUG'.split()}

class BuildError(Exception):
    pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout.decode(errors='replace')[-4000:]))
    return r.stdout.decode(errors='replace')

def readf(p):
    with open(p, 'rb') as f:
        return f.read()

def tree_hash(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b'\0' + hashlib.sha256(readf(p)).digest())
    return h.hexdigest()[:20]

def files(d, exts):
    r = []
    for root, _, fs in os.walk(d):
        for f in fs:
            if f.endswith(exts):
                r.append(os.path.join(root, f))
    return sorted(r)

def build_engine():
    d = os.path.join(V, 'engine')
    key = tree_hash(files(d, ('.cc', '.h', 'Makefile')))
    stamp = os.path.join(B, 'engine', 'stamp')
    if os.path.exists(stamp) and readf(stamp).decode() == key and os.path.exists(os.path.join(B, 'engine', 'kpx')):
        return
    os.makedirs(os.path.join(B, 'engine'), exist_ok=True)
    sh(['make', '-C', d, '-B', '-j4'])
    with open(stamp, 'w') as f:
        f.write(key)

def compile_cached(src, out_dir, name, cmd, deps_key):
    """cmd: compiler command without -o; output cached under a content key."""
    key = hashlib.sha256((deps_key + '\0' + ' '.join(cmd)).encode() + readf(src)).hexdigest()[:24]
    out = os.path.join(out_dir, name + '-' + key + '.o')
    if not os.path.exists(out):
        tmp = out + '.%d.%d.tmp' % (os.getpid(), threading.get_ident())
        sh(cmd + ['-c', src, '-o', tmp])
        os.rename(tmp, out)
    return out

class Build:
    def __init__(self):
        self.objdir = os.path.join(B, 'obj'); os.makedirs(self.objdir, exist_ok=True)
        self.bindir = os.path.join(B, 'bin'); os.makedirs(self.bindir, exist_ok=True)
        self.repo_srcs = files(SRC, ('.cc', '.cpp', '.cxx', '.c'))
        self.hdr_key = tree_hash(files(SRC, ('.hh', '.h', '.hpp')))
        self.mod_key = tree_hash(files(os.path.join(V, 'models'), ('.h', 'fstream')) + [os.path.join(V, 'harness', 'kp.h')])
        self.har_key = tree_hash(files(os.path.join(V, 'harness'), ('.h',)))
        self.used = set()
        self.lock = threading.Lock()

    def bc_jobs(self, harnesses):
        inc = ['-I', os.path.join(V, 'models', 'include')]
        jobs = {}
        for s in self.repo_srcs:
            std = [] if s.endswith('.c') else ['-std=c++11', '-include', 'limits']
            jobs[s] = (s, 'bc_' + os.path.basename(s), [CLANG] + std + BCF + inc + ['-emit-llvm'], self.hdr_key + self.mod_key)
        for s in files(os.path.join(V, 'models'), ('.cc',)):
            jobs[s] = (s, 'bcm_' + os.path.basename(s), [CLANG, '-std=c++17', '-fno-access-control'] + BCF + inc + ['-emit-llvm'], self.mod_key)
        for h in harnesses:
            s = os.path.join(V, 'harness', h + '.cc')
            jobs[s] = (s, 'bch_' + h, [CLANG, '-std=c++17', '-I', SRC, '-I', os.path.join(V, 'harness')] + BCF + inc + ['-emit-llvm'], self.hdr_key + self.mod_key + self.har_key)
        return jobs

    def nat_jobs(self, harnesses, flav, zmodel):
        jobs = {}
        for s in self.repo_srcs:
            std = [] if s.endswith('.c') else ['-std=c++11', '-include', 'limits']
            jobs[s] = (s, flav + '_' + os.path.basename(s), ['g++' if not s.endswith('.c') else 'gcc'] + std + NATF[flav], self.hdr_key)
        z = ['-DKP_ZMODEL'] if zmodel else []
        for n in ['native'] + list(harnesses):
            s = os.path.join(V, 'harness', n + '.cc')
            jobs[s] = (s, flav + ('z' if zmodel else '') + 'h_' + n, ['g++', '-std=c++17', '-I', SRC, '-I', os.path.join(V, 'harness')] + NATF[flav] + z, self.hdr_key + self.har_key + self.mod_key)
        return jobs

    def run(self, pool, jobs):
        futs = {k: pool.submit(compile_cached, j[0], self.objdir, j[1], j[2], j[3]) for k, j in jobs.items()}
        return futs

    def link_bc(self, futs, h):
        hs = os.path.join(V, 'harness', h + '.cc')
        objs = [futs[hs].result()] + [f.result() for k, f in futs.items() if os.path.dirname(k) != os.path.join(V, 'harness')]
        objs.sort(key=lambda o: (0 if '/bch_' in o else 1 if '/bcm_' in o else 2, o))
        key = hashlib.sha256('\0'.join(objs).encode()).hexdigest()[:20]
        out = os.path.join(self.bindir, h + '-' + key + '.bc')
        if not os.path.exists(out):
            sh([LINK] + objs + ['-o', out + '.tmp']); os.rename(out + '.tmp', out)
        return out

    def link_nat(self, futs, h, flav, zmodel):
        hd = os.path.join(V, 'harness')
        objs = [f.result() for k, f in futs.items() if os.path.dirname(k) != hd or k in (os.path.join(hd, h + '.cc'), os.path.join(hd, 'native.cc'))]
        objs.sort()
        key = hashlib.sha256('\0'.join(objs).encode()).hexdigest()[:20]
        out = os.path.join(self.bindir, h + '-' + flav + ('-z' if zmodel else '') + '-' + key)
        if not os.path.exists(out):
            sh(['g++'] + (['-fsanitize=address'] if flav == 'asan' else []) + objs + ['-o', out + '.tmp', '-lcrypto'] + ([] if zmodel else ['-lz']))
            os.rename(out + '.tmp', out)
        return out

def run_engine(bc, job, tmp, idx, deadline, stop=None):
    out = os.path.join(tmp, 'r%d.json' % idx)
    t = min(job['t'], max(5, deadline - time.time()))
    cmd = [os.path.join(B, 'engine', 'kpx'), bc, '--entry', 'kp_main', '--out', out, '--time', '%g' % t, '--repo', SRC + '/',
           '--samples', str(job.get('samples', 2)), '--seed', os.environ.get('VERIF_SEED', '1'), '--mem', str(job.get('mem', 3500)), '--z3ms', str(int(job.get('z3ms', 60000)))]
    for p in job['p']:
        cmd += ['--param', str(p)]
    cmd += job.get('opts', [])
    err = os.path.join(tmp, 'e%d.txt' % idx)
    t0 = time.time()
    why = None
    with open(err, 'wb') as ef:
        pr = subprocess.Popen(cmd, stdout=ef, stderr=subprocess.STDOUT, start_new_session=True)
        while True:
            try:
                rc = pr.wait(timeout=0.05 if time.time() - t0 < 1 else 0.5); break
            except subprocess.TimeoutExpired:
                if time.time() - t0 > t + 25: why = 'hard time limit'
                elif stop is not None and stop.is_set() and time.time() - stop.at > 5: why = 'stopped: a violation was already confirmed'
                else: continue
                os.killpg(pr.pid, signal.SIGKILL); pr.wait(); rc = -9; break
    r = None
    if os.path.exists(out):
        try:
            r = json.load(open(out))
        except ValueError:
            r = None
    if r is None:
        r = {'complete': False, 'incomplete': {why or ('engine exit %d: %s' % (rc, readf(err)[-300:].decode(errors='replace'))): 1}, 'paths': 0, 'paths_assumed_away': 0, 'forks': 0,
             'instructions': 0, 'asserts_checked': 0, 'assert_queries': 0, 'solver': {}, 'reached': {}, 'functions': [], 'models': [], 'violations': [], 'violation_counts': {}, 'samples': []}
    r['job'] = job; r['t'] = time.time() - t0
    return r

def write_inputs(path, inputs, head=''):
    with open(path, 'w') as f:
        for l in head.splitlines():
            f.write('// ' + l + '\n')
        for n, h in inputs:
            f.write('%s %s\n' % (n, h))

def run_native(exe, inpath, params, flav, timeout, wrap=()):
    d = tempfile.mkdtemp(prefix='kpn')
    env = dict(os.environ, TZ='UTC', LC_ALL='C', ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:max_allocation_size_mb=300:allocator_may_return_null=0:handle_abort=0:symbolize=0', MALLOC_PERTURB_='0')
    def lim():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_CPU, (int(timeout) + 5, int(timeout) + 10))
        if flav == 'plain':
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    try:
        try:
            r = subprocess.run(list(wrap) + [exe, inpath, d] + [str(p) for p in params], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, preexec_fn=lim)
            return r.returncode, r.stdout.decode(errors='replace')
        except subprocess.TimeoutExpired as e:
            return 'timeout', (e.stdout or b'').decode(errors='replace')
    finally:
        shutil.rmtree(d, ignore_errors=True)

def confirm(v, exes, inpath, params, ntimeout):
    """Replay a counterexample on the real build: (reproduced, how)."""
    rc, out = run_native(exes('asan'), inpath, params, 'asan', ntimeout)
    if rc == 42:
        return True, [l for l in out.splitlines() if l.startswith('KP-VIOLATION')][:1]
    if rc == 77 or rc == 78:
        pass
    elif rc == 'timeout':
        if v['kind'] in ('excessive-work', 'excessive-allocation'):
            return True, ['did not finish within %d s' % ntimeout]
        return True, ['hang: did not finish within %d s' % ntimeout]
    elif rc != 0:
        return True, ['exit %s: %s' % (rc, ' | '.join([l for l in out.splitlines() if 'ERROR' in l or 'Assert' in l or 'UNCAUGHT' in l or 'terminate' in l or 'what()' in l][:3])[:400])]
    if v['kind'] == 'uninit' or rc == 0:
        vg = shutil.which('valgrind')
        if vg:
            rc2, out2 = run_native(exes('plain'), inpath, params, 'vg', max(120, ntimeout * 4), wrap=[vg, '-q', '--error-exitcode=88', '--leak-check=no', '--fullpath-after='])
            if rc2 == 88:
                return True, ['valgrind: ' + ' | '.join(l.split('== ', 1)[-1] for l in out2.splitlines() if '== ' in l)[:300]]
            if rc2 == 42:
                return True, [l for l in out2.splitlines() if l.startswith('KP-VIOLATION')][:1]
            if rc2 not in (0, 77, 78, 'timeout'):
                return True, ['plain build exit %s: %s' % (rc2, out2[-200:])]
    return False, ['exit %s: %s' % (rc, out[-200:])]

def load_known():
    r = []
    p = os.path.join(V, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#') and l.startswith('{'):
                d = json.loads(l)
                if d.get('status') == 'known':
                    r.append(d)
    return r

def known_match(known, prop, job, v):
    for k in known:
        if k['property'] != prop:
            continue
        m = k['match']
        if 'harness' in m and m['harness'] != job['h']:
            continue
        if 'kind' in m and m['kind'] != v['kind']:
            continue
        if 'label' in m and m['label'] != v['label']:
            continue
        if 'where' in m and m['where'] != v['where']:
            continue
        return k
    return None

def native_v(rcn, out):
    """A sampled path that fails on the real build, described as a violation."""
    lab = out.split('KP-VIOLATION ')[1].splitlines()[0] if 'KP-VIOLATION ' in out else ''
    if rcn == 42 and ' ' in lab:
        return {'kind': lab.split(' ')[0], 'label': lab.split(' ', 1)[1], 'where': 'harness'}
    return {'kind': 'native', 'label': lab or 'exit %s' % rcn, 'where': ''}

def check(prop, spec, tier):
    t0 = time.time()
    limit = spec.get('limit', {'quick': 740, 'thorough': 3000})[tier] if isinstance(spec.get('limit'), dict) else (740 if tier == 'quick' else 6 * 3600)
    deadline = t0 + limit
    jobs = [dict(j) for j in spec['jobs'](tier)]
    for j in jobs:
        j.setdefault('t', 300 if tier == 'quick' else 3000); j.setdefault('z', 0)
    harnesses = sorted({j['h'] for j in jobs})
    tmp = tempfile.mkdtemp(prefix='kpchk')
    ev_dir = os.environ.get('KP_EVIDENCE', os.path.join(V, 'evidence')); os.makedirs(ev_dir, exist_ok=True)
    rep_dir = os.path.join(ev_dir, 'replay'); os.makedirs(rep_dir, exist_ok=True)
    for f in os.listdir(rep_dir):
        if f.startswith(prop + '-'):
            os.unlink(os.path.join(rep_dir, f))
    rc = 2
    try:
        b = Build()
        pool = cf.ThreadPoolExecutor(NCPU)
        try:
            eng = pool.submit(build_engine)
            bcf = b.run(pool, b.bc_jobs(harnesses))
            natf = {}
            for z in sorted({j['z'] for j in jobs}):
                natf[z] = b.run(pool, b.nat_jobs(sorted({j['h'] for j in jobs if j['z'] == z}), 'asan', z))
            eng.result()
            bcs = {h: b.link_bc(bcf, h) for h in harnesses}
            exe_lock = threading.Lock(); exe_cache = {}
            plainf = {}
            def exe(h, flav, z):
                with exe_lock:
                    if (h, flav, z) not in exe_cache:
                        if flav == 'asan':
                            fs = natf[z]
                        else:
                            with cf.ThreadPoolExecutor(NCPU) as p2:
                                fs = b.run(p2, b.nat_jobs([h], flav, z))
                                for f in fs.values(): f.result()
                        exe_cache[(h, flav, z)] = b.link_nat(fs, h, flav, z)
                    return exe_cache[(h, flav, z)]
            for f in list(bcf.values()) + [f for d in natf.values() for f in d.values()]:
                f.result()
        except BuildError as e:
            print('ERROR property=%s build failed:\n%s' % (prop, e)); return 2
        t_build = time.time() - t0
        # longest first
        order = sorted(range(len(jobs)), key=lambda i: -jobs[i].get('w', 1))
        known = load_known()
        res = [None] * len(jobs)
        found = {}        # (h,kind,label,where) -> [dict]
        unconfirmed = []; validated = 0; mismatches = []; samples_out = []
        lk = threading.Lock()
        stop = threading.Event(); stop.at = 0
        def halt():
            # a confirmed violation decides the run: what is still to do would only repeat it
            if not stop.is_set(): stop.at = time.time(); stop.set()
        def one(i):
            nonlocal validated
            j = jobs[i]
            if time.time() > deadline or stop.is_set():
                res[i] = None; return
            r = run_engine(bcs[j['h']], j, tmp, i, deadline, stop)
            res[i] = r
            for n, v in enumerate(r['violations']):
                key = (j['h'], v['kind'], v['label'], v['where'])
                with lk:
                    if key in found and found[key]['ok']:
                        found[key]['n'] += 1; continue
                inp = os.path.join(rep_dir, '%s-%s-%d-%d.inp' % (prop, j['h'], i, n))
                write_inputs(inp, v['inputs'], 'property %s: %s %s in %s\nharness %s params %s zmodel %s\nstack %s\nreplay: /verif/lib/replay.sh <this file>' % (prop, v['kind'], v['label'], v['where'], j['h'], ' '.join(map(str, j['p'])), j['z'], ' < '.join(v['stack'])))
                if stop.is_set() and time.time() - stop.at > 5: break
                ok, how = confirm(v, lambda fl: exe(j['h'], fl, j['z']), inp, j['p'], j.get('nt', 30))
                with lk:
                    e = found.setdefault(key, {'ok': False, 'n': 0, 'inp': inp, 'how': how, 'job': j, 'v': v})
                    e['n'] += 1
                    if ok and not e['ok']:
                        e.update(ok=True, inp=inp, how=how)
                if ok and not known_match(known, prop, j, v): halt()
            for n, s in enumerate(r['samples']):
                if stop.is_set() and time.time() - stop.at > 5: break
                inp = os.path.join(tmp, 's%d_%d.inp' % (i, n)); write_inputs(inp, s['inputs'])
                rcn, out = run_native(exe(j['h'], 'asan', j['z']), inp, j['p'], 'asan', j.get('nt', 30))
                obs = [l[7:] for l in out.splitlines() if l.startswith('KP-OBS ')]
                exp = ['%s %s' % (a, h) for a, h in s['observed']]
                if rcn == 0 and obs == exp and 'KP-END' in out:
                    with lk:
                        validated += 1
                        if len(samples_out) < 6: samples_out.append({'harness': j['h'], 'params': j['p'], 'inputs': [[a, h[:64]] for a, h in s['inputs'][:12]], 'observed': s['observed'][:4]})
                elif rcn in (77, 78):
                    pass       # the model fixes a value (an ideal hash) that the real run does not take
                else:
                    keep = os.path.join(rep_dir, '%s-%s-sample-%d-%d.inp' % (prop, j['h'], i, n)); shutil.copy(inp, keep)
                    with lk:
                        mismatches.append((j, rcn, out[-300:], obs[:3], exp[:3], keep))
                    if rcn != 0 and not known_match(known, prop, j, native_v(rcn, out)): halt()
        list(pool.map(one, order))
        pool.shutdown()
        # verdict
        nviol = 0; lines = []; knownseen = {}
        for key, e in sorted(found.items(), key=lambda kv: str(kv[0])):
            v, j = e['v'], e['job']
            if not e['ok']:
                unconfirmed.append((key, e)); continue
            k = known_match(known, prop, j, v)
            if k:
                knownseen.setdefault(k['id'], k); continue
            nviol += 1
            lines.append('VIOLATION property=%s replay=%s' % (prop, e['inp']))
            lines.append('  %s: %s at %s (harness %s, parameters %s); real run: %s' % (v['kind'], v['label'], v['where'], j['h'], j['p'], e['how']))
        for j, rcn, out, obs, exp, keep in mismatches:
            if rcn != 0:
                k = known_match(known, prop, j, native_v(rcn, out))
                if k: knownseen.setdefault(k['id'], k); continue
                nviol += 1
                lines.append('VIOLATION property=%s replay=%s' % (prop, keep))
                lines.append('  a sampled path, run on the real build, fails: %s' % out.strip()[-300:].replace('\n', ' | '))
        engine_bad = [m for m in mismatches if m[1] == 0]
        incomplete = {}
        for i, r in enumerate(res):
            if r is None:
                incomplete['job %s %s not run (%s)' % (jobs[i]['h'], jobs[i]['p'], 'a violation was already confirmed' if stop.is_set() else 'time limit')] = 1
            elif not r['complete']:
                for w, n in r['incomplete'].items():
                    incomplete['%s %s: %s' % (jobs[i]['h'], jobs[i]['p'], w)] = n
        vac = []
        rr = [r for r in res if r]
        reached = {}
        for r in rr:
            for t, n in r['reached'].items(): reached[t] = reached.get(t, 0) + n
            for t in r['job'].get('must', []):
                if not r['reached'].get(t) and r['complete']: vac.append('%s %s never reaches %s' % (r['job']['h'], r['job']['p'], t))
        sol = {}
        for r in rr:
            for k2, n in r['solver'].items(): sol[k2] = (max(sol.get(k2, 0), n) if 'max' in k2 else sol.get(k2, 0) + n)
        sol = {k2: (round(n, 3) if isinstance(n, float) else n) for k2, n in sol.items()}
        ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
              'coverage': {'states': sum(r['paths'] + r['paths_assumed_away'] + r['forks'] for r in rr), 'transitions': sum(r['instructions'] for r in rr),
                           'traces_validated_against_impl': validated, 'samples': samples_out or [{'note': 'no complete path was sampled'}],
                           'paths_completed': sum(r['paths'] for r in rr), 'paths_outside_assumptions': sum(r['paths_assumed_away'] for r in rr), 'forks': sum(r['forks'] for r in rr),
                           'assertions_evaluated': sum(r['asserts_checked'] for r in rr), 'assertion_queries': sum(r['assert_queries'] for r in rr), 'solver': sol,
                           'functions_encoded': sorted({f for r in rr for f in r['functions']}), 'modelled_functions': sorted({f for r in rr for f in r['models']}),
                           'bounds': spec['bounds'], 'jobs': [{'harness': r['job']['h'], 'params': r['job']['p'], 'complete': r['complete'], 'paths': r['paths'], 'seconds': round(r['t'], 2), 'instructions': r['instructions']} for r in rr],
                           'reached': reached, 'exhaustive': not incomplete, 'incomplete': incomplete, 'counterexamples_not_reproduced': len(unconfirmed), 'known_findings_seen': sorted(knownseen)},
              'assumptions': spec.get('assumptions', []) + COMMON, 'wall_s': round(time.time() - t0, 2), 'violations': nviol}
        with open(os.path.join(ev_dir, prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for l in lines: print(l)
        for k in knownseen.values(): print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        print('property=%s tier=%s jobs=%d paths=%d instructions=%d z3=%d/%.1fs validated=%d build=%.1fs wall=%.1fs' % (prop, tier, len(jobs), ev['coverage']['paths_completed'], ev['coverage']['transitions'], sol.get('z3_queries', 0), sol.get('z3_seconds', 0), validated, t_build, time.time() - t0))
        if nviol: rc = 1
        elif engine_bad or vac or not ev['coverage']['paths_completed']:
            rc = 2
        else: rc = 0
        for w in list(incomplete)[:12]: print('INCOMPLETE %s' % w)
        for key, e in unconfirmed: print('NOT-REPRODUCED %s: %s [%s]' % (key, e['how'], e['inp']))
        for m in engine_bad: print('ENGINE-MISMATCH %s %s obs %s expected %s [%s]' % (m[0]['h'], m[0]['p'], m[3], m[4], m[5]))
        for w in vac: print('VACUOUS ' + w)
        return rc
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        prune()

COMMON = [
    'the code is executed as LLVM IR produced by clang 18 -O1 from the current /repo sources; libstdc++ header code is executed, its compiled parts, libc, zlib, OpenSSL and files are the models in /verif/models',
    'SHA-256 and AES over symbolic data are ideal (a collision-free function, a keyed permutation); over concrete data they are the real algorithms',
    'bounds are those listed under coverage.bounds; nothing is claimed outside them',
]

def prune():
    for d, keep in ((os.path.join(B, 'obj'), 1500), (os.path.join(B, 'bin'), 200)):
        try:
            fs = sorted((os.path.getmtime(os.path.join(d, f)), os.path.join(d, f)) for f in os.listdir(d))
            for _, f in fs[:-keep]: os.unlink(f)
        except OSError:
            pass
