#!/usr/bin/env python3
"""Driver: compiles /repo's current sources + a harness to LLVM IR, runs the symbolic executor on every job of a
property, replays each counterexample against the real code, writes the evidence file, prints VIOLATION lines."""
import threading, sys, os, json, re, subprocess, shutil, tempfile, time, hashlib, resource, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SX_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
ENG = os.path.join(V, 'engine')
SYMX = os.path.join(V, 'build', 'symx')
CXX, LINK, GXX = '/usr/bin/clang++', '/usr/bin/llvm-link-18', '/usr/bin/g++'
BCFLAGS = ['-std=c++17', '-I' + ENG + '/shadow', '-I' + ENG, '-I' + V + '/harness', '-I' + SRC, '-O1', '-gline-tables-only', '-fno-vectorize', '-fno-slp-vectorize',
           '-fno-math-errno', '-ffp-contract=off', '-w', '-c', '-emit-llvm']
SINGLE = ('render', 'image', 'bmp', 'mesh_io')   # code that computes in single precision on purpose: judged by the tolerances of the harness
NCPU = int(os.environ.get('SX_JOBS', '8'))
sys.path.insert(0, V)

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)

def repo_sources():
    t = open(os.path.join(SRC, 'CMakeLists.txt')).read()
    l = [f for f in re.findall(r'[\w./-]+\.cpp', t)]
    return sorted({f for f in l if os.path.exists(os.path.join(SRC, f))})

def build_engine():
    if os.path.exists(SYMX) and os.path.getmtime(SYMX) >= os.path.getmtime(ENG + '/symx.cpp'):
        return
    r = sh(['make', '-C', ENG, 'B=' + V + '/build'])
    if r.returncode != 0 or not os.path.exists(SYMX):
        print(r.stdout[-3000:]); sys.exit(2)

class Fail(Exception): pass

class Ctx:
    def __init__(self, work):
        self.w = work; self.srcs = repo_sources(); self.bc = None; self.hbc = {}; self.nat = {}; self.harn = {}
    def compile_bc(self):
        d = self.w + '/bc'; os.makedirs(d, exist_ok=True)
        def one(f):
            o = d + '/' + f.replace('/', '_') + '.bc'
            r = sh([CXX] + BCFLAGS + [os.path.join(SRC, f), '-o', o])
            return (f, o, r.returncode, r.stdout)
        with ThreadPoolExecutor(NCPU) as ex:
            rs = list(ex.map(one, self.srcs))
        bad = [r for r in rs if r[2]]
        if bad: raise Fail('cannot compile to bitcode: ' + bad[0][0] + '\n' + bad[0][3][:2000])
        r = sh([CXX] + BCFLAGS + [ENG + '/stubs.cpp', '-o', d + '/stubs.bc'])
        if r.returncode: raise Fail(r.stdout[:2000])
        self.bc = self.w + '/repo.bc'
        r = sh([LINK] + [x[1] for x in rs] + [d + '/stubs.bc', '-o', self.bc])
        if r.returncode: raise Fail(r.stdout[:2000])
    def harness_bc(self, h):
        if h in self.hbc: return self.hbc[h]
        o = self.w + '/h_' + h + '.bc'; m = self.w + '/m_' + h + '.bc'
        r = sh([CXX] + BCFLAGS + [V + '/harness/' + h + '.cpp', '-o', o])
        if r.returncode: raise Fail('harness ' + h + ': ' + r.stdout[:2000])
        r = sh([LINK, o, self.bc, '-o', m])
        if r.returncode: raise Fail(r.stdout[:2000])
        self.hbc[h] = m; return m
    def native_lib(self, kind):
        if kind in self.nat: return self.nat[kind]
        d = self.w + '/nat_' + kind; os.makedirs(d, exist_ok=True)
        fl = {'plain': ['-O1', '-g'], 'asan': ['-O1', '-g', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS']}[kind]
        def one(f):
            o = d + '/' + f.replace('/', '_') + '.o'
            r = sh([GXX, '-std=c++17', '-w', '-I' + SRC, '-c'] + fl + [os.path.join(SRC, f), '-o', o]); return (f, o, r.returncode, r.stdout)
        with ThreadPoolExecutor(NCPU) as ex: rs = list(ex.map(one, self.srcs))
        bad = [r for r in rs if r[2]]
        if bad: raise Fail('native compile: ' + bad[0][0] + '\n' + bad[0][3][:2000])
        a = d + '/lib.a'
        r = sh(['ar', 'rcs', a] + [x[1] for x in rs])
        if r.returncode: raise Fail(r.stdout)
        self.nat[kind] = (a, fl); return self.nat[kind]
    def native_exe(self, h, kind):
        k = (h, kind)
        if k in self.harn: return self.harn[k]
        lib, fl = self.native_lib(kind)
        exe = self.w + '/x_%s_%s' % (h, kind)
        r = sh([GXX, '-std=c++17', '-w', '-I' + SRC, '-I' + ENG, '-I' + V + '/harness'] + fl + [V + '/harness/' + h + '.cpp', ENG + '/native_rt.cpp', lib, '-o', exe])
        if r.returncode: raise Fail('native harness: ' + r.stdout[:2000])
        self.harn[k] = exe; return exe

def write_input(path, params, inputs):
    with open(path, 'w') as f:
        for k, v in params.items(): f.write('P %s %d\n' % (k, v))
        for n, v in inputs: f.write('V %s %s\n' % (n, v))

def native_run(ctx, h, kind, inp, timeout=40, valgrind=False, env=None):
    exe = ctx.native_exe(h, kind)
    d = tempfile.mkdtemp(dir=ctx.w)
    e = dict(os.environ); e['SX_INPUT'] = inp; e['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=0'; e.update(env or {})
    cmd = [exe, str(timeout)]
    if valgrind: cmd = ['/usr/bin/valgrind', '-q', '--error-exitcode=99', '--leak-check=no'] + cmd
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', cwd=d, env=e, timeout=timeout + 60,
                           preexec_fn=lambda: (resource.setrlimit(resource.RLIMIT_CORE, (0, 0)), kind == 'plain' and not valgrind and resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))))
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 8, 'SX-TIMEOUT'
    finally:
        shutil.rmtree(d, ignore_errors=True)

def replay(ctx, job, c, path):
    """returns a one-line description when the counterexample reproduces on the real code, else None"""
    write_input(path, job['params'], c['in'])
    h = job['harness']; log = []
    to = 15 if c['kind'] == 'nonterm' else 40
    rc, out = native_run(ctx, h, 'plain', path, timeout=to)
    log.append(('plain', rc, out[-1500:]))
    if rc == 7:
        return [l for l in out.splitlines() if l.startswith('SX-VIOLATED')][-1][12:], log
    if rc == 8: return 'does not terminate (stopped after %d s)' % to, log
    if rc not in (0,):
        a = [l for l in out.splitlines() if 'Assertion' in l or 'terminate' in l or 'what()' in l]
        return 'crash (exit %d) %s' % (rc, a[-1] if a else ''), log
    if c['kind'] in ('memory', 'cast', 'uninit', 'crash') or c['uninit']:
        rc, out = native_run(ctx, h, 'asan', path)
        log.append(('sanitizers', rc, out[-3000:]))
        if rc != 0:
            a = [l for l in out.splitlines() if 'ERROR: AddressSanitizer' in l or 'runtime error' in l or 'SX-VIOLATED' in l or 'Assertion' in l]
            return 'sanitizer: ' + (a[0] if a else 'exit %d' % rc), log
    if c['kind'] == 'uninit' or c['uninit']:
        rc, out = native_run(ctx, h, 'plain', path, valgrind=True)
        log.append(('valgrind', rc, out[-3000:]))
        if rc == 99: return 'valgrind: ' + (out.splitlines() or [''])[0], log
    if c.get('flt') and c['kind'] == 'assert':
        # the path rounded to single precision, by an amount chosen by the solver: a generic point next to its model shows whether the real rounding matters
        for k in (1, 2, 3):
            near = [(n, repr(float(v) + (0.0137 * k + 0.00071 * i) * (1 if float(v) <= 0 else -1)) if '.' in v or 'e' in v else v) for i, (n, v) in enumerate(c['in'])]
            write_input(path, job['params'], near)
            rc, out = native_run(ctx, h, 'plain', path, timeout=to)
            log.append(('near', rc, out[-500:]))
            if rc == 7: return [l for l in out.splitlines() if l.startswith('SX-VIOLATED')][-1][12:] + ' (next to the model)', log
    return None, log

def run_job(ctx, job, tier, k, stop=None):
    out = ctx.w + '/r_%d.json' % k
    m = ctx.hbc[job['harness']]
    cmd = [SYMX, m, '--out', out, '--time', str(job.get('time', 300))] + job.get('opts', []) + (['--after', '1e9'] if job.get('finding') else [])
    if job['harness'] not in SINGLE: cmd.append('--flt')
    for p, v in job['params'].items(): cmd += ['--param', '%s=%d' % (p, v)]
    def lim():
        resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    t = time.time(); rc = None
    with tempfile.TemporaryFile(dir=ctx.w) as log:
        pr = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, preexec_fn=lim)
        try:
            while True:
                try: rc = pr.wait(0.5 if time.time() - t > 2 else 0.05); break
                except subprocess.TimeoutExpired: pass
                if stop is not None and stop.is_set(): rc = -97; break
                if time.time() - t > job.get('time', 300) + 120: rc = -99; break
        finally:
            if pr.poll() is None: pr.kill(); pr.wait()
        log.seek(0); so = log.read().decode(errors='replace')
    if rc == -99: so = 'engine timeout'
    if rc != -97 and os.path.exists(out):
        j = json.load(open(out))
    else:
        j = None
    return dict(job=job, rc=rc, out=so[-2000:], res=j, wall=time.time() - t)

def jname(job): return job['harness'] + ''.join(' %s=%d' % (k, v) for k, v in job['params'].items())

def check(pid, tier, only=None, verbose=False):
    import checks
    t0 = time.time()
    spec = checks.CHECKS[pid]
    build_engine()
    work = tempfile.mkdtemp(prefix='sx_%s_' % pid, dir=os.environ.get('SX_TMP', '/tmp'))
    rep = os.path.join(V, 'replays', pid); shutil.rmtree(rep, ignore_errors=True); os.makedirs(rep, exist_ok=True)
    findings = json.load(open(V + '/known_findings.json'))['findings']
    try:
        ctx = Ctx(work); ctx.compile_bc()
        jobs = checks.jobs(pid, tier)
        if only: jobs = [j for j in jobs if only in jname(j)]
        for h in sorted({j['harness'] for j in jobs}): ctx.harness_bc(h)
        order = sorted(range(len(jobs)), key=lambda i: -jobs[i].get('cost', 1))
        budget = spec.get('budget_quick', 420) if tier == 'quick' else spec.get('budget_thorough', 7200)
        res = [None] * len(jobs)
        stop = threading.Event(); rlock = threading.Lock(); replay_s = [0.0]; tried = {}
        def rp(job, c, path):
            key = json.dumps([jname(job), c['kind'], c['msg'], c['in']])
            with rlock:
                if key not in tried:
                    if replay_s[0] > (150 if tier == 'quick' else 1500): return None, []
                    b = time.time(); tried[key] = replay(ctx, job, c, path); replay_s[0] += time.time() - b
                else: write_input(path, job['params'], c['in'])
                return tried[key]
        def go(i):
            left = budget - (time.time() - t0)
            if stop.is_set(): res[i] = dict(job=jobs[i], rc=-97, out='not run: a violation is confirmed', res=None, wall=0); return
            if left < 5: res[i] = dict(job=jobs[i], rc=-98, out='property budget used up', res=None, wall=0); return
            j = dict(jobs[i]); j['time'] = min(j.get('time', 240 if tier == 'quick' else 3000), left)
            res[i] = run_job(ctx, j, tier, i, stop); res[i]['job'] = jobs[i]
            jj = res[i]['res']
            if jj and jj['candidates'] and not jobs[i].get('finding') and not stop.is_set() and not os.environ.get('SX_ALL'):
                for c in [c for c in jj['candidates'] if c['kind'] != 'div0'][:2]:
                    try: d, log = rp(jobs[i], c, tempfile.mktemp(dir=work))
                    except Fail: break
                    if d is not None: stop.set(); break
        with ThreadPoolExecutor(NCPU) as ex: list(ex.map(go, order))
        viol, known, errors, incomplete, unrep = [], [], [], [], []
        tot = dict(paths=0, forks=0, instructions=0, q_sat=0, q_unsat=0, q_unknown=0, q_trivial=0, q_model_reuse=0, solver_s=0.0)
        asserts, funcs, excluded, reach, ends, overbr = {}, set(), {}, {}, {}, {}
        samples = []
        nrep = 0
        for i, r in enumerate(res):
            job = r['job']; name = jname(job); j = r['res']
            if j is None and r['rc'] in (-97, -98):
                incomplete.append('%s: %s' % (name, r['out'] or 'stopped: a violation is confirmed')); continue
            if j is None:
                errors.append('%s: engine exit %s %s' % (name, r['rc'], r['out'][-300:])); continue
            for k in tot: tot[k] += j[k]
            for m, a in j['asserts'].items():
                b = asserts.setdefault(m, dict(solver=0, folded=0, violated=0, unknown=0))
                for q in b: b[q] += a[q]
            funcs |= set(j['functions'])
            for d, s in ((excluded, j['excluded']), (reach, j['reach']), (ends, j['ends']), (overbr, j.get('overbr', {}))):
                for q, n in s.items(): d[q] = d.get(q, 0) + n
            if verbose: print('  %-60s paths %d q %d/%d/%d solver %.1fs wall %.1fs%s cand %d' % (name, j['paths'], j['q_sat'], j['q_unsat'], j['q_unknown'], j['solver_s'], r['wall'], ' INCOMPLETE ' + str(j['incomplete_why']) if j['incomplete'] else '', len(j['candidates'])))
            if j['incomplete']: incomplete.append('%s: %s' % (name, '; '.join('%s (%d)' % x for x in j['incomplete_why'].items())))
            got = False; perkey = {}
            cands = sorted(j['candidates'], key=lambda c: (c['kind'] in ('div0', 'uninit'), not c['robust']))
            for c in cands:
                key = (c['kind'], c['msg'])
                if perkey.get(key) == 'ok' or perkey.get(key, 0) >= 8: continue
                if got and c['kind'] in ('div0', 'uninit'): continue
                nrep += 1
                path = rep + '/%s_%d.txt' % (re.sub(r'[^A-Za-z0-9=_-]+', '_', name), nrep)
                try: d, log = rp(job, c, path)
                except Fail as e: errors.append(str(e)); break
                if d is None:
                    perkey[key] = perkey.get(key, 0) + 1
                    if c['kind'] not in ('div0',): unrep.append('%s: %s %s at %s' % (name, c['kind'], c['msg'], c['loc']))
                    if os.path.exists(path): os.remove(path)
                    nrep -= 1
                    if verbose: print('    not reproduced: %s %s %s' % (c['kind'], c['msg'], c['loc'])); 
                    if verbose > 1: print(log, c['in'])
                    continue
                perkey[key] = 'ok'; got = True
                with open(path, 'a') as f:
                    f.write('# property %s, job %s\n# solver counterexample: %s: %s\n# at %s\n# replay on the real code: %s\n# rerun: %s/run.py replay %s %s\n' % (pid, name, c['kind'], c['msg'], c['loc'], d, V, job['harness'], path))
                fid = job.get('finding')
                f = [x for x in findings if x['id'] == fid] if fid else []
                if f and re.search(f[0]['match'], d + ' | ' + c['msg']): known.append((f[0], d, path))
                else: viol.append((name, c['kind'], c['msg'], d, path))
            if not got and not j['incomplete']:
                for lab in job.get('reach', ['end']):
                    if lab not in j['reach']: errors.append('%s: vacuous, label %s is never reached (ends: %s)' % (name, lab, j['ends']))
            if got is False and j['paths'] and j['unsupported'] and not j['reach']:
                errors.append('%s: %s' % (name, '; '.join(j['unsupported'])[:500]))
            if len(samples) < max(40, int(os.environ.get('SX_SAMPLES', 0))): samples += [(job, s) for s in j['samples'][:3 if tier == 'quick' else 12]]
        # engine versus native: run solver models of completed paths on the real code
        val = mism = 0; mm = []
        if not viol:
            import random
            random.Random(int(os.environ.get('VERIF_SEED', '1'))).shuffle(samples)
            def one(x):
                job, s = x; p = tempfile.mktemp(dir=work); write_input(p, job['params'], s['in'])
                rc, out = native_run(ctx, job['harness'], 'plain', p); return job, s, rc, out
            try:
                ctx.native_lib('plain')
                for h in sorted({j['harness'] for j, s in samples}): ctx.native_exe(h, 'plain')
                with ThreadPoolExecutor(NCPU) as ex:
                    for job, s, rc, out in ex.map(one, samples[:int(os.environ.get('SX_SAMPLES', 24 if tier == 'quick' else 200))]):
                        lab = ''.join(l[9:] + ';' for l in out.splitlines() if l.startswith('SX-REACH'))
                        ok = rc == 0 and lab == s['loc']
                        eo = [p.split('=') for p in s['msg'].split(';') if '=' in p]; no = [l.split()[1:3] for l in out.splitlines() if l.startswith('SX-OBS')]
                        if ok and len(eo) == len(no):
                            for (n1, v1), (n2, v2) in zip(eo, no):
                                try:
                                    if v1 != '?' and abs(float(v1) - float(v2)) > 1e-5 * max(1, abs(float(v1))): ok = False
                                except ValueError: pass
                        elif ok and eo: ok = False
                        if ok: val += 1
                        else: mism += 1; mm.append('%s rc=%d %s native:%s engine:%s %s %s %s' % (jname(job), rc, [l for l in out.splitlines() if 'SX-V' in l or 'Assert' in l][:1], lab, s['loc'], s['in'][:12], s['msg'][:200], no[:6]))
            except Fail as e: errors.append(str(e))
        if verbose:
            for m in mm: print('    native/engine difference:', m)
        ob = sum(a['solver'] + a['folded'] for a in asserts.values())
        ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(viol),
            assumptions=spec['assumptions'] + checks.COMMON_ASSUMPTIONS,
            coverage=dict(states=tot['paths'], transitions=tot['instructions'], traces_validated_against_impl=val,
                samples=[dict(job=jname(j), inputs=s['in'][:40], observed=s['msg'][:300]) for j, s in samples[:8]],
                explanation='states: symbolic paths explored to their end (each stands for all inputs satisfying its path condition); transitions: LLVM instructions executed symbolically.',
                bounds=spec['bounds'] if isinstance(spec['bounds'], str) else spec['bounds'][tier], jobs=[jname(j) for j in jobs], forks=tot['forks'],
                queries=dict(sat=tot['q_sat'], unsat=tot['q_unsat'], unknown=tot['q_unknown'], trivially_unsat=tot['q_trivial'], answered_by_reusing_a_model=tot['q_model_reuse']), solver_s=round(tot['solver_s'], 2),
                assertions=asserts, assertions_discharged=ob, functions_encoded=sorted(funcs), path_ends=ends, reachability_witnesses=reach, outside_the_claim=excluded, undecided_branches_explored_on_both_sides=overbr,
                incomplete=incomplete, counterexamples_not_reproduced=unrep[:20], engine_native_divergences=mism, engine_native_divergence_samples=mm[:3], known_findings=[x[0]['id'] for x in known], errors=errors))
        os.makedirs(V + '/evidence', exist_ok=True)
        json.dump(ev, open(V + '/evidence/%s.json' % pid, 'w'), indent=1)
        print('%s %s: %d jobs, %d paths, %d assertions discharged, queries sat/unsat/unknown %d/%d/%d, solver %.1f s, wall %.1f s, %d/%d models confirmed natively%s' % (pid, tier, len(jobs), tot['paths'], ob, tot['q_sat'], tot['q_unsat'], tot['q_unknown'], tot['solver_s'], time.time() - t0, val, val + mism, ', INCOMPLETE' if incomplete else ''))
        for x in incomplete[:10]: print('incomplete:', x[:400])
        for x in unrep[:6]: print('not reproduced:', x[:300])
        done = set()
        for f, d, p in known:
            if f['id'] not in done: print('KNOWN-FINDING: property=%s %s' % (pid, f['what'])); done.add(f['id'])
        for n, k, m, d, p in viol: print('violated: %s | %s: %s | %s' % (n, k, m, d))
        if viol:
            for p in sorted({v[4] for v in viol})[:5]: print('VIOLATION property=%s replay=%s' % (pid, p))
            return 1
        for e in errors[:10]: print('ERROR', e)
        # a job the engine could not run is reported, and listed in the evidence; without an answer for most jobs there is no verdict
        return 2 if 2 * len(errors) > len(jobs) else 0
    except Fail as e:
        print('ERROR', e); return 2
    finally:
        if not os.environ.get('SX_KEEP'): shutil.rmtree(work, ignore_errors=True)
        else: print('kept', work)

if __name__ == '__main__':
    a = sys.argv[1:]
    if a and a[0] == 'setup': build_engine(); print('engine ready'); sys.exit(0)
    if a and a[0] == 'replay':
        w = tempfile.mkdtemp(prefix='sx_replay_'); c = Ctx(w); rc = 0
        for kind in ('plain', 'asan'):
            r, o = native_run(c, a[1], kind, os.path.abspath(a[2])); print('[%s build] exit %d\n%s' % (kind, r, o)); rc = rc or r
        shutil.rmtree(w); sys.exit(1 if rc else 0)
    if a and a[0] == 'check':
        tier = a[2] if len(a) > 2 else os.environ.get('VERIF_TIER', 'quick')
        only = a[3] if len(a) > 3 else None
        sys.exit(check(a[1], tier, only, int(os.environ.get('SX_VERBOSE', '0'))))
    print('usage: run.py setup | check PROP quick|thorough [filter] | replay HARNESS FILE'); sys.exit(2)
