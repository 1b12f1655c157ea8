#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough   decide one property of /repo's current tree
   check.py replay FILE               run a reported counterexample again
   check.py build                     build everything the checks need

Each check compiles the noodle crate together with the harness to LLVM bitcode,
executes it symbolically (engine/), and replays what the solver found against a
native build of the same sources.
"""
import collections, fcntl, json, os, random, re, resource, shutil, subprocess, sys, threading, time, select
HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, '.build')
EVID = os.path.join(HERE, 'evidence')
sys.path.insert(0, HERE)
import jobs as J

T0 = time.time()
def log(*a): print(*a, flush=True)

# ------------------------------------------------------------------ building
def env():
    e = dict(os.environ)
    e.update(HOME='/root', PATH='/usr/local/bin:/root/.cargo/bin:/usr/bin:/bin:/usr/sbin:/sbin', RUSTUP_TOOLCHAIN='stable',
             CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', CARGO_INCREMENTAL='0')
    e.pop('RUSTFLAGS', None); e.pop('CARGO_TARGET_DIR', None)
    return e
def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=env(), **kw)
    return p.returncode, p.stdout
def newest(d, pat):
    best = None
    for f in os.listdir(d):
        if re.fullmatch(pat, f):
            p = os.path.join(d, f)
            if best is None or os.path.getmtime(p) > os.path.getmtime(best): best = p
    return best
def forget(target, profile):
    """Makes cargo compile the crates under test again, whatever the time stamps say."""
    d = os.path.join(target, profile, '.fingerprint')
    if os.path.isdir(d):
        for f in os.listdir(d):
            if re.match(r'(noodle|harness|web|world)-', f): shutil.rmtree(os.path.join(d, f), ignore_errors=True)
    d = os.path.join(target, profile, 'deps')
    if os.path.isdir(d):
        for f in os.listdir(d):
            if re.match(r'(lib)?(noodle|harness|webapp|cli|warp|structopt)-', f):
                try: os.remove(os.path.join(d, f))
                except OSError: pass
def crate(binname): return os.path.join(HERE, 'web' if binname in ('webapp', 'cli') else 'harness')
class BuildError(Exception): pass
def build_engine():
    exe = os.path.join(BUILD, 'symex')
    src = [os.path.join(HERE, 'engine', f) for f in os.listdir(os.path.join(HERE, 'engine'))]
    if os.path.exists(exe) and all(os.path.getmtime(s) <= os.path.getmtime(exe) for s in src): return exe
    rc, out = run(['bash', os.path.join(HERE, 'engine', 'build.sh'), exe])
    if rc: raise BuildError('engine: ' + out[-2000:])
    return exe
def build_sym(binname):
    t = os.path.join(BUILD, 'sym-' + binname); forget(t, 'sym')
    rc, out = run(['cargo', 'rustc', '--offline', '--profile', 'sym', '--bin', binname, '--target-dir', t, '--', '--emit=llvm-bc',
                   '-Clink-arg=-Wl,--unresolved-symbols=ignore-all'], cwd=crate(binname))
    bc = newest(os.path.join(t, 'sym', 'deps'), binname + r'-[0-9a-f]+\.bc') if os.path.isdir(os.path.join(t, 'sym', 'deps')) else None
    if rc or not bc: raise BuildError('the harness does not compile against /repo:\n' + errors(out))
    return bc
def build_native(binname):
    t = os.path.join(BUILD, 'native-' + binname); forget(t, 'checked')
    rc, out = run(['cargo', 'build', '--offline', '--profile', 'checked', '--features', 'native', '--bin', binname, '--target-dir', t], cwd=crate(binname))
    exe = os.path.join(t, 'checked', binname)
    if rc or not os.path.exists(exe): raise BuildError('the harness does not compile against /repo:\n' + errors(out))
    return exe
def errors(out):
    l = out.splitlines(); r = []
    for i, x in enumerate(l):
        if x.startswith('error'): r += l[i:i + 8]
    return '\n'.join(r[:60]) or out[-2000:]
def build_all(binname):
    os.makedirs(BUILD, exist_ok=True)
    if binname in SCRIPTS: return {'engine': SCRIPTS[binname], 'sym': None, 'native': SCRIPTS[binname] + ['native']}
    res, err = {}, []
    def go(k, f, *a):
        try: res[k] = f(*a)
        except Exception as e: err.append(e)
    th = [threading.Thread(target=go, args=x) for x in (('engine', build_engine), ('sym', build_sym, binname), ('native', build_native, binname))]
    for t in th: t.start()
    for t in th: t.join()
    if err: raise err[0]
    return res
SCRIPTS = {'listgen': ['python3-vt', os.path.join(HERE, 'pysym', 'run.py')], 'page': ['node', os.path.join(HERE, 'page', 'run.js')]}
class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True); self.f = open(os.path.join(BUILD, 'lock'), 'w'); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

# ------------------------------------------------------------------ symbolic run
def symex(exe, bc, jobs, secs, out, procs=8):
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    jf = os.path.join(out, 'jobs.txt')
    with open(jf, 'w') as f:
        for j in jobs: print(j.name, j.secs, *j.args, file=f)
    def lim(): resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    p = subprocess.run([exe, bc, jf, out, str(procs), str(secs)] if bc else exe + [jf, out, str(secs)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=env(), preexec_fn=lim)
    stats, paths, crashes = [], [], 0
    for f in sorted(os.listdir(out)):
        if not f.endswith('.jsonl'): continue
        with open(os.path.join(out, f), errors='replace') as fh:
            for l in fh:
                try: r = json.loads(l)
                except ValueError: continue
                if r['t'] == 'stat': stats.append(r)
                elif r['t'] == 'path': paths.append(r)
                elif r['t'] == 'crash': crashes += 1
    if p.returncode not in (0, 4): log(p.stdout[-2000:])
    return stats, paths, crashes, p.returncode

# ------------------------------------------------------------------ native replay
class Native:
    def __init__(self, exe, quiet=20): self.exe, self.quiet = exe if isinstance(exe, list) else [exe], quiet
    def run(self, cases, deadline):
        """cases: [(args, vals)] -> list of results (None: not run)."""
        res = [None] * len(cases); i = 0
        while i < len(cases) and time.time() < deadline:
            inp = ''.join(' '.join(map(str, a)) + ' | ' + ' '.join(map(str, v)) + '\n' for a, v in cases[i:])
            def lim(): resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            p = subprocess.Popen(self.exe, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env(), preexec_fn=lim)
            def feed():
                try: p.stdin.write(inp.encode()); p.stdin.close()
                except (BrokenPipeError, OSError): pass
            th = threading.Thread(target=feed, daemon=True); th.start()
            buf = b''; why = None
            while True:
                r, _, _ = select.select([p.stdout], [], [], self.quiet)
                if not r: why = 'hang'; break
                d = os.read(p.stdout.fileno(), 1 << 16)
                if not d: break
                buf += d
                while b'\n' in buf:
                    l, buf = buf.split(b'\n', 1)
                    if l.startswith(b'@@R '): res[i] = json.loads(l[4:]); i += 1
                if time.time() > deadline: break
            p.kill(); rc = p.wait()
            if i < len(cases) and time.time() < deadline or why:
                if i < len(cases):
                    res[i] = {'kind': 'hang' if why else 'died', 'id': 0, 'msg': 'no end within %d s' % self.quiet if why else 'process ended with status %d' % rc, 'obs': [], 'covers': [], 'notes': []}; i += 1
        return res
    def valgrind(self, case):
        inp = ' '.join(map(str, case[0])) + ' | ' + ' '.join(map(str, case[1])) + '\n'
        try: p = subprocess.run(['valgrind', '-q', '--error-exitcode=99'] + self.exe, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=env(), timeout=120)
        except (subprocess.TimeoutExpired, OSError): return None
        return p.stderr[-3000:] if p.returncode == 99 else None
BAD = ('fail', 'panic', 'died', 'hang')

# ------------------------------------------------------------------ one check
def demangle(names):
    if not names: return {}
    try:
        p = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
        out = p.stdout.splitlines()
    except OSError: out = names
    return dict(zip(names, [re.sub(r'::h[0-9a-f]{16}$', '', x) for x in out]))
def describe(spec, job, rec, nat):
    return {'scenario': spec.scenarios.get(job.args[0], str(job.args[0])), 'arguments': list(job.args), 'values': rec['vals'], 'outcome': nat['kind'] if nat else rec['kind'],
            'observed': (nat or rec)['obs'][:40], 'native': (nat or {}).get('notes', [])[:12]}
def check(pid, tier):
    spec = J.PROPS[pid]; seed = int(os.environ.get('VERIF_SEED', '1') or 1); rnd = random.Random(seed)
    os.makedirs(EVID, exist_ok=True)
    with Lock(): b = build_all(spec.bin)
    tb = time.time() - T0
    jobs = spec.quick if tier == 'quick' else spec.quick + spec.thorough
    secs = spec.secs[0 if tier == 'quick' else 1]
    by = {j.name: j for j in jobs}; assert len(by) == len(jobs), 'duplicate job names'
    out = os.path.join(BUILD, 'run-%s-%s' % (pid, tier))
    stats, paths, crashes, rc = symex(b['engine'], b['sym'], jobs, secs, out)
    ts = time.time() - T0 - tb
    tot = collections.Counter(); covers = collections.Counter(); funcs = collections.Counter(); perjob = collections.defaultdict(collections.Counter); unfinished = set(); maxq = 0
    for s in stats:
        for k in ('ok', 'assume', 'fail', 'panic', 'err', 'dropped', 'instr', 'forks', 'asserts', 'queries', 'tables', 'crossed', 'sat', 'unsat', 'cache', 'solver_s'): tot[k] += s.get(k, 0); perjob[s['job']][k] += s.get(k, 0)
        for k, v in s['covers'].items(): covers[k] += v
        for k, v in s['funcs'].items(): funcs[k] += v
        maxq = max(maxq, s['maxq_s'])
        if s['incomplete']: unfinished.add(s['job'])
    for j in jobs:
        if j.name not in perjob: unfinished.add(j.name)
    # ---- replay against the real code
    nat = Native(b['native']); deadline = time.time() + (60 if tier == 'quick' else 180)
    bad = [p for p in paths if p['kind'] != 'ok']
    # each distinct symptom first, then more of the same
    seen = collections.Counter(); keyed = []
    for p in bad:
        k = (p['kind'], p['id'], p['msg'][:120]); seen[k] += 1; keyed.append((seen[k], len(p['vals']), len(keyed), p))
    bad = [x[3] for x in sorted(keyed, key=lambda x: x[:3])][:200]
    r = nat.run([(by[p['job']].args, p['vals']) for p in bad], deadline)
    viol, unconf = [], []
    for p, n in zip(bad, r):
        if n and n['kind'] in BAD: viol.append((p, n))
        elif p['kind'] == 'memerr' and len(unconf) < 3:
            v = nat.valgrind((by[p['job']].args, p['vals']))
            if v: viol.append((p, dict(n or {}, kind='memory error', msg=v, obs=[], covers=[], notes=[])))
            else: unconf.append((p, n))
        elif p['kind'] in ('limit', 'unsupported') : pass
        else: unconf.append((p, n))
    ok = [p for p in paths if p['kind'] == 'ok']; rnd.shuffle(ok)
    # spread over the jobs
    pick = []; cnt = collections.Counter()
    for p in ok:
        cnt[p['job']] += 1; pick.append((cnt[p['job']], len(pick), p))
    ok = [x[2] for x in sorted(pick, key=lambda x: x[:2])][:400 if tier == 'quick' else 3000]
    r = nat.run([(by[p['job']].args, p['vals']) for p in ok], deadline + 30)
    agree = 0; mism = []; ncov = collections.Counter(); samples = []
    for p, n in zip(ok, r):
        if n is None: continue
        if n['kind'] in BAD: viol.append((p, n)); continue
        if n['kind'] == 'ok' and n['obs'] == p['obs']:
            agree += 1
            for c in n['covers']: ncov[str(c)] += 1
            if len(samples) < 5: samples.append(describe(spec, by[p['job']], p, n))
        else: mism.append({'job': p['job'], 'vals': p['vals'], 'symbolic': p['obs'][:20], 'native': n['obs'][:20], 'kind': n['kind']})
    # ---- known findings
    known = known_findings(pid); shown = set(); real = []
    for p, n in viol:
        k = next((k for k in known if k['args'] == list(by[p['job']].args) and k['vals'] == p['vals']), None)
        if k: shown.add(k['what'])
        else: real.append((p, n))
    for k in known: log('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    # ---- evidence
    missing = [c for c in spec.covers if not ncov.get(str(c)) and not covers.get(str(c))]
    dm = demangle(sorted(funcs)); exhaustive = not unfinished and not crashes and not unconf and not mism and not missing
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - T0, 2), 'violations': len(real),
          'assumptions': (J.ASSUMPTIONS if b['sym'] else []) + spec.assumptions,
          'coverage': {
              'states': tot['forks'] + len(jobs), 'transitions': tot['instr'], 'traces_validated_against_impl': agree, 'samples': samples,
              'explanation': 'states: symbolic program states branched on (forks + initial states); transitions: ' + ('LLVM instructions executed symbolically' if b['sym'] else 'decisions of the code made by the solver') + '; traces: feasible paths whose recorded input was run natively with identical observations',
              'paths_completed': tot['ok'], 'paths_assumed_away': tot['assume'], 'paths_failing': tot['fail'] + tot['panic'] + tot['err'], 'paths_dropped': tot['dropped'],
              'assertions_decided_by_solver': tot['asserts'], 'solver_queries': tot['queries'], 'sat': tot['sat'], 'unsat': tot['unsat'], 'answered_from_cache': tot['cache'], 'decided_by_exact_tables': tot['tables'], 'table_decisions_confirmed_by_z3': tot['crossed'],
              'solver_s': round(tot['solver_s'], 2), 'slowest_query_s': maxq, 'build_s': round(tb, 1), 'symbolic_s': round(ts, 1),
              'bounds': spec.bounds + (spec.bounds_thorough if tier == 'thorough' else []), 'outside_bounds': spec.outside,
              'functions_encoded': sorted({dm.get(f, f) for f in funcs if 'harness' not in dm.get(f, f)[:9]}), 'covers': {str(k): v for k, v in sorted(covers.items())}, 'cover_meaning': spec.cover_meaning, 'covers_missing': missing,
              'jobs': {j.name: {'args': list(j.args), 'paths': perjob[j.name]['ok'], 'complete': j.name not in unfinished, 'solver_s': round(perjob[j.name]['solver_s'], 2)} for j in jobs},
              'jobs_incomplete': sorted(unfinished), 'engine_crashes': crashes, 'unconfirmed': [{'job': p['job'], 'kind': p['kind'], 'id': p['id'], 'msg': p['msg'], 'vals': p['vals']} for p, n in unconf[:10]],
              'unsupported': sorted({p['msg'] for p in paths if p['kind'] in ('unsupported', 'limit')})[:10], 'observation_mismatches': mism[:10], 'exhaustive': exhaustive}}
    with open(os.path.join(EVID, pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    shutil.rmtree(out, ignore_errors=True)
    log('%s %s: %d paths, %d %s, %d queries (%d unsat), %d assertions, %d traces replayed, %d/%d jobs complete, build %.0f s, search %.0f s' % (
        pid, tier, tot['ok'], tot['instr'], 'instructions' if b['sym'] else 'decisions', tot['queries'], tot['unsat'], tot['asserts'], agree, len(jobs) - len(unfinished), len(jobs), tb, ts))
    if unfinished: log('  not finished within the time limit: ' + ' '.join(sorted(unfinished)))
    if unconf: log('  %d symbolic counterexamples did not reproduce natively (not reported)' % len(unconf)); log('  e.g. ' + json.dumps(ev['coverage']['unconfirmed'][:2]))
    if mism: log('  %d observation mismatches, e.g. %s' % (len(mism), json.dumps(mism[0])))
    if missing: log('  never reached: ' + ', '.join(spec.cover_meaning.get(c, str(c)) for c in missing))
    if real:
        d = os.path.join(EVID, 'replay'); os.makedirs(d, exist_ok=True)
        done = set()
        for p, n in real:
            k = (n['kind'], n['id'])
            if k in done: continue
            done.add(k)
            f = os.path.join(d, '%s-%d.json' % (pid, len(done)))
            with open(f, 'w') as fh: json.dump({'property': pid, 'bin': spec.bin, 'args': list(by[p['job']].args), 'vals': p['vals'], 'scenario': spec.scenarios.get(by[p['job']].args[0]), 'symbolic': {'kind': p['kind'], 'id': p['id'], 'msg': p['msg']}, 'native': n, 'meaning': J.MEANING.get(n['id'], '')}, fh, indent=1)
            log('  %s %s %s: %s' % (n['kind'], n['id'] or '', J.MEANING.get(n['id'], n['msg'])[:300], '; '.join(n['notes'])[:500]))
            log('VIOLATION property=%s replay=%s' % (pid, f))
            if len(done) >= 5: break
        return 1
    if not tot['ok']:
        log('no path was completed: nothing was decided'); return 2
    return 0
def known_findings(pid):
    r = []; p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) args=(\S+) vals=(\S*) (.*)', l)
            if m and m[1] == pid: r.append({'args': [int(x) for x in m[2].split(',')], 'vals': [int(x) for x in m[3].split(',') if x], 'what': m[4]})
    return r
def main():
    a = sys.argv[1:]
    if a[:1] == ['build']:
        with Lock():
            for bn in sorted({s.bin for s in J.PROPS.values()}): build_all(bn)
        return 0
    if a[:1] == ['list']:
        sp = J.PROPS[a[1]]
        for j in (sp.quick if a[2] == 'quick' else sp.thorough): print(j.name, j.secs, *j.args)
        return 0
    if a[:1] == ['replay']:
        d = json.load(open(a[1]))
        with Lock(): exe = SCRIPTS[d['bin']] + ['native'] if d['bin'] in SCRIPTS else build_native(d['bin'])
        r = Native(exe).run([(d['args'], d['vals'])], time.time() + 60)[0]
        print(json.dumps(r, indent=1)); return 1 if r['kind'] in BAD else 0
    try: return check(a[0], a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick'))
    except BuildError as e: log('cannot build: %s' % e); return 2
if __name__ == '__main__': sys.exit(main())
