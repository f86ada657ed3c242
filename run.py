#!/usr/bin/env python3
"""Driver: decide one property by symbolic execution of /repo's current sources.

  run.py PROPERTY [quick|thorough]     run the check registered in props.py
  run.py --setup                       build the executor (build/symx)
  run.py --list                        list properties and jobs
"""
import os, sys, json, time, subprocess, shutil, glob, threading, tempfile, re, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
ENG = os.path.join(HERE, 'engine')
HARN = os.path.join(HERE, 'harness')
SYMX = os.path.join(BUILD, 'symx')
CPUS = min(8, os.cpu_count() or 8)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

# ---------------------------------------------------------------- engine
def engine_sources():
    return [os.path.join(ENG, f) for f in ('symx.cpp', 'mpi_model.inc', 'builtins.inc', 'interp.inc')]

def setup():
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256(b''.join(open(f, 'rb').read() for f in engine_sources())).hexdigest()
    stamp = SYMX + '.sha'
    if os.path.exists(SYMX) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    flags = sh(['llvm-config-18', '--cppflags']).stdout.split()
    tmp = SYMX + '.%d' % os.getpid()
    r = sh(['g++', '-O2', '-std=c++17', '-fno-rtti'] + flags + ['-o', tmp, os.path.join(ENG, 'symx.cpp'),
           '-L/usr/lib/llvm-18/lib', '-lLLVM-18', '-lz3', '-lpthread'])
    if r.returncode:
        print(r.stdout); raise SystemExit('cannot build the executor')
    os.rename(tmp, SYMX)
    open(stamp, 'w').write(h)

# ---------------------------------------------------------------- target
BASE = ['-DGSLIB_USE_MPI', '-DGSLIB_UNDERSCORE', '-DGSLIB_PREFIX=gslib_', '-DGSLIB_FPREFIX=fgslib_',
        '-DGSLIB_USE_GLOBAL_LONG_LONG', '-DGSLIB_USE_NAIVE_BLAS', '-ffp-contract=off', '-w']
CFG = {'nbc': BASE + ['-DGSLIB_USE_NBC'],
       'def': BASE,
       'ser': [f for f in BASE if f != '-DGSLIB_USE_MPI'],
       'g32': [f for f in BASE if f != '-DGSLIB_USE_GLOBAL_LONG_LONG'] + ['-DGSLIB_USE_NBC'],
       'gl': [f for f in BASE if f != '-DGSLIB_USE_GLOBAL_LONG_LONG'] + ['-DGSLIB_USE_NBC', '-DGSLIB_USE_GLOBAL_LONG'],
       'l64': BASE + ['-DGSLIB_USE_NBC', '-DGSLIB_USE_LONG_LONG'],
       'cbl': [f for f in BASE if f != '-DGSLIB_USE_NAIVE_BLAS'] + ['-DGSLIB_USE_NBC', '-DGSLIB_USE_CBLAS'],
       'fmx': [f for f in BASE if f != '-DGSLIB_USE_NAIVE_BLAS'] + ['-DGSLIB_USE_NBC'],
       'usr': BASE + ['-DGSLIB_USE_NBC', '-DGSLIB_USE_USR_EXIT']}
INC = ['-I' + os.path.join(ENG, 'include'), '-I' + os.path.join(REPO, 'src'), '-I' + HARN]

def lib_sources(drop):
    return [f for f in sorted(glob.glob(os.path.join(REPO, 'src', '*.c')))
            if os.path.basename(f) not in ('gen_poly_imp.c',) + tuple(drop)]

class BuildError(Exception):
    pass

def par(cmds):
    """run commands, CPUS at a time; raise on failure"""
    out = []
    it = iter(cmds); lock = threading.Lock()
    def work():
        while True:
            with lock:
                c = next(it, None)
            if c is None:
                return
            r = sh(c)
            if r.returncode:
                out.append((' '.join(c), r.stdout))
    ts = [threading.Thread(target=work) for _ in range(CPUS)]
    [t.start() for t in ts]; [t.join() for t in ts]
    if out:
        raise BuildError(out[0][0] + '\n' + out[0][1][-3000:])

class Target:
    """bitcode and native builds of (harness, cfg, drop) from REPO's current tree"""
    def __init__(self, work):
        self.work = work; self.libs = {}; self.bcs = {}; self.nats = {}; self.lock = threading.Lock()
    def bitcode(self, keys):
        libs = sorted({(c, d) for (_, c, d) in keys}); cmds = []
        for (c, d) in libs:
            o = os.path.join(self.work, 'lib_%s_%s' % (c, '_'.join(d))); os.makedirs(o, exist_ok=True); self.libs[(c, d)] = []
            for f in lib_sources(d):
                t = os.path.join(o, os.path.basename(f)[:-2] + '.bc'); self.libs[(c, d)].append(t)
                cmds.append(['clang-18', '-g', '-O0', '-Xclang', '-disable-O0-optnone', '-fsanitize=float-cast-overflow', '-fsanitize-trap=float-cast-overflow'] + CFG[c] + INC + ['-emit-llvm', '-c', f, '-o', t])
        for (h, c, d) in keys:
            t = os.path.join(self.work, 'h_%s_%s_%s.bc' % (h, c, '_'.join(d)))
            cmds.append(['clang-18', '-g', '-O0', '-Xclang', '-disable-O0-optnone', '-fsanitize=float-cast-overflow', '-fsanitize-trap=float-cast-overflow'] + CFG[c] + INC + ['-emit-llvm', '-c', os.path.join(HARN, h + '.c'), '-o', t])
        par(cmds)
        def link(k):
            h, c, d = k; b = os.path.join(self.work, 'h_%s_%s_%s' % (h, c, '_'.join(d)))
            return ['sh', '-e', '-c', 'llvm-link-18 %s.bc %s -o %s.all.bc; opt-18 -passes="internalize,globaldce" -internalize-public-api-list=harness_main %s.all.bc -o %s.i.bc; opt-18 -passes="function(mem2reg,early-cse,simplifycfg)" %s.i.bc -o %s.x.bc; rm -f %s.i.bc %s.all.bc'
                    % (b, ' '.join(self.libs[(c, d)]), b, b, b, b, b, b, b)]
        par([link(k) for k in keys])
        for (h, c, d) in keys:
            self.bcs[(h, c, d)] = os.path.join(self.work, 'h_%s_%s_%s.x.bc' % (h, c, '_'.join(d)))
    WRAP = '-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=exit'
    def native(self, keys, san=True):
        san_f = ['-fsanitize=address'] if san else []
        todo = [k for k in keys if (k, san) not in self.nats]
        cmds = []; objs = {}
        for (c, d) in sorted({(c, d) for (_, c, d) in todo}):
            o = os.path.join(self.work, 'nat%d_%s_%s' % (san, c, '_'.join(d))); os.makedirs(o, exist_ok=True); objs[(c, d)] = []
            for f in lib_sources(d) + [os.path.join(ENG, 'native.c')]:
                t = os.path.join(o, os.path.basename(f)[:-2] + '.o'); objs[(c, d)].append(t)
                cmds.append(['gcc', '-g', '-O1', '-ffp-contract=off'] + san_f + CFG[c] + INC + ['-c', f, '-o', t])
        for (h, c, d) in todo:
            t = os.path.join(self.work, 'n%d_%s_%s_%s.o' % (san, h, c, '_'.join(d)))
            cmds.append(['gcc', '-g', '-O1', '-ffp-contract=off'] + san_f + CFG[c] + INC + ['-c', os.path.join(HARN, h + '.c'), '-o', t])
        par(cmds)
        cmds = []
        for (h, c, d) in todo:
            b = os.path.join(self.work, 'n%d_%s_%s_%s' % (san, h, c, '_'.join(d)))
            cmds.append(['gcc'] + san_f + ['-o', b, b + '.o'] + objs[(c, d)] + [self.WRAP, '-lm', '-lpthread'])
            self.nats[((h, c, d), san)] = b
        par(cmds)

def run_native(binary, params, witness=None, rnd=None, write=None, late=False, observe=None, valgrind=False, timeout=90):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0', SYM_PARAMS=','.join('%s=%d' % kv for kv in sorted(params.items())))
    for k in ('SYM_WITNESS', 'SYM_RANDOM', 'SYM_WRITE', 'SYM_LATE', 'SYM_OBSERVE'):
        env.pop(k, None)
    if witness: env['SYM_WITNESS'] = witness
    if rnd is not None: env['SYM_RANDOM'] = str(rnd)
    if write: env['SYM_WRITE'] = write
    if late: env['SYM_LATE'] = '1'
    if observe: env['SYM_OBSERVE'] = observe
    cmd = [binary]
    if valgrind:
        cmd = ['valgrind', '-q', '--error-exitcode=77', '--trace-children=yes', '--undef-value-errors=yes'] + cmd
    try:
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return 75, 'timeout (hang)\n' + ((e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''))

# exit codes of the native runtime that say nothing about the library
NEUTRAL = (0, 76, 79, 90, 2, 127, 126)

# ---------------------------------------------------------------- jobs
def run_job(job, tgt, outdir, jobs):
    cmd = [SYMX, '--bc', tgt.bcs[job.key()], '--out', outdir, '--jobs', str(jobs), '--deadline', str(job.deadline), '--repo', REPO, '--wits', '3', '--maxviol', '6']
    if job.rlimit: cmd += ['--rlimit', str(job.rlimit)]
    if job.logic: cmd += ['--logic', job.logic]
    if job.fresh: cmd += ['--fresh']
    if job.steps: cmd += ['--steps', str(job.steps)]
    for k, v in sorted(job.params.items()):
        cmd += ['--arg', '%s=%d' % (k, v)]
    t0 = time.time()
    r = None
    try:
        r = sh(cmd, timeout=job.deadline + 60)
        log = r.stdout
    except subprocess.TimeoutExpired:
        log = 'driver timeout'
        sh(['pkill', '-9', '-f', outdir])
    open(os.path.join(outdir, 'log.txt'), 'w').write(log or '')
    try:
        s = json.load(open(os.path.join(outdir, 'summary.json')))
    except Exception:
        s = None
    return s, log, time.time() - t0

def load_known():
    try:
        return json.load(open(os.path.join(HERE, 'known_findings.json')))
    except FileNotFoundError:
        return {'findings': []}

def check(prop, tier):
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    setup()
    P = props.PROPS[prop]
    jobs = [j for j in P['jobs'] if tier == 'thorough' or j.quick]
    only = os.environ.get('VERIF_ONLY')
    if only: jobs = [j for j in jobs if re.search(only, j.label)]
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix='run-%s-' % prop, dir=BUILD)
    repdir = os.path.join(HERE, 'replays', prop)
    shutil.rmtree(repdir, ignore_errors=True)
    try:
        return _check(prop, tier, seed, t0, P, jobs, work, repdir)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def _check(prop, tier, seed, t0, P, jobs, work, repdir):
    tgt = Target(work)
    keys = sorted({j.key() for j in jobs})
    tgt.bitcode(keys)
    natexc = []
    def nb():
        try: tgt.native(keys)
        except BuildError as e: natexc.append(e)
    budget = float(os.environ.get('VERIF_BUDGET', '600' if tier == 'quick' else '14000'))
    nt = threading.Thread(target=nb); nt.start()
    res = {}; slots = [CPUS]; cv = threading.Condition(); early = [tier == 'quick']; skipped = []; nviol = [0]
    def one(i, j):
        need = min(CPUS, j.cpus)
        with cv:
            while slots[0] < need: cv.wait()
            slots[0] -= need
        try:
            d = os.path.join(work, 'job%d' % i); os.makedirs(d, exist_ok=True)
            if early[0] and nviol[0] >= 4 and time.time() - t0 > 120:
                skipped.append(i); res[i] = (None, 'not run: others report violations', 0.0, d); return
            left = budget - (time.time() - t0)
            if left < 5:
                res[i] = (None, 'budget exhausted', 0.0, d); return
            j.deadline = min(j.deadline, left)
            res[i] = run_job(j, tgt, d, need) + (d,)
            if res[i][0] and res[i][0]['violations']: nviol[0] += 1
        finally:
            with cv:
                slots[0] += need; cv.notify_all()
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i].cpus)
    ths = [threading.Thread(target=one, args=(i, jobs[i])) for i in order]
    [t.start() for t in ths]; [t.join() for t in ths]
    nt.join()
    if natexc: print('note: native build failed:', natexc[0])
    # ---- violations: replay natively
    known = [k for k in load_known()['findings'] if k['property'] == prop and k.get('status') == 'open']
    confirmed = []; unconfirmed = []; knownhit = {}
    def confirm(i, j):
        s, log, w, d = res[i]
        for t in sorted(glob.glob(os.path.join(d, 'viol*.txt'))):
            info = dict(l.split(': ', 1) for l in open(t).read().splitlines() if ': ' in l)
            kf = [k for k in known if re.fullmatch(k['job'], j.label) and re.fullmatch(k['key'], info.get('key', ''))]
            if kf:
                knownhit.setdefault(kf[0]['id'], []).append(info.get('key')); continue
            if info.get('key') in {c[1].get('key') for c in confirmed} or len(confirmed) >= 6: continue
            if confirmed and tier == 'quick' and time.time() - t0 > 400: continue
            wit = t[:-4] + '.wit'; ok = None; tried = []
            if not natexc:
                variants = [dict(), dict(late=True)]
                if info.get('kind') in ('uninitialized',): variants.append(dict(valgrind=True))
                for v in variants:
                    v = dict(v); san = not v.get('valgrind')
                    if not san: tgt.native([j.key()], san=False)
                    rc, out = run_native(tgt.nats[(j.key(), san)], j.params, witness=wit, **v)
                    tried.append((v, rc, out))
                    if rc not in NEUTRAL:
                        ok = (v, rc, out); break
            if ok: confirmed.append((j, info, wit, ok))
            else: unconfirmed.append((j, info, wit, tried))
    for i, j in enumerate(jobs): confirm(i, j)
    if skipped and not confirmed:
        early[0] = False; more = sorted(skipped)
        ths = [threading.Thread(target=one, args=(i, jobs[i])) for i in more]
        [x.start() for x in ths]; [x.join() for x in ths]
        for i in more: confirm(i, jobs[i])
    viol = []
    for n, (j, info, wit, (v, rc, out)) in enumerate(confirmed):
        rd = os.path.join(repdir, str(n)); os.makedirs(rd, exist_ok=True)
        shutil.copy(wit, os.path.join(rd, 'witness.wit'))
        json.dump({'property': prop, 'harness': j.harness, 'cfg': j.cfg, 'drop': list(j.drop), 'params': j.params, 'variant': v, 'violation': info, 'native_exit': rc, 'native_output': out[-4000:]}, open(os.path.join(rd, 'replay.json'), 'w'), indent=1)
        viol.append((os.path.join(rd, 'replay.json'), info, j))
    # ---- validation of the executor against native runs
    tv = 0; mism = []; samples = []
    if not natexc:
        lock = threading.Lock(); todo = []
        for i, j in enumerate(jobs):
            s, log, w, d = res[i]
            if not s: continue
            if s['violations']: continue
            for p in sorted(glob.glob(os.path.join(d, 'path*.wit')))[:j.nval]: todo.append((i, j, p, None))
            for r in range(j.nrand): todo.append((i, j, None, seed * 1000 + r * 17 + i))
        cap = time.time() + (40 if tier == 'quick' else 300)
        def val():
            nonlocal tv
            while True:
                with lock:
                    if not todo or time.time() > cap: return
                    i, j, p, r = todo.pop()
                vd = tempfile.mkdtemp(dir=work)
                wit = p or os.path.join(vd, 'w.wit'); obs = os.path.join(vd, 'o.txt')
                rc, out = run_native(tgt.nats[(j.key(), True)], j.params, witness=p, rnd=r, write=None if p else wit, observe=obs, timeout=60)
                if rc == 79: continue
                cmd = [SYMX, '--bc', tgt.bcs[j.key()], '--out', vd, '--jobs', '1', '--deadline', '60', '--repo', REPO, '--fix', wit]
                for k, v in sorted(j.params.items()): cmd += ['--arg', '%s=%d' % (k, v)]
                try: sh(cmd, timeout=120)
                except subprocess.TimeoutExpired: continue
                try: s2 = json.load(open(os.path.join(vd, 'summary.json')))
                except Exception: s2 = None
                why = None
                if s2 is None or s2['unsupported'] or s2['timed_out']: continue
                if rc in (76,) and p: why = 'assumption fails natively'
                elif (rc != 0) != (s2['violations'] > 0): why = 'native exit %d, executor violations %d' % (rc, s2['violations'])
                else:
                    a = sorted(open(obs).read().splitlines()) if os.path.exists(obs) else []
                    b = os.path.join(vd, 'observe.txt'); b = sorted(open(b).read().splitlines()) if os.path.exists(b) else []
                    if len(a) != len(b): why = 'observations differ in number: %d native, %d executor' % (len(a), len(b))
                    else:
                        for x, y in zip(a, b):
                            if x == y: continue
                            xn, xv = x.rsplit(' ', 1); yn, yv = y.rsplit(' ', 1)
                            try: same = xn == yn and abs(float(xv) - float(yv)) <= 1e-7 * max(1, abs(float(xv)))
                            except ValueError: same = False
                            if not same: why = 'observation %s vs %s' % (x, y); break
                with lock:
                    if why: mism.append('%s: %s' % (j.label, why))
                    else:
                        tv += 1
                        if len(samples) < 4:
                            L = open(wit).read().split('\n')[:12]
                            samples.append({'job': j.label, 'inputs': L, 'agrees_on': len(a)})
        ts = [threading.Thread(target=val) for _ in range(CPUS)]; [t.start() for t in ts]; [t.join() for t in ts]
    # ---- evidence
    tot = lambda k: sum(res[i][0][k] for i in range(len(jobs)) if res[i][0])
    funcs = sorted({re.sub(r'\.\d+$', '', f) for i in range(len(jobs)) if res[i][0] for f in res[i][0]['functions']})
    incomplete = []
    jl = []
    for i, j in enumerate(jobs):
        s, log, w, d = res[i]
        if not s:
            incomplete.append('%s: no result (%s)' % (j.label, (log or '')[-200:])); continue
        why = []
        if s['timed_out']: why.append('deadline')
        if s['stopped']: why.append('stopped early')
        if s['crashed']: why.append('%d crashed workers' % s['crashed'])
        if s['unsupported']: why.append('unsupported: ' + '; '.join(s['unsupported_msgs'][:2]))
        if s['unknown']: why.append('%d unknown' % s['unknown'])
        if s['paths_cut']: why.append('%d paths cut' % s['paths_cut'])
        if s['covers_missing']: why.append('vacuous: ' + ','.join(s['covers_missing']))
        if not s['paths_completed']: why.append('no completed path')
        if why: incomplete.append('%s: %s' % (j.label, ', '.join(why)))
        jl.append({'job': j.label, 'bounds': j.bounds(), 'complete': not why, 'paths': s['paths_completed'], 'queries': s['queries'], 'sat': s['sat'], 'unsat': s['unsat'], 'unknown': s['unknown'], 'solver_s': s['solver_s'], 'asserts_symbolic': s['asserts_symbolic'], 'asserts_folded': s['asserts_concrete'], 'wall_s': round(w, 2), 'covers': s['covers'], 'notes': s['notes']})
    if not samples: samples = [{'job': j.label, 'bounds': j.bounds()} for j in jobs[:2]]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': P.get('level', 'model_checking'),
          'coverage': {'states': tot('paths_completed'), 'transitions': tot('steps'), 'traces_validated_against_impl': tv, 'samples': samples,
                       'meaning': 'states = feasible execution paths explored to completion (each covers all symbolic data values on it); transitions = IR instructions executed symbolically; traces = runs compared with the natively compiled code',
                       'queries': tot('queries'), 'queries_sat': tot('sat'), 'queries_unsat': tot('unsat'), 'queries_unknown': tot('unknown'), 'solver_s': round(tot('solver_s'), 3),
                       'obligations_symbolic': tot('asserts_symbolic'), 'obligations_constant_folded': tot('asserts_concrete'), 'forks': tot('forks'),
                       'functions_encoded': funcs, 'jobs': jl, 'incomplete': incomplete, 'exhaustive': not incomplete,
                       'validation_mismatches': mism[:10], 'unconfirmed': [{'job': j.label, 'key': i.get('key'), 'msg': i.get('msg'), 'tried': [(str(v), rc) for v, rc, _ in tr]} for j, i, w, tr in unconfirmed],
                       'known_findings_seen': knownhit},
          'assumptions': P.get('assumptions', []) + props.COMMON_ASSUMPTIONS,
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    # ---- report
    for i, j in enumerate(jobs):
        s, log, w, d = res[i]
        if s and not (s['violations'] or w > 5 or os.environ.get('VERIF_VERBOSE')): continue
        if s: print('  %-34s paths %6d  queries %6d  solver %7.2fs  wall %6.1fs%s' % (j.label, s['paths_completed'], s['queries'], s['solver_s'], w, '  VIOL ' + ';'.join(s['viol_keys']) if s['violations'] else ''))
        else: print('  %-34s no result: %s' % (j.label, (log or '')[-300:]))
    for x in incomplete: print('  incomplete:', x)
    for x in mism: print('  validation mismatch:', x)
    for j, info, wit, tr in unconfirmed:
        print('  unconfirmed (not reported): %s %s %s; native: %s' % (j.label, info.get('key'), info.get('msg'), [(str(v), rc, o[-200:] if rc else '') for v, rc, o in tr]))
        if os.environ.get('VERIF_KEEP'):
            print(open(wit).read()); print(info)
    print('%s: %d paths, %d queries, %d validated traces, %.1f s' % (prop, tot('paths_completed'), tot('queries'), tv, time.time() - t0))
    for k in known:
        if k['id'] in knownhit: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for path, info, j in viol:
        print('  %s: %s (%s) at %s' % (j.label, info.get('msg'), info.get('key'), info.get('where')))
    for path, info, j in viol:
        print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1 if viol else 0

def replay(path):
    """rebuild natively from REPO and rerun a stored witness"""
    r = json.load(open(path)); os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix='replay-', dir=BUILD)
    try:
        t = Target(work); k = (r['harness'], r['cfg'], tuple(r['drop'])); san = not r['variant'].get('valgrind')
        t.native([k], san=san)
        rc, out = run_native(t.nats[(k, san)], r['params'], witness=os.path.join(os.path.dirname(path), 'witness.wit'), **r['variant'])
        print(out); print('exit', rc); return 0 if rc in NEUTRAL else 1
    finally:
        shutil.rmtree(work, ignore_errors=True)

if __name__ == '__main__':
    sys.path.insert(0, HERE)
    a = sys.argv[1:]
    if a[:1] == ['--setup']: setup()
    elif a[:1] == ['--replay']: sys.exit(replay(a[1]))
    elif a[:1] == ['--list']:
        for p, P in props.PROPS.items():
            for j in P['jobs']: print(p, j.label, 'quick' if j.quick else 'thorough', j.bounds())
    else:
        try:
            sys.exit(check(a[0], a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')))
        except BuildError as e:
            print('build error:', e); sys.exit(3)
