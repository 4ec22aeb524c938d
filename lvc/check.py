#!/usr/bin/env python3-vt
"""Decide one property on the current tree of /repo.

  check.py PID            (VERIF_TIER=quick|thorough, VERIF_SEED=n)
  check.py --replay FILE  run the failing case recorded in a replay file again

1. the verified text is extracted from /repo (LLVM IR of the real sources);
2. every contract task of the property is run: all obligations go to z3/cvc5;
3. the executable form of the same contracts (nat/) looks for a failing input on
   the real, sanitized code: it supplies the replay of a violation.
exit 0: held; exit 1: VIOLATION line printed; 2: could not run at all."""
import sys, os, json, time, subprocess, tempfile, shutil, importlib, signal, select, pickle, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get('LVC_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
THOROUGH = TIER == 'thorough'
T0 = time.time()
NCPU = min(8, os.cpu_count() or 8)

def log(*a): print(*a, flush=True)

# ------------------------------------------------------------------ native part
def build_native(work, harnesses):
    p = subprocess.run(['bash', os.path.join(ROOT, 'nat', 'build.sh'), REPO, work] + harnesses, capture_output=True, text=True, errors='replace')
    return p.returncode == 0, (p.stdout + p.stderr)[-3000:]

def run_native(work, spec, seconds, jobs=NCPU, extra=()):
    env = dict(os.environ, NAT_KINDS=','.join(spec.get('kinds', '').split()), NAT_TIER=TIER,
               ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:max_allocation_size_mb=3000:detect_odr_violation=0',
               UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=1', TZ=spec.get('tz', 'UTC'), NAT_HOME=os.path.join(ROOT, 'nat'))
    scratch = tempfile.mkdtemp(prefix='nat', dir=work)
    cmd = [os.path.join(work, spec['harness']), '--tags', ','.join(spec.get('tags', '').split()), '--seconds', str(seconds), '--seed', str(SEED), '--scratch', scratch, '--jobs', str(jobs)]
    if THOROUGH: cmd.append('--thorough')
    cmd += list(extra)
    try:
        p = subprocess.run(cmd, capture_output=True, env=env, text=True, errors='replace', timeout=seconds * 9 + 120)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b'').decode('utf8', 'replace') if isinstance(x.stdout, bytes) else (x.stdout or ''), 0
        out += '\n(harness stopped: no end in time)'
    shutil.rmtree(scratch, ignore_errors=True)
    r = {'harness': spec['harness'], 'kinds': spec.get('kinds', ''), 'tags': spec.get('tags', ''), 'cases': 0, 'exhaustive': 0, 'rc': rc, 'out': out, 'fail': None}
    for l in out.split('\n'):
        if l.startswith('CASES '):
            t = l.split(); r['cases'] = int(t[1]); r['exhaustive'] = int(t[3]); r['cut'] = '(cut)' in l
        elif l.startswith('FAIL ') and r['fail'] is None: r['fail'] = l
        elif l.startswith('SAMPLE '): r.setdefault('samples', []).append(l[7:])
    return r

# ------------------------------------------------------------------ proof part
HINTS = json.load(open(os.path.join(HERE, 'hints.json'))) if os.path.exists(os.path.join(HERE, 'hints.json')) else {}
def worker(prog, name, want, dl, unroll, w, nohint=False):
    import task
    t = next(t for t in task.TASKS if t.name == name)
    kw = {'deadline': time.time() + dl}
    if unroll: kw['unroll'] = unroll
    elif HINTS.get(name) and dl > 0 and not nohint: kw['hints'] = {k: set(v) for k, v in HINTS[name].items()}
    e, status, msg = task.run_task(prog, t, want=want, **kw)
    r = {'name': name, 'status': status, 'msg': msg, 'wall': e.wall, 'paths': e.stats.paths, 'queries': e.stats.queries, 'solver': e.stats.time,
         'loops': e.stats.loops, 'inv': e.stats.inv, 'trusted': sorted(e.stats.trusted), 'inlined': sorted(e.stats.inlined), 'nret': getattr(e, 'nret', 0), 'npre': getattr(e, 'npre', 0),
         'obl': [(o.name, o.ok, o.backend, o.cut, o.dt) for o in e.obligs],
         'bad': [(o.name, o.ok, o.cut, o.info, o.model) for o in e.obligs if o.ok is not True][:20], 'cutoff': e.bounded_cut}
    b = pickle.dumps(r)
    os.write(w, len(b).to_bytes(8, 'little'))
    off = 0
    while off < len(b): off += os.write(w, b[off:off + 65536])

def pool(prog, jobs, ncpu, until):
    """jobs: [(name, want, deadline, unroll)] -> results; one process per task"""
    import sym, multiprocessing as mp
    sym.SEM = mp.get_context('fork').Semaphore(max(2, ncpu - 1))
    out = []; running = {}; jobs = list(jobs)
    while jobs or running:
        while jobs and len(running) < ncpu:
            j = jobs.pop(0)
            left = until - time.time()
            if left < 3:
                out.append(dict(name=j[0], status='budget', msg='no time left', wall=0, obl=[], bad=[], trusted=[], inlined=[], paths=0, queries=0, solver=0, loops=0, inv=0, nret=0, npre=0, cutoff=False)); continue
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r); os.setpgid(0, 0)
                    worker(prog, j[0], j[1], min(j[2], left), max(j[3], 0), w, j[3] < 0)
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(0)
            os.close(w)
            running[r] = (pid, j, time.time() + min(j[2], left) + 25, bytearray())
        if not running: break
        rd, _, _ = select.select(list(running), [], [], 1.0)
        for r in list(running):
            pid, j, end, buf = running[r]
            fin = False
            if r in rd:
                d = os.read(r, 1 << 20)
                if d: buf += d
                else: fin = True
            if time.time() > end and not fin:
                fin = True; buf.clear()
            if fin:
                try: os.killpg(pid, signal.SIGKILL)
                except OSError: pass
                try: os.waitpid(pid, 0)
                except OSError: pass
                os.close(r); del running[r]
                try: res = pickle.loads(bytes(buf[8:]))
                except Exception: res = dict(name=j[0], status='budget', msg='process ended', wall=j[2], obl=[], bad=[], trusted=[], inlined=[], paths=0, queries=0, solver=0, loops=0, inv=0, nret=0, npre=0, cutoff=False)
                out.append(res)
    return out

def known_findings(pid):
    r = []
    p = os.path.join(ROOT, 'known_findings.txt')
    for l in open(p) if os.path.exists(p) else []:
        l = l.strip()
        if l.startswith('finding: property=%s ' % pid): r.append(l[len('finding: property=%s ' % pid):])
    return r

def decide(pid):
    import props
    P = props.PROPS[pid]
    base = '/tmp' if os.access('/tmp', os.W_OK) else ROOT
    work = tempfile.mkdtemp(prefix='lvc-%s-' % pid, dir=base)
    try:
        return decide_in(pid, P, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def decide_in(pid, P, work):
    import extract, task, props
    for m in P.get('modules', ['tasks_core']): importlib.import_module(m)
    sel = [t for t in task.TASKS if P['select'](t)] if P.get('select') else []
    if not THOROUGH: sel = [t for t in sel if not t.thorough]
    nat = P.get('nat', [])
    import threading
    nb = {}
    harn = sorted({n['harness'] for n in nat})
    th = threading.Thread(target=lambda: nb.update(zip(('ok', 'out'), build_native(work + '/nat', harn) if harn else (True, ''))))
    os.makedirs(work + '/nat', exist_ok=True)
    th.start()
    prog = None; xerr = ''
    try: prog = extract.extract(work + '/ir')
    except Exception as x: xerr = str(x)[-3000:]
    th.join()
    t_build = time.time() - T0
    if prog is None and not nb.get('ok'):
        log('the code does not build:\n' + xerr + '\n' + nb.get('out', '')); return 2
    if not nb.get('ok'): log('note: the executable contracts do not compile against this tree:\n' + nb['out'][-800:])
    if prog is None: log('note: extraction failed: ' + xerr[-800:])
    # ---- failing inputs
    nres = []; nfail = None
    if nb.get('ok'):
        for n in nat:
            secs = n.get('thorough', n.get('secs', 10) * 12) if THOROUGH else n.get('secs', 10)
            r = run_native(work + '/nat', n, secs)
            nres.append(r)
            log('executable contracts %s [%s]: %d cases%s' % (r['harness'], r['kinds'], r['cases'], ' FAILED' if r['rc'] else ''))
            if r['rc'] and r['fail']:
                nfail = (n, r); break
            if r['rc']: log('note: harness ended with %d\n%s' % (r['rc'], r['out'][-600:]))
    t_nat = time.time() - T0 - t_build
    # ---- obligations
    limit = (7200 if THOROUGH else 560)
    if nfail: limit = min(limit, time.time() - T0 + 100)
    dl = 2400 if THOROUGH else 300
    want = set(P['aspects'].split()) if P.get('aspects') else None
    res = []
    if prog is not None:
        weight = lambda t: -t.big if isinstance(t.big, (int, float)) else 0
        jobs = [(t.name, want, dl, 0) for t in sorted(sel, key=weight)]
        res = pool(prog, jobs, NCPU, T0 + limit)
        # the stored selection of invariant candidates may not fit this code
        again = [(r['name'], want, dl, -1) for r in res if r['name'] in HINTS and (r['status'] != 'done' or r['bad'])]
        if again and not nfail:
            r2 = {r['name']: r for r in pool(prog, again, NCPU, T0 + limit)}
            res = [r2.get(r['name'], r) for r in res]
    else:
        res = []
    proved = []; refuted = []; undecided = []
    for r in res:
        ok = r['status'] == 'done' and not r['bad'] and r['nret'] > 0
        if ok: proved.append(r); continue
        sat = [b for b in r['bad'] if b[1] is False and not b[2]]
        if sat: refuted.append((r, sat[0], 'loop-free path'))
        else: undecided.append(r)
    # a failure that only shows behind an inferred loop invariant: unroll instead
    bmc = []
    if undecided and not nfail and prog is not None:
        jobs = [(r['name'], want, 120, 3) for r in undecided if not (r['status'] == 'unsupported' and 'signature' in r['msg'])]
        bmc = pool(prog, jobs, NCPU, min(T0 + limit + 150, T0 + 780) if not THOROUGH else T0 + limit + 900)
        for r in bmc:
            sat = [b for b in r['bad'] if b[1] is False]
            if sat and r['status'] in ('done', 'budget', 'unsupported'):
                refuted.append((r, sat[0], 'loops unrolled 3 times'))
                undecided = [u for u in undecided if u['name'] != r['name']]
    nobl = sum(len(r['obl']) for r in res); ndis = sum(1 for r in res for o in r['obl'] if o[1] is True)
    by = {}
    for r in res:
        for o in r['obl']:
            if o[1] is True: by[o[2]] = by.get(o[2], 0) + 1
    for r in sorted(proved, key=lambda r: r['name']): log('proved    %-70s %4d obligations %6.1f s' % (r['name'], len(r['obl']), r['wall']))
    for r in undecided:
        log('UNDECIDED %-70s %s %s%s' % (r['name'], r['status'], r['msg'][-300:], (' not discharged: ' + '; '.join(sorted({b[0] for b in r['bad']})[:3])) if r['bad'] else ''))
        log('          (not counted as proved; covered by the bounded checks of this run only)')
    for r, b, how in refuted: log('FAILED    %s (%s)' % (b[0], how))
    kf = known_findings(pid)
    viol = 1 if (nfail or refuted) else 0
    # ---- evidence
    trusted = sorted({t for r in res for t in r['trusted']})
    cov = {
        'obligations': nobl, 'discharged': ndis, 'checker_cmd': 'python3-vt lvc/check.py %s' % pid,
        'trusted_base': ['clang 18 front end and its sroa/mem2reg passes', 'z3 and cvc5', 'lvc symbolic executor (this repository)'] + ['assumed contract: ' + t for t in trusted],
        'functions_under_contract': sorted({t.fn for t in sel}), 'functions_executed_with_their_bodies': sorted({f for r in res for f in r['inlined']}),
        'tasks': [{'task': r['name'], 'status': 'proved' if r in proved else ('refuted' if any(r['name'] == x[0]['name'] for x in refuted) else 'undecided (' + r['status'] + ')'), 'obligations': len(r['obl']), 'discharged': sum(1 for o in r['obl'] if o[1] is True), 'paths': r['paths'], 'loops_cut': r['loops'], 'invariants': r['inv'], 'wall_s': round(r['wall'], 2)} for r in sorted(res, key=lambda r: r['name'])],
        'discharged_by': by, 'solver_s': round(sum(r['solver'] for r in res), 2), 'solver_queries': sum(r['queries'] for r in res), 'loop_invariants_inferred': sum(r['inv'] for r in res),
        'bounded': {'note': 'executable form of the contracts run against the real code under address and undefined-behaviour sanitizers; never counted as proved', 'runs': [{k: r[k] for k in ('harness', 'kinds', 'tags', 'cases', 'exhaustive')} for r in nres], 'parts_only_bounded': P.get('bounded', [])},
        'evaluations': sum(r['cases'] for r in nres),
        'sources': prog.get('sources', []) if prog else [],
    }
    if not sel: cov['explanation'] = 'bounded only'
    ev = {'property': pid, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': P.get('level', 'proof'), 'coverage': cov,
          'assumptions': props.ASSUME + P.get('assume', []) + ['undecided obligation of this run: ' + r['name'] for r in undecided], 'wall_s': round(time.time() - T0, 2), 'violations': viol}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    log('%s: %d of %d obligations discharged in %d tasks, %d bounded cases, %.0f s (build %.0f, bounded %.0f)' % (pid, ndis, nobl, len(res), cov['evaluations'], time.time() - T0, t_build, t_nat))
    for k in kf: log('KNOWN-FINDING: property=%s %s' % (pid, k))
    if not viol: return 0
    rp = os.path.join(ROOT, 'evidence', '%s.replay' % pid)
    with open(rp, 'w') as f:
        failed = [b[0] for _, b, _ in refuted] + [b[0] for r in undecided for b in r['bad']]
        if nfail:
            n, r = nfail
            case = r['fail'].split()[1].split('=')[1]
            f.write(json.dumps({'property': pid, 'spec': n, 'case': case, 'seed': SEED, 'failed_obligations': failed[:40]}) + '\n')
            f.write('# run again with: python3-vt %s/check.py --replay %s\n' % (HERE, rp))
            f.write(r['out'][:70000])
        else:
            f.write(json.dumps({'property': pid, 'failed_obligations': failed[:40]}) + '\n')
            for r, b, how in refuted:
                f.write('\nFAILED OBLIGATION %s\n  how: %s\n  %s\n  counterexample state: %s\n' % (b[0], how, b[3], json.dumps(b[4], indent=1, default=str)))
            for r in undecided: f.write('\nundecided: %s %s %s\n' % (r['name'], r['status'], r['msg']))
    if nfail:
        log(nfail[1]['out'][:3000])
        log('VIOLATION property=%s replay=%s' % (pid, rp))
    else:
        log('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
    return 1

def replay(path):
    d = json.loads(open(path).readline())
    if 'spec' not in d:
        log(open(path).read()); return 1
    work = tempfile.mkdtemp(prefix='lvc-replay-')
    try:
        ok, out = build_native(work, [d['spec']['harness']])
        if not ok: log(out); return 2
        r = run_native(work, d['spec'], 10, extra=['--case', str(d['case'])])
        log(r['out']); return r['rc']
    finally:
        shutil.rmtree(work, ignore_errors=True)

if __name__ == '__main__':
    if sys.argv[1] == '--replay': sys.exit(replay(sys.argv[2]))
    sys.exit(decide(sys.argv[1]))
