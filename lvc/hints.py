"""Find small sets of loop-invariant candidates that suffice (speed only).
python3-vt hints.py MODULES TASK...  -> updates hints.json"""
import sys, os, json, time, importlib, multiprocessing as mp, pickle
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import task, dbg, sym
HF = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'hints.json')
def run(prog, name, hints, dl=900):
    r, w = os.pipe(); pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            t = next(t for t in task.TASKS if t.name == name)
            e, status, msg = task.run_task(prog, t, deadline=time.time() + dl, hints=hints)
            ok = status == 'done' and all(o.ok for o in e.obligs) and getattr(e, 'nret', 0) > 0
            b = pickle.dumps((ok, e.hints_out, e.wall)); off = 0
            while off < len(b): off += os.write(w, b[off:off + 4096])
        finally: os._exit(0)
    os.close(w); b = b''
    while True:
        d = os.read(r, 65536)
        if not d: break
        b += d
    os.close(r); os.waitpid(pid, 0)
    return pickle.loads(b) if b else (False, {}, 0)
def reduce(prog, name):
    ok, full, wall = run(prog, name, None)
    print(name, ok, {k: len(v) for k, v in full.items()}, '%.0f' % wall, flush=True)
    if not ok: return None
    items = [(k, x) for k, v in full.items() for x in v]
    def mk(its):
        d = {k: set() for k in full}
        for k, x in its: d[k].add(x)
        return d
    best = wall; cur = items; n = 2
    while len(cur) >= 1:
        size = max(1, len(cur) // n); done = False
        for i in range(0, len(cur), size):
            t = cur[:i] + cur[i + size:]
            ok, out, w = run(prog, name, mk(t), dl=best * 2 + 30)
            if ok:
                cur = t; n = max(n - 1, 2); done = True; best = min(best, w)
                print('  %d left %.0f' % (len(cur), w), flush=True); break
        if not done:
            if size == 1: break
            n = min(len(cur), n * 2)
    return {k: sorted(v) for k, v in mk(cur).items()}
if __name__ == '__main__':
    for m in sys.argv[1].split(','): importlib.import_module(m)
    p = dbg.prog()
    sym.SEM = mp.get_context('fork').Semaphore(3)
    for n in sys.argv[2:]:
        h = reduce(p, n)
        if h is None: continue
        d = json.load(open(HF)) if os.path.exists(HF) else {}
        d[n] = h
        json.dump(d, open(HF, 'w'), indent=0, sort_keys=True)
