"""run tasks in parallel: python3-vt run.py MODULES PATTERN [-j N] [-dl S] [-t]"""
import sys, os, time, importlib, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import task, dbg
def one(a):
    name, dl = a
    t = next(t for t in task.TASKS if t.name == name)
    e, status, msg = task.run_task(PROG, t, deadline=time.time() + dl)
    bad = [o for o in e.obligs if o.ok is not True]
    s = '%-62s %-11s %6.1fs obl %4d bad %3d paths %4d q %4d loops %d %s' % (t.name, status, e.wall, len(e.obligs), len(bad), e.stats.paths, e.stats.queries, e.stats.loops, msg)
    seen = set()
    for o in bad:
        if o.name in seen: continue
        seen.add(o.name)
        s += '\n     %s %s %s' % ('FAIL' if o.ok is False else 'UNKNOWN', o.name[len(t.name):], o.info)
        if '-v' in sys.argv: s += '\n        %s' % o.model
    return s
if __name__ == '__main__':
    A = sys.argv
    j = int(A[A.index('-j') + 1]) if '-j' in A else 8
    dl = float(A[A.index('-dl') + 1]) if '-dl' in A else 300
    for m in A[1].split(','): importlib.import_module(m)
    PROG = dbg.prog('--fresh' in A)
    pat = A[2] if len(A) > 2 and not A[2].startswith('-') else ''
    ts = [t.name for t in task.TASKS if pat in t.name and t.run.__module__ in A[1].split(',')]
    t0 = time.time()
    with mp.get_context('fork').Pool(j, maxtasksperchild=1) as p:
        for s in p.imap_unordered(one, [(n, dl) for n in ts]): print(s, flush=True)
    print('wall %.1f' % (time.time() - t0))
