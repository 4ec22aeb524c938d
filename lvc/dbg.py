import sys, json, pickle, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import extract, task
import importlib
PK = '/tmp/w/prog.pkl'
def prog(fresh=False):
    if fresh or not os.path.exists(PK):
        p = extract.extract('/tmp/w/ex'); pickle.dump(p, open(PK, 'wb'))
    return pickle.load(open(PK, 'rb'))
if __name__ == '__main__':
    for m in sys.argv[1].split(','): importlib.import_module(m)
    p = prog('--fresh' in sys.argv)
    import sym, multiprocessing as mp
    if '-s' not in sys.argv: sym.SEM = mp.get_context('fork').Semaphore(7)
    pat = sys.argv[2] if len(sys.argv) > 2 else ''
    for t in task.TASKS:
        if pat and (pat not in t.name and pat != '=' + t.name): continue
        e, status, msg = task.run_task(p, t, deadline=time.time() + float(os.environ.get('DL', '300')))
        bad = [o for o in e.obligs if o.ok is not True]
        print('%-60s %-11s %6.1fs obl %4d bad %3d paths %4d q %4d loops %d %s' % (t.name, status, e.wall, len(e.obligs), len(bad), e.stats.paths, e.stats.queries, e.stats.loops, msg))
        seen = set()
        for o in bad:
            if o.name in seen: continue
            seen.add(o.name)
            print('    ', 'FAIL' if o.ok is False else 'UNKNOWN', o.name, o.info)
            if '-v' in sys.argv: print('        ', o.model)

        if '-t' in sys.argv:
            for o in sorted(e.obligs, key=lambda o: -o.dt)[:25]: print('      %6.2f %s %s' % (o.dt, o.backend, o.name))
            print('     total in obligations %.1f' % sum(o.dt for o in e.obligs))
