"""Tasks: one per (function, contract).  A task sets up an arbitrary state that
satisfies the precondition and the class invariant, runs the real code
symbolically and proves the postcondition on every path."""
import time, traceback
import z3
from sym import *
import sym
from execu import Exec, short, eqb, tob
from streams import Layout, AbsStream, OK, EOFS, ERR, field
from models import *

TASKS = []
class T_: pass
def task(name, *tags, fn=None, needs=None, big=0, timeout=None, thorough=False):
    def deco(f):
        t = T_(); t.name = name; t.tags = set(tags); t.run = f; t.fn = fn or name; t.big = big; t.timeout = timeout; t.thorough = thorough
        TASKS.append(t)
        return f
    return deco

class E(Exec):
    def __init__(s, prog, want=None, **k):
        super().__init__(prog, **k)
        s.lay = Layout(prog)
        s.want = want
        s.assuming = False     # contract goals are assumed (a callee) instead of proved
        s.es_hint = {}
        s.array_hooks = {}
    def state(s):
        return State(s)
    def fun(s, dem):
        """symbol of a function given its demangled name with or without parameters"""
        p = s.prog
        if dem in p['bydem']: return p['bydem'][dem]
        if 'byshort' not in p:
            d = {}
            for n, f in p['functions'].items():
                if 'blocks' in f: d.setdefault(short(f['dem']), []).append(n)
            p['byshort'] = d
        l = p['byshort'].get(dem)
        if not l: raise Unsupported('function %s is not in the code' % dem)
        # constructors: prefer the base/complete object constructor, any is fine
        return sorted(l)[0]
    def callf(s, st, dem, args):
        n = s.fun(dem)
        f = s.prog['functions'][n]
        if len(f['params']) != len(args): raise Unsupported('signature of %s changed' % dem)
        if not s.feasible(st, True):
            s.oblig(st, True, 'precondition is satisfiable')
            raise Unsupported('precondition of %s is contradictory' % dem)
        s.npre = getattr(s, 'npre', 0) + 1
        r = s.inline(st, n, args)
        s.nret = getattr(s, 'nret', 0) + len(r)
        return r
    def cls(s, name):
        c = s.prog['classes'].get(name)
        if c is None: raise Unsupported('no class ' + name)
        return c
    def off(s, cls, f): return field(s.prog, cls, f)
    def getf(s, st, oid, cls, f, base=0):
        o, n = field(s.prog, cls, f)
        v = st.getc(oid, base + o, n)
        return v
    def setf(s, st, oid, cls, f, v, base=0):
        o, n = field(s.prog, cls, f)
        st.setc(oid, base + o, n, v)
    def raw_obj(s, st, cls, heap=None):
        o = st.new('struct', s.cls_size(cls), 'object ' + cls); o.heap = heap
        return o.id
    def cls_size(s, cls): return s.cls(cls)['size']
    def stream_obj(s, st, cls): pass
    def vtable(s, cls):
        """address of the virtual table of a class"""
        for n in s.prog['globals']:
            if n.startswith('_ZTV'):
                pass
        m = mangle_vt(cls)
        if m in s.prog['globals']: return P(s.gid(m), 16)
        return None
    def new_stream(s, st, cls, size, pos, status, heap=None):
        """an object of a stream class with its base-class fields set"""
        o = s.raw_obj(st, cls, heap)
        vt = s.vtable(cls)
        if vt: st.setc(o, 0, 8, vt)
        l = s.lay
        st.setc(o, l.size, 8, size); st.setc(o, l.pos, 8, pos); st.setc(o, l.status, 4, status)
        n = fresh('errlen'); st.assume(b_and(sle(0, n), sle(n, LIM)))
        st.setc(o, l.err, 32, Str(n, fresh_fun('err')))
        return o
    def ghost_access(s, st, p, n, goal):
        o = st.obj(p.o)
        if o.alive is not True: s.oblig(st, o.alive, goal + ' (live)')
        s.oblig(st, b_and(sle(0, p.f), sle(p.f, o.size), sle(n, sub(o.size, p.f))), goal)
    def feas(s, st): return s.feasible(st, True)

def mangle_vt(cls):
    t = cls.split('<')
    parts = t[0].split('::')
    m = '_ZTVN' + ''.join('%d%s' % (len(x), x) for x in parts)
    if len(t) > 1:
        m += 'I' + {'char': 'c', 'wchar_t': 'w'}[t[1].rstrip('>')] + 'E'
    m += 'E'
    if len(parts) == 1 and len(t) == 1:
        m = '_ZTV%d%s' % (len(parts[0]), parts[0])
    return m

def run_task(prog, t, want=None, hints=None, **kw):
    """-> dict with the outcome of one task"""
    e = E(prog, want=want, **kw)
    e.goal = t.name
    e.task = t
    e.hints = hints; e.hints_out = {}
    t0 = time.time()
    status = 'done'; msg = ''
    z3.main_ctx()
    try:
        t.run(e)
    except Unsupported as x:
        status = 'unsupported'; msg = str(x)
    except Budget as x:
        status = 'budget'; msg = str(x)
    except Dead:
        status = 'dead'
    except RecursionError:
        status = 'budget'; msg = 'python recursion'
    except Exception as x:
        status = 'crash'; msg = traceback.format_exc()[-1500:]
    e.collect()
    e.wall = time.time() - t0
    return e, status, msg
