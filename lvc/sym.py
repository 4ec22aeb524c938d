"""lvc: a deductive verifier for the code in /repo.

Verification conditions are generated from the LLVM IR that the C++ front end
makes from /repo's sources (see extract.py), function by function, by forward
symbolic execution with exact machine integers.  Loops are cut by inductive
invariants (inferred by Houdini from generated candidates, or given by a
contract), calls through abstract interfaces and calls to library code are
replaced by contracts, everything else is executed as it stands.
Every obligation is discharged by an SMT solver.
"""
import itertools, pickle, json, time, sys
import z3

import os
DUMP = os.environ.get('LVC_DUMP')
SEM = None      # free cores for obligations solved in their own process
sys.setrecursionlimit(20000)

class Unsupported(Exception):
    pass
class Budget(Exception):
    pass

# ------------------------------------------------------------------ values
class P:
    """pointer: object id (None: null) and byte offset (int or BV64)"""
    __slots__ = ('o', 'f')
    def __init__(s, o, f=0): s.o = o; s.f = f
    def __repr__(s): return 'P(%s,%s)' % (s.o, s.f)
class Fn:
    """address of a function"""
    __slots__ = ('name',)
    def __init__(s, name): s.name = name
    def __repr__(s): return 'Fn(%s)' % s.name
class VF:
    """entry of the virtual table of an abstract object"""
    __slots__ = ('model', 'slot')
    def __init__(s, m, k): s.model = m; s.slot = k
class PI:
    """pointer cast to integer"""
    __slots__ = ('p',)
    def __init__(s, p): s.p = p
class Str:
    """abstract std::string value"""
    __slots__ = ('n', 'c', 'buf')
    def __init__(s, n, c, buf=None): s.n = n; s.c = c; s.buf = buf
class Blob:
    """opaque library object"""
    __slots__ = ('tag', 'd')
    def __init__(s, tag, **d): s.tag = tag; s.d = d
class _U:
    def __repr__(s): return 'UNDEF'
U = _U()
NULL = P(None, 0)

def isc(x): return type(x) is int
def mask(w): return (1 << w) - 1
def sgn(x, w): return x - (1 << w) if x >> (w - 1) & 1 else x
def bv(x, w):
    if type(x) is int: return z3.BitVecVal(x, w)
    if type(x) is bool: return z3.BitVecVal(int(x), w)
    return x
def norm(x):
    """z3 numeral -> int"""
    if z3.is_bv_value(x): return x.as_long()
    return x
def simp(x):
    if isinstance(x, z3.ExprRef):
        y = z3.simplify(x)
        if z3.is_bv_value(y): return y.as_long()
        if z3.is_true(y): return True
        if z3.is_false(y): return False
        return y
    return x
def b_and(*a):
    r = []
    for x in a:
        if x is True: continue
        if x is False: return False
        r.append(x)
    if not r: return True
    return r[0] if len(r) == 1 else z3.And(*r)
def b_or(*a):
    r = []
    for x in a:
        if x is False: continue
        if x is True: return True
        r.append(x)
    if not r: return False
    return r[0] if len(r) == 1 else z3.Or(*r)
def b_not(x):
    if type(x) is bool: return not x
    return z3.Not(x)
def b_imp(a, b):
    return b_or(b_not(a), b)
def ite(c, a, b, w):
    if c is True: return a
    if c is False: return b
    if isc(a) and isc(b) and a == b: return a
    return z3.If(c, bv(a, w), bv(b, w))
def add(a, b, w=64):
    if isc(a) and isc(b): return (a + b) & mask(w)
    if isc(a) and a == 0: return b
    if isc(b) and b == 0: return a
    return bv(a, w) + bv(b, w)
def sub(a, b, w=64):
    if isc(a) and isc(b): return (a - b) & mask(w)
    if isc(b) and b == 0: return a
    if a is b: return 0
    return bv(a, w) - bv(b, w)
def mul(a, b, w=64):
    if isc(a) and isc(b): return (a * b) & mask(w)
    if isc(a) and a == 1: return b
    if isc(b) and b == 1: return a
    return bv(a, w) * bv(b, w)
def eq(a, b, w=64):
    if isc(a) and isc(b): return a == b
    if a is b: return True
    return bv(a, w) == bv(b, w)
def ne(a, b, w=64): return b_not(eq(a, b, w))
def slt(a, b, w=64):
    if isc(a) and isc(b): return sgn(a, w) < sgn(b, w)
    return bv(a, w) < bv(b, w)
def sle(a, b, w=64):
    if isc(a) and isc(b): return sgn(a, w) <= sgn(b, w)
    return bv(a, w) <= bv(b, w)
def sgt(a, b, w=64): return slt(b, a, w)
def sge(a, b, w=64): return sle(b, a, w)
def ult(a, b, w=64):
    if isc(a) and isc(b): return a < b
    return z3.ULT(bv(a, w), bv(b, w))
def ule(a, b, w=64):
    if isc(a) and isc(b): return a <= b
    return z3.ULE(bv(a, w), bv(b, w))
def sext(a, w, W):
    if w == W: return a
    if isc(a): return sgn(a, w) & mask(W)
    return z3.SignExt(W - w, a)
def zext(a, w, W):
    if w == W: return a
    if isc(a): return a
    return z3.ZeroExt(W - w, a)
def trunc(a, w):
    if isc(a): return a & mask(w)
    return z3.Extract(w - 1, 0, a)
def width(ty):
    if ty == 'ptr': return 64
    if ty[0] == 'i': return int(ty[1:])
    raise Unsupported('type ' + ty)
def tsize(ty):
    if ty == 'ptr': return 8
    if ty == 'double': return 8
    if ty == 'float': return 4
    if ty == 'fp80': return 16
    if ty[0] == 'i': return (int(ty[1:]) + 7) // 8
    raise Unsupported('load/store of type ' + ty)
M1 = mask(64)

_fresh = itertools.count()
def fresh(name, w=64):
    return z3.BitVec('%s!%d' % (name, next(_fresh)), w)
def fresh_bool(name):
    return z3.Bool('%s!%d' % (name, next(_fresh)))
def fresh_fun(name, w=8):
    f = z3.Function('%s!%d' % (name, next(_fresh)), z3.BitVecSort(64), z3.BitVecSort(w))
    return lambda i: f(bv(i, 64))

# ------------------------------------------------------------------ memory
class Obj:
    __slots__ = ('id', 'kind', 'size', 'cells', 'es', 'content', 'alive', 'name',
                 'zero', 'model', 'ghost', 'ro', 'heap', 'epoch', 'subs')
    def __init__(s, id, kind, size, name='', es=1):
        s.id = id; s.kind = kind; s.size = size; s.name = name
        s.cells = {}; s.es = es; s.content = None; s.alive = True
        s.zero = []; s.model = None; s.ghost = None; s.ro = False; s.heap = None; s.subs = None
        s.epoch = 0
    def copy(s):
        o = Obj.__new__(Obj)
        o.id = s.id; o.kind = s.kind; o.size = s.size; o.name = s.name
        o.cells = dict(s.cells); o.es = s.es; o.content = s.content; o.alive = s.alive
        o.zero = list(s.zero); o.model = s.model
        o.ghost = dict(s.ghost) if s.ghost is not None else None
        o.ro = s.ro; o.heap = s.heap; o.subs = s.subs; o.epoch = s.epoch
        return o

class State:
    __slots__ = ('pc', 'mem', 'owned', 'ghost', 'eng', 'model', 'log', 'wr', 'pcset', 'cut')
    def __init__(s, eng):
        s.eng = eng; s.pc = []; s.mem = {}; s.owned = set(); s.ghost = {}
        s.model = None; s.log = (); s.wr = None; s.pcset = set(); s.cut = False
    def clone(s):
        t = State.__new__(State)
        t.eng = s.eng; t.pc = list(s.pc); t.mem = dict(s.mem)
        s.owned = set(); t.owned = set(); t.ghost = dict(s.ghost)
        t.model = s.model; t.log = s.log; t.wr = s.wr; t.pcset = set(s.pcset); t.cut = s.cut
        return t
    def assume(s, c):
        if c is True: return
        if c is False:
            s.pc.append(z3.BoolVal(False)); s.model = None; return
        c = simp(c)
        if c is True: return
        if c is False:
            s.pc.append(z3.BoolVal(False)); s.model = None; return
        k = c.get_id()
        if k in s.pcset: return
        s.pcset.add(k)
        s.pc.append(c)
        if s.model is not None:
            try:
                if not z3.is_true(s.model.eval(c, model_completion=True)): s.model = None
            except z3.Z3Exception:
                s.model = None
    # objects
    def new(s, kind, size, name='', es=1, id=None):
        i = id if id is not None else next(s.eng.oid)
        o = Obj(i, kind, size, name, es)
        s.mem[i] = o; s.owned.add(i)
        return o
    def obj(s, i):
        o = s.mem.get(i)
        if o is None:
            o = s.eng.global_obj(s, i)
        return o
    def own(s, i):
        o = s.obj(i)
        if i not in s.owned:
            o = o.copy(); s.mem[i] = o; s.owned.add(i)
        return o
    def mark(s, *loc):
        if s.wr is not None: s.wr.add(loc)
    # struct cells
    def setc(s, i, off, n, v):
        o = s.own(i)
        for k in list(o.cells):
            kn = o.cells[k][0]
            if k < off + n and off < k + kn and not (k == off and kn == n):
                s._split(o, k)
        for k in [k for k in o.cells if k < off + n and off < k + o.cells[k][0]]:
            if k != off: del o.cells[k]
        o.cells[off] = (n, v)
        s.mark('c', i, off, n)
    def _split(s, o, k):
        n, v = o.cells[k]
        if n == 1 or v is U or isinstance(v, (P, Fn, VF, PI, Str, Blob)):
            del o.cells[k]
            return
        del o.cells[k]
        for j in range(n):
            if isc(v): o.cells[k + j] = (1, v >> (8 * j) & 255)
            else: o.cells[k + j] = (1, z3.Extract(8 * j + 7, 8 * j, v))
    def getc(s, i, off, n):
        o = s.obj(i)
        c = o.cells.get(off)
        if c is not None and c[0] == n: return c[1]
        # compose from bytes
        parts = []
        for j in range(n):
            b = s._byte(o, off + j)
            if b is U: return U
            parts.append(b)
        if all(isc(b) for b in parts):
            return sum(b << (8 * j) for j, b in enumerate(parts))
        if n == 1: return parts[0]
        return z3.Concat(*[bv(b, 8) for b in reversed(parts)])
    def _byte(s, o, off):
        for k, (n, v) in o.cells.items():
            if k <= off < k + n:
                if v is U or isinstance(v, (P, Fn, VF, PI, Str, Blob)):
                    if isinstance(v, P) and v.o is None: return 0
                    return U
                if isc(v): return v >> (8 * (off - k)) & 255
                if n == 1: return v
                return norm(z3.simplify(z3.Extract(8 * (off - k) + 7, 8 * (off - k), v)))
        for a, b in o.zero:
            if a <= off < b: return 0
        return U

def arr_read(o, idx, n):
    """n bytes at byte offset idx (BV64) of an array object -> BV(8n)"""
    es = o.es
    if n == es:
        i = idx if es == 1 else udiv_c(idx, es)
        return norm(o.content(i))
    if n > es and n % es == 0:
        base = idx if es == 1 else udiv_c(idx, es)
        parts = [bv(o.content(simp(add(base, j))), 8 * es) for j in range(n // es)]
        return norm(z3.simplify(z3.Concat(*reversed(parts))))
    if n < es and isc(idx):
        e = bv(o.content(idx // es), 8 * es)
        k = idx % es
        return norm(z3.simplify(z3.Extract(8 * (k + n) - 1, 8 * k, e)))
    raise Unsupported('array access width')
def udiv_c(x, k):
    if isc(x): return x // k
    if k & (k - 1) == 0:
        y = z3.simplify(z3.LShR(x, k.bit_length() - 1))
        return norm(y)
    return z3.UDiv(x, z3.BitVecVal(k, 64))

def store_fn(content, i, v, w):
    if isc(i):
        def g(j):
            if isc(j): return v if j == i else content(j)
            return z3.If(j == i, bv(v, w), bv(content(j), w))
    else:
        def g(j):
            if j is i: return v
            c = simp(bv(j, 64) == i)
            if c is True: return v
            if c is False: return content(j)
            return z3.If(c, bv(v, w), bv(content(j), w))
    return g
def copy_fn(dst, doff, src, soff, n, w=8):
    """content after copying n elements"""
    def g(j):
        d = simp(sub(j, doff))
        c = simp(ult(d, n))
        if c is True: return src(simp(add(soff, d)))
        if c is False: return dst(j)
        return z3.If(c, bv(src(simp(add(soff, d))), w), bv(dst(j), w))
    return g
def const_fn(vals, es, name='k'):
    w = 8 * es
    def g(j):
        if isc(j): return vals[j] if j < len(vals) else 0
        j = simp(j)
        if isc(j): return vals[j] if j < len(vals) else 0
        a = g.arr
        if a is None:
            a = z3.K(z3.BitVecSort(64), z3.BitVecVal(0, w))
            for k, v in enumerate(vals):
                if v: a = z3.Store(a, z3.BitVecVal(k, 64), z3.BitVecVal(v, w))
            g.arr = a
        if len(vals) <= 40:
            r = z3.BitVecVal(0, w)
            for k, v in enumerate(vals):
                r = z3.If(j == k, z3.BitVecVal(v, w), r)
            return r
        return z3.Select(a, j)
    g.arr = None
    return g

# ------------------------------------------------------------------ engine
class Oblig:
    __slots__ = ('name', 'ok', 'backend', 'model', 'info', 'dt', 'cut')
    def __init__(s, name, ok, backend, model=None, info='', dt=0):
        s.name = name; s.ok = ok; s.backend = backend; s.model = model; s.info = info; s.dt = dt; s.cut = False

class Race:
    """cvc5 (bit-vectors solved over integers) next to z3; whoever is first wins"""
    def __init__(r, sv, to, bools):
        import subprocess, threading
        r.bools = bools
        names = []
        txt = '(set-option :produce-models %s)\n(set-logic ALL)\n' % ('true' if bools else 'false')
        if bools:
            sv2 = z3.Solver()
            sv2.add(sv.assertions())
            for k, x in enumerate(bools):
                n = z3.Bool('want!%d' % k); names.append('want!%d' % k)
                sv2.add(n == x)
            txt += sv2.to_smt2() + '(get-value (%s))\n' % ' '.join('|%s|' % n for n in names)
        else: txt += sv.to_smt2()
        r.out = ''; r.over = False
        r.p = subprocess.Popen(['cvc5', '--solve-bv-as-int=sum', '--tlimit=%d' % int(to * 1000), '--lang=smt2', '-'],
                               stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        def run():
            try: r.out = r.p.communicate(txt, timeout=to + 5)[0] or ''
            except Exception: r.p.kill()
            if not r.over and r.out.split('\n')[0] in ('sat', 'unsat'):
                for _ in range(200):
                    if r.over: break
                    z3.main_ctx().interrupt()
                    time.sleep(0.01)
        r.t = threading.Thread(target=run, daemon=True); r.t.start()
    def end(r, won):
        r.over = True
        if won:
            r.p.kill(); r.t.join()
            return 'unknown', None
        r.t.join()
        o = r.out.split('\n')[0]
        if o == 'sat' and r.bools:
            import re
            t = dict(re.findall(r'\(\|?want!(\d+)\|? (true|false)\)', r.out))
            return o, [t.get(str(k)) == 'true' for k in range(len(r.bools))]
        return (o if o in ('sat', 'unsat') else 'unknown'), None

class Stats:
    def __init__(s):
        s.queries = 0; s.time = 0.0; s.paths = 0; s.inlined = {}; s.loops = 0
        s.unknown = 0; s.trusted = {}; s.cvc5 = 0; s.inv = 0

class Engine:
    def __init__(s, prog, contracts=None, timeout=20.0, unroll=0, max_paths=4000, deadline=None):
        s.prog = prog
        s.oid = itertools.count(1)
        s.gids = {}          # global name -> object id
        s.gnames = {}
        s.contracts = dict(contracts or {})
        s.obligs = []
        s.stats = Stats()
        s.timeout = timeout
        s.discover = 0       # >0: obligations are not recorded
        s.curfn = ['?']
        s.max_paths = max_paths
        s.npaths = 0
        s.unroll = unroll    # >0: bounded mode, loops unrolled that often
        s.bounded_cut = False
        s.deadline = deadline
        s.loop_hooks = []    # functions (eng, fn, header, state, env) -> list of extra candidate makers
        s.unroll_hint = {}
        s.loop_only = set()      # loops whose invariants are given in full
        s.goal = ''
        s.nsw = True
        s.stop_on_fail = False
        s.watch = []
        s.pre_checked = []
        s.axioms = []
        s.failed = None
        s.depth = 0
        s.icmps = None
        s.inv_hooks = []
        s.ghost_widths = {}
        s.trace = os.environ.get('LVC_TRACE')
        s.pending = []

    # ---- solver
    def _solver(s, to):
        sv = z3.SolverFor('QF_UFBV') if False else z3.Solver()
        sv.set('timeout', int(to * 1000))
        return sv
    QUICK = 0.4
    def check(s, st, *extra, to=None, bools=None, pref='z3'):
        """sat / unsat / unknown of pc and extra; returns (res, model, seconds).
        z3 for a short while, then cvc5 over integers (exact translation of the
        bit-vector operations), then z3 with the rest of the time.
        bools: expressions whose truth in the model is wanted; the model returned
        is then a list of truth values (or None)"""
        if s.deadline and time.time() > s.deadline: raise Budget('time')
        t0 = time.time()
        to = to or s.timeout
        def build(q):
            sv = s._solver(q)
            for a in s.axioms: sv.add(a)
            for c in st.pc: sv.add(c)
            for c in extra:
                if type(c) is bool: c = z3.BoolVal(c)
                sv.add(c)
            return sv
        def val(m):
            if bools is None: return m
            return [z3.is_true(m.eval(x, model_completion=True)) for x in bools]
        def done(r, m):
            dt = time.time() - t0
            s.stats.queries += 1; s.stats.time += dt
            return r, m, dt
        if pref == 'z3':
            sv = build(min(to, s.QUICK))
            r = sv.check()
            if r == z3.sat: return done('sat', val(sv.model()))
            if r == z3.unsat: return done('unsat', None)
            if to <= s.QUICK:
                s.stats.unknown += 1
                return done('unknown', None)
        # both at once
        sv = build(to)
        if DUMP: open('%s/q%d.smt2' % (DUMP, s.stats.queries), 'w').write(sv.to_smt2())
        race = Race(sv, to, bools)
        try: r = sv.check()
        except z3.Z3Exception: r = z3.unknown
        r2, m2 = race.end(r != z3.unknown)
        if r == z3.sat: return done('sat', val(sv.model()))
        if r == z3.unsat: return done('unsat', None)
        if r2 == 'unsat':
            s.stats.cvc5 += 1
            return done('unsat-cvc5', None)
        if r2 == 'sat': return done('sat', m2)
        s.stats.unknown += 1
        return done('unknown', None)
    def feasible_m(s, st, c):
        """may c hold? (True when unknown); with a model if one is at hand"""
        if c is False: return False, None
        if c is True: c = z3.BoolVal(True)
        if st.model is not None:
            try:
                if z3.is_true(st.model.eval(c, model_completion=True)): return True, st.model
            except z3.Z3Exception: pass
        r, m, _ = s.check(st, c, to=min(s.timeout, 10))
        if r == 'sat':
            if st.model is None: st.model = m
            return True, m
        return r == 'unknown', None
    def feasible(s, st, c):
        return s.feasible_m(st, c)[0]
    def valid(s, st, c, to=None):
        if c is True: return True
        if c is False:
            return not s.feasible(st, True)
        c = simp(c)
        if c is True: return True
        if c is False: return not s.feasible(st, True)
        if st.model is not None:
            try:
                if z3.is_false(st.model.eval(c, model_completion=True)): return False
            except z3.Z3Exception: pass
        r, m, _ = s.check(st, z3.Not(c), to=to)
        return r.startswith('unsat')
    def where(s, ins=None):
        if ins is not None and 'line' in ins:
            return '%s:%s' % (ins.get('file', '?').split('/')[-1], ins['line'])
        return ''
    def oblig(s, st, c, kind, ins=None, info=''):
        """prove c in st; record; then assume it"""
        c = simp(c) if not isinstance(c, bool) else c
        if s.discover:
            st.assume(c)
            return True
        name = '%s%s %s' % (s.goal + ': ' if s.goal else '', kind,
                            ('[%s in %s]' % (s.where(ins), s.curfn[-1])) if ins is not None else '')
        name = name.strip()
        if c is True:
            s.obligs.append(Oblig(name, True, 'trivial', dt=0)); return True
        if c is False: nc = z3.BoolVal(True)
        else: nc = z3.Not(c)
        if SEM is not None and not s.stop_on_fail:
            r, m, dt = s.check(st, nc, to=s.QUICK)
            if r == 'unknown':
                s.stats.unknown -= 1
                if s.spawn(st, nc, name, info):
                    st.assume(c); return True
                r, m, dt = s.check(st, nc, pref='race')
        else: r, m, dt = s.check(st, nc)
        if r == 'unsat': s.obligs.append(Oblig(name, True, 'z3', dt=dt))
        elif r == 'unsat-cvc5': s.obligs.append(Oblig(name, True, 'cvc5', dt=dt))
        elif r == 'sat':
            s.obligs.append(Oblig(name, False, 'z3', model=s.show_model(st, m), info=info, dt=dt))
        else:
            s.obligs.append(Oblig(name, None, 'z3+cvc5', info='solver gave up', dt=dt))
        s.obligs[-1].cut = st.cut
        if s.stop_on_fail and r in ('sat', 'unknown'):
            raise Budget('failed')
        st.assume(c)
        return r.startswith('unsat')
    def spawn(s, st, nc, name, info):
        """solve one obligation in another process when a core is free"""
        if not SEM.acquire(False): return False
        o = Oblig(name, None, 'z3+cvc5', info='solver gave up'); o.cut = st.cut
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                r, m, dt = s.check(st, nc, pref='race')
                res = (r, s.show_model(st, m) if r == 'sat' else None, dt)
                b = pickle.dumps(res); off = 0
                while off < len(b): off += os.write(wr, b[off:off + 4096])
            except BaseException: pass
            finally:
                SEM.release()
                os._exit(0)
        os.close(wr)
        s.obligs.append(o); s.pending.append((o, rd, pid, info))
        return True
    def collect(s):
        for o, rd, pid, info in s.pending:
            b = b''
            while True:
                d = os.read(rd, 1 << 16)
                if not d: break
                b += d
            os.close(rd)
            try: os.waitpid(pid, 0)
            except OSError: pass
            try: r, m, dt = pickle.loads(b)
            except Exception: continue
            o.dt = dt; s.stats.time += dt; s.stats.queries += 1
            if r.startswith('unsat'): o.ok = True; o.backend = 'cvc5' if 'cvc5' in r else 'z3'; o.info = ''
            elif r == 'sat': o.ok = False; o.model = m; o.info = info; o.backend = 'z3'
        s.pending = []
    def show_model(s, st, m):
        try:
            out = {}
            for name, e in s.watch:
                try: out[name] = str(m.eval(e, model_completion=True) if isinstance(e, z3.ExprRef) else e)
                except Exception: pass
            for d in m.decls():
                if len(out) > 60: break
                if d.arity() == 0: out[d.name()] = str(m[d])
                else: out[d.name()] = str(m[d])[:200]
            return out
        except Exception as ex:
            return {'model': str(ex)}

    # ---- globals
    def gid(s, name):
        if name not in s.gids:
            i = -1 - len(s.gids)
            s.gids[name] = i; s.gnames[i] = name
        return s.gids[name]
    def global_obj(s, st, i):
        name = s.gnames.get(i)
        if name is None: raise Unsupported('unknown object %s' % i)
        g = s.prog['globals'].get(name)
        if g is None: raise Unsupported('global ' + name)
        size = g['size']
        cells = g.get('init')
        kind = 'struct'
        o = None
        arrty = g['ty'].startswith('[') and (g['ty'].endswith('xi8]') or g['ty'].endswith('xi32]') or g['ty'].endswith('xi16]') or g['ty'].endswith('xi64]'))
        if cells is not None and arrty and g['ty'].count('[') == 1:
            es = {'8': 1, '2': 4, '6': 2, '4': 8}[g['ty'][-2]]
            vals = [0] * (size // es)
            for c in cells:
                if c[1] == 'bytes':
                    b = bytes.fromhex(c[2])
                    for k, x in enumerate(b): vals[c[0] + k] = x
                elif c[1] == 'val':
                    vals[c[0] // es] = int(c[4][2])
            o = Obj(i, 'arr', size, name, es)
            o.content = const_fn(vals, es)
            o.ro = g['const']
        else:
            o = Obj(i, 'struct', size, name)
            o.ro = g['const']
            if cells is None:
                o.kind = 'extern'
            else:
                for c in cells:
                    if c[1] == 'zero': o.zero.append((c[0], c[0] + c[2]))
                    elif c[1] == 'bytes':
                        for k, x in enumerate(bytes.fromhex(c[2])): o.cells[c[0] + k] = (1, x)
                    else:
                        try: v = s.const(c[4])
                        except Unsupported: v = U
                        o.cells[c[0]] = (c[2], v)
        st.mem[i] = o
        return o

    def const(s, a):
        k = a[0]
        if k == 'c':
            if a[1] == 1: return a[2] not in ('0',)
            return int(a[2])
        if k == 'null': return NULL
        if k == 'undef': return U
        if k == 'g':
            n = a[1]
            if n in s.prog['functions']: return Fn(n)
            if n in s.prog['aliases']: return s.const(s.prog['aliases'][n])
            return P(s.gid(n), a[2])
        if k == 'fp': return ('fp', a[1], int(a[2]))
        if k == 'ce' and a[1] == 'inttoptr' and a[3][0] == 'c': return P(None, int(a[3][2]))
        raise Unsupported('constant ' + str(a)[:60])

    def val(s, env, a):
        if a[0] == 'v':
            return env[a[1]]
        return s.const(a)

    # ---- memory access
    def redir(s, st, p):
        """a pointer into an array member of a struct, as a pointer to the
        object that stands for that member (see sub_array)"""
        if isinstance(p, P) and p.o is not None:
            o = st.obj(p.o)
            if o.subs:
                f = simp(p.f)
                for off, n, i in o.subs:
                    if not isc(f) or off <= f < off + n: return P(i, simp(sub(f, off)))
        return p
    def sub_array(s, st, oid, off, n, content=None):
        o = s.new_arr(st, n, 'array member of ' + st.obj(oid).name, 1, content)
        own = st.own(oid); own.subs = (own.subs or ()) + ((off, n, o.id),)
        return o.id
    def check_access(s, st, p, n, kind, ins, write=False):
        """in bounds and alive; returns the object"""
        p = s.redir(st, p)
        if p is U:
            s.oblig(st, False, '%s through an uninitialised pointer' % kind, ins); raise Dead()
        if isinstance(p, Fn): raise Unsupported('access to code')
        if not isinstance(p, P): raise Unsupported('access through non-pointer %r' % (p,))
        if p.o is None:
            s.oblig(st, False, '%s through a null pointer' % kind, ins); raise Dead()
        o = st.obj(p.o)
        if o.alive is not True:
            if not s.oblig(st, o.alive, '%s of live memory (%s)' % (kind, o.name), ins): raise Dead()
        if write and o.ro:
            s.oblig(st, False, '%s to read-only memory (%s)' % (kind, o.name), ins); raise Dead()
        if o.kind == 'extern': return o
        if isc(p.f) and isc(o.size) and isc(n):
            ok = sgn(p.f, 64) >= 0 and p.f + n <= o.size
            if not ok:
                s.oblig(st, False, '%s within bounds (%s)' % (kind, o.name), ins); raise Dead()
            if not s.discover: s.obligs.append(Oblig('%s%s within bounds [%s in %s]' % (s.goal + ': ' if s.goal else '', kind, s.where(ins), s.curfn[-1]), True, 'trivial'))
            return o
        # 0 <= f, f+n <= size, all signed 64 (sizes are < 2^62)
        sz = bv(o.size, 64)
        c = b_and(sle(0, p.f), sle(0, n), sle(n, sz), sle(p.f, sub(sz, n)))
        s.oblig(st, c, '%s within bounds (%s)' % (kind, o.name), ins)
        return o
    def load(s, st, p, ty, ins):
        if ty.startswith('{') or ty.startswith('['): raise Unsupported('aggregate load')
        n = tsize(ty)
        if isinstance(p, P) and p.o is not None and st.obj(p.o).kind == 'vt':
            o = st.obj(p.o)
            return VF(o.model, p.f // 8)
        p = s.redir(st, p)
        o = s.check_access(st, p, n, 'load', ins)
        if o.kind == 'extern':
            return s.extern_load(st, o, p, ty)
        if o.kind == 'arr':
            if ty == 'ptr': raise Unsupported('pointer load from byte array')
            if ty in ('double', 'float', 'fp80'): raise Unsupported('fp load')
            v = arr_read(o, p.f, n)
            if ty == 'i1': return simp(ne(v, 0, 8))
            return v
        f = p.f
        if not isc(f):
            f = simp(f)
            if not isc(f): return s.sym_struct_load(st, o, f, ty, ins)
        v = st.getc(p.o, f, n)
        if v is U: return U
        if ty == 'ptr':
            if isc(v) and v == 0: return NULL
            if isinstance(v, PI): return v.p
            if isc(v) or isinstance(v, z3.ExprRef): raise Unsupported('integer used as pointer')
            return v
        if isinstance(v, P) and ty != 'ptr':
            if v.o is None: return 0
            return PI(v)
        if ty == 'i1' : 
            if isc(v): return bool(v & 1)
            if isinstance(v, z3.BitVecRef): return simp(ne(v, 0, 8))
            return v
        if type(v) is bool or isinstance(v, z3.BoolRef): v = ite(v, 1, 0, 8 * n)
        return v
    def extern_load(s, st, o, p, ty):
        if ty == 'ptr' and o.name in ('stderr', 'stdout', 'stdin'):
            f = st.new('struct', 8, 'a FILE'); return P(f.id, 0)
        raise Unsupported('load from external global ' + o.name)
    def sym_struct_load(s, st, o, f, ty, ins):
        """symbolic index into a table: fork over the stored cells of that width"""
        n = tsize(ty)
        cands = sorted(k for k, (m, v) in o.cells.items() if m == n)
        # zero-initialised gaps count as well
        if ty != 'ptr' and all(isc(o.cells[k][1]) or isinstance(o.cells[k][1], z3.BitVecRef) for k in cands):
            r = None
            if o.zero:
                r = z3.BitVecVal(0, 8 * n)
            cover = b_or(*[eq(f, k) for k in cands])
            if r is None:
                s.oblig(st, cover, 'load of an initialised table element', ins)
                r = bv(o.cells[cands[-1]][1], 8 * n)
            for k in cands:
                r = z3.If(eq(f, k), bv(o.cells[k][1], 8 * n), r)
            return r
        raise Fork([(eq(f, k), k) for k in cands], f)
    def store(s, st, p, v, ty, ins):
        if ty.startswith('{') or ty.startswith('['): raise Unsupported('aggregate store')
        n = tsize(ty)
        p = s.redir(st, p)
        o = s.check_access(st, p, n, 'store', ins, write=True)
        if o.kind == 'extern': return
        if o.kind == 'vt': raise Unsupported('store to vtable')
        if o.model is not None and o.kind == 'struct' and s.guard_model_store(st, o, p, ins): pass
        if o.kind == 'arr':
            if ty == 'i1': v = ite(v, 1, 0, 8)
            if v is U: v = fresh('undef', 8 * n)
            if isinstance(v, (P, PI, Fn)) :
                if isinstance(v, P) and v.o is None: v = 0
                else: raise Unsupported('pointer stored to byte array')
            o = st.own(p.o)
            es = o.es
            if n == es:
                i = p.f if es == 1 else udiv_c(p.f, es)
                o.content = store_fn(o.content, i, v, 8 * es)
            elif n > es and n % es == 0:
                base = p.f if es == 1 else udiv_c(p.f, es)
                for j in range(n // es):
                    part = (v >> (8 * es * j)) & mask(8 * es) if isc(v) else norm(z3.simplify(z3.Extract(8 * es * (j + 1) - 1, 8 * es * j, v)))
                    o.content = store_fn(o.content, simp(add(base, j)), part, 8 * es)
            else:
                raise Unsupported('narrow store to array')
            st.mark('a', p.o)
            return
        f = p.f
        if not isc(f):
            f = simp(f)
            if not isc(f): raise Unsupported('symbolic store into struct %s' % o.name)
        if ty == 'i1': v = ite(v, 1, 0, 8) if not isinstance(v, _U) else v
        st.setc(p.o, f, n, v)
    def guard_model_store(s, st, o, p, ins): return False

    def padd(s, p, off):
        if p is U: return U
        if isinstance(p, P):
            return P(p.o, simp(add(p.f, off)))
        if isinstance(p, (Fn, VF)): raise Unsupported('code pointer arithmetic')
        raise Unsupported('gep on %r' % (p,))

    # ---- byte blocks (memcpy and friends)
    def bytes_fn(s, st, p, n):
        """content function (index from p) for reading n bytes"""
        p = s.redir(st, p)
        o = st.obj(p.o)
        if o.kind == 'arr':
            if o.es == 1:
                c = o.content; f = p.f
                return lambda j: c(simp(add(f, j)))
            es = o.es; c = o.content; f = p.f
            def g(j):
                k = simp(add(f, j))
                e = bv(c(udiv_c(k, es)), 8 * es)
                sh = simp(mul(zext(trunc(bv(k, 64), es.bit_length() - 1), es.bit_length() - 1, 8 * es) if not isc(k) else k % es, 8, 8 * es))
                return norm(z3.simplify(z3.Extract(7, 0, z3.LShR(e, bv(sh, 8 * es)))))
            return g
        if isc(p.f) and isc(n):
            vals = [st._byte(o, p.f + k) for k in range(n)]
            vals = [fresh('undef', 8) if v is U else v for v in vals]
            def g(j):
                if isc(j): return vals[j] if j < len(vals) else 0
                r = bv(0, 8)
                for k, v in enumerate(vals): r = z3.If(j == k, bv(v, 8), r)
                return r
            return g
        raise Unsupported('byte view of struct %s' % o.name)
    def copy_bytes(s, st, d, sp, n, ins):
        n = simp(n)
        if isc(n) and n == 0: return
        if not isc(n) and s.valid(st, eq(n, 0)): return
        if isinstance(d, P) and d.o is None or isinstance(sp, P) and sp.o is None:
            s.oblig(st, eq(n, 0), 'block copy through a null pointer', ins); return
        d = s.redir(st, d); sp = s.redir(st, sp)
        so = s.check_access(st, sp, n, 'block read', ins)
        do = s.check_access(st, d, n, 'block write', ins, write=True)
        if do.kind == 'struct' and so.kind == 'struct':
            if not (isc(n) and isc(d.f) and isc(sp.f)): raise Unsupported('symbolic struct copy')
            cs = [(k, m, v) for k, (m, v) in so.cells.items() if sp.f <= k and k + m <= sp.f + n]
            covered = sum(m for _, m, _ in cs)
            zs = list(so.zero)
            dst = st.own(d.o)
            for k in [k for k in dst.cells if d.f <= k < d.f + n]: del dst.cells[k]
            for a, b in zs:
                a2, b2 = max(a, sp.f), min(b, sp.f + n)
                if a2 < b2: dst.zero.append((a2 - sp.f + d.f, b2 - sp.f + d.f))
            for k, m, v in cs:
                dst.cells[k - sp.f + d.f] = (m, v)
                st.mark('c', d.o, k - sp.f + d.f, m)
            return
        src = s.bytes_fn(st, sp, n)
        if do.kind == 'struct':
            if not (isc(n) and isc(d.f)) or n > 256: raise Unsupported('symbolic copy into struct %s' % do.name)
            for k in range(n): st.setc(d.o, d.f + k, 1, src(k))
            return
        o = st.own(d.o)
        if o.es == 1:
            o.content = copy_fn(o.content, d.f, src, 0, n)
        elif so.kind == 'arr' and so.es == o.es:
            es = o.es
            o.content = copy_fn(o.content, udiv_c(d.f, es), so.content, udiv_c(sp.f, es), udiv_c(n, es), 8 * es)
        else: raise Unsupported('copy between element sizes')
        st.mark('a', d.o)
    def set_bytes(s, st, d, v, n, ins):
        n = simp(n)
        if isc(n) and n == 0: return
        d = s.redir(st, d)
        do = s.check_access(st, d, n, 'block write', ins, write=True)
        if do.kind == 'struct':
            if not (isc(n) and isc(d.f)): raise Unsupported('symbolic memset of struct')
            o = st.own(d.o)
            for k in list(o.cells):
                m = o.cells[k][0]
                if d.f <= k and k + m <= d.f + n: del o.cells[k]
            if isc(v) and v == 0:
                o.zero.append((d.f, d.f + n))
                for k in range(0, n): st.mark('c', d.o, d.f + k, 1) if n <= 64 else None
            else:
                for k in range(n): st.setc(d.o, d.f + k, 1, v)
            return
        o = st.own(d.o)
        if o.es == 1:
            o.content = copy_fn(o.content, d.f, lambda j: v, 0, n)
        elif isc(v) and v == 0:
            o.content = copy_fn(o.content, udiv_c(d.f, o.es), lambda j: 0, 0, udiv_c(n, o.es), 8 * o.es)
        else: raise Unsupported('memset of wide array')
        st.mark('a', d.o)

    def ghost_width(s, n): return s.ghost_widths.get(n)
    def ghost_havoc(s, st, n):
        w = s.ghost_widths[n]
        return fresh('ghost_' + n, w) if w > 1 else fresh_bool('ghost_' + n)
    def setg(s, st, oid, n, v, w):
        s.ghost_widths[n] = w
        st.ghost[n] = v
        st.mark('g', oid, n)
    # ---- C strings: length by a fresh witness (no quantifiers)
    def new_arr(s, st, size, name, es=1, content=None, heap=None):
        o = st.new('arr', size, name, es)
        o.content = content if content is not None else fresh_fun(name.replace(' ', '_'), 8 * es)
        o.heap = heap
        return o

class Dead(Exception):
    """the current path cannot continue"""
class Fork(Exception):
    """re-run the instruction with the expression e fixed, once per case"""
    def __init__(s, cases, e): s.cases = cases; s.e = e
