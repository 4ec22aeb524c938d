"""Contracts of the streams that wrap another stream.  The wrapped stream is an
arbitrary one that keeps the StreamBase contract (AbsStream)."""
import z3
from sym import *
from streams import *
from task import *
from tasks_core import reqs

def win(a, b): return simp(z3.If(tob(a), *b))
def iff(c, a, b, w=64): return simp(ite(c, a, b, w))

# ------------------------------------------------------------------ StreamBase<T>::skip (by reading)
for T in ('char', 'wchar_t'):
    def mk(T):
        cls = 'Strigi::StreamBase<%s>' % T
        @task(cls + '::skip', 'stream', 'default', fn=cls + '::skip')
        def t(E):
            st = E.state()
            m = AbsStream(E.lay, 'self', es=4 if T == 'wchar_t' else 1); o = m.make(E, st)
            # the final position of a failed read is not part of the contract of skip
            I = Impl(E, o, m.D, m.L, m.short, es=m.es)
            I.cause = lambda st2: True
            pre = I.snap(st)
            k = fresh('n'); E.watch += [('n', k)]; st.assume(b_and(sle(0, k), sle(k, 1 << 57)))
            for st2, r in E.callf(st, cls + '::skip', [P(o, 0), k]):
                check_skip(E, I, st2, r, k, pre)
    mk(T)

# ------------------------------------------------------------------ SubInputStream
SUB = 'Strigi::SubInputStream'
class Sub:
    """window [off, off+n) of the input; n == -1: up to its end.
    Class invariant: while the window is healthy the input stands at
    off + position and is healthy; a known size is the length of the window."""
    def __init__(b, E, st, given):
        b.E = E; m = b.m = AbsStream(E.lay, 'input'); b.inp = m.make(E, st)
        b.off = fresh('offset'); b.n = fresh('length') if given else M1
        E.watch += [('offset', b.off), ('length', b.n), ('L', m.L), ('short', m.short)]
        st.assume(b_and(sle(0, b.off), sle(b.off, m.L)))
        avail = sub(m.L, b.off)
        if given:
            st.assume(b_and(sle(0, b.n), sle(b.n, 1 << 56)))
            b.short = simp(slt(avail, b.n)); b.L = iff(b.short, avail, b.n)
        else:
            b.short = m.short; b.L = simp(avail)
        pos, size, status = fresh('pos'), fresh('size'), fresh('status', 32)
        b.oid = E.new_stream(st, SUB, size, pos, status)
        E.setf(st, b.oid, SUB, 'm_offset', b.off); E.setf(st, b.oid, SUB, 'm_input', P(b.inp, 0))
        E.watch += [('pos', pos), ('size', size), ('status', status)]
        D = m.D
        b.I = Impl(E, b.oid, lambda i: D(simp(add(b.off, i))), b.L, b.short)
        b.I.cause = b.I.cause_skip = lambda s: b_or(eq(m.get(s, b.inp, 'status'), ERR, 32), b.short)
        b.I.recovers = True
        for c in b.inv(st): st.assume(c)
        b.given = given
    def inv(b, st):
        v = b.I.snap(st); m = b.m
        ip, ist = m.get(st, b.inp, 'pos'), m.get(st, b.inp, 'status')
        size_ok = eq(v.size, b.n) if not isc(b.n) else b_or(eq(v.size, M1), b_and(eq(v.size, b.L), b_not(b.short)))
        okk = b_and(sle(0, v.pos), sle(v.pos, b.L), size_ok, ne(ist, ERR, 32), eq(ip, add(b.off, v.pos)),
                    b_imp(eq(v.status, EOFS, 32), b_and(eq(v.size, v.pos), eq(v.pos, b.L), b_not(b.short))))
        # in the error state the size is kept, too
        return [ule(v.status, 2, 32), b_or(eq(v.status, ERR, 32), okk), b_or(size_ok)]
    def check(b, st):
        E = b.E
        for k, c in enumerate(b.inv(st)): E.oblig(st, c, 'class invariant: window and input in step (%d)' % k)
        E.oblig(st, E.getf(st, b.oid, SUB, 'm_offset') is b.off or eq(E.getf(st, b.oid, SUB, 'm_offset'), b.off), 'class invariant: the start of the window is fixed')
        p = E.getf(st, b.oid, SUB, 'm_input')
        E.oblig(st, isinstance(p, P) and p.o == b.inp and eq(p.f, 0), 'class invariant: same input')
    def inside(b, st, what):
        """the input was not taken beyond the window"""
        v = b.I.snap(st)
        E = b.E
        ip = b.m.get(st, b.inp, 'pos')
        E.oblig(st, b_imp(ne(v.status, ERR, 32), b_and(sle(b.off, ip), sle(ip, add(b.off, b.L)))), what + 'the input stays inside the window')
for given in (True, False):
    def mk(given):
        suf = ' (length given)' if given else ' (to the end)'
        @task(SUB + '::SubInputStream' + suf, 'stream', 'sub', fn=SUB + '::SubInputStream')
        def t(E):
            st = E.state(); m = AbsStream(E.lay, 'input'); inp = m.make(E, st)
            st.assume(ne(m.get(st, inp, 'status'), ERR, 32))
            n = fresh('length') if given else M1
            if given: st.assume(b_and(sle(0, n), sle(n, 1 << 56)))
            off = m.get(st, inp, 'pos')
            o = E.raw_obj(st, SUB)
            for st2, r in E.callf(st, SUB + '::SubInputStream', [P(o, 0), P(inp, 0), n]):
                I = Impl(E, o, None, 0); v = I.snap(st2)
                E.oblig(st2, b_and(eq(v.pos, 0), eq(v.status, OK, 32), eq(v.size, n)), 'constructor: starts at 0, Ok, with the given length')
                E.oblig(st2, eq(E.getf(st2, o, SUB, 'm_offset'), off), 'constructor: the window starts where the input is')
                p = E.getf(st2, o, SUB, 'm_input')
                E.oblig(st2, isinstance(p, P) and p.o == inp and eq(p.f, 0), 'constructor: the input is kept')
                E.oblig(st2, eq(m.get(st2, inp, 'pos'), off), 'constructor: the input is not moved')
        @task(SUB + '::read' + suf, 'stream', 'sub', fn=SUB + '::read')
        def t(E):
            st = E.state(); b = Sub(E, st, given); I = b.I
            mn, mx, out = reqs(E, st); pre = I.snap(st)
            for st2, r in E.callf(st, SUB + '::read', [P(b.oid, 0), out, mn, mx]):
                check_read(E, I, st2, r, out, pre, mn, mx); b.check(st2); b.inside(st2, 'read: ')
        @task(SUB + '::skip' + suf, 'stream', 'sub', fn=SUB + '::skip')
        def t(E):
            st = E.state(); b = Sub(E, st, given); I = b.I; pre = I.snap(st)
            k = fresh('n'); E.watch += [('n', k)]; st.assume(b_and(sle(0, k), sle(k, 1 << 57)))
            for st2, r in E.callf(st, SUB + '::skip', [P(b.oid, 0), k]):
                check_skip(E, I, st2, r, k, pre); b.check(st2); b.inside(st2, 'skip: ')
        @task(SUB + '::reset' + suf, 'stream', 'sub', fn=SUB + '::reset')
        def t(E):
            st = E.state(); b = Sub(E, st, given); I = b.I; pre = I.snap(st)
            p = fresh('p'); E.watch += [('target', p)]; st.assume(b_and(sle(0, p), sle(p, 1 << 57)))
            gh = st.obj(b.inp).ghost
            s0 = sub(gh['s0'], b.off); s0 = iff(slt(s0, 0), 0, s0); s1 = sub(gh['s1'], b.off)
            s1 = iff(slt(b.L, s1), b.L, s1)
            for st2, r in E.callf(st, SUB + '::reset', [P(b.oid, 0), p]):
                check_reset(E, I, st2, r, p, pre, (s0, s1, gh['seg'])); b.check(st2); b.inside(st2, 'reset: ')
    mk(given)

# ------------------------------------------------------------------ StringTerminatedSubStream
STS = 'Strigi::StringTerminatedSubStream'
PRIV = STS + '::Private'
class Term:
    """the input from off up to the first occurrence of the terminator.
    M(i): the terminator stands at input position i.  F: the first such place
    at or behind off (when there is one)."""
    def __init__(b, E, st, has):
        b.E = E; m = b.m = AbsStream(E.lay, 'input'); b.inp = m.make(E, st)
        L = m.L
        b.off = fresh('offset'); b.tl = fresh('termlen', 32); b.tl64 = sext(b.tl, 32, 64)
        b.has = has; b.F = fresh('F')
        Mf = z3.Function('M', z3.BitVecSort(64), z3.BoolSort()); b.M = lambda i: Mf(bv(i, 64))
        E.watch += [('offset', b.off), ('terminator length', b.tl), ('occurs', b.has), ('first at', b.F), ('L', L)]
        st.assume(b_and(sle(1, b.tl, 32), sle(b.tl, 1 << 28, 32), sle(0, b.off), sle(b.off, L)))
        st.assume(b_imp(b.has, b_and(sle(0, b.F), sle(b.F, L), sle(add(add(b.off, b.F), b.tl64), L), b.M(add(b.off, b.F)))))
        b.L = b.F if has else simp(sub(L, b.off))
        b.short = b_and(b_not(b.has), m.short)
        pos, size, status = fresh('pos'), fresh('size'), fresh('status', 32)
        b.oid = E.new_stream(st, STS, size, pos, status)
        b.priv = E.raw_obj(st, PRIV, heap='new')
        E.setf(st, b.oid, STS, 'p', P(b.priv, 0))
        b.o_s = E.off(PRIV, 'm_searcher')[0]
        K = 'Strigi::KmpSearcher'
        st.setc(b.priv, b.o_s + E.off(K, 'len')[0], 4, b.tl)
        E.setf(st, b.priv, PRIV, 'm_offset', b.off); E.setf(st, b.priv, PRIV, 'm_input', P(b.inp, 0))
        b.far = fresh('furthest'); E.setf(st, b.priv, PRIV, 'furthest', b.far)
        E.watch += [('pos', pos), ('size', size), ('status', status), ('furthest', b.far)]
        D = m.D
        b.I = Impl(E, b.oid, lambda i: D(simp(add(b.off, i))), b.L, b.short)
        b.I.cause = lambda s: eq(m.get(s, b.inp, 'status'), ERR, 32)
        b.I.recovers = True
        for c in b.inv(st): st.assume(c)
        b.contracts()
    def contracts(b):
        E = b.E; m = b.m
        def search(s, st, a, ins):
            this, hay, n = a
            s.oblig(st, this.o == b.priv and eq(this.f, b.o_s), 'the search is for the terminator', ins)
            n64 = simp(sext(n, 32, 64))
            s.check_access(st, hay, n64, 'text to search', ins)
            o = st.obj(hay.o); seg = st.obj(b.inp).ghost
            s.oblig(st, hay.o == seg['seg'], 'the text searched is the data read from the input', ins)
            at = simp(add(seg['s0'], hay.f)) if hay.o == seg['seg'] else fresh('at')
            out = []
            no = st.clone()
            fi = sub(add(b.off, b.F), at)
            no.assume(b_imp(b_and(b.has, sle(0, fi), sle(fi, sub(n64, b.tl64))), b_not(b.M(add(at, fi)))))
            if s.feasible(no, True): out.append((no, NULL))
            i = fresh('found'); st.assume(b_and(sle(0, i), sle(i, n64), sle(add(i, b.tl64), n64), b.M(add(at, i))))
            # the first place at or behind off: nothing before it; first one in the text
            x = add(at, i)
            st.assume(b_imp(b_and(sle(b.off, x), sle(add(x, b.tl64), m.L)), b_and(b.has, sle(b.F, sub(x, b.off)))))
            st.assume(b_imp(b_and(b.has, sle(0, fi), slt(fi, i)), b_not(b.M(add(at, fi)))))
            if s.feasible(st, True): out.append((st, P(hay.o, simp(add(hay.f, i)))))
            return out
        search.label = 'KmpSearcher::search (contract: the first occurrence; decided by the bounded check of C14)'
        E.contracts['Strigi::KmpSearcher::search'] = search
    def inv(b, st):
        v = b.I.snap(st); m = b.m; E = b.E
        ip, ist = m.get(st, b.inp, 'pos'), m.get(st, b.inp, 'status')
        far = E.getf(st, b.priv, PRIV, 'furthest')
        end = add(b.off, b.L)
        return [ule(v.status, 2, 32),
                b_or(eq(v.size, M1), b_and(eq(v.size, b.L), b_not(b.short))),
                b_imp(eq(v.status, EOFS, 32), b_and(eq(v.size, v.pos), eq(v.pos, b.L), b_not(b.short))),
                b_and(sle(M1, v.pos), sle(v.pos, b.L), b_imp(ne(v.status, ERR, 32), sle(0, v.pos))),
                b_imp(eq(v.status, OK, 32), b_and(ne(ist, ERR, 32), eq(ip, add(b.off, v.pos)))),
                b_and(sle(b.off, far), sle(far, end), b_imp(b_and(b.has, slt(b.off, far)), slt(far, end)))]
    def check(b, st):
        E = b.E
        for k, c in enumerate(b.inv(st)): E.oblig(st, c, 'class invariant: stream and input in step (%d)' % k)
        for f, v in (('m_offset', b.off),): E.oblig(st, eq(E.getf(st, b.priv, PRIV, f), v), 'class invariant: the start is fixed')
        p, q = E.getf(st, b.oid, STS, 'p'), E.getf(st, b.priv, PRIV, 'm_input')
        E.oblig(st, isinstance(p, P) and p.o == b.priv and isinstance(q, P) and q.o == b.inp, 'class invariant: same input')
def two(name):
    def deco(f):
        for has in (True, False):
            task('%s (terminator %s)' % (name, 'present' if has else 'absent'), 'stream', 'term', fn=name)(lambda E, has=has: f(E, has))
    return deco
@two(STS + '::read')
def t(E, has):
    st = E.state(); b = Term(E, st, has); I = b.I
    mn, mx, out = reqs(E, st, big=1 << 29); pre = I.snap(st)
    for st2, r in E.callf(st, STS + '::read', [P(b.oid, 0), out, mn, mx]):
        v = check_read(E, I, st2, r, out, pre, mn, mx); b.check(st2)
        E.oblig(st2, b_imp(b_and(eq(pre.status, OK, 32), eq(v.status, EOFS, 32), b.has), eq(b.m.get(st2, b.inp, 'pos'), add(add(b.off, b.F), b.tl64))), 'read: at the end the input stands behind the terminator')
@two(STS + '::reset')
def t(E, has):
    st = E.state(); b = Term(E, st, has); I = b.I; pre = I.snap(st)
    p = fresh('p'); E.watch += [('target', p)]; st.assume(b_and(sle(0, p), sle(p, 1 << 57)))
    gh = st.obj(b.inp).ghost
    s0 = sub(gh['s0'], b.off); s0 = iff(slt(s0, 0), 0, s0); s1 = sub(gh['s1'], b.off)
    lim = iff(ne(pre.size, M1), pre.size, iff(slt(sub(b.far, b.off), pre.pos), pre.pos, sub(b.far, b.off)))
    s1 = iff(slt(lim, s1), lim, s1)
    # the input was not disturbed since the end was reached
    st.assume(b_imp(eq(pre.status, EOFS, 32), ne(b.m.get(st, b.inp, 'status'), ERR, 32)))
    for st2, r in E.callf(st, STS + '::reset', [P(b.oid, 0), p]):
        check_reset(E, I, st2, r, p, pre, (s0, s1, gh['seg'])); b.check(st2)
@task(STS + '::StringTerminatedSubStream', 'stream', 'term')
def t(E):
    from tasks_text import kmp_contracts
    kmp_contracts(E)
    st = E.state(); m = AbsStream(E.lay, 'input'); inp = m.make(E, st)
    o = E.raw_obj(st, STS, heap='new'); q = st.new('struct', 32, 'the terminator')
    n = fresh('termlen'); st.assume(b_and(sle(1, n), sle(n, 1 << 28))); C = fresh_fun('term')
    st.setc(q.id, 0, 32, Str(n, C)); off = m.get(st, inp, 'pos')
    for st2, r in E.callf(st, STS + '::StringTerminatedSubStream', [P(o, 0), P(inp, 0), P(q.id, 0)]):
        v = Impl(E, o, None, 0).snap(st2)
        E.oblig(st2, b_and(eq(v.pos, 0), eq(v.size, M1), eq(v.status, OK, 32)), 'constructor: starts at 0, Ok, of unknown size')
        p = E.getf(st2, o, STS, 'p')
        f = lambda nm: E.getf(st2, p.o, PRIV, nm)
        E.oblig(st2, b_and(eq(f('m_offset'), off), eq(f('furthest'), off)), 'constructor: nothing but the start is known to be before the terminator')
        E.oblig(st2, f('m_input').o == inp, 'constructor: the input is kept')
        base = E.off(PRIV, 'm_searcher')[0]; K = 'Strigi::KmpSearcher'
        E.oblig(st2, eq(st2.getc(p.o, base + E.off(K, 'len')[0], 4), trunc(n, 32), 32), 'constructor: the searcher has the terminator')
        w = st2.getc(p.o, base + E.off(K, 'm_query')[0], 32); k = fresh('k')
        E.oblig(st2, b_and(eq(w.n, n), b_imp(ult(k, n), eq(scontent(st2, w)(k), C(k), 8))), 'constructor: the searcher looks for the terminator')
        for st3, r in E.callf(st2, STS + '::~StringTerminatedSubStream', [P(o, 0)]):
            E.oblig(st3, st3.obj(p.o).alive is False, 'destructor: releases its data')

# ------------------------------------------------------------------ DataEventInputStream
DEI = 'Strigi::DataEventInputStream'
class Handler:
    """an arbitrary listener: ghost hpos counts the bytes it got"""
    label = 'DataEventHandler'
    def __init__(h, b): h.b = b; h.slots = slots_any(b.E.prog)
    def vcall(h, s, st, slot, args, ins):
        b = h.b; m = b.m
        nm = h.slots.get(slot)
        s.stats.trusted['DataEventHandler::%s (arbitrary listener)' % nm] = 1
        if nm == 'handleData':
            this, data, n = args
            n64 = simp(zext(n, 32, 64)); hpos = st.ghost['hpos']
            s.oblig(st, b_and(st.ghost['want'], b_not(st.ghost['ended'])), 'data goes to the listener only while it wants some and the end was not signalled', ins)
            s.oblig(st, slt(0, n64), 'the listener gets at least one byte', ins)
            s.check_access(st, data, n64, 'data for the listener', ins)
            k = fresh('k'); a = st.clone(); a.assume(ult(k, n64))
            c = s.bytes_fn(a, data, n64)
            s.oblig(a, eq(c(k), m.D(simp(add(hpos, k))), 8), 'the listener gets the next bytes of the content', ins)
            s.setg(st, b.oid, 'hpos', simp(add(hpos, n64)), 64)
            s.oblig(st, sle(st.ghost['hpos'], m.L), 'the listener gets no more than the content', ins)
            r = fresh_bool('wantmore')
            s.setg(st, b.oid, 'want', simp(b_and(st.ghost['want'], r)), 1)
            return [(st, r)]
        if nm == 'handleEnd':
            s.oblig(st, b_not(st.ghost['ended']), 'the end is signalled once', ins)
            s.oblig(st, b_imp(st.ghost['want'], eq(st.ghost['hpos'], m.L)), 'the end is signalled when the listener has seen everything', ins)
            s.setg(st, b.oid, 'ended', True, 1)
            return [(st, None)]
        raise Unsupported('listener call %s' % nm)
def slots_any(prog):
    """virtual table slots of DataEventHandler"""
    for n, g in prog['globals'].items():
        if n == '_ZTVN6Strigi16DataEventHandlerE': 
            s = slots_of(prog, n)
            if s: return s
    return {2: 'handleData', 3: 'handleEnd'}
class Event:
    def __init__(b, E, st):
        b.E = E; m = b.m = AbsStream(E.lay, 'input'); m.recovers = False; b.inp = m.make(E, st)
        b.L = m.L; b.short = m.short
        pos, size, status = fresh('pos'), fresh('size'), fresh('status', 32)
        b.oid = E.new_stream(st, DEI, size, pos, status)
        E.setf(st, b.oid, DEI, 'input', P(b.inp, 0))
        h = st.new('struct', 8, 'listener'); vt = st.new('vt', 1 << 20, 'vtable'); vt.model = Handler(b)
        st.setc(h.id, 0, 8, P(vt.id, 0)); b.h = h.id
        E.setf(st, b.oid, DEI, 'handler', P(h.id, 0))
        E.setf(st, b.oid, DEI, 'totalread', fresh('totalread')); E.setf(st, b.oid, DEI, 'finished', fresh('finished', 8))
        for nm, w in (('hpos', 64), ('want', 1), ('ended', 1)): E.setg(st, b.oid, nm, fresh(nm, w) if w > 1 else fresh_bool(nm), w)
        E.watch += [('pos', pos), ('size', size), ('status', status), ('totalread', E.getf(st, b.oid, DEI, 'totalread')), ('hpos', st.ghost['hpos']), ('want', st.ghost['want']), ('ended', st.ghost['ended'])]
        b.I = Impl(E, b.oid, m.D, b.L, b.short)
        b.I.cause = b.I.cause_skip = lambda s: eq(m.get(s, b.inp, 'status'), ERR, 32)
        b.I.recovers = True
        for c in b.inv(st): st.assume(c)
        b.base = dict(st.ghost)
        E.inv_hooks.append(b)
    def relevant(b, c): return any(m[1] == b.oid for m in c.mod if m[0] == 'c')
    def assume(b, E, st):
        for c in b.goals(E, st): st.assume(c)
    def goals(b, E, st): return b.inv(st) + [b.grown(st, b.base)]
    def inv(b, st):
        v = b.I.snap(st); m = b.m; E = b.E
        ip, ist, isz = (m.get(st, b.inp, k) for k in ('pos', 'status', 'size'))
        tot, fin = E.getf(st, b.oid, DEI, 'totalread'), E.getf(st, b.oid, DEI, 'finished')
        hp, want, ended = (st.ghost[k] for k in ('hpos', 'want', 'ended'))
        ok = ne(v.status, ERR, 32)
        return [ule(v.status, 2, 32), ule(fin, 1, 8), b_and(sle(0, hp), sle(hp, b.L)),
                eqb(want, ne(tot, M1)), b_imp(want, eq(tot, hp)),
                b_imp(ended, eq(fin, 1, 8)), b_imp(eq(fin, 1, 8), ended),
                b_imp(ended, b_or(b_not(want), eq(hp, b.L))),
                b_imp(want, b_and(sle(ip, hp), sle(v.pos, hp))),
                b_imp(ok, b_and(sle(0, v.pos), ne(ist, ERR, 32), eq(ip, v.pos))),
                b_imp(b_not(ok), eq(ist, ERR, 32)), sle(neg(2), v.pos), sle(v.pos, b.L),
                b_or(eq(v.size, M1), b_and(b_imp(b_not(b.short), eq(v.size, b.L)), b_imp(b.short, slt(b.L, v.size)))), sle(M1, v.size), sle(v.size, 1 << 57),
                b_imp(eq(v.status, EOFS, 32), b_and(eq(v.size, v.pos), eq(v.pos, b.L), b_not(b.short)))]
    # the methods by their contracts (proved by the tasks below)
    def havoc(b, E, st):
        l = E.lay; m = b.m
        old = dict(st.ghost)
        m.kill_seg(st, b.inp); m.fill(E, st, b.inp); st.mark('c', b.inp, l.pos, 8)
        for f, n in ((l.pos, 8), (l.size, 8), (l.status, 4)): st.setc(b.oid, f, n, fresh('f', 8 * n))
        E.setf(st, b.oid, DEI, 'totalread', fresh('totalread')); E.setf(st, b.oid, DEI, 'finished', fresh('finished', 8))
        for nm, w in (('hpos', 64), ('want', 1), ('ended', 1)): E.setg(st, b.oid, nm, fresh(nm, w) if w > 1 else fresh_bool(nm), w)
        for c in b.inv(st): st.assume(c)
        st.assume(b.grown(st, old))
    def grown(b, st, old): return b_and(sle(old['hpos'], st.ghost['hpos']), b_imp(st.ghost['want'], old['want']), b_imp(old['ended'], st.ghost['ended']))
    def mono(b, E, st, old):
        E.oblig(st, b.grown(st, old), 'what the listener got stays gotten')
    def contracts(b, *which):
        def c_read(E, st, args, ins):
            this, out, mn, mx = args
            E.oblig(st, sle(1, mn, 32), 'read: requested minimum is at least 1', ins); b.check(st)
            pre = b.I.snap(st); b.havoc(E, st)
            n = fresh('nread', 32)
            E.assuming = True
            try: check_read(E, b.I, st, n, None, pre, mn, mx)
            finally: E.assuming = False
            bad = st.clone(); bad.assume(slt(n, 0, 32)); st.assume(sle(1, n, 32))
            r = []
            if E.feasible(bad, True): E.store(bad, out, U, 'ptr', ins); r.append((bad, n))
            if E.feasible(st, True):
                gh = st.obj(b.inp).ghost; st.assume(sle(gh['s0'], pre.pos))
                E.store(st, out, P(gh['seg'], simp(sub(pre.pos, gh['s0']))), 'ptr', ins); r.append((st, n))
            return r
        def c_skip(E, st, args, ins):
            E.oblig(st, b_and(sle(0, args[1]), sle(args[1], 1 << 58)), 'skip: count is not negative', ins); b.check(st)
            pre = b.I.snap(st); b.havoc(E, st)
            n = fresh('skipped')
            E.assuming = True
            try: check_skip(E, b.I, st, n, args[1], pre)
            finally: E.assuming = False
            return [(st, n)] if E.feasible(st, True) else []
        for nm, f in (('read', c_read), ('skip', c_skip)):
            f.label = DEI + '::%s (contract proved separately)' % nm
            if nm in which: b.E.contracts[DEI + '::' + nm] = f
    def check(b, st):
        E = b.E
        for k, c in enumerate(b.inv(st)): E.oblig(st, c, 'class invariant: reader, listener and input in step (%d)' % k)
        p, q = E.getf(st, b.oid, DEI, 'input'), E.getf(st, b.oid, DEI, 'handler')
        E.oblig(st, isinstance(p, P) and p.o == b.inp and isinstance(q, P) and q.o == b.h, 'class invariant: same input, same listener')
@task(DEI + '::DataEventInputStream', 'stream', 'event')
def t(E):
    st = E.state(); m = AbsStream(E.lay, 'input'); inp = m.make(E, st, at_zero=True); st.assume(ne(m.get(st, inp, 'status'), ERR, 32))
    o = E.raw_obj(st, DEI); h = st.new('struct', 8, 'listener')
    for st2, r in E.callf(st, DEI + '::DataEventInputStream', [P(o, 0), P(inp, 0), P(h.id, 0)]):
        v = Impl(E, o, None, 0).snap(st2)
        E.oblig(st2, b_and(eq(v.pos, 0), eq(v.size, m.get(st2, inp, 'size')), eq(v.status, OK, 32)), 'constructor: starts at 0, Ok, with the size of the input')
        E.oblig(st2, b_and(eq(E.getf(st2, o, DEI, 'totalread'), 0), eq(E.getf(st2, o, DEI, 'finished'), 0, 8)), 'constructor: nothing reported yet')
@task(DEI + '::read', 'stream', 'event')
def t(E):
    st = E.state(); b = Event(E, st); I = b.I
    mn, mx, out = reqs(E, st); pre = I.snap(st); old = dict(st.ghost)
    for st2, r in E.callf(st, DEI + '::read', [P(b.oid, 0), out, mn, mx]):
        v = check_read(E, I, st2, r, out, pre, mn, mx); b.check(st2); b.mono(E, st2, old)
        E.oblig(st2, b_imp(eq(v.status, EOFS, 32), st2.ghost['ended']), 'read: the end is signalled when it is met')
@task(DEI + '::skip', 'stream', 'event')
def t(E):
    st = E.state(); b = Event(E, st); I = b.I; pre = I.snap(st); old = dict(st.ghost)
    k = fresh('n'); E.watch += [('n', k)]; st.assume(b_and(sle(0, k), sle(k, 1 << 58)))
    b.contracts('read')
    for st2, r in E.callf(st, DEI + '::skip', [P(b.oid, 0), k]):
        check_skip(E, I, st2, r, k, pre); b.check(st2); b.mono(E, st2, old)
@task(DEI + '::reset', 'stream', 'event')
def t(E):
    st = E.state(); b = Event(E, st); I = b.I; pre = I.snap(st); old = dict(st.ghost)
    p = fresh('p'); E.watch += [('target', p)]; st.assume(b_and(sle(0, p), sle(p, 1 << 57)))
    gh = st.obj(b.inp).ghost
    s1 = iff(slt(gh['s1'], pre.pos), gh['s1'], pre.pos)
    b.contracts('skip')
    for st2, r in E.callf(st, DEI + '::reset', [P(b.oid, 0), p]):
        check_reset(E, I, st2, r, p, pre, (gh['s0'], s1, gh['seg'])); b.check(st2); b.mono(E, st2, old)
