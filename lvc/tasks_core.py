"""Contracts of the stream classes."""
import z3
from sym import *
from streams import *
from task import *

def reqs(E, st, lo=1, big=None):
    """arguments of read: min >= 1, any max"""
    mn, mx = fresh('min', 32), fresh('max', 32)
    st.assume(sle(lo, mn, 32))
    if big: st.assume(b_and(sle(mn, big, 32), sle(mx, big, 32)))
    E.watch += [('min', mn), ('max', mx)]
    out = st.new('struct', 8, 'start'); st.setc(out.id, 0, 8, U)
    return mn, mx, P(out.id, 0)

# ------------------------------------------------------------------ StringStream
def mk_string(E, st, T):
    es = 4 if T == 'wchar_t' else 1
    cls = 'Strigi::StringStream<%s>' % T
    L = fresh('L'); pos = fresh('pos'); status = fresh('status', 32)
    E.watch += [('length', L), ('pos', pos), ('status', status)]
    D = fresh_fun('D', 8 * es)
    st.assume(b_and(sle(0, L), sle(L, 0x7ffffffe), sle(0, pos), sle(pos, L), ule(status, 1, 32),
                    b_imp(eq(status, EOFS, 32), eq(pos, L))))
    E.stream_obj(st, cls)
    o = E.new_stream(st, cls, L, pos, status)
    data = E.new_arr(st, mul(L, es), 'the data', es, D)
    data.ro = True
    E.setf(st, o, cls, 'data', P(data.id, 0))
    E.setf(st, o, cls, 'dataowner', fresh('own', 8))
    E.setf(st, o, cls, 'markpt', fresh('markpt'))
    I = Impl(E, o, D, L, es=es, can_fail=False, random=True)
    I.data = data.id
    return I
def inv_string(E, st, I, T):
    cls = 'Strigi::StringStream<%s>' % T
    p = E.getf(st, I.oid, cls, 'data')
    E.oblig(st, isinstance(p, P) and p.o == I.data and eq(p.f, 0), 'class invariant: data pointer unchanged')
    E.oblig(st, eq(I.snap(st).size, I.L), 'class invariant: size is the length of the data')

for T in ('char', 'wchar_t'):
    def mk(T):
        cls = 'Strigi::StringStream<%s>' % T
        es = 4 if T == 'wchar_t' else 1
        @task(cls + '::read', 'stream', 'string')
        def t(E):
            st = E.state(); I = mk_string(E, st, T)
            mn, mx, out = reqs(E, st); pre = I.snap(st)
            for st2, r in E.callf(st, cls + '::read', [P(I.oid, 0), out, mn, mx]):
                check_read(E, I, st2, r, out, pre, mn, mx); inv_string(E, st2, I, T)
        @task(cls + '::reset', 'stream', 'string')
        def t(E):
            st = E.state(); I = mk_string(E, st, T); pre = I.snap(st)
            p = fresh('p'); E.watch += [('target', p)]
            for st2, r in E.callf(st, cls + '::reset', [P(I.oid, 0), p]):
                check_reset(E, I, st2, r, p, pre); inv_string(E, st2, I, T)
        @task(cls + '::skip', 'stream', 'string')
        def t(E):
            st = E.state(); I = mk_string(E, st, T); pre = I.snap(st)
            k = fresh('n'); E.watch += [('n', k)]; st.assume(sle(0, k))
            for st2, r in E.callf(st, cls + '::skip', [P(I.oid, 0), k]):
                check_skip(E, I, st2, r, k, pre); inv_string(E, st2, I, T)
        for copy in (True, False):
            @task(cls + '::StringStream copy=%s' % copy, 'stream', 'string', fn=cls + '::StringStream')
            def t(E, copy=copy):
                st = E.state()
                n = fresh('length', 32); st.assume(b_and(sle(0, n, 32), sle(n, 0x7ffffff0 // es, 32)))
                D = fresh_fun('D', 8 * es)
                n64 = sext(n, 32, 64)
                src = E.new_arr(st, mul(n64, es), 'source', es, D); src.ro = True
                o = E.raw_obj(st, cls)
                for st2, r in E.callf(st, cls + '::StringStream', [P(o, 0), P(src.id, 0), n, copy]):
                    I = Impl(E, o, D, n64, es=es, can_fail=False, random=True)
                    v = I.snap(st2)
                    E.oblig(st2, b_and(eq(v.size, n64), eq(v.pos, 0), eq(v.status, OK, 32)), 'constructor: starts at 0, Ok, with the given length')
                    p = E.getf(st2, o, cls, 'data')
                    k = fresh('k'); st2.assume(b_and(sle(0, k), slt(k, n64)))
                    E.ghost_access(st2, p, mul(n64, es), 'constructor: the data is readable')
                    E.oblig(st2, eq(rd_elem(st2.obj(p.o), p.f, k, es), D(k), 8 * es), 'constructor: holds the given data')
    mk(T)

# ------------------------------------------------------------------ StreamBuffer
BIG = 1 << 29
BUFMAX = (1 << 30) - 1
class SBuf:
    """accessors and representation invariant of StreamBuffer<T> at (oid, base)"""
    def __init__(b, E, T, oid=None, base=0):
        b.E = E; b.T = T; b.es = 4 if T == 'wchar_t' else 1; b.oid = oid
        sb = 'Strigi::StreamBuffer<%s>' % T
        f = lambda n: (base + field(E.prog, sb, n)[0], field(E.prog, sb, n)[1])
        b.o_start, b.o_size, b.o_read, b.o_avail = f('start'), f('size'), f('readPos'), f('avail')
    def g(b, st, o): return st.getc(b.oid, o[0], o[1])
    def off_items(b, st):
        p, q = b.g(st, b.o_start), b.g(st, b.o_read)
        if not (isinstance(p, P) and isinstance(q, P)): return None
        if p.o != q.o: return None
        d = simp(sub(q.f, p.f))
        if b.es == 1: return d
        if isc(d): return d // b.es
        # a multiplication by four is undone syntactically where possible
        x = div4(d)
        return x if x is not None else norm(z3.simplify(d >> 2))
    def setbuf(b, E, st, arr, bs, off, avail):
        """point the buffer at the array object (None: no memory)"""
        if arr is None:
            st.setc(b.oid, b.o_start[0], 8, NULL); st.setc(b.oid, b.o_read[0], 8, NULL)
        else:
            st.setc(b.oid, b.o_start[0], 8, P(arr, 0)); st.setc(b.oid, b.o_read[0], 8, P(arr, simp(mul(off, b.es))))
        st.setc(b.oid, b.o_size[0], 4, bs); st.setc(b.oid, b.o_avail[0], 4, avail)
    def make_buf(b, E, st, null):
        bs = fresh('bufsize', 32) if not null else 0
        avail = fresh('avail', 32) if not null else 0
        off = fresh('off', 64) if not null else 0
        arr = None
        if not null:
            a = E.new_arr(st, simp(mul(sext(bs, 32, 64), b.es)), 'stream buffer', b.es); a.heap = 'malloc'
            arr = a.id
            st.assume(b_and(sle(0, off), sle(off, 1 << 31)))
        b.setbuf(E, st, arr, bs, off, avail)
        E.watch += [('buffer size', bs), ('avail', avail), ('offset', off)]
    def rep(b, E, st):
        """representation invariant, without the content"""
        p, q = b.g(st, b.o_start), b.g(st, b.o_read)
        bs, avail = b.g(st, b.o_size), b.g(st, b.o_avail)
        off = b.off_items(st)
        if off is None: return [False]
        r = [sle(0, off), sle(0, avail, 32), sle(0, bs, 32), sle(bs, BUFMAX, 32),
             sle(add(off, sext(avail, 32, 64)), sext(bs, 32, 64))]
        if p.o is None:
            r += [eq(bs, 0, 32), eq(avail, 0, 32), eq(p.f, 0), eq(q.f, 0)]
        else:
            o = st.obj(p.o)
            r += [sle(1, bs, 32), eq(p.f, 0), eq(o.size, mul(sext(bs, 32, 64), b.es)), o.alive, eq(sub(q.f, p.f), mul(off, b.es))]
        return r
def div4(d):
    """d / 4 when d is syntactically a multiple of four of a small value"""
    if not z3.is_bv(d): return None
    if d.decl().kind() == z3.Z3_OP_BMUL and z3.is_bv_value(d.arg(0)) and d.arg(0).as_long() == 4 and d.num_args() == 2: return d.arg(1)
    if d.decl().kind() == z3.Z3_OP_CONCAT and z3.is_bv_value(d.arg(d.num_args() - 1)) and d.arg(d.num_args() - 1).size() == 2 and d.arg(d.num_args() - 1).as_long() == 0:
        pass
    return None

def contract_makeSpace(T):
    """makeSpace(needed): afterwards at least the returned number of items fit
    behind the available data, which is unchanged; nothing in front of the read
    position appears that was not there"""
    def c(E, st, args, ins):
        this, needed = args
        b = SBuf(E, T, this.o, simp(this.f))
        for k, g_ in enumerate(b.rep(E, st)):
            E.oblig(st, g_, 'makeSpace: buffer is well formed (%d)' % k, ins)
        E.oblig(st, sle(needed, BIG, 32), 'makeSpace: request is below 2^29', ins)
        off = b.off_items(st); avail = b.g(st, b.o_avail); bs = b.g(st, b.o_size); a64 = sext(avail, 32, 64)
        p = b.g(st, b.o_start)
        fits = sle(sext(needed, 32, 64), sub(sub(sext(bs, 32, 64), off), a64))
        res = []
        a = st.clone(); a.assume(fits)
        if E.feasible(a, True):
            res.append((a, simp(trunc(sub(sub(sext(bs, 32, 64), off), a64), 32))))
        st.assume(b_not(fits))
        if E.feasible(st, True):
            es = b.es
            bs1 = fresh('bufsize', 32)
            st.assume(b_and(sle(0, bs1, 32), sle(bs, bs1, 32), sle(bs1, BUFMAX, 32), sle(1, bs1, 32), b_imp(eq(bs, 0, 32), eq(bs1, needed, 32)), sle(add(sext(needed, 32, 64), a64), sext(bs1, 32, 64))))
            o = E.new_arr(st, simp(mul(sext(bs1, 32, 64), es)), 'stream buffer', es); o.heap = 'malloc'
            if p.o is not None:
                oc = st.obj(p.o).content
                junk = fresh_fun('junk', 8 * es); w = 8 * es
                def g(j):
                    cc = simp(ult(j, a64))
                    if cc is True: return oc(simp(add(j, off)))
                    if cc is False: return junk(j)
                    return z3.If(cc, bv(oc(simp(add(j, off))), w), bv(junk(j), w))
                o.content = g
                st.own(p.o).alive = False
                st.mark('alive', p.o)
            b.setbuf(E, st, o.id, bs1, 0, avail)
            res.append((st, simp(sub(bs1, avail, 32))))
        return res
    c.label = 'StreamBuffer<%s>::makeSpace (contract proved separately)' % T
    return c
def sbuf_obj(E, st, T, null):
    o = E.raw_obj(st, 'Strigi::StreamBuffer<%s>' % T)
    b = SBuf(E, T, o)
    b.make_buf(E, st, null)
    for c in b.rep(E, st): st.assume(c)
    return b
for T in ('char', 'wchar_t'):
    for null in (False, True):
        def mk(T, null):
            cls = 'Strigi::StreamBuffer<%s>' % T
            suf = ' (empty buffer)' if null else ''
            @task(cls + '::makeSpace' + suf, 'stream', 'buffered', 'sbuf', fn=cls + '::makeSpace')
            def t(E):
                st = E.state(); b = sbuf_obj(E, st, T, null)
                needed = fresh('needed', 32); st.assume(sle(needed, BIG, 32)); E.watch += [('needed', needed)]
                off, avail, bs = b.off_items(st), b.g(st, b.o_avail), b.g(st, b.o_size)
                a64 = sext(avail, 32, 64)
                p = b.g(st, b.o_start)
                oc = st.obj(p.o).content if p.o is not None else None
                fits = sle(sext(needed, 32, 64), sub(sub(sext(bs, 32, 64), off), a64))
                k = fresh('k')
                for st2, r in E.callf(st, cls + '::makeSpace', [P(b.oid, 0), needed]):
                    for i, c in enumerate(b.rep(E, st2)): E.oblig(st2, c, 'makeSpace: buffer stays well formed (%d)' % i)
                    off2, avail2, bs2 = b.off_items(st2), b.g(st2, b.o_avail), b.g(st2, b.o_size)
                    p2 = b.g(st2, b.o_start)
                    E.oblig(st2, eq(avail2, avail, 32), 'makeSpace: the available amount is unchanged')
                    E.oblig(st2, b_and(sle(needed, r, 32), eq(sext(r, 32, 64), sub(sub(sext(bs2, 32, 64), off2), a64))), 'makeSpace: returns the room behind the data, at least what was needed')
                    E.oblig(st2, sle(bs, bs2, 32), 'makeSpace: never shrinks')
                    E.oblig(st2, b_imp(b_and(eq(bs, 0, 32), slt(0, needed, 32)), eq(bs2, needed, 32)), 'makeSpace: an empty buffer gets what is needed')
                    st3 = st2.clone(); st3.assume(fits)
                    if E.feasible(st3, True):
                        E.oblig(st3, p2.o == p.o and b_and(eq(off2, off), eq(bs2, bs, 32)), 'makeSpace: moves nothing when there is room')
                        if p.o is not None: E.oblig(st3, b_imp(b_and(sle(0, k), slt(k, sext(bs, 32, 64))), eq(st3.obj(p.o).content(k), oc(k), 8 * b.es)), 'makeSpace: changes nothing when there is room')
                    st2.assume(b_not(fits))
                    if E.feasible(st2, True):
                        E.oblig(st2, eq(off2, 0), 'makeSpace: moved data starts the buffer')
                        if oc is not None: E.oblig(st2, b_imp(b_and(sle(0, k), slt(k, a64)), eq(rd_elem(st2.obj(p2.o), 0, k, b.es), oc(simp(add(off, k))), 8 * b.es)), 'makeSpace: the available data is preserved')
            @task(cls + '::read' + suf, 'stream', 'buffered', 'sbuf', fn=cls + '::read')
            def t(E):
                st = E.state(); b = sbuf_obj(E, st, T, null)
                mx = fresh('max', 32); E.watch += [('max', mx)]
                out = st.new('struct', 8, 'start'); st.setc(out.id, 0, 8, U)
                off, avail, bs = b.off_items(st), b.g(st, b.o_avail), b.g(st, b.o_size)
                q = b.g(st, b.o_read)
                for st2, r in E.callf(st, cls + '::read', [P(b.oid, 0), P(out.id, 0), mx]):
                    for i, c in enumerate(b.rep(E, st2)): E.oblig(st2, c, 'buffer read: buffer stays well formed (%d)' % i)
                    E.oblig(st2, b_imp(b_and(slt(0, mx, 32), sle(mx, avail, 32)), eq(r, mx, 32)), 'buffer read: gives max items when there are that many')
                    E.oblig(st2, b_imp(b_or(sle(mx, 0, 32), slt(avail, mx, 32)), eq(r, avail, 32)), 'buffer read: else gives all')
                    E.oblig(st2, b_and(eq(b.g(st2, b.o_avail), sub(avail, r, 32), 32), eq(b.off_items(st2), add(off, sext(r, 32, 64)))), 'buffer read: consumes what it gives')
                    p2 = st2.getc(out.id, 0, 8)
                    E.oblig(st2, isinstance(p2, P) and p2.o == q.o and eq(p2.f, q.f), 'buffer read: points at the read position')
        mk(T, null)

# ------------------------------------------------------------------ BufferedStream over an arbitrary source
class BufObj(SBuf):
    """class invariant of BufferedStream<T> / SkippingBufferedStream<T>:
    buffer[i] is the stream item at position pos - offset + i"""
    def __init__(b, E, T, cls=None, base=0, D=None, L=None, tmpl='BufferedStream'):
        b.E = E; b.T = T; b.es = 4 if T == 'wchar_t' else 1
        b.tcls = 'Strigi::%s<%s>' % (tmpl, T)
        b.cls = cls or b.tcls
        b.D = D or fresh_fun('D', 8 * b.es); b.L = L if L is not None else fresh('L')
        bo, _ = field(E.prog, b.tcls, 'buffer')
        SBuf.__init__(b, E, T, None, bo)
        b.o_fin = field(E.prog, b.tcls, 'finishedWritingToBuffer')
    def make(b, E, st, null=False, status=None, fresh_obj=None):
        """arbitrary object satisfying the invariant"""
        pos, size = fresh('pos'), fresh('size')
        status = fresh('status', 32) if status is None else status
        b.oid = fresh_obj if fresh_obj is not None else E.new_stream(st, b.cls, size, pos, status)
        b.make_buf(E, st, null)
        fin = fresh('finished', 8)
        st.setc(b.oid, b.o_fin[0], 1, fin)
        st.assume(ule(fin, 1, 8))
        st.assume(b_and(sle(0, b.L), sle(b.L, 1 << 56)))
        b.content(E, st)
        for c in b.scalars(E, st): st.assume(c)
        E.watch += [('pos', pos), ('size', size), ('L', b.L)]
        return b.oid
    def content(b, E, st):
        p = b.g(st, b.o_start)
        if p.o is None: return
        off = b.off_items(st); avail = sext(b.g(st, b.o_avail), 32, 64)
        pos = st.getc(b.oid, E.lay.pos, 8)
        junk = fresh_fun('junk', 8 * b.es)
        lim = simp(add(off, avail)); base = simp(sub(pos, off)); D = b.D; w = 8 * b.es
        def g(j):
            c = simp(ult(j, lim))
            if c is True: return D(simp(add(base, j)))
            if c is False: return junk(j)
            return z3.If(c, bv(D(simp(add(base, j))), w), bv(junk(j), w))
        st.own(p.o).content = g
    def scalars(b, E, st):
        """scalar part of the invariant"""
        l = E.lay
        avail, fin = b.g(st, b.o_avail), b.g(st, b.o_fin)
        pos, size, status = st.getc(b.oid, l.pos, 8), st.getc(b.oid, l.size, 8), st.getc(b.oid, l.status, 4)
        off = b.off_items(st)
        if off is None: return [False]
        W = add(pos, sext(avail, 32, 64))
        return b.rep(E, st) + [sle(off, pos), sle(0, pos), sle(pos, b.L),
             sle(W, b.L), ule(status, 2, 32), b_or(eq(size, M1), eq(size, b.L)), ule(fin, 1, 8),
             b_imp(b_and(eq(fin, 1, 8), ne(status, ERR, 32)), eq(W, b.L)),
             b_imp(eq(status, EOFS, 32), b_and(eq(size, pos), eq(pos, b.L), eq(fin, 1, 8), eq(avail, 0, 32)))]
    # loop hook interface
    def relevant(b, c): return any(m[1] == b.oid for m in c.mod if m[0] in ('c',))
    def assume(b, E, st):
        b.content(E, st)
        for c in b.scalars(E, st): st.assume(c)
        for c in b.ghosts(E, st): st.assume(c)
    def ghosts(b, E, st):
        if 'fillret' not in st.ghost: return []
        l = E.lay
        W = add(st.getc(b.oid, l.pos, 8), sext(b.g(st, b.o_avail), 32, 64))
        status = st.getc(b.oid, l.status, 4)
        return [b_imp(slt(st.ghost['fillret'], 0, 32), b_or(eq(W, b.L), eq(status, ERR, 32))), sle(neg(1, 32), st.ghost['fillret'], 32),
                b_imp(eq(status, ERR, 32), st.ghost['failed'])]
    def goals(b, E, st):
        r = list(b.scalars(E, st)) + b.ghosts(E, st)
        p = b.g(st, b.o_start)
        if p.o is not None:
            r.append(lambda st2: b.content_goal(E, st2))
        return r
    def content_goal(b, E, st):
        p = b.g(st, b.o_start)
        off = b.off_items(st); avail = sext(b.g(st, b.o_avail), 32, 64); pos = st.getc(b.oid, E.lay.pos, 8)
        k = fresh('k')
        return b_imp(b_and(sle(0, k), slt(k, add(off, avail))),
                     eq(rd_elem(st.obj(p.o), 0, k, b.es), b.D(simp(add(sub(pos, off), k))), 8 * b.es))
    def check_inv(b, E, st, goal='class invariant: '):
        # an errored stream delivers nothing any more
        st = st.clone()
        status = st.getc(b.oid, E.lay.status, 4)
        st.assume(ne(status, ERR, 32))
        if not E.feasible(st, True): return
        for k, c in enumerate(b.scalars(E, st)):
            E.oblig(st, c, goal + 'buffer bookkeeping (%d)' % k)
        p = b.g(st, b.o_start)
        if p.o is not None: E.oblig(st, b.content_goal(E, st), goal + 'the buffer holds the stream data around the position')

class FillModel:
    """virtual table of a BufferedStream whose fillBuffer is arbitrary but keeps
    the documented contract; read/skip/reset are the real ones"""
    label = 'fillBuffer contract'
    def __init__(m, b, slots): m.b = b; m.slots = slots; m.tcls = b.tcls
    def vcall(m, s, st, slot, args, ins):
        n = m.slots.get(slot)
        if n == 'fillBuffer': return m.fill(s, st, args, ins)
        if n == 'read' and m.by_contract: return m.c_read(s, st, args, ins)
        if n in ('read', 'skip', 'reset'):
            return s.inline(st, s.fun(m.tcls + '::' + n), args, ins)
        raise Unsupported('virtual call ' + str(n))
    by_contract = False
    def c_read(m, s, st, args, ins):
        """read on the same object, by its contract (proved by the read tasks)"""
        b = m.b; l = s.lay
        this, out, mn, mx = args
        s.stats.trusted['BufferedStream<%s>::read (contract proved separately)' % b.T] = 1
        for k, c in enumerate(b.scalars(s, st)): s.oblig(st, c, 'read: class invariant holds before the call (%d)' % k, ins)
        if b.g(st, b.o_start).o is not None: s.oblig(st, b.content_goal(s, st), 'read: buffer content before the call', ins)
        s.oblig(st, b_and(sle(1, mn, 32), sle(mn, BIG, 32)), 'read: minimum between 1 and 2^29', ins)
        pos, size, status = st.getc(b.oid, l.pos, 8), st.getc(b.oid, l.size, 8), st.getc(b.oid, l.status, 4)
        p = b.g(st, b.o_start)
        res = []
        wasempty = eq(b.g(st, b.o_size), 0, 32)
        def havoc(a, pos1, size1, status1, null=False):
            if p.o is not None:
                a.own(p.o).alive = False; a.mark('alive', p.o)
            a.setc(b.oid, l.pos, 8, pos1); a.setc(b.oid, l.size, 8, size1); a.setc(b.oid, l.status, 4, status1)
            b.make_buf(s, a, null)
            a.setc(b.oid, b.o_fin[0], 1, fresh('finished', 8))
            b.content(s, a)
            for c in b.scalars(s, a): a.assume(c)
        # error
        for null in ((False, True) if p.o is None else (False,)):
            e = st.clone()
            havoc(e, simp(fresh('pos')), size, ERR, null)
            sets(s, e, P(b.oid, l.err), fresh('el'), fresh_fun('err'))
            if m.track: s.setg(e, b.oid, 'failed', True, 1)
            s.store(e, out, U, 'ptr', ins)
            if s.feasible(e, True): res.append((e, neg(2, 32)))
        st.assume(ne(status, ERR, 32))
        a = st.clone()
        a.assume(b_or(eq(status, EOFS, 32), eq(pos, b.L)))
        for null in ((False, True) if p.o is None else (False,)):
            a2 = a.clone()
            if s.feasible(a2, True):
                havoc(a2, pos, pos, EOFS, null)
                s.store(a2, out, U, 'ptr', ins)
                res.append((a2, neg(1, 32)))
        st.assume(b_and(eq(status, OK, 32), slt(pos, b.L)))
        if s.feasible(st, True):
            n = fresh('nread', 32); n64 = sext(n, 32, 64)
            pos1 = simp(add(pos, n64)); status1 = fresh('status', 32); size1 = fresh('size')
            st.assume(b_and(sle(1, n, 32), sle(pos1, b.L), b_imp(sle(mn, mx, 32), sle(n, mx, 32)), b_imp(eq(b.g(st, b.o_size), 0, 32), sle(n, mn, 32)),
                            ule(status1, 1, 32), b_imp(slt(n, mn, 32), eq(status1, EOFS, 32)),
                            b_or(eq(size1, size), b_and(eq(status1, EOFS, 32), eq(size1, pos1)))))
            havoc(st, pos1, size1, status1)
            q = b.g(st, b.o_read)
            off = b.off_items(st)
            st.assume(sle(n64, off))
            s.store(st, out, P(q.o, simp(sub(q.f, mul(n64, b.es)))), 'ptr', ins)
            res.append((st, n))
        return res
    track = True
    def fill(m, s, st, args, ins):
        b = m.b
        this, start, space = args
        s.stats.trusted['BufferedStream::fillBuffer (interface contract)'] = 1
        s.oblig(st, sle(1, space, 32), 'fillBuffer: room for at least one item', ins)
        s64 = sext(space, 32, 64)
        s.check_access(st, start, simp(mul(s64, b.es)), 'fillBuffer target', ins, write=True)
        l = s.lay
        pos, avail = st.getc(b.oid, l.pos, 8), b.g(st, b.o_avail)
        W = simp(add(pos, sext(avail, 32, 64)))
        res = []
        a = st.clone(); a.assume(eq(W, b.L))
        s.setg(a, b.oid, 'fillret', neg(1, 32), 32)
        if s.feasible(a, True): res.append((a, neg(1, 32)))
        e = st.clone()
        e.setc(b.oid, l.status, 4, ERR)
        sets(s, e, P(b.oid, l.err), fresh('el'), fresh_fun('err'))
        s.setg(e, b.oid, 'failed', True, 1)
        s.setg(e, b.oid, 'fillret', neg(1, 32), 32)
        res.append((e, neg(1, 32)))
        n = fresh('filled', 32)
        n64 = sext(n, 32, 64)
        st.assume(b_and(sle(0, n, 32), sle(n, space, 32), sle(n64, sub(b.L, W))))
        o = st.own(start.o)
        junk = fresh_fun('scribble', 8 * b.es)
        D = b.D; old = o.content
        e0 = start.f if b.es == 1 else norm(z3.simplify(z3.LShR(bv(start.f, 64), 2)))
        w = 8 * b.es
        def g(j):
            d = simp(sub(j, e0))
            r = z3.If(ult(d, n64), bv(D(simp(add(W, d))), w), bv(junk(j), w))
            c = simp(ult(d, s64))
            if c is True: return r
            if c is False: return old(j)
            return z3.If(c, r, bv(old(j), w))
        o.content = g
        st.mark('a', start.o)
        s.setg(st, b.oid, 'fillret', n, 32)
        res.append((st, n))
        return res

def buf_setup(E, T, null, tmpl='BufferedStream', by_contract=False):
    st = E.state()
    b = BufObj(E, T, tmpl=tmpl)
    b.make(E, st, null)
    vt = st.new('vt', 1 << 20, 'vtable')
    cands = {'char': '_ZTVN6Strigi15FileInputStreamE', 'wchar_t': '_ZTVN6Strigi17InputStreamReaderE'}
    vt.model = FillModel(b, slots_of(E.prog, cands[T]))
    vt.model.by_contract = by_contract
    st.setc(b.oid, 0, 8, P(vt.id, 0))
    E.inv_hooks.append(b)
    E.contracts['Strigi::StreamBuffer<%s>::makeSpace' % T] = contract_makeSpace(T)
    I = Impl(E, b.oid, b.D, b.L, es=b.es, can_fail=True)
    E.setg(st, b.oid, 'failed', eq(st.getc(b.oid, E.lay.status, 4), ERR, 32), 1)
    E.setg(st, b.oid, 'fillret', 0, 32)
    I.cause = lambda st: st.ghost['failed']
    I.cause_skip = I.cause
    return st, b, I

for T in ('char', 'wchar_t'):
    for null in (False, True):
        def mk(T, null):
            cls = 'Strigi::BufferedStream<%s>' % T
            suf = ' (empty buffer)' if null else ''
            @task(cls + '::read' + suf, 'stream', 'buffered', fn=cls + '::read', big=100, thorough=(T == 'wchar_t' and not null))
            def t(E):
                st, b, I = buf_setup(E, T, null)
                mn, mx, out = reqs(E, st, big=BIG); pre = I.snap(st)
                bs = b.g(st, b.o_size)
                for st2, r in E.callf(st, cls + '::read', [P(I.oid, 0), out, mn, mx]):
                    E.oblig(st2, b_imp(eq(bs, 0, 32), sle(r, mn, 32)), 'read: an unallocated buffer delivers at most the minimum')
                    check_read(E, I, st2, r, out, pre, mn, mx); b.check_inv(E, st2)
            @task(cls + '::reset' + suf, 'stream', 'buffered', fn=cls + '::reset', big=20)
            def t(E):
                st, b, I = buf_setup(E, T, null); pre = I.snap(st)
                p = fresh('p'); E.watch += [('target', p)]; st.assume(b_and(sle(0, p), sle(p, 1 << 57)))
                off = b.off_items(st)
                seg = (sub(pre.pos, off), add(pre.pos, sext(b.g(st, b.o_avail), 32, 64)), b.g(st, b.o_start).o)
                for st2, r in E.callf(st, cls + '::reset', [P(I.oid, 0), p]):
                    check_reset(E, I, st2, r, p, pre, seg); b.check_inv(E, st2)
            @task(cls + '::skip' + suf, 'stream', 'buffered', fn=cls + '::skip', big=50)
            def t(E):
                st, b, I = buf_setup(E, T, null, by_contract=True); pre = I.snap(st)
                k = fresh('n'); E.watch += [('n', k)]; st.assume(b_and(sle(0, k), sle(k, 1 << 57)))
                for err in (True, False):
                    a = st.clone(); a.assume(eq(eq(pre.status, ERR, 32), err, 1) if False else (eq(pre.status, ERR, 32) if err else ne(pre.status, ERR, 32)))
                    for st2, r in E.callf(a, cls + '::skip', [P(I.oid, 0), k]):
                        check_skip(E, I, st2, r, k, pre); b.check_inv(E, st2)
        mk(T, null)
