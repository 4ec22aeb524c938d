"""The contract of StreamBase<T> (read / skip / reset), used in two directions:
assumed for an abstract input stream, and proved for every implementation."""
import z3
from sym import *
import sym
from models import *
from execu import short

OK, EOFS, ERR = 0, 1, 2
M32 = mask(32)
def neg(k, w=64): return (-k) & mask(w)

class Layout:
    def __init__(s, prog):
        c = prog['classes']['Strigi::StreamBaseBase']
        s.off = {m['name']: m['off'] for m in c['members'] if 'name' in m}
        s.size, s.pos, s.err, s.status = s.off['m_size'], s.off['m_position'], s.off['m_error'], s.off['m_status']
        s.total = c['size']
        s.prog = prog
        s.slots = slots_of(prog, '_ZTVN6Strigi14SubInputStreamE')
def slots_of(prog, vt):
    """slot index -> method name, from the real virtual table"""
    g = prog['globals'].get(vt)
    out = {}
    if g is None: return out
    for c in g.get('init') or []:
        if c[1] == 'val' and c[4][0] == 'g':
            f = prog['functions'].get(c[4][1])
            if f: 
                nm = short(f['dem']).split('::')[-1]
                out[c[0] // 8 - 2] = nm
    return out

def field(prog, cls, name):
    """byte offset and size of a member, searching the base classes"""
    c = prog['classes'].get(cls)
    if c is None: raise Unsupported('no class ' + cls)
    for m in c['members']:
        if m.get('name') == name: return m['off'], m['size']
    for m in c['members']:
        if 'base' in m:
            for q in (m['base'], 'Strigi::' + m['base']):
                if q in prog['classes']:
                    try:
                        o, n = field(prog, q, name)
                        return o + m['off'], n
                    except Unsupported: pass
    raise Unsupported('class %s has no member %s' % (cls, name))

class View:
    """observable state of a stream"""
    __slots__ = ('size', 'pos', 'status', 'D', 'L', 'short', 'seg')

class AbsStream:
    """model of an arbitrary input stream: delivers D[0..L)"""
    label = 'StreamBase contract'
    def __init__(m, lay, name='input', es=1, may_fail=True, extra_vcalls=None):
        m.lay = lay; m.name = name; m.es = es; m.may_fail = may_fail
        m.D = fresh_fun('D_' + name, 8 * es); m.L = fresh('L_' + name)
        m.extra = extra_vcalls or {}
        m.reads = 0
        m.slots = lay.slots
        m.recovers = True
        m.minzero = False
    def make(m, s, st, at_zero=False, owned=False):
        l = m.lay
        o = st.new('struct', l.total, 'stream ' + m.name)
        if owned: o.heap = 'new'
        o.model = m
        vt = st.new('vt', 1 << 20, 'vtable'); vt.model = m
        o.ghost = {'seg': None, 's0': 0, 's1': 0}
        st.setc(o.id, 0, 8, P(vt.id, 0))
        m.short = fresh_bool('short_' + m.name)
        m.fill(s, st, o.id)
        if at_zero: st.assume(eq(m.get(st, o.id, 'pos'), 0))
        m.oid = o.id
        return o.id
    def fill(m, s, st, oid):
        l = m.lay
        size = fresh('size_' + m.name); pos = fresh('pos_' + m.name); status = fresh('status_' + m.name, 32)
        st.setc(oid, l.size, 8, size); st.setc(oid, l.pos, 8, pos); st.setc(oid, l.status, 4, status)
        n = fresh('errlen'); st.assume(b_and(sle(0, n), sle(n, LIM)))
        st.setc(oid, l.err, 32, Str(n, fresh_fun('errmsg')))
        o = st.own(oid)
        s0, s1 = fresh('seg0'), fresh('seg1')
        seg = st.new('arr', simp(mul(s1 - s0, m.es)), 'data read from ' + m.name, m.es)
        D = m.D
        seg.content = lambda i: D(simp(add(s0, i)))
        seg.ro = True
        o.ghost = {'seg': seg.id, 's0': s0, 's1': s1}
        st.assume(b_and(sle(0, s0), sle(s0, pos), sle(pos, s1), sle(s1, m.L)))
        st.assume(m.inv(st, oid))
    def get(m, st, oid, k):
        l = m.lay
        if k == 'size': return st.getc(oid, l.size, 8)
        if k == 'pos': return st.getc(oid, l.pos, 8)
        if k == 'status': return st.getc(oid, l.status, 4)
    def inv(m, st, oid):
        size, pos, status = (m.get(st, oid, k) for k in ('size', 'pos', 'status'))
        L = m.L
        return b_and(sle(0, pos), sle(pos, L), sle(L, 1 << 56), ule(status, 2, 32),
                     sle(M1, size), sle(size, 1 << 57),
                     b_imp(ne(size, M1), b_and(b_imp(b_not(m.short), eq(size, L)), b_imp(m.short, slt(L, size)))),
                     b_imp(eq(status, EOFS, 32), b_and(eq(size, pos), eq(pos, L), b_not(m.short))))
    # ---- loops
    def loop_havoc(m, s, st, oid): m.fill(s, st, oid)
    def loop_dims(m): return [('pos', 64), ('size', 64), ('status', 32), ('s0', 64), ('s1', 64)]
    def loop_get(m, st, oid, nm):
        if nm in ('s0', 's1'): return st.obj(oid).ghost[nm]
        return m.get(st, oid, nm)
    def seg_of(m, st, oid): return st.obj(oid).ghost['seg']
    # ---- virtual calls
    def vcall(m, s, st, slot, args, ins):
        name = m.slots.get(slot)
        fn = getattr(m, 'v_' + str(name).replace('~', 'dtor_'), None)
        if name and name.startswith('~'): fn = m.v_dtor
        if name in m.extra: fn = m.extra[name]
        if fn is None: raise Unsupported('virtual call slot %s (%s)' % (slot, name))
        oid = args[0].o
        o = st.obj(oid)
        if o.alive is not True: s.oblig(st, o.alive, 'call on a live stream object (%s)' % m.name, ins)
        if not isc(args[0].f) or args[0].f != 0: raise Unsupported('stream base offset')
        s.stats.trusted['StreamBase<T>::%s (interface contract of %s)' % (name, 'the wrapped stream')] = 1
        return fn(s, st, oid, args, ins)
    def v_dtor(m, s, st, oid, args, ins):
        m.kill_seg(st, oid)
        do_free(s, st, P(oid, 0), ins, 'new')
        return [(st, None)]
    def kill_seg(m, st, oid):
        g = st.obj(oid).ghost
        if g['seg'] is not None and st.obj(g['seg']).alive is not False:
            st.own(g['seg']).alive = False
            st.mark('alive', g['seg'])
    def on_free(m, s, st, oid, ins): m.kill_seg(st, oid)
    def set(m, st, oid, size=None, pos=None, status=None):
        l = m.lay
        if size is not None: st.setc(oid, l.size, 8, size)
        if pos is not None: st.setc(oid, l.pos, 8, pos)
        if status is not None: st.setc(oid, l.status, 4, status)
    def set_error(m, s, st, oid):
        m.set(st, oid, status=ERR)
        n = fresh('errlen'); st.assume(b_and(sle(0, n), sle(n, LIM)))
        p = P(oid, m.lay.err)
        sets(s, st, p, n, fresh_fun('errmsg'))
    def new_seg(m, st, oid, s0, n):
        D = m.D
        seg = st.new('arr', simp(mul(n, m.es)), 'data read from ' + m.name, m.es)
        seg.content = lambda i: D(simp(add(s0, i)))
        seg.ro = True
        o = st.own(oid)
        o.ghost = {'seg': seg.id, 's0': s0, 's1': simp(add(s0, n))}
        st.mark('c', oid, m.lay.pos, 8)
        return seg.id
    def v_read(m, s, st, oid, args, ins):
        _, out, mn, mx = args
        size, pos, status = (m.get(st, oid, k) for k in ('size', 'pos', 'status'))
        if not m.minzero:
            s.oblig(st, sle(1, mn, 32), 'requested minimum is at least 1', ins)
        res = []
        L = m.L
        # outcome 1: end of stream
        a = st.clone()
        a.assume(b_or(eq(status, EOFS, 32), b_and(eq(status, OK, 32), eq(pos, L), b_not(m.short))))
        if s.feasible(a, True):
            m.kill_seg(a, oid)
            m.set(a, oid, status=EOFS, size=pos)
            s.store(a, out, U, 'ptr', ins)
            res.append((a, neg(1, 32)))
        # outcome 2: error
        b = st.clone()
        if m.may_fail: b.assume(ne(status, EOFS, 32))
        else: b.assume(b_or(eq(status, ERR, 32), b_and(m.short, eq(pos, L))))
        if s.feasible(b, True):
            m.kill_seg(b, oid)
            m.set_error(s, b, oid)
            s.store(b, out, U, 'ptr', ins)
            res.append((b, neg(2, 32)))
        # outcome 3: data
        st.assume(eq(status, OK, 32)); st.assume(slt(pos, L))
        if s.feasible(st, True):
            n = fresh('nread', 32)
            n64 = sext(n, 32, 64)
            pos1 = simp(add(pos, n64))
            st.assume(b_and(sle(1, n, 32), sle(n64, sub(L, pos)), b_imp(sle(mn, mx, 32), sle(n, mx, 32))))
            status1 = fresh('status_' + m.name, 32); size1 = fresh('size_' + m.name)
            st.assume(b_or(eq(status1, OK, 32), b_and(eq(status1, EOFS, 32), eq(pos1, L), b_not(m.short))))
            st.assume(b_imp(slt(n, mn, 32), eq(status1, EOFS, 32)))
            st.assume(b_or(b_and(eq(size1, size), b_imp(eq(status1, EOFS, 32), eq(size1, pos1))),
                           b_and(eq(status1, EOFS, 32), eq(size1, pos1))))
            m.kill_seg(st, oid)
            seg = m.new_seg(st, oid, pos, n64)
            m.set(st, oid, size=size1, pos=pos1, status=status1)
            s.store(st, out, P(seg, 0), 'ptr', ins)
            m.after_read(s, st, oid, n, ins)
            res.append((st, n))
        return res
    def after_read(m, s, st, oid, n, ins): pass
    def v_reset(m, s, st, oid, args, ins):
        p = args[1]
        size, pos, status = (m.get(st, oid, k) for k in ('size', 'pos', 'status'))
        s.oblig(st, sle(0, p), 'reset position is not negative', ins)
        g = st.obj(oid).ghost
        alive = g['seg'] is not None and st.obj(g['seg']).alive is True
        res = []
        b = st.clone()
        # an error, except for a position inside the segment of a healthy stream
        inseg = b_and(sle(g['s0'], p), sle(p, g['s1']), ne(status, ERR, 32)) if alive else False
        b.assume(b_not(inseg))
        b.assume(b_or(eq(status, ERR, 32), m.may_fail and True or False))
        if s.feasible(b, True):
            m.kill_seg(b, oid); m.set_error(s, b, oid)
            res.append((b, neg(2)))
        # a stream in the error state may come back to life here
        if not m.recovers: st.assume(ne(status, ERR, 32))
        c = st.clone() if alive else None
        if alive:
            c.assume(inseg)
            if s.feasible(c, True):
                m.land(s, c, oid, p, size)
                res.append((c, p))
            st.assume(b_not(inseg))
        if s.feasible(st, True):
            q = fresh('resetpos')
            st.assume(b_and(sle(0, q), sle(q, m.L), b_or(sle(q, p), sle(q, pos), eq(status, ERR, 32))))
            m.kill_seg(st, oid)
            m.land(s, st, oid, q, size)
            res.append((st, q))
        return res
    def land(m, s, st, oid, q, size):
        status1 = fresh('status_' + m.name, 32)
        size1 = fresh('size_' + m.name)
        st.assume(b_or(b_and(eq(status1, OK, 32), eq(size1, size)), b_and(eq(status1, EOFS, 32), eq(q, m.L), b_not(m.short), eq(size1, q))))
        m.set(st, oid, pos=q, status=status1, size=size1)
    def v_skip(m, s, st, oid, args, ins):
        k = args[1]
        size, pos, status = (m.get(st, oid, x) for x in ('size', 'pos', 'status'))
        s.oblig(st, sle(0, k), 'skip count is not negative', ins)
        L = m.L
        res = []
        b = st.clone()
        # error: earlier error, a failure, or the data is short
        b.assume(b_and(ne(status, EOFS, 32), b_or(eq(status, ERR, 32), b_and(m.may_fail, slt(0, k)), b_and(m.short, slt(sub(L, pos), k)))))
        if s.feasible(b, True):
            m.kill_seg(b, oid); m.set_error(s, b, oid)
            # a partial count or a negative value
            r = fresh('skipret'); b.assume(b_and(b_or(slt(r, k), eq(k, 0)), sle(neg(2), r), sle(r, k)))
            # the position after a failed skip is only known to be inside the stream
            pp = fresh('errpos'); b.assume(b_and(sle(pos, pp), sle(pp, L)))
            m.set(b, oid, pos=pp)
            res.append((b, r))
        st.assume(ne(status, ERR, 32))
        left = sub(L, pos)
        # all of it
        a = st.clone()
        a.assume(b_and(sle(k, left)))
        if s.feasible(a, True):
            r = fresh('skipped')
            # at the very end some streams report -1 for "nothing skipped"
            a.assume(b_or(eq(r, k), b_and(eq(left, 0), eq(r, M1))))
            m.kill_seg(a, oid)
            m.land(s, a, oid, simp(add(pos, k)), size)
            res.append((a, r))
        # short: the end was met
        st.assume(b_and(slt(left, k), b_not(m.short)))
        if s.feasible(st, True):
            r = fresh('skipped')
            st.assume(b_or(eq(r, left), b_and(eq(left, 0), eq(r, M1))))
            m.kill_seg(st, oid)
            m.set(st, oid, pos=L, size=L, status=EOFS)
            res.append((st, r))
        return res

# ------------------------------------------------------------------ proving an implementation
class Impl:
    """what the contract talks about for one implementation object"""
    def __init__(i, E, oid, D, L, short=False, es=1, can_fail=True, random=False, name=''):
        i.E = E; i.oid = oid; i.D = D; i.L = L; i.short = short; i.es = es
        i.can_fail = can_fail; i.random = random; i.name = name
    def snap(i, st):
        v = View(); l = i.E.lay
        v.size = st.getc(i.oid, l.size, 8); v.pos = st.getc(i.oid, l.pos, 8); v.status = st.getc(i.oid, l.status, 4)
        return v

def g(E, st, c, goal, tag):
    """a contract goal with an aspect tag"""
    if E.assuming:
        st.assume(c); return
    if E.want is not None and tag not in E.want:
        return
    E.oblig(st, c, '%s {%s}' % (goal, tag))

def state_ok(E, st, I, v, goal):
    """properties of the observable state that hold between calls"""
    st_ = v.status
    g(E, st, ule(st_, 2, 32), goal + 'status is one of the three values', 'state')
    g(E, st, b_imp(ne(st_, ERR, 32), b_and(sle(0, v.pos), sle(v.pos, I.L))), goal + 'position lies inside the stream', 'state')
    g(E, st, b_imp(eq(st_, EOFS, 32), b_and(eq(v.size, v.pos), eq(v.pos, I.L), b_not(I.short))), goal + 'at the end the size is known and equals the position', 'eof')
    g(E, st, b_imp(b_and(ne(v.size, M1), ne(st_, ERR, 32)), b_or(I.short, eq(v.size, I.L))), goal + 'a known size is the real size', 'eof')

def check_read(E, I, st, ret, out, pre, mn, mx, goal='read: '):
    v = I.snap(st)
    n = ret
    n64 = sext(n, 32, 64)
    got = sle(1, n, 32)
    g(E, st, b_and(sle(neg(2, 32), n, 32), ne(n, 0, 32)), goal + 'returns a count, -1 or -2', 'count')
    g(E, st, b_imp(b_and(got, sle(mn, mx, 32)), sle(n, mx, 32)), goal + 'never more than the maximum', 'count')
    g(E, st, b_imp(b_and(got, slt(n, mn, 32)), eq(v.status, EOFS, 32)), goal + 'less than the minimum only at the end', 'count')
    g(E, st, b_imp(got, eq(v.pos, add(pre.pos, n64))), goal + 'position advances by the count', 'data')
    g(E, st, b_imp(got, ne(v.status, ERR, 32)), goal + 'data comes with a healthy status', 'error')
    g(E, st, b_imp(eq(n, neg(1, 32), 32), eq(v.status, EOFS, 32)), goal + '-1 means end of stream', 'eof')
    g(E, st, b_imp(eq(n, neg(1, 32), 32), eq(v.pos, pre.pos)), goal + 'end of stream does not move the position', 'eof')
    g(E, st, eq(eq(n, neg(2, 32), 32) if not isc(n) else n == neg(2, 32), eq(v.status, ERR, 32)) if False else b_and(b_imp(eq(n, neg(2, 32), 32), eq(v.status, ERR, 32)), b_imp(eq(v.status, ERR, 32), eq(n, neg(2, 32), 32))), goal + '-2 exactly when in error', 'error')
    g(E, st, b_imp(eq(pre.status, ERR, 32), eq(n, neg(2, 32), 32)), goal + 'an error is permanent', 'error')
    g(E, st, b_imp(eq(pre.status, EOFS, 32), eq(n, neg(1, 32), 32)), goal + 'nothing after the end', 'eof')
    g(E, st, b_imp(b_and(slt(pre.pos, I.L), ne(pre.status, ERR, 32), ne(n, neg(2, 32), 32)), got), goal + 'data is delivered while there is some', 'data')
    if not I.can_fail:
        g(E, st, b_imp(b_and(ne(pre.status, ERR, 32), b_not(I.short)), ne(n, neg(2, 32), 32)), goal + 'no error without a cause', 'error')
    if hasattr(I, 'cause'):
        g(E, st, b_imp(b_and(ne(pre.status, ERR, 32), eq(n, neg(2, 32), 32)), I.cause(st)), goal + 'an error is reported only for a cause', 'error')
    if E.assuming: state_ok(E, st, I, v, goal); return v
    # the data
    st2 = st.clone(); st2.assume(got)
    if E.feasible(st2, True):
        p = st2.getc(out.o, 0, 8)
        if not isinstance(p, P) or p.o is None:
            g(E, st2, False, goal + 'the data pointer is set', 'data')
        else:
            E.ghost_access(st2, p, mul(n64, I.es), goal + 'returned data is readable memory')
            k = fresh('k')
            st2.assume(b_and(sle(0, k), slt(k, n64)))
            o = st2.obj(p.o)
            x = rd_elem(o, p.f, k, I.es)
            E.watch = E.watch + [('k', k)]
            g(E, st2, eq(x, I.D(simp(add(pre.pos, k))), 8 * I.es), goal + 'the bytes are the stream\'s bytes at this position', 'data')
    state_ok(E, st, I, v, goal)
    return v
def rd_elem(o, off, k, es):
    if o.es == es:
        return o.content(simp(add(udiv_c(off, es), k)))
    if o.es == 1: return arr_read(o, simp(add(off, mul(k, es))), es)
    raise Unsupported('element size')

def check_reset(E, I, st, ret, p, pre, seg=None, goal='reset: '):
    v = I.snap(st)
    fail = eq(v.status, ERR, 32)
    if not getattr(I, 'recovers', False): g(E, st, b_imp(eq(pre.status, ERR, 32), fail), goal + 'an error is permanent', 'error')
    g(E, st, b_imp(fail, slt(ret, 0)), goal + 'failure is reported', 'reset')
    g(E, st, b_imp(b_not(b_or(fail, eq(pre.status, ERR, 32))), b_or(sle(v.pos, p), sle(v.pos, pre.pos))), goal + 'never beyond the position asked for, unless it is there already', 'reset')
    g(E, st, b_imp(b_not(fail), b_and(eq(ret, v.pos), sle(0, ret), sle(ret, I.L))), goal + 'returns the position it is at', 'reset')
    g(E, st, b_imp(b_and(b_not(fail), slt(v.pos, I.L)), eq(v.status, OK, 32)), goal + 'reading can go on from there', 'reset')
    if I.random:
        g(E, st, b_imp(b_and(ne(pre.status, ERR, 32), sle(0, p), sle(p, I.L)), eq(ret, p)), goal + 'any position inside the stream can be reached', 'reset')
    if seg is not None:
        s0, s1, oid = seg
        st2 = st.clone()
        st2.assume(b_and(ne(pre.status, ERR, 32), sle(s0, p), sle(p, s1)))
        if E.feasible(st2, True):
            g(E, st2, eq(ret, p), goal + 'a position inside the last data is always reached', 'reset')
            if oid is not None:
                o = st2.obj(oid)
                g(E, st2, o.alive if o.alive is not True else True, goal + 'the data pointer stays valid', 'reset')
    state_ok(E, st, I, v, goal)
    return v

def check_skip(E, I, st, ret, k, pre, goal='skip: '):
    v = I.snap(st)
    fail = eq(v.status, ERR, 32)
    left = sub(I.L, pre.pos)
    g(E, st, b_imp(fail, b_or(slt(ret, k), eq(k, 0))), goal + 'failure is visible in the result', 'skip')
    g(E, st, b_imp(eq(pre.status, ERR, 32), fail), goal + 'an error is permanent', 'error')
    okk = b_not(fail)
    g(E, st, b_imp(b_and(okk, sle(0, ret)), eq(v.pos, add(pre.pos, ret))), goal + 'position advances by the result', 'skip')
    g(E, st, b_imp(b_and(okk, slt(ret, 0)), b_and(eq(v.pos, pre.pos), eq(pre.pos, I.L))), goal + 'a negative result only at the end', 'skip')
    g(E, st, b_imp(okk, sle(ret, k)), goal + 'never skips more than asked', 'skip')
    g(E, st, b_imp(b_and(okk, sle(k, left), slt(0, left)), eq(ret, k)), goal + 'skips all that was asked when it is there', 'skip')
    g(E, st, b_imp(b_and(okk, slt(left, k), slt(0, left)), b_and(eq(ret, left), eq(v.status, EOFS, 32))), goal + 'stops at the end', 'skip')
    if hasattr(I, 'cause_skip'):
        g(E, st, b_imp(b_and(ne(pre.status, ERR, 32), fail), I.cause_skip(st)), goal + 'an error is reported only for a cause', 'error')
    if not I.can_fail:
        g(E, st, b_imp(b_and(ne(pre.status, ERR, 32), b_not(I.short)), okk), goal + 'no error without a cause', 'error')
    state_ok(E, st, I, v, goal)
    return v
