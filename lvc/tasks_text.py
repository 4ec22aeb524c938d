"""Contracts of the text and number helpers, the searcher and the format checks."""
import itertools
import z3
from sym import *
from streams import *
from task import *
from models import lib, LIB, cstr_lit
import models
from execu import tob

def byts(E, st, n, name='data', D=None, ro=True):
    """memory of exactly n bytes"""
    D = D or fresh_fun('D_' + name)
    o = E.new_arr(st, n, name, 1, D); o.ro = ro
    return P(o.id, 0), D
def len32(E, st, lo=0, hi=0x7fffffff, name='length'):
    n = fresh(name, 32); st.assume(b_and(sle(lo, n, 32), sle(n, hi, 32))); E.watch.append((name, n))
    return n, sext(n, 32, 64)

# ------------------------------------------------------------------ endian readers
for end in ('Little', 'Big'):
    for sg in ('Int', 'UInt'):
        for w in (16, 32, 64):
            for ch in ('char const*', 'unsigned char const*'):
                def mk(end, sg, w, ch):
                    nm = 'Strigi::read%sEndian%s%d' % (end, sg, w)
                    @task('%s(%s)' % (nm, ch), 'endian', fn=nm)
                    def t(E):
                        st = E.state()
                        p, D = byts(E, st, w // 8, 'the bytes')
                        bs = [bv(D(k), 8) for k in range(w // 8)]
                        want = z3.Concat(*(bs if end == 'Big' else bs[::-1]))
                        E.watch += [('byte %d' % k, b) for k, b in enumerate(bs)]
                        for st2, r in E.callf(st, '%s(%s)' % (nm, ch), [p]):
                            E.oblig(st2, eq(r, want, w), 'the value whose bytes are there')
                mk(end, sg, w, ch)

# ------------------------------------------------------------------ MS-DOS time
TM = dict(tm_sec=0, tm_min=4, tm_hour=8, tm_mday=12, tm_mon=16, tm_year=20, tm_wday=24, tm_yday=28, tm_isdst=32)
@lib('time')
def l_time(s, st, a, ins):
    t = fresh('now')
    if isinstance(a[0], P) and a[0].o is not None: s.store(st, a[0], t, 'i64', ins)
    return [(st, t)]
@lib('localtime', 'gmtime')
def l_localtime(s, st, a, ins):
    s.check_access(st, a[0], 8, 'load', ins)
    o = st.new('struct', 56, 'struct tm')
    for f, off in TM.items(): st.setc(o.id, off, 4, fresh(f, 32))
    st.setc(o.id, 40, 8, fresh('gmtoff')); st.setc(o.id, 48, 8, U)
    return [(st, P(o.id, 0))]
@lib('mktime', 'timelocal')
def l_mktime(s, st, a, ins):
    s.check_access(st, a[0], 56, 'load', ins)
    v = {f: st.getc(a[0].o, simp(add(a[0].f, off)), 4) for f, off in TM.items()}
    r = fresh('mktime')
    st.ghost['mktime'] = (v, r)
    return [(st, r)]
@task('dos2unixtime', 'dos')
def t(E):
    st = E.state()
    d = fresh('dostime'); E.watch.append(('dos time', d))
    f = lambda lo, n: zext(z3.Extract(lo + n - 1, lo, d), n, 32)
    yr, mo, dy, hr, mi, s2 = f(25, 7), f(21, 4), f(16, 5), f(11, 5), f(5, 6), f(0, 5)
    st.assume(b_and(eq(z3.Extract(63, 32, d), 0, 32), ule(1, mo, 32), ule(mo, 12, 32), ule(1, dy, 32), ule(dy, 31, 32), ule(hr, 23, 32), ule(mi, 59, 32), ule(s2, 29, 32)))
    for st2, r in E.callf(st, 'dos2unixtime', [d]):
        m = st2.ghost.get('mktime')
        if m is None: raise Unsupported('the calendar is not asked')
        v, res = m
        for nm, want in (('tm_year', add(yr, 80, 32)), ('tm_mon', sub(mo, 1, 32)), ('tm_mday', dy), ('tm_hour', hr), ('tm_min', mi), ('tm_sec', mul(s2, 2, 32))):
            E.oblig(st2, v[nm] is not U and eq(v[nm], want, 32), 'mktime is given the field %s of the date' % nm)
        E.oblig(st2, v['tm_isdst'] is not U and slt(v['tm_isdst'], 0, 32), 'mktime is asked to find out about daylight saving')
        E.oblig(st2, eq(r, res), 'the result is the local time of these fields')

# ------------------------------------------------------------------ automata over the text
class Auto:
    """ghost state of a reference automaton in front of every byte: S(0) = start,
    S(i+1) = delta(S(i), text(i)).  'axiom' candidates are instances of this definition."""
    def __init__(a, D, delta, start, w=8, name='S'):
        a.D = D; a.delta = delta; a.w = w
        a.S = fresh_fun(name, w); a.start = start
    def at(a, i): return bv(a.S(i), a.w)
    def step(a, i):
        """definition instance for byte i"""
        j = simp(add(i, 1))
        return b_and(a.at(j) == bv(a.delta(a.at(i), bv(a.D(i), 8)), a.w))
    def init(a): return a.at(0) == a.start
def intdims(ds, ws): return [(d, w) for d, w in ds if w in ws]
def S64(v, w): return sext(v, w, 64) if w < 64 else v
def locally(fn):
    def g(get):
        try: return fn(get)
        except (TypeError, AttributeError, z3.Z3Exception): return False
    return g

# UTF-8 (RFC 3629) text allowed in XML 1.0
ACC, C1, C2, C3, SE0, SED, SEF, SEFBF, SF0, SF4, REJ = range(11)
def between(c, lo, hi): return z3.And(z3.UGE(c, lo), z3.ULE(c, hi))
def utf8_delta(q, c):
    B = lambda k: z3.BitVecVal(k, 8)
    cont = between(c, 0x80, 0xBF)
    def case(l, d=REJ):
        r = B(d)
        for cond, v in reversed(l): r = z3.If(cond, B(v), r)
        return r
    tab = {
        ACC: case([(z3.Or(between(c, 0x20, 0x7F), c == 9, c == 10, c == 13), ACC), (between(c, 0xC2, 0xDF), C1), (c == 0xE0, SE0), (c == 0xED, SED), (c == 0xEF, SEF),
                   (between(c, 0xE1, 0xEE), C2), (c == 0xF0, SF0), (between(c, 0xF1, 0xF3), C3), (c == 0xF4, SF4)]),
        C1: case([(cont, ACC)]), C2: case([(cont, C1)]), C3: case([(cont, C2)]),
        SE0: case([(between(c, 0xA0, 0xBF), C1)]), SED: case([(between(c, 0x80, 0x9F), C1)]),
        SEF: case([(between(c, 0x80, 0xBE), C1), (c == 0xBF, SEFBF)]), SEFBF: case([(between(c, 0x80, 0xBD), ACC)]),
        SF0: case([(between(c, 0x90, 0xBF), C2)]), SF4: case([(between(c, 0x80, 0x8F), C2)]),
    }
    return case([(q == k, None) for k in ()]) if False else chain(q, tab, B(REJ))
def chain(q, tab, d):
    r = d
    for k, v in tab.items(): r = z3.If(q == k, v, r)
    return r
def utf8_missing(q):
    return chain(q, {C1: bv(1, 8), C2: bv(2, 8), C3: bv(3, 8), SE0: bv(2, 8), SED: bv(2, 8), SEF: bv(2, 8), SEFBF: bv(1, 8), SF0: bv(3, 8), SF4: bv(3, 8)}, bv(0, 8))
def utf8_rel(q, nb, nw, val, vw, mn, mw):
    """the automaton state that belongs to (bytes missing, value so far, least value)"""
    V = lambda k: bv(k, vw)
    k = lambda n, m: b_and(eq(nb, n, nw), eq(mn, m, mw))
    u = lambda x, y: z3.ULE(bv(x, vw), bv(y, vw))
    ch = lambda l, d: (lambda r: r)(_ch(l, d))
    def _ch(l, d):
        r = bv(d, 8)
        for c, v in reversed(l): r = z3.If(c, bv(v, 8), r)
        return r
    val = bv(val, vw)
    return b_or(
        b_and(eq(nb, 0, nw), q == ACC),
        b_and(k(1, 0x80), u(2, val), u(val, 31), q == C1),
        b_and(k(2, 0x800), u(val, 15), q == _ch([(val == 0, SE0), (val == 13, SED), (val == 15, SEF)], C2)),
        b_and(k(1, 0x800), u(val, 1023), q == _ch([(u(val, 0x1f), REJ), (z3.And(u(0x360, val), u(val, 0x37f)), REJ), (val == 0x3ff, SEFBF)], C1)),
        b_and(k(3, 0x10000), u(val, 4), q == _ch([(val == 0, SF0), (val == 4, SF4)], C3)),
        b_and(k(2, 0x10000), u(val, 5 * 64 - 1), q == _ch([(u(val, 0xf), REJ), (u(0x110, val), REJ)], C2)),
        b_and(k(1, 0x10000), u(val, 5 * 4096 - 1), q == _ch([(u(val, 0x3ff), REJ), (u(0x4400, val), REJ)], C1)))

def text_hook(E, A, rels, anyint=False):
    """candidates for loops that walk over the text: for every position-like value
    the relations between the automaton state there and the other scalars"""
    def hk(s, ctx, h, get0, ds):
        out = []
        for d, w in ds:
            if w not in (32, 64): continue
            try: e0 = get0(d)
            except Exception: e0 = None
            if not (d[0] == 'off' or anyint or (isc(e0) and e0 == 0)): continue
            idx = lambda get, d=d, w=w: S64(get(d), w)
            out.append(('axiom: %s' % (d,), locally(lambda get, idx=idx: A.step(idx(get)))))
            for nm, fn in rels(ds, get0):
                out.append(('%s at %s' % (nm, d), locally(lambda get, idx=idx, fn=fn: fn(get, A.at(idx(get)), idx(get)))))
        return out
    E.loop_hooks.append(hk)

def utf8_rels(ds, get0):
    nbs = intdims(ds, (8, 32)); vals = intdims(ds, (32, 64))
    vals = [(d, w) for d, w in vals if d[0] == 'phi']
    out = []
    for nb, nw in nbs:
        for a, aw in vals:
            for b, bw in vals:
                if a == b: continue
                if (nb, nw) in ((a, aw), (b, bw)): continue
                out.append(('utf8 %s %s %s' % (nb, a, b), lambda get, q, i, nb=nb, nw=nw, a=a, aw=aw, b=b, bw=bw: utf8_rel(q, get(nb), nw, get(a), aw, get(b), bw)))
        out.append(('boundary %s' % (nb,), lambda get, q, i, nb=nb, nw=nw: b_and(ule(get(nb), 3, nw), b_imp(eq(get(nb), 0, nw), q == ACC))))
    return out
def absorbing(E, st, A):
    q, c = fresh('q', 8), fresh('c', 8)
    E.oblig(st, b_imp(q == REJ, A.delta(q, c) == REJ), 'lemma: a rejected text stays rejected (induction step)')
for strv in (False, True):
    def mk(strv):
        sig = '(std::string const&)' if strv else '(char const*, int)'
        @task('Strigi::checkUtf8' + sig, 'utf8', fn='Strigi::checkUtf8')
        def t(E):
            st = E.state(); n, n64 = len32(E, st)
            if strv:
                D = fresh_fun('D')
                o = st.new('struct', 32, 'string'); st.setc(o.id, 0, 32, Str(n64, D)); args = [P(o.id, 0)]
            else:
                p, D = byts(E, st, n64); args = [p, n]
            A = Auto(D, utf8_delta, ACC); st.assume(A.init())
            absorbing(E, st, A)
            text_hook(E, A, utf8_rels)
            for st2, r in E.callf(st, fname(E, 'Strigi::checkUtf8', sig), args):
                # the lemma at the places the code may have stopped at
                for i in stops(st2, A): st2.assume(b_imp(b_and(A.at(i) == REJ, sle(0, i), sle(i, n64)), A.at(n64) == REJ))
                E.oblig(st2, eqb(tob(r), A.at(n64) == ACC), 'accepts exactly the texts the grammar accepts')
        sig2 = '(std::string const&, char&)' if strv else '(char const*, int, char&)'
        @task('Strigi::checkUtf8' + sig2, 'utf8', fn='Strigi::checkUtf8')
        def t(E):
            st = E.state(); n, n64 = len32(E, st)
            if strv:
                D = fresh_fun('D')
                o = st.new('struct', 32, 'string'); st.setc(o.id, 0, 32, Str(n64, D)); args = [P(o.id, 0)]
            else:
                p, D = byts(E, st, n64); args = [p, n]
            nbo = st.new('struct', 1, 'nb'); st.setc(nbo.id, 0, 1, fresh('nb0', 8)); args.append(P(nbo.id, 0))
            A = Auto(D, utf8_delta, ACC); st.assume(A.init())
            # start of the character byte i - 1 belongs to
            CS = fresh_fun('C', 64)
            A.C = CS
            base_step = A.step
            A.step = lambda i: b_and(base_step(i), bv(CS(simp(add(i, 1))), 64) == z3.If(A.at(i) == ACC, bv(i, 64), bv(CS(i), 64)))
            absorbing(E, st, A)
            def rels(ds, get0):
                out = utf8_rels(ds, get0)
                offs = [d for d, w in ds if d[0] == 'off']
                nbs = intdims(ds, (8, 32))
                for o in offs:
                    for nb, nw in nbs:
                        def f(get, q, i, o=o, nb=nb, nw=nw):
                            cs = get(o); d = sub(i, cs)
                            return b_imp(ne(get(nb), 0, nw), b_and(eq(cs, CS(i)), A.at(cs) == ACC, sle(1, d), sle(add(d, S64(get(nb), nw)), 4), sle(0, cs)))
                        out.append(('start %s %s' % (o, nb), f))
                for nb, nw in nbs:
                    out.append(('missing %s' % (nb,), lambda get, q, i, nb=nb, nw=nw: b_or(q == REJ, eq(trunc(get(nb), 8), utf8_missing(q), 8))))
                return out
            text_hook(E, A, rels)
            for st2, r in E.callf(st, fname(E, 'Strigi::checkUtf8', sig2), args):
                for i in stops(st2, A): st2.assume(b_imp(b_and(A.at(i) == REJ, sle(0, i), sle(i, n64)), A.at(n64) == REJ))
                nb = st2.getc(nbo.id, 0, 1)
                end = A.at(n64)
                null = r.o is None
                E.oblig(st2, eqb(null, end == ACC), 'no position exactly for a good text')
                if null: E.oblig(st2, eq(nb, 0, 8), 'count 0 for a good text'); continue
                E.ghost_access(st2, r, 1, 'the position lies in the text')
                k = r.f
                st2.assume(A.step(k))
                bad = b_and(eq(nb, 0, 8), A.at(simp(add(k, 1))) == REJ, A.at(CS(simp(add(k, 1)))) == ACC, sle(CS(simp(add(k, 1))), k), sle(sub(k, CS(simp(add(k, 1)))), 3))
                inc = b_and(eq(k, CS(n64)), A.at(k) == ACC, b_or(end == REJ, eq(nb, utf8_missing(end), 8)), sle(1, nb, 8), sle(nb, 3, 8), sle(sub(n64, k), 3))
                E.oblig(st2, b_or(bad, inc), 'a place in the first bad character, or the start of the incomplete last one with the bytes it needs')
    mk(strv)
def eqb(a, b):
    if type(a) is bool: return b if a else b_not(b)
    if type(b) is bool: return a if b else b_not(a)
    return a == b
def fname(E, nm, sig):
    """full demangled name of an overload"""
    for d in E.prog['bydem']:
        if models.normname(d).replace(' ', '') == (nm + sig).replace(' ', ''): return d
    raise Unsupported('no function %s%s' % (nm, sig))
def stops(st, A):
    """the indices the automaton was unfolded at on this path"""
    seen = {}; todo = list(st.pc)
    nm = A.at(0).decl().name(); visited = set()
    while todo:
        x = todo.pop()
        if x.get_id() in visited: continue
        visited.add(x.get_id())
        if z3.is_app(x) and x.decl().name() == nm and x.num_args() == 1: seen[x.arg(0).get_id()] = x.arg(0)
        todo.extend(x.children())
    return list(seen.values())

# ------------------------------------------------------------------ new lines
@task('Strigi::convertNewLines', 'newline')
def t(E):
    st = E.state()
    L = fresh('L'); st.assume(b_and(sle(0, L), sle(L, 0x7ffffff0))); E.watch.append(('text length', L))
    D = fresh_fun('D')
    st.assume(eq(D(L), 0, 8))
    o = E.new_arr(st, simp(add(L, 1)), 'the text', 1, D)
    oid = o.id
    A = Auto(D, utf8_delta, ACC); st.assume(A.init())
    absorbing(E, st, A)
    nl = lambda c: b_or(eq(c, 10, 8), eq(c, 13, 8))
    def spec(idx):
        """the text with the part in front of idx converted: every other byte is
        the old one; a line end is a space where the text in front of it is good"""
        return lambda j: z3.If(z3.And(tob(ult(j, idx)), tob(nl(bv(D(j), 8)))), bv(32, 8), bv(D(j), 8))
    def idxval(env, ctx):
        c = [env[i] for i, ty in sorted(ctx.pty.items()) if ty == 'ptr' and isinstance(env[i], P) and env[i].o == oid]
        if len(c) == 1: return c[0].f
        return None
    def arr_hook(s, st, aid, env, ctx):
        i = idxval(env, ctx)
        if i is None: raise Unsupported('the position in the text is not a pointer')
        st.own(aid).content = spec(i)
    E.array_hooks[oid] = arr_hook
    def hk(s, ctx, h, get0, ds):
        out = []
        if ('a', oid) in ctx.mod:
            def must(get):
                i = idxval(get.phi, ctx)
                k = fresh('k')
                return b_imp(b_and(sle(0, k), sle(k, L)), eq(get.st.obj(oid).content(k), spec(i)(k), 8))
            out.append(('must: the converted part', must))
        return out
    E.loop_hooks.append(hk)
    # the strlen found by the C library stands for n; nothing is 0 before it
    def rels(ds, get0):
        out = []
        for nb, nw in intdims(ds, (8, 32)):
            out.append(('lead %s' % (nb,), lambda get, q, i, nb=nb, nw=nw: b_or(q == REJ, b_and(eq(trunc(get(nb), 8), utf8_missing(q), 8), ule(get(nb), 3, nw)))))
            out.append(('any %s' % (nb,), lambda get, q, i, nb=nb, nw=nw: ule(get(nb), 3, nw)))
        return out
    text_hook(E, A, rels)
    def check(E_, st_, args, ins):      # checkUtf8: its own contract, only its result for the warning matters here
        return [(st_, fresh_bool('utf8ok'))]
    check.label = 'Strigi::checkUtf8 (contract proved separately)'
    E.contracts[fname(E, 'Strigi::checkUtf8', '(char const*, int)')] = check
    # exists a first 0: the length
    for st2, r in E.callf(st, 'Strigi::convertNewLines', [P(oid, 0)]):
        nz = st2.ghost.get('nz') or ()
        n = nz[0][2] if nz else L
        cnt = st2.obj(oid).content
        k = fresh('k'); E.watch.append(('k', k))
        a = st2.clone(); a.assume(b_and(sle(0, k), sle(k, L)))
        E.oblig(a, b_or(eq(cnt(k), D(k), 8), b_and(nl(D(k)), eq(cnt(k), 32, 8))), 'only line ends change, and only to spaces')
        a.assume(b_and(slt(k, n), A.at(n) == ACC, nl(D(k))))
        for i in stops(a, A): a.assume(b_imp(b_and(A.at(i) == REJ, sle(0, i), sle(i, n)), A.at(n) == REJ))
        E.oblig(a, eq(cnt(k), 32, 8), 'every line end of a good text becomes a space')

# ------------------------------------------------------------------ format checks
def sig(*bs, at=0): return lambda D: b_and(*[eq(D(at + k), b, 8) for k, b in enumerate(bs)])
def sb(x): return list(x.encode('latin1')) if isinstance(x, str) else list(x)
def ge(k): return lambda n: sle(k, n, 32)
def conj(*fs): return lambda n, D: b_and(*[f(n) if f.__code__.co_varnames[:1] == ('n',) else f(D) for f in fs])
def le32(D, k): return z3.Concat(*[bv(D(k + j), 8) for j in (3, 2, 1, 0)])
def le64(D, k): return z3.Concat(*[bv(D(k + j), 8) for j in range(7, -1, -1)])
def sp_lzma(n, D):
    dic = le32(D, 1); dic = z3.If(z3.ULT(dic, 4096), bv(4096, 32), dic); size = le64(D, 5)
    return b_and(sle(13, n, 32), eq(D(0), 0x5d, 8), eq(D(1), 0, 8), ule(dic, 0x2000000, 32),
                 b_or(eq(size, M1), b_and(slt(zext(dic, 32, 64), size), slt(size, 1099511627776))))
def sp_tar_(n, D):
    z = lambda k: eq(D(k), 0, 8)
    blank = lambda k: b_or(z(k), eq(D(k), 32, 8))
    # zeros in the name field are followed by zeros only; the rest of the block is not all zeros
    name = b_and(*[b_imp(z(k), z(k + 1)) for k in range(99)])
    rest = b_not(b_and(*[z(k) for k in range(100, 256)]))
    return b_and(sle(257, n, 32), name, rest, z(107), z(115), z(123), blank(135), blank(147), z(256))
SN = {
 'GZip': lambda n, D: b_and(slt(2, n, 32), sig(0x1f, 0x8b)(D)),
 'BZ2': lambda n, D: b_and(sle(10, n, 32), sig(*sb('BZ'))(D), b_or(eq(D(2), 0x68, 8), eq(D(2), 0x30, 8)), sig(*sb('1AY&SY'), at=4)(D)),
 'LZMA': sp_lzma,
 'Zip': lambda n, D: b_and(slt(8, n, 32), sig(0x50, 0x4b, 3, 4)(D)),
 'Ar': lambda n, D: b_and(sle(8, n, 32), sig(*sb('!<arch>\n'))(D)),
 'Cpio': lambda n, D: b_and(sle(6, n, 32), sig(*sb('070701'))(D)),
 'Rpm': lambda n, D: b_and(sle(6, n, 32), sig(0xed, 0xab, 0xee, 0xdb, 3, 0)(D)),
 'Ole': lambda n, D: b_and(slt(8, n, 32), sig(0xd0, 0xcf, 0x11, 0xe0, 0xa1, 0xb1, 0x1a, 0xe1)(D)),
 'Tar': None,
}
for _k in SN:
    def mk(k):
        fn = 'Strigi::%sInputStream::checkHeader' % k
        @task(fn, 'sniff')
        def t(E):
            st = E.state(); n, n64 = len32(E, st); p, D = byts(E, st, n64, 'the block')
            if k == 'Tar': tar_setup(E, st, D)
            for st2, r in E.callf(st, fn, [p, n]):
                if k == 'Tar': want = tar_spec(E, st2, n, D)
                else: want = SN[k](n, D)
                E.oblig(st2, eqb(tob(r), want), 'accepts exactly the blocks with the signature')
    mk(_k)

# tar: the quantifiers over the bytes as prefix automata
TN, TZ, TX = range(3)
def tar_setup(E, st, D):
    name = Auto(D, lambda q, c: chain(q, {TN: z3.If(c == 0, bv(TZ, 8), bv(TN, 8)), TZ: z3.If(c == 0, bv(TZ, 8), bv(TX, 8))}, bv(TX, 8)), TN, name='N')
    zero = Auto(D, lambda q, c: z3.If(c == 0, q, bv(0, 8)), 1, name='Z')
    st.assume(name.at(0) == TN); st.assume(zero.at(100) == 1)
    E.tar = name, zero
    c, q = fresh('c', 8), fresh('q', 8)
    E.oblig(st, name.delta(bv(TX, 8), c) == TX, 'lemma: a bad name field stays bad (induction step)')
    E.oblig(st, zero.delta(bv(0, 8), c) == 0, 'lemma: a block with a non-zero byte keeps it (induction step)')
    def rels(ds, get0):
        out = [('name %d' % k, lambda get, q, i, k=k: q == k) for k in (TN, TZ)]
        out.append(('name ok', lambda get, q, i: q != TX))
        out.append(('name good', lambda get, q, i: b_and(z3.ULE(q, TZ), b_imp(q == TN, b_or(eq(i, 100), eq(D(i), 0, 8))))))
        return out
    def zrels(ds, get0):
        out = [('zero 1', lambda get, q, i: q == 1)]
        for d, w in ds:
            if w in (1, 8): out.append(('zero %s' % (d,), lambda get, q, i, d=d: eqb(tob(get(d)), q == 1)))
        out.append(('zero dom', lambda get, q, i: z3.ULE(q, 1)))
        return out
    text_hook(E, name, rels, anyint=True)
    text_hook(E, zero, zrels, anyint=True)
def tar_spec(E, st, n, D):
    name, zero = E.tar
    z = lambda k: eq(D(k), 0, 8)
    blank = lambda k: b_or(z(k), eq(D(k), 32, 8))
    for i in stops(st, name): st.assume(b_imp(b_and(name.at(i) == TX, sle(0, i), sle(i, 100)), name.at(100) == TX))
    for i in stops(st, zero): st.assume(b_imp(b_and(zero.at(i) == 0, sle(100, i), sle(i, 256)), zero.at(256) == 0))
    return b_and(sle(257, n, 32), name.at(100) != TX, zero.at(256) != 1, z(107), z(115), z(123), blank(135), blank(147), z(256))

# mail: a 7 bit header (RFC 822) and a 7 bit body
MN, MV, MCR, MP, ME, MB, MX = range(7)
def mail_delta(q, c):
    B = lambda k: z3.BitVecVal(k, 8)
    def case(l, d):
        r = B(d)
        for cond, v in reversed(l): r = z3.If(cond, B(v), r)
        return r
    hi = z3.UGT(c, 127); ctl = z3.Or(z3.ULE(c, 31), c == 127); blank = z3.Or(c == 32, c == 9)
    nm = [(c == 58, MV), (z3.Or(blank, hi, ctl), MX)]
    vl = [(c == 13, MCR), (hi, MX)]
    return chain(q, {MN: case(nm, MN), MV: case(vl, MV), MCR: case([(c == 10, MP)] + vl, MV),
                     MP: case([(blank, MV), (c == 13, ME)] + nm, MN), ME: case([(c == 10, MB)], MX), MB: case([(hi, MX)], MB)}, B(MX))
@task('Strigi::MailInputStream::checkHeader', 'sniff')
def t(E):
    st = E.state(); n, n64 = len32(E, st); p, D = byts(E, st, n64, 'the block')
    A = Auto(D, mail_delta, MN); st.assume(A.init())
    q, c = fresh('q', 8), fresh('c', 8)
    E.oblig(st, b_imp(q == MX, mail_delta(q, c) == MX), 'lemma: a rejected block stays rejected (induction step)')
    E.oblig(st, b_imp(ule(q, MX, 8), z3.ULE(mail_delta(q, c), MX)), 'lemma: the automaton has these states only (induction step)')
    def rels(ds, get0):
        out = []
        for d, w in intdims(ds, (32, 8)):
            def f(get, q, i, d=d, w=w):
                s_ = get(d); c = bv(D(i), 8)
                e = lambda k: eq(s_, k, w)
                return b_or(b_and(e(0), b_or(q == MN, b_and(q == MP, ne(c, 32, 8), ne(c, 9, 8), ne(c, 13, 8), slt(i, n64)))),
                            b_and(e(1), b_or(q == MV, b_and(q == MCR, ne(c, 10, 8), slt(i, n64)))),
                            b_and(e(2), q == MCR), b_and(e(3), q == MP), b_and(e(4), q == ME), b_and(e(5), q == MB))
            out.append(('state %s' % (d,), f))
        return out
    text_hook(E, A, rels)
    for st2, r in E.callf(st, 'Strigi::MailInputStream::checkHeader', [p, n]):
        for i in stops(st2, A): st2.assume(b_imp(b_and(A.at(i) == MX, sle(0, i), sle(i, n64)), A.at(n64) == MX))
        E.oblig(st2, eqb(tob(r), A.at(n64) != MX), 'accepts exactly the blocks with a mail header')

# ------------------------------------------------------------------ the searcher by its contract
@lib('__cxa_guard_acquire')
def l_guard(s, st, a, ins): return [(st, 1)]
@lib('__cxa_guard_release')
def l_guardr(s, st, a, ins): return [(st, None)]
@lib('std::ios_base::Init::Init', 'std::ios_base::Init::Init()', 'std::ios_base::Init::~Init()')
def l_iosinit(s, st, a, ins): return [(st, None)]
def kmp_contracts(E):
    """KmpSearcher by its contract (C14): search gives the first occurrence"""
    K = 'Strigi::KmpSearcher'
    q = field(E.prog, K, 'm_query')[0]
    def init(s, st, this, v):
        f = this.f
        st.setc(this.o, simp(add(f, q)), 32, Str(v.n, models.scontent(st, v)))
        s.oblig(st, b_and(sle(0, v.n), sle(v.n, (1 << 28))), 'query of a sane length')
        t = s.new_arr(st, mul(add(v.n, 257), 4), 'search table', 4, heap='malloc')
        s.setf(st, this.o, K, 'table', P(t.id, 0), f)
        s.setf(st, this.o, K, 'len', simp(trunc(v.n, 32)), f); s.setf(st, this.o, K, 'maxlen', simp(trunc(v.n, 32)), f)
    def ctor(s, st, a, ins):
        if len(a) == 1: return None
        init(s, st, a[0], models.gets(s, st, a[1], ins)); return [(st, None)]
    def setq(s, st, a, ins):
        old = s.getf(st, a[0].o, K, 'table', a[0].f)
        if isinstance(old, P) and old.o is not None: st.own(old.o).alive = False
        init(s, st, a[0], models.gets(s, st, a[1], ins)); return [(st, None)]
    def search(s, st, a, ins):
        this, hay, n = a
        v = models.gets(s, st, P(this.o, simp(add(this.f, q))), ins); qc = models.scontent(st, v)
        n64 = simp(sext(n, 32, 64))
        s.check_access(st, hay, simp(z3.If(tob(slt(n64, 0)), bv(0, 64), bv(n64, 64))), 'text to search', ins)
        c = st.obj(hay.o).content; f = hay.f
        no = st.clone()
        rec = dict(text=c, start=f, n=n64, q=qc, qn=v.n, pos=None)
        no.ghost['search'] = no.ghost.get('search', ()) + (rec,)
        out = []
        if s.feasible(no, True): out.append((no, NULL))
        i = fresh('found'); st.assume(b_and(sle(0, i), sle(add(i, v.n), n64)))
        k = simp(v.n)
        if isc(k) and k <= 16: st.assume(b_and(*[eq(c(simp(add(add(f, i), j))), qc(j), 8) for j in range(k)]))
        st.ghost['search'] = st.ghost.get('search', ()) + (dict(rec, pos=i),)
        if s.feasible(st, True): out.append((st, P(hay.o, simp(add(f, i)))))
        return out
    for n_, fn in (('KmpSearcher', ctor), ('setQuery', setq), ('search', search)):
        fn.label = 'KmpSearcher::%s (contract; decided by the bounded check of C14)' % n_
        E.contracts['%s::%s' % (K, n_)] = fn

@task('Strigi::SdfInputStream::checkHeader', 'sniff')
def t(E):
    """no read outside the block, and the answer is that of the search for V2000 (which line is
    searched is left to the executable contract)"""
    kmp_contracts(E)
    st = E.state(); n, n64 = len32(E, st); p, D = byts(E, st, n64, 'the block')
    m = [f for f in E.prog['functions'] if f.startswith('_GLOBAL__sub_I_sdf')]
    for f in m:
        for st, _ in E.inline(st, f, []): break
    E.unroll_hint['Strigi::SdfInputStream::checkHeader'] = 6
    for st2, r in E.callf(st, 'Strigi::SdfInputStream::checkHeader', [p, n]):
        ss = st2.ghost.get('search', ())
        if not ss: E.oblig(st2, eqb(tob(r), False), 'no fourth line: not accepted')
        else:
            x = ss[-1]
            E.oblig(st2, b_and(eq(x['qn'], 5), *[eq(x['q'](k), ord(c), 8) for k, c in enumerate('V2000')]), 'the search is for V2000')
            E.oblig(st2, eqb(tob(r), x['pos'] is not None), 'the answer is that of the search')
