"""Contracts of the decoding streams: fillBuffer of every decoder keeps the
contract that BufferedStream<T> (tasks_core) is proved against, the constructors
establish and the destructors release.  The compression and conversion libraries
are assumed to keep their documented interface; D is the text they produce for
the whole input, C (the input stream's data from position c0) what they consume."""
import z3
from sym import *
from streams import *
from task import *
from tasks_core import SBuf, contract_makeSpace
from tasks_wrap import iff
from tasks_text import locally
from execu import short, tob

def errtext(s, st, oid, lay):
    n = fresh('errlen'); st.assume(b_and(sle(0, n), sle(n, LIM)))
    sets(s, st, P(oid, lay.err), n, fresh_fun('errmsg'))

class Fill:
    """the situation of one fillBuffer call on an object of class cls.
    ghosts: W items delivered so far, cpos bytes the library consumed so far"""
    def __init__(b, E, st, cls, es=1, size=None):
        b.E = E; b.cls = cls; b.es = es; b.k0 = None; m = b.m = AbsStream(E.lay, 'input'); m.recovers = False
        b.inp = m.make(E, st)
        b.D = fresh_fun('D', 8 * es); b.L = fresh('L'); b.c0 = fresh('c0')
        b.W0 = fresh('W'); b.cp0 = fresh('consumed')
        st.assume(b_and(sle(0, b.L), sle(b.L, 1 << 56), sle(0, b.W0), sle(b.W0, b.L), sle(0, b.c0), sle(b.c0, m.L), sle(0, b.cp0), sle(add(b.c0, b.cp0), m.L)))
        E.setg(st, b.inp, 'W', b.W0, 64); E.setg(st, b.inp, 'cpos', b.cp0, 64); E.setg(st, b.inp, 'bad', fresh_bool('bad'), 1)
        b.size0 = fresh('size') if size is None else size
        b.status0 = fresh('status', 32)
        st.assume(b_or(eq(b.status0, OK, 32), eq(b.status0, ERR, 32)))
        b.oid = E.new_stream(st, cls, b.size0, fresh('pos'), b.status0)
        b.space = fresh('space', 32); st.assume(b_and(sle(1, b.space, 32), sle(b.space, 1 << 30, 32)))
        b.buf = E.new_arr(st, simp(mul(sext(b.space, 32, 64), es)), 'target', es)
        b.old = b.buf.content
        E.watch += [('space', b.space), ('W', b.W0), ('L', b.L), ('consumed', b.cp0), ('status', b.status0), ('size', b.size0)]
    def C(b, i): return b.m.D(simp(add(b.c0, i)))
    def status(b, st): return st.getc(b.oid, b.E.lay.status, 4)
    def size(b, st): return st.getc(b.oid, b.E.lay.size, 8)
    def inpos(b, st): return b.m.get(st, b.inp, 'pos')
    def inerr(b, st): return eq(b.m.get(st, b.inp, 'status'), ERR, 32)
    def next_in_ok(b, st, p, n64, ins, what):
        """the bytes handed to the library are the next bytes of the input"""
        s = b.E
        a = st.clone(); a.assume(slt(0, n64))
        if not s.feasible(a, True): return
        s.check_access(a, p, n64, what, ins)
        k = fresh('k'); a.assume(ult(k, n64))
        c = s.bytes_fn(a, p, n64)
        s.oblig(a, eq(c(k), b.C(add(a.ghost['cpos'], k)), 8), what + ' is the next part of the input', ins)
    def write(b, st, p, n64, space64, ins, what):
        """the library writes items D[W..W+n) to p and may scribble up to space"""
        s = b.E
        s.check_access(st, p, simp(mul(space64, b.es)), what, ins, write=True)
        p = s.redir(st, p)
        o = st.own(p.o); old = o.content; D = b.D; W = st.ghost['W']; junk = fresh_fun('scribble', 8 * b.es); w = 8 * b.es
        e0 = p.f if b.es == 1 else norm(z3.simplify(z3.LShR(bv(p.f, 64), 2)))
        def g(j):
            d = simp(sub(j, e0))
            r = z3.If(tob(ult(d, n64)), bv(D(simp(add(W, d))), w), bv(junk(j), w))
            c = simp(ult(d, space64))
            if c is True: return r
            if c is False: return old(j)
            return z3.If(c, r, bv(old(j), w))
        o.content = g
        st.mark('a', p.o)
        s.setg(st, b.inp, 'W', simp(add(W, n64)), 64)
    def goals(b, st2, r, st0err, cause):
        """postcondition of fillBuffer"""
        E = b.E; n = r; n64 = sext(n, 32, 64)
        E.oblig(st2, b_and(sle(neg(2, 32), n, 32), sle(n, b.space, 32)), 'fillBuffer: returns -1 or a count within the space')
        s1 = b.status(st2)
        E.oblig(st2, b_or(eq(s1, OK, 32), eq(s1, ERR, 32)), 'fillBuffer: never sets the end state itself')
        E.oblig(st2, b_imp(st0err, eq(s1, ERR, 32)), 'fillBuffer: an error is permanent')
        E.oblig(st2, b_imp(b_and(eq(s1, ERR, 32), b_not(st0err)), cause(st2)), 'fillBuffer: an error is reported only for a cause')
        okk = eq(s1, OK, 32)
        E.oblig(st2, b_imp(b_and(okk, slt(n, 0, 32)), eq(b.W0, b.L)), 'fillBuffer: -1 in good health only when everything was delivered')
        E.oblig(st2, b_imp(sle(0, n, 32), sle(add(b.W0, n64), b.L)), 'fillBuffer: not more than there is')
        z1 = b.size(st2)
        E.oblig(st2, b_or(eq(z1, b.size0), b_and(eq(b.size0, M1), eq(z1, b.L))), 'fillBuffer: the size is kept or becomes the real size')
        a = st2.clone(); k = fresh('k') if b.k0 is None else b.k0; a.assume(b_and(slt(0, n, 32), ult(k, n64)))
        if E.feasible(a, True):
            E.oblig(a, eq(a.obj(b.buf.id).content(k), b.D(simp(add(b.W0, k))), 8 * b.es), 'fillBuffer: the items written are the next ones of the decoded text')
        return okk

# ------------------------------------------------------------------ zlib / bzip2
class Z:
    """field layout and names of one compression library"""
def zl(E):
    z = Z(); z.cls = 'Strigi::GZipInputStream'; z.priv = z.cls + '::Private'; z.fld = 'zstream'; z.rec = 'z_stream_s'
    z.END = 1; z.OKS = [0, neg(5, 32)]; z.BAD = [2, neg(3, 32), neg(4, 32)]; z.noneok = False
    z.inits = ('inflateInit_', 'inflateInit2_'); z.dec = 'inflate'; z.end = 'inflateEnd'; z.title = 'zlib'; z.started = True
    return z
def bz(E):
    z = Z(); z.cls = 'Strigi::BZ2InputStream'; z.priv = z.cls + '::Private'; z.fld = 'bzstream'; z.rec = None
    z.END = 4; z.OKS = [0]; z.BAD = [neg(2, 32), neg(3, 32), neg(4, 32), neg(5, 32)]
    z.inits = ('BZ2_bzDecompressInit',); z.dec = 'BZ2_bzDecompress'; z.end = 'BZ2_bzDecompressEnd'; z.title = 'bzip2'; z.started = False
    return z
def zoff(E, z):
    o = field(E.prog, z.priv, z.fld)[0]
    for c in (('z_stream_s',) if z.title == 'zlib' else ('bz_stream',)):
        if c in E.prog['classes']:
            f = lambda n: o + field(E.prog, c, n)[0]
            return dict(next_in=f('next_in'), avail_in=f('avail_in'), next_out=f('next_out'), avail_out=f('avail_out'))
    return dict(next_in=o, avail_in=o + 8, next_out=o + 24, avail_out=o + 32)
def z_contracts(E, z, b):
    """b: Fill or None (only life cycle)"""
    F = zoff(E, z); base = field(E.prog, z.priv, z.fld)[0]
    own = {}
    def init(s, st, a, ins):
        p = a[0]
        out = []
        bad = st.clone(); s.setg(bad, p.o, 'initfail', True, 1); out.append((bad, fresh_bad(bad, z)))
        s.setg(st, p.o, 'zlive', True, 1)
        out.append((st, 0))
        return out
    def fresh_bad(st, z):
        r = fresh('initret', 32); st.assume(ne(r, 0, 32)); return r
    init.label = '%s: initialisation (documented interface)' % z.title
    for n in z.inits: E.contracts[n] = init
    def end(s, st, a, ins):
        # releasing a stream that was never set up only reports an error; one that was needs it exactly once
        st2 = st
        s.setg(st2, a[0].o, 'zlive', False, 1)
        return [(st2, fresh('endret', 32))]
    end.label = '%s: release (documented interface; ignores a stream that is not set up)' % z.title
    E.contracts[z.end] = end
    def dec(s, st, a, ins):
        p = a[0]
        g = lambda n, w: st.getc(p.o, F[n] - base + simp(p.f), w)
        s.oblig(st, st.ghost['zlive'], '%s: the decoder is set up and was not released' % z.title, ins)
        ni, ai, no, ao = g('next_in', 8), g('avail_in', 4), g('next_out', 8), g('avail_out', 4)
        ai64, ao64 = zext(ai, 32, 64), zext(ao, 32, 64)
        b.next_in_ok(st, ni, ai64, ins, '%s input' % z.title)
        s.oblig(st, ult(0, ao, 32), '%s: there is room for output' % z.title, ins)
        out = []
        W, cp = st.ghost['W'], st.ghost['cpos']
        def step(a_, r, ended=False, bad=False):
            x, n = fresh('consumed', 32), fresh('produced', 32)
            x64, n64 = zext(x, 32, 64), zext(n, 32, 64)
            a_.assume(b_and(ule(x, ai, 32), ule(n, ao, 32), sle(add(W, n64), b.L)))
            b.write(a_, no, n64, ao64, ins, '%s output' % z.title)
            s.setg(a_, b.inp, 'cpos', simp(add(cp, x64)), 64)
            f = lambda nm, w, v: a_.setc(p.o, F[nm] - base + simp(p.f), w, v)
            f('next_in', 8, P(ni.o, simp(add(ni.f, x64))) if isinstance(ni, P) and ni.o is not None else ni)
            f('avail_in', 4, simp(sub(ai, x, 32))); f('next_out', 8, P(no.o, simp(add(no.f, n64)))); f('avail_out', 4, simp(sub(ao, n, 32)))
            if ended:
                a_.assume(b_and(eq(add(W, n64), b.L), eq(add(cp, x64), b.CL)))
                s.setg(a_, b.inp, 'ended', True, 1)
            elif bad: s.setg(a_, b.inp, 'bad', True, 1)
            else:
                # works until the input is used up or the output is full
                a_.assume(b_or(eq(x, ai, 32), eq(n, ao, 32)))
            if s.feasible(a_, True): out.append((a_, r))
        b1 = st.clone(); r = fresh('decret', 32); b1.assume(b_or(*[eq(r, k, 32) for k in z.BAD])); step(b1, r, bad=True)
        st.assume(b_not(st.ghost['bad']))
        s.oblig(st, b_not(st.ghost['ended']), '%s: not called after the end' % z.title, ins)
        b2 = st.clone(); step(b2, z.END, ended=True)
        r = fresh('decret', 32); st.assume(b_or(*[eq(r, k, 32) for k in z.OKS])); step(st, r)
        return out
    dec.label = '%s: decompression (documented interface)' % z.title
    E.contracts[z.dec] = dec
def z_state(E, z, b, st, live):
    """arbitrary decoder in the middle of the work (live) or after the end"""
    F = zoff(E, z)
    o = E.raw_obj(st, z.priv, heap='new'); b.priv = o; b.F = F
    E.setf(st, b.oid, z.cls, 'p', P(o, 0)); E.setf(st, o, z.priv, 'p', P(b.oid, 0))
    b.CL = fresh('CL'); st.assume(b_and(sle(0, b.CL), sle(add(b.c0, b.CL), b.m.L), sle(b.cp0, b.CL)))
    seg = st.obj(b.inp).ghost
    if live:
        ai, ao = fresh('avail_in', 32), fresh('avail_out', 32)
        E.watch += [('avail_in', ai), ('avail_out', ao)]
        ai64 = zext(ai, 32, 64)
        ok = eq(b.status0, OK, 32)
        st.assume(b_and(sle(ai64, 0x7fffffff), sle(ai64, sub(b.inpos(st), seg['s0'])), b_imp(ok, b_and(b_or(eq(ao, 0, 32), eq(ai, 0, 32)), b_not(b.inerr(st)), b_not(st.ghost['bad'])))))
        st.assume(eq(b.inpos(st), add(add(b.c0, b.cp0), ai64)))
        E.setf(st, o, z.priv, 'input', P(b.inp, 0))
        st.setc(o, F['next_in'], 8, P(seg['seg'], simp(sub(sub(b.inpos(st), seg['s0']), ai64)))); st.setc(o, F['avail_in'], 4, ai); st.setc(o, F['avail_out'], 4, ao); st.setc(o, F['next_out'], 8, U)
    else:
        E.setf(st, o, z.priv, 'input', NULL); st.assume(b_and(b_imp(eq(b.status0, OK, 32), b_and(eq(b.W0, b.L), eq(b.cp0, b.CL)))))
        for n, w in (('next_in', 8), ('next_out', 8)): st.setc(o, F[n], 8, NULL)
        st.setc(o, F['avail_in'], 4, 0); st.setc(o, F['avail_out'], 4, 0)
    if z.started: E.setf(st, o, z.priv, 'started', 1 if live else 0)
    E.setg(st, o, 'zlive', live, 1); E.setg(st, o, 'ended', not live, 1)
def z_inv(E, z, b, st2):
    """class invariant after a call in good health"""
    o = b.priv; F = b.F
    ok = eq(b.status(st2), OK, 32)
    a = st2.clone(); a.assume(ok)
    if not E.feasible(a, True): return
    ip = E.getf(a, o, z.priv, 'input')
    live = isinstance(ip, P) and ip.o is not None
    if z.started: E.oblig(a, eq(E.getf(a, o, z.priv, 'started'), 1 if live else 0, 8), 'class invariant: the decoder is released once')
    E.oblig(a, a.ghost['zlive'] if live else b_not(a.ghost['zlive']), 'class invariant: the decoder is set up while there is more to do')
    if live:
        E.oblig(a, b_not(a.ghost['ended']), 'class invariant: ends with the end of the compressed data')
        ai, ao, ni = a.getc(o, F['avail_in'], 4), a.getc(o, F['avail_out'], 4), a.getc(o, F['next_in'], 8)
        ai64 = zext(ai, 32, 64); seg = a.obj(b.inp).ghost
        E.oblig(a, b_or(eq(ao, 0, 32), eq(ai, 0, 32)), 'class invariant: all input is used up or the target is full')
        E.oblig(a, eq(b.inpos(a), add(add(b.c0, a.ghost['cpos']), ai64)), 'class invariant: the input stands behind what was handed over')
        E.oblig(a, b_imp(slt(0, ai64), b_and(ni.o == seg['seg'], eq(add(ni.f, ai64), sub(b.inpos(a), seg['s0'])) if ni.o == seg['seg'] else False, a.obj(seg['seg']).alive)), 'class invariant: pending input is the last data read')
    else:
        E.oblig(a, b_and(eq(a.ghost['W'], b.L), a.ghost['ended']), 'class invariant: finished only at the end of the data')
        E.oblig(a, eq(b.inpos(a), add(b.c0, b.CL)), 'at the end the input stands behind the compressed data')
def z_task(mkz, tag):
    z0 = mkz(None)
    for live in (True, False):
        @task(z0.cls + '::fillBuffer' + (' (working)' if live else ' (finished)'), 'inflate', tag, fn=z0.cls + '::fillBuffer')
        def t(E, live=live):
            z = mkz(E); st = E.state(); b = Fill(E, st, z.cls, size=M1); z_state(E, z, b, st, live); z_contracts(E, z, b)
            pre = eq(b.status0, ERR, 32)
            # reading stops at the first error; zlib data errors may be followed by one more call
            cause = lambda s: b_or(b.inerr(s), s.ghost['bad'], eq(b.inpos(s), b.m.L), b.m.short)
            for st2, r in E.callf(st, z.cls + '::fillBuffer', [P(b.oid, 0), P(b.buf.id, 0), b.space]):
                b.goals(st2, r, pre, cause); 
                if live: z_inv(E, z, b, st2)
                else: E.oblig(st2, eq(r, neg(1, 32), 32), 'fillBuffer: nothing after the end')
    @task(z0.cls + '::' + z0.cls.split('::')[-1], 'inflate', tag)
    def t(E):
        z = mkz(E); st = E.state(); m = AbsStream(E.lay, 'input'); m.recovers = False; inp = m.make(E, st)
        z_contracts(E, z, None)
        E.contracts['Strigi::StreamBuffer<char>::makeSpace'] = contract_makeSpace('char')
        E.setg(st, inp, 'zlive', False, 1); E.setg(st, inp, 'initfail', False, 1)
        o = E.raw_obj(st, z.cls, heap='new'); pos0 = m.get(st, inp, 'pos'); ist0 = m.get(st, inp, 'status')
        args = [P(o, 0), P(inp, 0)]
        fmt = None
        if tag == 'gz':
            fmt = fresh('format', 32); args.append(fmt); st.assume(ule(fmt, 2, 32)); E.watch += [('format', fmt)]
        D = lambda k: m.D(simp(add(pos0, k)))
        magic = {'gz': {0: 0x1f, 1: 0x8b}, 'bz': {0: 0x42, 1: 0x5a, 4: 0x31, 5: 0x41, 6: 0x59, 7: 0x26, 8: 0x53, 9: 0x59}}[tag]
        ismagic = b_and(*[eq(D(k), c, 8) for k, c in magic.items()], *([b_or(eq(D(2), 0x68, 8), eq(D(2), 0x30, 8))] if tag == 'bz' else []))
        ismagic = b_and(ismagic, sle(10 if tag == 'bz' else 2, sub(m.L, pos0)))
        for st2, r in E.callf(st, z.cls + '::' + z.cls.split('::')[-1], args):
            I = Impl(E, o, None, 0); v = I.snap(st2)
            p = E.getf(st2, o, z.cls, 'p')
            E.oblig(st2, b_and(eq(v.pos, 0), eq(v.size, M1), b_or(eq(v.status, OK, 32), eq(v.status, ERR, 32))), 'constructor: at 0, size unknown, Ok or in error')
            okk = eq(v.status, OK, 32)
            need = ismagic if fmt is None else b_or(ne(fmt, 1, 32), ismagic)
            E.oblig(st2, b_imp(okk, need), 'constructor: data without the magic bytes is refused')
            E.oblig(st2, b_imp(b_and(okk, ne(m.get(st2, inp, 'status'), ERR, 32)), eq(m.get(st2, inp, 'pos'), pos0)), 'constructor: the input stands where it was')
            E.oblig(st2, b_imp(b_not(okk), b_or(b_not(need), eq(m.get(st2, inp, 'status'), ERR, 32), st2.ghost['initfail'], eq(ist0, EOFS, 32), m.short)), 'constructor: an error has a cause')
            a = st2.clone(); a.assume(okk)
            if E.feasible(a, True):
                F = zoff(E, z)
                E.oblig(a, a.ghost['zlive'], 'constructor: the decoder is set up')
                E.oblig(a, b_and(eq(a.getc(p.o, F['avail_in'], 4), 0, 32), ne(a.getc(p.o, F['avail_out'], 4), 0, 32)), 'constructor: starts by reading input')
                q = E.getf(a, p.o, z.priv, 'input')
                E.oblig(a, isinstance(q, P) and q.o == inp, 'constructor: the input is kept')
            for st3, r3 in E.callf(st2, z.cls + '::~' + z.cls.split('::')[-1], [P(o, 0)]):
                E.oblig(st3, b_not(st3.ghost['zlive']), 'destructor: the decoder is released')
                E.oblig(st3, st3.obj(p.o).alive is False, 'destructor: its data is released')
z_task(zl, 'gz'); z_task(bz, 'bz')

# ------------------------------------------------------------------ lzma
LZ = 'Strigi::LZMAInputStream'; LZP = LZ + '::Private'
def lz_contracts(E, b):
    def alloc(s, st, a, ins):
        s.check_access(st, a[1], a[2], 'lzma properties', ins)
        bad = st.clone(); r = fresh('sres', 32); bad.assume(ne(r, 0, 32)); s.setg(bad, a[0].o, 'initfail', True, 1)
        s.setg(st, a[0].o, 'zlive', True, 1)
        return [(bad, r), (st, 0)]
    alloc.label = 'LzmaDec_Allocate (bundled LZMA SDK, assumed interface)'
    E.contracts['LzmaDec_Allocate'] = alloc
    def free(s, st, a, ins):
        s.setg(st, a[0].o, 'zlive', False, 1); return [(st, None)]
    free.label = 'LzmaDec_Free (bundled LZMA SDK, assumed interface; ignores a decoder without memory)'
    E.contracts['LzmaDec_Free'] = free
    def init(s, st, a, ins):
        s.oblig(st, st.ghost['zlive'], 'lzma: the decoder is set up before it is started', ins)
        return [(st, None)]
    init.label = 'LzmaDec_Init (bundled LZMA SDK, assumed interface)'
    E.contracts['LzmaDec_Init'] = init
    def dec(s, st, a, ins):
        state, dest, plen, src, pin, mode, pst = a
        dl, sl = s.load(st, plen, 'i64', ins), s.load(st, pin, 'i64', ins)
        s.oblig(st, b_and(st.ghost['zlive'], b_not(st.ghost['ended'])), 'lzma: the decoder is set up and the end mark was not met before', ins)
        s.oblig(st, b_and(sle(1, dl), sle(1, sl)), 'lzma: there is input and room for output', ins)
        b.next_in_ok(st, src, sl, ins, 'lzma input')
        W, cp = st.ghost['W'], st.ghost['cpos']
        s.oblig(st, b_or(eq(b.size0, M1), sle(dl, sub(b.L, W))), 'lzma: not more is asked for than the announced size', ins)
        out = []
        for bad in (True, False):
            a_ = st.clone() if bad else st
            x, n = fresh('consumed'), fresh('produced')
            a_.assume(b_and(ule(x, sl), ule(n, dl), sle(add(W, n), b.L)))
            b.write(a_, dest, n, dl, ins, 'lzma output')
            s.setg(a_, b.inp, 'cpos', simp(add(cp, x)), 64)
            s.store(a_, plen, n, 'i64', ins); s.store(a_, pin, x, 'i64', ins)
            status = fresh('lzmastatus', 32); s.store(a_, pst, status, 'i32', ins)
            a_.assume(ule(status, 4, 32))
            if bad:
                r = fresh('sres', 32); a_.assume(ne(r, 0, 32)); s.setg(a_, b.inp, 'bad', True, 1)
            else:
                r = 0; mark = eq(status, 1, 32)
                a_.assume(b_or(slt(0, x), slt(0, n), mark))
                a_.assume(b_imp(b_and(mark, eq(b.size0, M1)), eq(add(W, n), b.L)))
                s.setg(a_, b.inp, 'ended', simp(mark), 1)
                s.setg(a_, b.inp, 'early', simp(b_and(mark, ne(b.size0, M1), ne(add(W, n), b.L))), 1)
            if s.feasible(a_, True): out.append((a_, r))
        return out
    dec.label = 'LzmaDec_DecodeToBuf (bundled LZMA SDK, assumed interface)'
    E.contracts['LzmaDec_DecodeToBuf'] = dec
@task(LZ + '::fillBuffer', 'inflate', 'lzma')
def t(E):
    st = E.state(); b = Fill(E, st, LZ); lz_contracts(E, b)
    o = b.priv = E.raw_obj(st, LZP, heap='new')
    E.setf(st, b.oid, LZ, 'p', P(o, 0)); E.setf(st, o, LZP, 'p', P(b.oid, 0)); E.setf(st, o, LZP, 'input', P(b.inp, 0))
    st.assume(b_or(eq(b.size0, M1), eq(b.size0, b.L)))
    ok = eq(b.status0, OK, 32); st.assume(b_imp(ok, b_and(b_not(b.inerr(st)), b_not(st.ghost['bad']))))
    seg = st.obj(b.inp).ghost; ai = fresh('avail_in', 32); ai64 = sext(ai, 32, 64); E.watch += [('avail_in', ai)]
    st.assume(b_imp(ok, b_and(sle(0, ai64), sle(ai64, sub(b.inpos(st), seg['s0'])), eq(b.inpos(st), add(add(b.c0, b.cp0), ai64)))))
    E.setf(st, o, LZP, 'next_in', P(seg['seg'], simp(sub(sub(b.inpos(st), seg['s0']), ai64)))); E.setf(st, o, LZP, 'avail_in', ai); E.setf(st, o, LZP, 'bytesDecompressed', b.W0)
    for k in range(4): st.setc(o, field(E.prog, LZP, 'props')[0] + 4 * k, 4, fresh('props', 32))
    E.setg(st, o, 'zlive', True, 1); E.setg(st, o, 'early', False, 1)
    E.setg(st, o, 'ended', simp(b_and(eq(b.size0, b.L), eq(b.W0, b.L))), 1)
    cause = lambda s: b_or(b.inerr(s), s.ghost['bad'], s.ghost['early'], eq(b.inpos(s), b.m.L), b.m.short)
    for st2, r in E.callf(st, LZ + '::fillBuffer', [P(b.oid, 0), P(b.buf.id, 0), b.space]):
        b.goals(st2, r, eq(b.status0, ERR, 32), cause)
        E.oblig(st2, b_imp(eq(b.status0, ERR, 32), slt(r, 0, 32)), 'fillBuffer: nothing after an error')
        E.oblig(st2, b_imp(st2.ghost['early'], eq(b.status(st2), ERR, 32)), 'fillBuffer: data that ends before the announced size is an error')
        a = st2.clone(); a.assume(eq(b.status(st2), OK, 32))
        if not E.feasible(a, True): continue
        g = lambda n: E.getf(a, o, LZP, n)
        ai1 = sext(g('avail_in'), 32, 64); ni = g('next_in'); seg1 = a.obj(b.inp).ghost
        E.oblig(a, eq(g('bytesDecompressed'), a.ghost['W']), 'class invariant: counts what was delivered')
        E.oblig(a, b_and(sle(0, ai1), eq(b.inpos(a), add(add(b.c0, a.ghost['cpos']), ai1))), 'class invariant: the input stands behind what was handed over')
        E.oblig(a, b_imp(slt(0, ai1), b_and(ni.o == seg1['seg'], eq(add(ni.f, ai1), sub(b.inpos(a), seg1['s0'])) if ni.o == seg1['seg'] else False, a.obj(seg1['seg']).alive)), 'class invariant: pending input is the last data read')
        E.oblig(a, b_imp(a.ghost['ended'], b_and(eq(b.size(a), b.L), eq(a.ghost['W'], b.L))), 'class invariant: after the end mark the size is known and everything delivered')
@task(LZ + '::LZMAInputStream', 'inflate', 'lzma')
def t(E):
    st = E.state(); m = AbsStream(E.lay, 'input'); m.recovers = False; inp = m.make(E, st)
    lz_contracts(E, None)
    E.contracts['Strigi::StreamBuffer<char>::makeSpace'] = contract_makeSpace('char')
    E.setg(st, inp, 'zlive', False, 1); E.setg(st, inp, 'initfail', False, 1)
    o = E.raw_obj(st, LZ, heap='new'); pos0 = m.get(st, inp, 'pos'); ist0 = m.get(st, inp, 'status')
    D = lambda k: m.D(simp(add(pos0, k)))
    le = lambda k, n: simp(z3.Concat(*[bv(D(k + j), 8) for j in reversed(range(n))]))
    for st2, r in E.callf(st, LZ + '::LZMAInputStream', [P(o, 0), P(inp, 0)]):
        I = Impl(E, o, None, 0); v = I.snap(st2); p = E.getf(st2, o, LZ, 'p')
        E.oblig(st2, b_and(eq(v.pos, 0), b_or(eq(v.status, OK, 32), eq(v.status, ERR, 32))), 'constructor: at 0, Ok or in error')
        a = st2.clone(); a.assume(eq(v.status, OK, 32))
        if E.feasible(a, True):
            E.oblig(a, b_and(sle(13, sub(m.L, pos0)), eq(D(0), 0x5d, 8), eq(D(1), 0, 8)), 'constructor: only an lzma header is accepted')
            E.oblig(a, b_and(eq(v.size, le(5, 8)), sle(M1, v.size)), 'constructor: the size is the one in the header')
            E.oblig(a, eq(m.get(a, inp, 'pos'), add(pos0, 13)), 'constructor: the input stands behind the header')
            g = lambda n: E.getf(a, p.o, LZP, n)
            E.oblig(a, b_and(a.ghost['zlive'], eq(g('avail_in'), 0, 32), eq(g('bytesDecompressed'), 0)), 'constructor: the decoder is set up, nothing was decoded')
            E.oblig(a, isinstance(g('input'), P) and g('input').o == inp, 'constructor: the input is kept')
        for st3, r3 in E.callf(st2, LZ + '::~LZMAInputStream', [P(o, 0)]):
            E.oblig(st3, b_not(st3.ghost['zlive']), 'destructor: the decoder is released')
            E.oblig(st3, st3.obj(p.o).alive is False, 'destructor: its data is released')

# ------------------------------------------------------------------ base64
B64 = 'Strigi::Base64InputStream'; B64P = B64 + '::Private'
ALPH = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
def b64_in(c):
    """the character belongs to the alphabet (RFC 4648)"""
    r = lambda a, z: b_and(ule(ord(a), c, 8), ule(c, ord(z), 8))
    return b_or(r('A', 'Z'), r('a', 'z'), r('0', '9'), eq(c, ord('+'), 8), eq(c, ord('/'), 8))
def b64_val(c):
    c = bv(c, 8); r = lambda a, z: tob(b_and(ule(ord(a), c, 8), ule(c, ord(z), 8)))
    return z3.If(r('A', 'Z'), c - 65, z3.If(r('a', 'z'), c - 71, z3.If(r('0', '9'), c + 4, z3.If(tob(eq(c, ord('+'), 8)), bv(62, 8), z3.If(tob(eq(c, ord('/'), 8)), bv(63, 8), bv(0, 8))))))
B64IN = z3.Function('b64in', z3.BitVecSort(8), z3.BoolSort()); B64VAL = z3.Function('b64val', z3.BitVecSort(8), z3.BitVecSort(8))
def b64_facts(c, inn, val): return b_imp(inn, b_and(ule(val, 63, 8), ule(c, 122, 8)))
def b64_tables(E, st):
    """the tables as initialize() leaves them: two functions b64in and b64val that
    the task of initialize() gives their meaning; what is needed of them is in b64_facts"""
    g = lambda n: st.own(E.gid(n))
    a, d = g('inalphabet'), g('decoder')
    low = lambda j: z3.simplify(z3.Extract(7, 0, bv(j, 64)))
    a.content = lambda j: z3.If(B64IN(low(j)), bv(1, 8), bv(0, 8))
    d.content = lambda j: B64VAL(low(j))
    st.setc(E.gid('initializedAlphabet'), 0, 1, 1)
@task('initialize', 'base64')
def t(E):
    st = E.state(); E.unroll_hint['initialize'] = 300
    ia = E.gid('inalphabet'); de = E.gid('decoder')
    n = 0
    for st2, r in E.callf(st, 'initialize()', []):
        n += 1
        c = fresh('c', 8)
        E.oblig(st2, eq(st2.obj(ia).content(zext(c, 8, 64)), simp(z3.If(tob(b64_in(c)), bv(1, 8), bv(0, 8))), 8), 'initialize: the alphabet is the one of RFC 4648')
        E.oblig(st2, b64_facts(c, b64_in(c), b64_val(c)), 'initialize: what the decoder uses about the tables')
        a = st2.clone(); a.assume(b64_in(c))
        E.oblig(a, eq(a.obj(de).content(zext(c, 8, 64)), b64_val(c), 8), 'initialize: every character has its value')
        E.oblig(st2, eq(st2.getc(E.gid('initializedAlphabet'), 0, 1), 1, 8), 'initialize: done once')
class B64G:
    """ghost view of the input as an automaton over its characters: R(i) how many
    characters of the current group of four were met in the first i, P(i) their
    bits, G(i) the number of bytes of complete groups; D the decoded bytes.
    (the lemma below: this is the decoding of RFC 4648)"""
    def __init__(g, b, st):
        g.b = b
        g.R = fresh_fun('R', 8); g.P = fresh_fun('P', 32); g.G = fresh_fun('G', 64); g.E = fresh('E')
        g.CL = simp(sub(b.m.L, b.c0))
        st.assume(b_and(sle(0, g.E), sle(g.E, g.CL), eq(g.R(0), 0, 8), eq(g.P(0), 0, 32), eq(g.G(0), 0)))
        st.assume(g.at(g.E)); st.assume(g.end())
    def c(g, i): return g.b.C(i)
    def end(g):
        """what is left at the first '='"""
        D, b = g.b.D, g.b; eqs = slt(g.E, g.CL); r, p, G = g.R(g.E), bv(g.P(g.E), 32), g.G(g.E)
        r2, r3 = b_and(eqs, eq(r, 2, 8)), b_and(eqs, eq(r, 3, 8))
        return b_and(eq(b.L, add(G, z3.If(tob(r2), bv(1, 64), z3.If(tob(r3), bv(2, 64), bv(0, 64))))),
                     b_imp(r2, eq(D(G), z3.Extract(17, 10, p), 8)), b_imp(r3, b_and(eq(D(G), z3.Extract(23, 16, p), 8), eq(D(simp(add(G, 1))), z3.Extract(15, 8, p), 8))))
    def at(g, i):
        """instances of the definitions at i"""
        i = bv(i, 64); j = simp(i + 1); ci = bv(g.c(i), 8); inn = B64IN(ci); D = g.b.D
        r, p, G = g.R(i), bv(g.P(i), 32), g.G(i)
        now = simp(p + bv(zext(B64VAL(ci), 8, 32), 32))
        full = b_and(inn, eq(r, 3, 8))
        s = b_imp(slt(i, g.E), b_and(ne(ci, 61, 8), sle(g.G(j), g.G(g.E)),
            b_imp(b_not(inn), b_and(eq(g.R(j), r, 8), eq(g.P(j), p, 32), eq(g.G(j), G))),
            b_imp(b_and(inn, ne(r, 3, 8)), b_and(eq(g.R(j), add(r, 1, 8), 8), eq(g.P(j), now << 6, 32), eq(g.G(j), G))),
            b_imp(full, b_and(eq(g.R(j), 0, 8), eq(g.P(j), 0, 32), eq(g.G(j), add(G, 3)), *[eq(D(simp(add(G, k))), z3.Extract(23 - 8 * k, 16 - 8 * k, now), 8) for k in range(3)]))))
        return b_and(b64_facts(ci, inn, B64VAL(ci)), ule(r, 3, 8), g.pbound(r, p), sle(0, G), s, b_imp(sle(i, g.E), sle(G, g.G(g.E))), b_imp(b_and(eq(i, g.E), slt(g.E, g.CL)), eq(ci, 61, 8)))
    @staticmethod
    def pbound(r, p): return b_and(b_imp(eq(r, 0, 8), eq(p, 0, 32)), b_imp(eq(r, 1, 8), ule(p, (1 << 12) - 1, 32)), b_imp(eq(r, 2, 8), ule(p, (1 << 18) - 1, 32)), ule(p, (1 << 24) - 1, 32))
    def bits_ok(g, i, cc, bits): return b_and(eq(g.R(i), cc, 8), eq(g.P(i), bits, 32))
    def done(g, i): return g.G(i)
@task('base64 lemma: four characters of the alphabet stand for three bytes', 'base64')
def t(E):
    """A(i) characters of the alphabet among the first i, V(k) the value of the
    k-th of them: R = A mod 4, G = 3 (A div 4), P the bits of the incomplete
    group satisfy the equations of B64G when D(3q..3q+2) are the 24 bits of V(4q..4q+3)"""
    st = E.state(); A, V, D = fresh('A'), fresh_fun('V', 8), fresh_fun('D'); inn = fresh_bool('in'); val = fresh('val', 8)
    st.assume(b_and(sle(0, A), sle(A, 1 << 60))); A1 = simp(z3.If(tob(inn), bv(A, 64) + 1, bv(A, 64)))
    st.assume(b_imp(inn, eq(V(A), val, 8))); st.assume(ule(val, 63, 8))
    def parts(a):
        a = bv(a, 64); q = z3.LShR(a, 2); r = simp(z3.Extract(7, 0, a & 3)); v = [bv(zext(V(simp(4 * q + k)), 8, 32), 32) for k in range(4)]
        P_ = simp(z3.If(r == 0, bv(0, 32), z3.If(r == 1, v[0] << 6, z3.If(r == 2, (v[0] << 12) | (v[1] << 6), (v[0] << 18) | (v[1] << 12) | (v[2] << 6)))))
        for k in range(4): st.assume(ule(V(simp(4 * q + k)), 63, 8))
        bits = (v[0] << 18) | (v[1] << 12) | (v[2] << 6) | v[3]
        for k in range(3): st.assume(eq(D(simp(3 * q + k)), z3.Extract(23 - 8 * k, 16 - 8 * k, bits), 8))
        return r, P_, simp(3 * q)
    r, p, G = parts(A); r1, p1, G1 = parts(A1); now = simp(p + zext(val, 8, 32))
    E.npre = E.nret = 1
    E.oblig(st, B64G.pbound(r, p), 'the bits of an incomplete group')
    E.oblig(st, b_imp(b_not(inn), b_and(eq(r1, r, 8), eq(p1, p, 32), eq(G1, G))), 'other characters are left out')
    E.oblig(st, b_imp(b_and(inn, ne(r, 3, 8)), b_and(eq(r1, add(r, 1, 8), 8), eq(p1, now << 6, 32), eq(G1, G))), 'a character within a group')
    for k in range(3): E.oblig(st, b_imp(b_and(inn, eq(r, 3, 8)), b_and(eq(r1, 0, 8), eq(p1, 0, 32), eq(G1, add(G, 3)), eq(D(simp(add(G, k))), z3.Extract(23 - 8 * k, 16 - 8 * k, now), 8))), 'the last character of a group (byte %d)' % k)
    E.oblig(st, b_imp(eq(r, 2, 8), eq(D(G), z3.Extract(7, 0, (bv(zext(V(G_(A)), 8, 32), 32) << 2) | z3.LShR(bv(zext(V(simp(G_(A) + 1)), 8, 32), 32), 4)), 8)), 'the first byte of a group depends on two characters')
    E.oblig(st, b_imp(eq(r, 2, 8), eq(D(G), z3.Extract(17, 10, p), 8)), 'an end after two characters: one byte')
    E.oblig(st, b_imp(eq(r, 3, 8), b_and(eq(D(G), z3.Extract(23, 16, p), 8), eq(D(simp(add(G, 1))), z3.Extract(15, 8, p), 8))), 'an end after three characters: two bytes')
def G_(A): return simp(4 * z3.LShR(bv(A, 64), 2))
def b64_i(E, b, st, o):
    """characters taken from the input so far"""
    p, e = E.getf(st, o, B64P, 'pos'), E.getf(st, o, B64P, 'pend')
    if p.o is None: return simp(sub(b.inpos(st), b.c0))
    return simp(sub(sub(b.inpos(st), b.c0), sub(e.f, p.f)))
def b64_todo(b, n, bits, W):
    """the n bytes still to be delivered are the next ones"""
    D = b.D
    return b_and(*[b_imp(eq(n, k, 8), b_and(*[eq(D(simp(add(W, j))), z3.Extract(8 * (k - 1 - j) + 7, 8 * (k - 1 - j), bv(bits, 32)), 8) for j in range(k)])) for k in (1, 2, 3)])
def b64_inv(g, b, i, live, todo, cc, bits, W, isok):
    """class invariant of a decoder in good health"""
    todo64 = zext(todo, 8, 64); D = b.D
    r = [ule(todo, 3, 8), sle(add(W, todo64), b.L), b64_todo(b, todo, bits, W)]
    if live:
        r += [sle(0, i), sle(i, g.E), b_imp(ne(todo, 0, 8), b_and(eq(g.R(i), 0, 8), eq(add(W, todo64), g.done(i)))),
              b_imp(eq(todo, 0, 8), b_and(ule(cc, 3, 8), eq(W, g.done(i)), g.bits_ok(i, cc, bits)))]
    else: r += [b_imp(isok, eq(add(W, todo64), b.L))]
    return r
for live in ('start', 'seg', 'rest', None):
    @task(B64 + '::fillBuffer ' + {'start': '(at the start)', 'seg': '(working)', 'rest': '(bytes of a group left)', None: '(input used up)'}[live], 'base64', fn=B64 + '::fillBuffer')
    def t(E, live=live):
        st = E.state(); b = Fill(E, st, B64, size=M1); g = B64G(b, st); b64_tables(E, st)
        o = E.raw_obj(st, B64P, heap='new')
        E.setf(st, b.oid, B64, 'p', P(o, 0)); E.setf(st, o, B64P, 'p', P(b.oid, 0))
        bits, cc, todo = fresh('bits', 32), fresh('cc', 8), fresh('bytestodo', 8)
        E.watch += [('bits', bits), ('char_count', cc), ('bytestodo', todo)]
        for n, v in (('bits', bits), ('char_count', cc), ('bytestodo', todo), ('nleft', 0)): E.setf(st, o, B64P, n, v)
        E.setf(st, o, B64P, 'input', NULL if live is None else P(b.inp, 0))
        seg = st.obj(b.inp).ghost
        if live in ('seg', 'rest'):
            st.assume(ne(todo, 0, 8) if live == 'rest' else eq(todo, 0, 8))
            f = fresh('offset'); ln = simp(sub(seg['s1'], seg['s0']))
            st.assume(b_and(sle(0, f), sle(f, ln), eq(seg['s1'], b.inpos(st))))
            E.setf(st, o, B64P, 'pos', P(seg['seg'], f)); E.setf(st, o, B64P, 'pend', P(seg['seg'], ln))
            i = simp(sub(sub(b.inpos(st), b.c0), sub(ln, f)))
        elif live == 'start':
            E.setf(st, o, B64P, 'pos', NULL); E.setf(st, o, B64P, 'pend', NULL); i = simp(sub(b.inpos(st), b.c0))
            st.assume(eq(i, 0))
        else:
            E.setf(st, o, B64P, 'pos', U); E.setf(st, o, B64P, 'pend', U); i = fresh('i')
        isok = eq(b.status0, OK, 32)
        st.assume(g.at(i)); st.assume(b_and(*b64_inv(g, b, i, live, todo, cc, bits, b.W0, isok)))
        if live: st.assume(b_and(isok, b_not(b.inerr(st))))
        if live == 'start': st.assume(b_and(eq(todo, 0, 8), eq(cc, 0, 8), eq(b.W0, 0)))
        k0 = b.k0 = fresh('k0')
        def hk(s, ctx, h, get0, ds):
            if short(ctx.f['dem']) != B64P + '::fillBuffer': return []
            out = []
            cellget = lambda get, n: E.getf(get.st, o, B64P, n)
            def I(get): return b64_i(E, b, get.st, o)
            ptrs = [j for j, ty in sorted(ctx.pty.items()) if ty == 'ptr']; ints = [j for j, ty in sorted(ctx.pty.items()) if ty == 'i32']
            out.append(('axiom: alphabet', locally(lambda get: g.at(I(get)))))
            out.append(('must: position', locally(lambda get: b_and(sle(0, I(get)), sle(I(get), g.E)))))
            def pend(get):
                p, e = cellget(get, 'pos'), cellget(get, 'pend')
                if p.o is None: return e.o is None
                gh = get.st.obj(b.inp).ghost
                return b_and(p.o == e.o == gh['seg'], eq(e.f, sub(gh['s1'], gh['s0'])), eq(gh['s1'], b.inpos(get.st)), sle(0, p.f), sle(p.f, e.f))
            out.append(('must: pending input is the last data read', pend))
            out.append(('must: bits collected', locally(lambda get: b_and(ule(cellget(get, 'char_count'), 3, 8), g.bits_ok(I(get), cellget(get, 'char_count'), cellget(get, 'bits'))))))
            out.append(('must: healthy', lambda get: b_and(b_not(b.inerr(get.st)), eq(b.status(get.st), b.status0, 32), eq(cellget(get, 'bytestodo'), 0, 8))))
            for j in ptrs:
                for n in ints:
                    nm = 'must: ' if len(ptrs) == len(ints) == 1 else ''
                    out.append((nm + 'written %d %d' % (j, n), lambda get, j=j, n=n: b_and(get.phi[j].o == b.buf.id, sle(0, get.phi[n], 32), sle(get.phi[n], b.space, 32), eq(get.phi[j].f, zext(get.phi[n], 32, 64)))))
            for n in ints:
                nm = 'must: ' if len(ints) == 1 else ''
                out.append((nm + 'delivered %d' % n, locally(lambda get, n=n: eq(add(b.W0, sext(get.phi[n], 32, 64)), g.done(I(get))))))
                out.append((nm + 'content %d' % n, lambda get, n=n: b_imp(ult(k0, zext(get.phi[n], 32, 64)), eq(get.st.obj(b.buf.id).content(k0), b.D(simp(add(b.W0, k0))), 8))))
            return out
        E.loop_hooks.append(hk); E.loop_only.add(B64P + '::fillBuffer')
        for st2, r in E.callf(st, B64 + '::fillBuffer', [P(b.oid, 0), P(b.buf.id, 0), b.space]):
            E.setg(st2, b.inp, 'W', simp(add(b.W0, z3.If(tob(slt(r, 0, 32)), bv(0, 64), bv(sext(r, 32, 64), 64)))), 64)
            b.goals(st2, r, eq(b.status0, ERR, 32), lambda s: b.inerr(s))
            q = E.getf(st2, o, B64P, 'input'); lv = isinstance(q, P) and q.o is not None
            c = lambda n: E.getf(st2, o, B64P, n)
            a = st2.clone()
            i1 = b64_i(E, b, a, o) if lv else None
            if lv: a.assume(g.at(i1))
            for k, x in enumerate(b64_inv(g, b, i1, lv, c('bytestodo'), c('char_count'), c('bits'), a.ghost['W'], eq(b.status(a), OK, 32))):
                E.oblig(a, x, 'class invariant of the base64 decoder (%d)' % k)
            E.oblig(a, b_imp(lv, b_and(eq(b.status(a), OK, 32), b_not(b.inerr(a)))), 'class invariant: the input is let go after an error')

# ------------------------------------------------------------------ iconv
ENC = 'Strigi::EncodingInputStream'; ENCP = ENC + '::Private'; RDR = 'Strigi::InputStreamReader'
EINVAL_, E2BIG_, EILSEQ_ = 22, 7, 84
INC = 64      # an incomplete character at the end of the text is shorter than this
def iconv_contract(E, b, conv):
    """iconv(3): converts the bytes it is given; what it wrote so far is the
    conversion D[0..W) of what it consumed C[0..cpos); asked to finish (no input)
    it writes what it kept.  Live between iconv_open and iconv_close."""
    def ic(s, st, a, ins):
        cd, pin, pil, pout, pol = a
        s.oblig(st, isinstance(cd, P) and cd.o == conv, 'iconv: a converter that was opened', ins)
        ob, ol = s.load(st, pout, 'ptr', ins), s.load(st, pol, 'i64', ins)
        W, cp = st.ghost['W'], st.ghost['cpos']
        out = []
        flush = isinstance(pin, P) and pin.o is None
        if not flush:
            ib, il = s.load(st, pin, 'ptr', ins), s.load(st, pil, 'i64', ins)
            b.next_in_ok(st, ib, il, ins, 'iconv input')
        else:
            ib, il = None, 0
            s.oblig(st, eq(add(b.c0, cp), b.m.L), 'iconv: asked to finish only after the whole input', ins)
        s.oblig(st, b_not(st.ghost['flushed']), 'iconv: not used after the end', ins)
        items = simp(ol) if b.es == 1 else norm(z3.simplify(z3.LShR(bv(ol, 64), 2)))
        for kind in ('ok', 'inval', '2big', 'bad'):
            if flush and kind == 'inval': continue
            x_ = st.clone()
            n, x = fresh('produced'), fresh('consumed')
            x_.assume(b_and(ule(n, items), ule(x, il), sle(add(W, n), b.L)))
            if kind == 'ok':
                x_.assume(eq(x, il)); r = fresh('irreversible'); x_.assume(ne(r, M1))
                if flush: x_.assume(eq(add(W, n), b.L)); s.setg(x_, b.inp, 'flushed', True, 1)
            else:
                r = M1
                e = fresh('errno', 32) if kind == 'bad' else {'inval': EINVAL_, '2big': E2BIG_}[kind]
                if kind == 'inval': x_.assume(b_and(slt(x, il), slt(sub(il, x), INC)))
                if kind == 'bad': x_.assume(b_and(ne(e, EINVAL_, 32), ne(e, E2BIG_, 32))); s.setg(x_, b.inp, 'bad', True, 1)
                s.setg(x_, b.inp, 'errno', e, 32)
            if not s.feasible(x_, True): continue
            s.setg(x_, b.inp, 'inc', kind == 'inval', 1)
            b.write(x_, ob, n, items, ins, 'iconv output')
            s.setg(x_, b.inp, 'cpos', simp(add(cp, x)), 64)
            nb = simp(mul(n, b.es))
            s.store(x_, pout, P(ob.o, simp(add(ob.f, nb))), 'ptr', ins); s.store(x_, pol, simp(sub(ol, nb)), 'i64', ins)
            if not flush:
                s.store(x_, pin, P(ib.o, simp(add(ib.f, x))), 'ptr', ins); s.store(x_, pil, simp(sub(il, x)), 'i64', ins)
            out.append((x_, r))
        return out
    ic.label = 'iconv (documented interface, POSIX)'
    E.contracts['iconv'] = ic
class Conv:
    """the converting streams: fields and class invariant"""
    def __init__(c, E, reader):
        c.E = E; c.reader = reader; c.cls = RDR if reader else ENC; c.priv = RDR if reader else ENCP
        c.fin = 'finishedDecoding' if reader else 'finishedEncoding'
    def state(c, st, live):
        E = c.E; b = c.b = Fill(E, st, c.cls, es=4 if c.reader else 1, size=M1)
        o = c.o = b.oid if c.reader else E.raw_obj(st, ENCP, heap='new')
        if not c.reader:
            E.setf(st, b.oid, ENC, 'p', P(o, 0)); E.setf(st, o, ENCP, 'p', P(b.oid, 0))
            pos, end = fresh('pendingPos', 32), fresh('pendingEnd', 32); E.watch += [('pendingPos', pos), ('pendingEnd', end)]
            E.setf(st, o, ENCP, 'pendingPos', pos); E.setf(st, o, ENCP, 'pendingEnd', end)
            c.parr = E.sub_array(st, o, field(E.prog, ENCP, 'pending')[0], 64)
            c.npend = simp(z3.If(tob(slt(pos, end, 32)), bv(sext(sub(end, pos, 32), 32, 64), 64), bv(0, 64)))
            st.assume(b_and(sle(0, pos, 32), sle(0, end, 32), sle(end, 64, 32)))
            E.setg(st, b.inp, 'W', simp(add(b.W0, c.npend)), 64)
            junk = fresh_fun('junk'); p64 = sext(pos, 32, 64)
            st.own(c.parr).content = lambda j: z3.If(tob(b_and(sle(p64, j), slt(j, add(p64, c.npend)))), bv(b.D(simp(add(b.W0, sub(j, p64)))), 8), bv(junk(j), 8))
        c.sb = SBuf(E, 'char', o, field(E.prog, c.priv, 'charbuf')[0])
        c.sb.make_buf(E, st, False)
        conv = c.conv = st.new('struct', 8, 'iconv descriptor').id
        E.setf(st, o, c.priv, 'converter', P(conv, 0))
        E.setf(st, o, c.priv, 'input', P(b.inp, 0) if live else NULL)
        E.setf(st, o, c.priv, c.fin, fresh('finished', 8)); E.setf(st, o, c.priv, 'charsLeft', fresh('charsLeft', 32))
        E.setg(st, b.inp, 'flushed', fresh_bool('flushed'), 1); E.setg(st, b.inp, 'inc', fresh_bool('inc'), 1)
        for x in c.sb.rep(E, st): st.assume(x)
        arr = c.sb.g(st, c.sb.o_start).o
        off, av = c.sb.off_items(st), sext(c.sb.g(st, c.sb.o_avail), 32, 64); junk2 = fresh_fun('junk'); cp = b.cp0
        st.own(arr).content = lambda j: z3.If(tob(b_and(sle(off, j), slt(j, add(off, av)))), bv(b.C(simp(add(cp, sub(j, off)))), 8), bv(junk2(j), 8))
        for x in c.inv(st, live): st.assume(x)
        iconv_contract(E, b, conv)
    def inv(c, st, live):
        E, b, sb = c.E, c.b, c.sb
        g = lambda n: E.getf(st, c.o, c.priv, n)
        off, av, bs = sb.off_items(st), sb.g(st, sb.o_avail), sb.g(st, sb.o_size)
        if off is None: return [False]
        fin, left, W, cp = g(c.fin), g('charsLeft'), st.ghost['W'], st.ghost['cpos']
        fl = st.ghost['flushed']; ok = eq(b.status(st), OK, 32)
        r = [sle(INC, bs, 32), ule(fin, 1, 8), b_imp(eq(fin, 1, 8), fl), b_imp(fl, eq(fin, 1, 8)), b_imp(fl, eq(W, b.L)), sle(W, b.L)]
        if live: r += [b_imp(ok, b_and(eq(fin, 0, 8), b_not(b.inerr(st)), b_not(st.ghost['bad']), eq(b.inpos(st), add(add(b.c0, cp), sext(av, 32, 64))),
                             b_imp(b_and(eq(off, 0), eq(left, 0, 32)), slt(av, INC, 32)), b_imp(b_and(eq(off, 0), eq(left, 0, 32), slt(0, av, 32)), st.ghost['inc'])))]
        else: r += [b_imp(ok, b_and(eq(av, 0, 32), eq(add(b.c0, cp), b.m.L)))]
        if not c.reader: 
            pos, end = g('pendingPos'), g('pendingEnd')
            r += [b_and(sle(0, pos, 32), sle(0, end, 32), sle(end, 64, 32))]
        return r
    def check(c, st):
        E, b, sb = c.E, c.b, c.sb
        q = E.getf(st, c.o, c.priv, 'input'); live = isinstance(q, P) and q.o is not None
        for x in sb.rep(E, st): E.oblig(st, x, 'class invariant: the buffer of bytes')
        for k, x in enumerate(c.inv(st, live)): E.oblig(st, x, 'class invariant of the converter (%d)' % k)
        a = st.clone(); a.assume(eq(b.status(a), OK, 32))
        if not E.feasible(a, True): return
        k = fresh('k'); off, av = sb.off_items(a), sext(sb.g(a, sb.o_avail), 32, 64)
        p = sb.g(a, sb.o_start)
        E.oblig(a, b_imp(ult(k, av), eq(a.obj(p.o).content(simp(add(off, k))), b.C(add(a.ghost['cpos'], k)), 8)), 'class invariant: the bytes not converted yet are the next ones of the input')
    def pend(c, st, r):
        """what the converter wrote = what was delivered + what is pending"""
        E, b = c.E, c.b
        n = simp(z3.If(tob(slt(r, 0, 32)), bv(0, 64), bv(sext(r, 32, 64), 64))); W1 = add(b.W0, n)
        a = st.clone(); a.assume(eq(b.status(a), OK, 32))
        if not E.feasible(a, True): return
        if c.reader: E.oblig(a, eq(a.ghost['W'], W1), 'all converted characters are delivered'); return
        pos, end = E.getf(a, c.o, ENCP, 'pendingPos'), E.getf(a, c.o, ENCP, 'pendingEnd')
        np = simp(z3.If(tob(slt(pos, end, 32)), bv(sext(sub(end, pos, 32), 32, 64), 64), bv(0, 64)))
        E.oblig(a, eq(a.ghost['W'], add(W1, np)), 'all converted bytes are delivered or pending')
        k = fresh('k')
        E.oblig(a, b_imp(ult(k, np), eq(a.obj(c.parr).content(simp(add(sext(pos, 32, 64), k))), b.D(simp(add(W1, k))), 8)), 'pending bytes are the next ones of the converted text')
for reader in (False, True):
    cls_ = RDR if reader else ENC
    for live in (True, False):
        @task(cls_ + '::fillBuffer' + (' (working)' if live else ' (end of the input)'), 'iconv', fn=cls_ + '::fillBuffer')
        def t(E, live=live, reader=reader):
            st = E.state(); c = Conv(E, reader); c.state(st, live); b = c.b
            st.assume(eq(b.status0, OK, 32))
            cause = lambda s: b_or(b.inerr(s), s.ghost['bad'], b_and(s.ghost['inc'], eq(b.inpos(s), b.m.L)), b.m.short)
            for st2, r in E.callf(st, c.cls + '::fillBuffer', [P(b.oid, 0), P(b.buf.id, 0), b.space]):
                b.goals(st2, r, False, cause)
                c.pend(st2, r); c.check(st2)
for reader in (False, True):
    cls_ = RDR if reader else ENC
    @task(cls_ + '::' + cls_.split('::')[1], 'iconv')
    def t(E, reader=reader):
        for noenc in ((False, True)):
            st = E.state(); m = AbsStream(E.lay, 'input'); inp = m.make(E, st)
            cls = RDR if reader else ENC; priv = RDR if reader else ENCP
            def ctxt(nm):
                n = fresh('len_' + nm); st.assume(b_and(sle(0, n), sle(n, 1 << 20))); D = fresh_fun(nm)
                st.assume(eq(D(n), 0, 8)); o = E.new_arr(st, simp(add(n, 1)), nm, 1, D); o.ro = True
                return P(o.id, 0)
            conv = st.new('struct', 8, 'iconv descriptor').id
            E.setg(st, inp, 'open', False, 1)
            def iopen(s, st, a, ins):
                for k in (0, 1): s.oblig(st, isinstance(a[k], P) and a[k].o is not None, 'iconv_open: a name is given', ins)
                bad = st.clone()
                s.setg(st, inp, 'open', True, 1)
                return [(bad, P(None, M1)), (st, P(conv, 0))]
            iopen.label = 'iconv_open (documented interface, POSIX)'
            def iclose(s, st, a, ins):
                s.oblig(st, isinstance(a[0], P) and a[0].o == conv and st.ghost['open'], 'iconv_close: closes what was opened, once', ins)
                s.setg(st, inp, 'open', False, 1)
                return [(st, 0)]
            iclose.label = 'iconv_close (documented interface, POSIX)'
            E.contracts['iconv_open'] = iopen; E.contracts['iconv_close'] = iclose
            o = E.raw_obj(st, cls, heap='new')
            enc = NULL if noenc else ctxt('encoding')
            args = [P(o, 0), P(inp, 0), enc] + ([] if reader else [ctxt('target encoding') if not noenc else NULL])
            for st2, r in E.callf(st, cls + '::' + cls.split('::')[1], args):
                v = Impl(E, o, None, 0).snap(st2)
                E.oblig(st2, b_and(eq(v.pos, 0), eq(v.size, M1), b_or(eq(v.status, OK, 32), eq(v.status, ERR, 32))), 'constructor: at 0, size unknown, Ok or in error')
                E.oblig(st2, b_imp(eq(v.status, OK, 32), st2.ghost['open']), 'constructor: an unknown charset is an error')
                E.oblig(st2, b_imp(st2.ghost['open'], eq(v.status, OK, 32)), 'constructor: a known charset is no error')
                if noenc and not reader: E.oblig(st2, eq(v.status, ERR, 32), 'constructor: no charset is an error')
                a = st2.clone(); a.assume(eq(v.status, OK, 32))
                if E.feasible(a, True):
                    q = o if reader else E.getf(a, o, ENC, 'p').o
                    sb = SBuf(E, 'char', q, field(E.prog, priv, 'charbuf')[0])
                    for x in sb.rep(E, a): E.oblig(a, x, 'constructor: the buffer of bytes')
                    g = lambda n: E.getf(a, q, priv, n)
                    E.oblig(a, b_and(eq(sb.g(a, sb.o_avail), 0, 32), sle(INC, sb.g(a, sb.o_size), 32), eq(g('charsLeft'), 0, 32), eq(g('finishedDecoding' if reader else 'finishedEncoding'), 0, 8), eq(sb.off_items(a), 0)), 'constructor: establishes the class invariant')
                    if not reader: E.oblig(a, b_and(eq(g('pendingPos'), 0, 32), eq(g('pendingEnd'), 0, 32)), 'constructor: nothing is pending')
                    E.oblig(a, isinstance(g('input'), P) and g('input').o == inp, 'constructor: the input is kept')
                for st3, r3 in E.callf(st2, cls + '::~' + cls.split('::')[1], [P(o, 0)]):
                    E.oblig(st3, b_not(st3.ghost['open']), 'destructor: the converter is closed')
