"""Assumed contracts of code outside /repo: C library, std::string, operator
new/delete, iostream output.  Each one is listed in the evidence when used."""
import z3
from sym import *
import sym
from execu import short, strip_params

LIM = 1 << 40
PG = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
PG2 = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'
ALLOC = ', std::allocator<char> const&'

def normname(d):
    if 'basic_string<char' in d:
        d = d.replace(PG2, 'std::string').replace(PG, 'std::string')
        d = d.replace(ALLOC, '')
    return d

LIB = {}
def lib(*names):
    def deco(fn):
        for n in names: LIB[n] = fn
        return fn
    return deco
_cache = {}

def lib_call(s, st, name, dem, args, ins, f):
    k = _cache.get(name)
    if k is None:
        d = normname(dem)
        k = LIB.get(name) or LIB.get(d) or LIB.get(strip_params(d))
        if k is None:
            if d.startswith('std::ostream::operator<<') or d.startswith('std::basic_ostream<char') or d.startswith('std::ostream& std::'):
                k = lambda s, st, a, ins: [(st, a[0])]
                k.label = 'ostream output'
            elif 'basic_ostringstream<char' in d or 'basic_stringstream<char' in d:
                t = strip_params(d).split('::')[-1]
                if t == 'str':
                    def k(s, st, a, ins):
                        n = fresh('textlen'); st.assume(b_and(sle(0, n), sle(n, LIM)))
                        st.setc(a[0].o, a[0].f, 32, Str(n, fresh_fun('text'))); return [(st, None)]
                else: k = lambda s, st, a, ins: [(st, None)]
                k.label = 'ostringstream (text of messages is arbitrary)'
            elif name.startswith('llvm.'):
                k = False
                for p, fn in INTR.items():
                    if name.startswith(p): k = fn
            else: k = False
        _cache[name] = k
    if k is False: return None
    r = k(s, st, args, ins)
    if r is not None and not name.startswith('llvm.'):
        l = getattr(k, 'label', None) or short(normname(dem))
        s.stats.trusted[l] = s.stats.trusted.get(l, 0) + 1
    return r

# ------------------------------------------------------------------ intrinsics
def i_memcpy(s, st, a, ins):
    s.copy_bytes(st, a[0], a[1], a[2], ins); return [(st, None)]
def i_memset(s, st, a, ins):
    s.set_bytes(st, a[0], a[1], a[2], ins); return [(st, None)]
def i_nop(s, st, a, ins): return [(st, None)]
def i_umulo(s, st, a, ins):
    if isc(a[0]) and isc(a[1]):
        v = a[0] * a[1]
        return [(st, [v & M1, v > M1])]
    A, B = bv(a[0], 64), bv(a[1], 64)
    return [(st, [simp(A * B), simp(z3.Not(z3.BVMulNoOverflow(A, B, False)))])]
def i_trap(s, st, a, ins):
    s.oblig(st, False, 'trap unreachable', ins); return []
INTR = {'llvm.memcpy': i_memcpy, 'llvm.memmove': i_memcpy, 'llvm.memset': i_memset,
        'llvm.lifetime': i_nop, 'llvm.umul.with.overflow.i64': i_umulo, 'llvm.trap': i_trap,
        'llvm.experimental.noalias': i_nop, 'llvm.assume': i_nop}

@lib('__assert_fail')
def assert_fail(s, st, a, ins):
    txt = cstr_lit(st, a[0])
    s.oblig(st, False, 'assert(%s)' % txt, ins)
    return []
@lib('abort', 'exit', '__cxa_pure_virtual')
def l_abort(s, st, a, ins):
    s.oblig(st, False, 'abort unreachable', ins); return []
@lib('std::__throw_bad_alloc', 'std::__throw_logic_error', 'std::__throw_length_error', 'std::__throw_bad_array_new_length', 'std::__throw_out_of_range', 'std::__throw_out_of_range_fmt')
def l_throw(s, st, a, ins):
    s.oblig(st, False, 'library exception unreachable', ins); return []

def cstr_lit(st, p):
    try:
        o = st.obj(p.o); r = b''
        for k in range(300):
            c = o.content(p.f + k) if o.kind == 'arr' else st._byte(o, p.f + k)
            if not isc(c) or c == 0: break
            r += bytes([c])
        return r.decode('latin1')
    except Exception:
        return '?'

# ------------------------------------------------------------------ heap
def heap_es(s):
    h = getattr(s, 'es_hint', {}).get(s.curfn[-1])
    if h: return h
    return 4 if 'wchar_t' in s.curfn[-1] else 1
@lib('operator new(unsigned long)', 'operator new')
def l_new(s, st, a, ins):
    n = a[0]
    if not isc(n):
        n = simp(n)
    if isc(n):
        o = st.new('struct', n, 'object from new at ' + s.where(ins)); o.heap = 'new'
    else:
        o = s.new_arr(st, n, 'memory from new', heap_es(s), heap='new')
    return [(st, P(o.id, 0))]
@lib('operator new[](unsigned long)', 'operator new[]')
def l_newa(s, st, a, ins):
    s.oblig(st, b_and(sle(0, a[0]), sle(a[0], 1 << 40)), 'allocation size is sane', ins)
    o = s.new_arr(st, a[0], 'array from new[]', heap_es(s), heap='new[]')
    return [(st, P(o.id, 0))]
@lib('malloc')
def l_malloc(s, st, a, ins):
    s.oblig(st, b_and(sle(0, a[0]), sle(a[0], 1 << 40)), 'allocation size is sane', ins)
    o = s.new_arr(st, a[0], 'memory from malloc', heap_es(s), heap='malloc')
    return [(st, P(o.id, 0))]
def do_free(s, st, p, ins, tag):
    if p is U:
        s.oblig(st, False, 'free of an uninitialised pointer', ins); raise Dead()
    if not isinstance(p, P): raise Unsupported('free')
    if p.o is None: return
    o = st.obj(p.o)
    if o.model is not None and hasattr(o.model, 'on_free'): o.model.on_free(s, st, p.o, ins)
    s.oblig(st, b_and(o.alive if o.alive is not True else True, eq(p.f, 0)), 'released memory is live and whole (%s)' % o.name, ins)
    if o.heap != tag:
        s.oblig(st, False, 'memory released the way it was allocated (%s: %s, %s)' % (o.name, o.heap, tag), ins)
    st.own(p.o).alive = False
    st.mark('alive', p.o)
    for _, _, i in o.subs or ():
        st.own(i).alive = False
        st.mark('alive', i)
@lib('free')
def l_free(s, st, a, ins):
    do_free(s, st, a[0], ins, 'malloc'); return [(st, None)]
@lib('operator delete(void*)', 'operator delete', 'operator delete(void*, unsigned long)')
def l_del(s, st, a, ins):
    do_free(s, st, a[0], ins, 'new'); return [(st, None)]
@lib('operator delete[](void*)', 'operator delete[]')
def l_dela(s, st, a, ins):
    do_free(s, st, a[0], ins, 'new[]'); return [(st, None)]
@lib('realloc')
def l_realloc(s, st, a, ins):
    p, n = a
    s.oblig(st, b_and(sle(0, n), sle(n, 1 << 40)), 'allocation size is sane', ins)
    if p is U:
        s.oblig(st, False, 'realloc of an uninitialised pointer', ins); raise Dead()
    # resource assumption: growing past 1 GiB is out of scope
    st.assume(ult(n, 1 << 30))
    if not s.feasible(st, True): return []
    s.stats.trusted['realloc: never asked for 1 GiB or more, never fails'] = 1
    o = s.new_arr(st, n, 'memory from realloc', heap_es(s), heap='malloc')
    if p.o is not None:
        old = st.obj(p.o)
        oc, osz = old.content, old.size
        es = old.es
        o.es = es
        junk = fresh_fun('junk', 8 * es)
        lim = udiv_c(osz, es)
        w = 8 * es
        def g(j, oc=oc, lim=lim, junk=junk):
            c = simp(ult(j, lim))
            if c is True: return oc(j)
            if c is False: return junk(j)
            return z3.If(c, bv(oc(j), w), bv(junk(j), w))
        do_free(s, st, p, ins, 'malloc')
        o.content = g
    return [(st, P(o.id, 0))]

# ------------------------------------------------------------------ memory and C strings
@lib('memcpy', 'memmove')
def l_memcpy(s, st, a, ins):
    s.copy_bytes(st, a[0], a[1], a[2], ins); return [(st, a[0])]
@lib('memset')
def l_memset(s, st, a, ins):
    s.set_bytes(st, a[0], trunc(a[1], 8), a[2], ins); return [(st, a[0])]

def rd(s, st, p, n):
    """list of n bytes at p, n constant, bounds already checked"""
    f = s.bytes_fn(st, p, n)
    return [bv(f(k), 8) for k in range(n)]
def cmp_result(s, st, xs, ys, stop0=False, fold=None):
    """result of memcmp/strncmp on byte lists: sign of first difference"""
    if fold: xs = [fold(x) for x in xs]; ys = [fold(y) for y in ys]
    r = z3.BitVecVal(0, 32)
    for x, y in reversed(list(zip(xs, ys))):
        d = z3.ZeroExt(24, x) - z3.ZeroExt(24, y)
        r = z3.If(x != y, d, z3.If(x == 0, z3.BitVecVal(0, 32), r) if stop0 else r)
    return simp(r)
def lower(x): return z3.If(z3.And(z3.UGE(x, 65), z3.ULE(x, 90)), x + 32, x)

@lib('memcmp')
def l_memcmp(s, st, a, ins):
    n = simp(a[2])
    if not isc(n):
        s.check_access(st, a[0], n, 'block read', ins); s.check_access(st, a[1], n, 'block read', ins)
        return [(st, fresh('memcmp', 32))]
    s.check_access(st, a[0], n, 'block read', ins)
    s.check_access(st, a[1], n, 'block read', ins)
    return [(st, cmp_result(s, st, rd(s, st, a[0], n), rd(s, st, a[1], n)))]

def str_cmp_n(s, st, a, b, n, ins, fold=None):
    """strncmp with constant n: reads stop at the first difference or NUL"""
    fa = s.bytes_fn(st, a, n); fb = s.bytes_fn(st, b, n)
    oa, ob = st.obj(a.o), st.obj(b.o)
    # obligation: byte k of either side is readable whenever the first k bytes agree and are not NUL
    xs = []; ys = []
    agree = True
    for k in range(n):
        for q, o in ((a, oa), (b, ob)):
            sz = o.size
            ok = simp(b_and(sle(0, q.f), slt(add(q.f, k), sz)))
            if ok is not True:
                s.oblig(st, b_imp(agree, ok), 'string comparison within bounds (%s)' % o.name, ins)
                sz_c = simp(agree)
        va = fa(k) if not (isc(a.f) and isc(oa.size) and a.f + k >= oa.size) else 0
        vb = fb(k) if not (isc(b.f) and isc(ob.size) and b.f + k >= ob.size) else 0
        x, y = bv(va, 8), bv(vb, 8)
        xs.append(x); ys.append(y)
        fx, fy = (fold(x), fold(y)) if fold else (x, y)
        agree = simp(b_and(agree, simp(fx == fy), simp(x != 0)))
        if agree is False: break
    return cmp_result(s, st, xs, ys, True, fold)
@lib('strncmp')
def l_strncmp(s, st, a, ins):
    n = simp(a[2])
    if not isc(n): raise Unsupported('strncmp with symbolic length')
    return [(st, str_cmp_n(s, st, a[0], a[1], n, ins))]
@lib('strncasecmp')
def l_strncasecmp(s, st, a, ins):
    n = simp(a[2])
    if not isc(n): raise Unsupported('strncasecmp with symbolic length')
    return [(st, str_cmp_n(s, st, a[0], a[1], n, ins, lower))]
@lib('strlen')
def l_strlen(s, st, a, ins):
    return [(st, c_strlen(s, st, a[0], ins))]
def c_strlen(s, st, p, ins):
    if p is U or not isinstance(p, P) or p.o is None:
        s.oblig(st, False, 'strlen of a valid string', ins); raise Dead()
    o = st.obj(p.o)
    if o.alive is not True: s.oblig(st, o.alive, 'string is live', ins)
    # constant strings
    if isc(p.f) and isc(o.size):
        f = s.bytes_fn(st, p, max(0, o.size - p.f)) if o.kind != 'arr' or o.es == 1 else None
        for k in range(p.f, o.size):
            c = f(k - p.f)
            if not isc(c): break
            if c == 0: return k - p.f
    n = fresh('strlen')
    # the terminator must be inside: its last byte is 0, or some byte is known to be 0
    if o.kind == 'arr':
        last = sub(o.size, 1)
        ok = b_and(slt(p.f, o.size), sle(0, p.f), eq(o.content(simp(last)), 0, 8))
        s.oblig(st, ok, 'string is terminated inside its memory (%s)' % o.name, ins)
        st.assume(b_and(sle(0, n), slt(add(p.f, n), o.size), eq(o.content(simp(add(p.f, n))), 0, 8)))
        st.ghost.setdefault('nz', ())
        st.ghost['nz'] = st.ghost['nz'] + ((o.content, p.f, n),)
        # instances of "no earlier NUL"
        for k in range(4):
            st.assume(b_imp(ult(k, n), ne(o.content(simp(add(p.f, k))), 0, 8)))
        if isc(o.size) and isc(p.f) and o.size - p.f <= 300:
            for k in range(o.size - p.f):
                st.assume(b_imp(ult(k, n), ne(o.content(p.f + k), 0, 8)))
    else:
        st.assume(b_and(sle(0, n), sle(n, LIM)))
    return n

# ------------------------------------------------------------------ std::string
def gets(s, st, p, ins):
    if p is U or not isinstance(p, P) or p.o is None:
        s.oblig(st, False, 'string object exists', ins); raise Dead()
    o = st.obj(p.o)
    if o.alive is not True:
        if not s.oblig(st, o.alive, 'string object is live (%s)' % o.name, ins): raise Dead()
    v = st.getc(p.o, p.f, 32) if o.kind != 'arr' else None
    if not isinstance(v, Str):
        if v is U:
            s.oblig(st, False, 'string object is constructed', ins); raise Dead()
        raise Unsupported('std::string of unknown value')
    return v
def scontent(st, v):
    if v.buf is not None:
        return st.obj(v.buf).content
    return v.c
def sets(s, st, p, n, c, ins=None):
    """new value; pointers into the old buffer die"""
    o = st.obj(p.o)
    old = o.cells.get(p.f)
    if old is not None and isinstance(old[1], Str) and old[1].buf is not None:
        st.own(old[1].buf).alive = False
        st.mark('alive', old[1].buf)
    st.setc(p.o, p.f, 32, Str(n, c))
def sbuf(s, st, p, v):
    """the character buffer object of the string"""
    if v.buf is not None: return v.buf
    c, n = v.c, v.n
    def g(j):
        k = simp(ult(j, n))
        if k is True: return c(j)
        if k is False: return 0
        return z3.If(k, bv(c(j), 8), z3.BitVecVal(0, 8))
    o = s.new_arr(st, add(n, 1), 'string buffer', 1, g)
    own = st.own(p.o)
    own.cells[p.f] = (32, Str(n, c, o.id))
    st.mark('c', p.o, p.f, 32)
    return o.id
def empty(s, st, p): st.setc(p.o, p.f, 32, Str(0, lambda j: 0))
def cat(n1, c1, n2, c2):
    def g(j):
        k = simp(ult(j, n1))
        if k is True: return c1(j)
        d = simp(sub(j, n1))
        if k is False: return c2(d)
        return z3.If(k, bv(c1(j), 8), bv(c2(d), 8))
    return simp(add(n1, n2)), g
def ptr_c(s, st, p, n, ins):
    s.check_access(st, p, n, 'string source read', ins) if not (isc(n) and n == 0) else None
    if p.o is None: return lambda j: 0
    o = st.obj(p.o)
    if o.kind == 'struct':
        if isc(p.f) and isc(o.size): return s.bytes_fn(st, p, min(o.size - p.f, 400))
    return s.bytes_fn(st, p, n)
def okn(s, st, n, ins):
    """length argument is not a negative number in disguise"""
    s.oblig(st, b_and(sle(0, n), sle(n, LIM)), 'string length argument is sane', ins)

@lib('std::string::basic_string()')
def s_ctor(s, st, a, ins): empty(s, st, a[0]); return [(st, None)]
@lib('std::string::basic_string<std::allocator<char>>(char const*)', 'std::string::basic_string<std::allocator<char> >(char const*)', 'std::string::basic_string(char const*)')
def s_ctor_c(s, st, a, ins):
    n = c_strlen(s, st, a[1], ins)
    st.setc(a[0].o, a[0].f, 32, Str(n, ptr_c(s, st, a[1], n, ins))); return [(st, None)]
@lib('std::string::basic_string(char const*, unsigned long)')
def s_ctor_cn(s, st, a, ins):
    okn(s, st, a[2], ins)
    st.setc(a[0].o, a[0].f, 32, Str(a[2], ptr_c(s, st, a[1], a[2], ins))); return [(st, None)]
@lib('std::string::basic_string(std::string const&)', 'std::string::basic_string(std::string&&)')
def s_ctor_s(s, st, a, ins):
    v = gets(s, st, a[1], ins)
    st.setc(a[0].o, a[0].f, 32, Str(v.n, scontent(st, v))); return [(st, None)]
@lib('std::string::basic_string(std::allocator<char> const&)')
def s_ctor_a(s, st, a, ins): empty(s, st, a[0]); return [(st, None)]
@lib('std::string::basic_string(unsigned long, char)', 'std::string::basic_string<std::allocator<char>>(unsigned long, char)')
def s_ctor_nc(s, st, a, ins):
    okn(s, st, a[1], ins)
    ch = a[2]
    st.setc(a[0].o, a[0].f, 32, Str(a[1], lambda j: ch)); return [(st, None)]
@lib('std::string::~basic_string()')
def s_dtor(s, st, a, ins):
    v = gets(s, st, a[0], ins)
    if v.buf is not None:
        st.own(v.buf).alive = False
        st.mark('alive', v.buf)
    st.setc(a[0].o, a[0].f, 32, U)
    return [(st, None)]
@lib('std::string::operator=(std::string const&)', 'std::string::assign(std::string const&)', 'std::string::operator=(std::string&&)')
def s_asg_s(s, st, a, ins):
    gets(s, st, a[0], ins)
    v = gets(s, st, a[1], ins)
    sets(s, st, a[0], v.n, scontent(st, v)); return [(st, a[0])]
@lib('std::string::operator=(char const*)', 'std::string::assign(char const*)')
def s_asg_c(s, st, a, ins):
    gets(s, st, a[0], ins)
    n = c_strlen(s, st, a[1], ins)
    c = ptr_c(s, st, a[1], n, ins)
    sets(s, st, a[0], n, c); return [(st, a[0])]
@lib('std::string::operator=(char)')
def s_asg_ch(s, st, a, ins):
    gets(s, st, a[0], ins)
    ch = a[1]
    sets(s, st, a[0], 1, lambda j: ch); return [(st, a[0])]
@lib('std::string::assign(char const*, unsigned long)')
def s_asg_cn(s, st, a, ins):
    gets(s, st, a[0], ins)
    okn(s, st, a[2], ins)
    c = ptr_c(s, st, a[1], a[2], ins)
    sets(s, st, a[0], a[2], c); return [(st, a[0])]
@lib('std::string::assign(std::string const&, unsigned long, unsigned long)')
def s_asg_sub(s, st, a, ins):
    gets(s, st, a[0], ins)
    v = gets(s, st, a[1], ins); c = scontent(st, v)
    pos, n = a[2], a[3]
    s.oblig(st, ule(pos, v.n), 'substring position inside the string', ins)
    left = sub(v.n, pos)
    m = simp(ite(ult(n, left), n, left, 64))
    sets(s, st, a[0], m, lambda j: c(simp(add(pos, j)))); return [(st, a[0])]
@lib('std::string::append(std::string const&)', 'std::string::operator+=(std::string const&)')
def s_app_s(s, st, a, ins):
    v = gets(s, st, a[0], ins); w = gets(s, st, a[1], ins)
    n, c = cat(v.n, scontent(st, v), w.n, scontent(st, w))
    sets(s, st, a[0], n, c); return [(st, a[0])]
@lib('std::string::append(std::string const&, unsigned long, unsigned long)')
def s_app_sub(s, st, a, ins):
    v = gets(s, st, a[0], ins); w = gets(s, st, a[1], ins); cw = scontent(st, w)
    pos, n = a[2], a[3]
    s.oblig(st, ule(pos, w.n), 'substring position inside the string', ins)
    left = sub(w.n, pos)
    m = simp(ite(ult(n, left), n, left, 64))
    n2, c = cat(v.n, scontent(st, v), m, lambda j: cw(simp(add(pos, j))))
    sets(s, st, a[0], n2, c); return [(st, a[0])]
@lib('std::string::append(char const*)', 'std::string::operator+=(char const*)')
def s_app_c(s, st, a, ins):
    v = gets(s, st, a[0], ins)
    m = c_strlen(s, st, a[1], ins)
    n, c = cat(v.n, scontent(st, v), m, ptr_c(s, st, a[1], m, ins))
    sets(s, st, a[0], n, c); return [(st, a[0])]
@lib('std::string::append(char const*, unsigned long)')
def s_app_cn(s, st, a, ins):
    v = gets(s, st, a[0], ins)
    okn(s, st, a[2], ins)
    n, c = cat(v.n, scontent(st, v), a[2], ptr_c(s, st, a[1], a[2], ins))
    sets(s, st, a[0], n, c); return [(st, a[0])]
@lib('std::string::push_back(char)', 'std::string::operator+=(char)')
def s_push(s, st, a, ins):
    v = gets(s, st, a[0], ins)
    ch = a[1]
    n, c = cat(v.n, scontent(st, v), 1, lambda j: ch)
    sets(s, st, a[0], n, c); return [(st, a[0])]
@lib('std::string::append(unsigned long, char)')
def s_app_nc(s, st, a, ins):
    v = gets(s, st, a[0], ins)
    okn(s, st, a[1], ins)
    ch = a[2]
    n, c = cat(v.n, scontent(st, v), a[1], lambda j: ch)
    sets(s, st, a[0], n, c); return [(st, a[0])]
@lib('std::string::resize(unsigned long)')
def s_resize(s, st, a, ins):
    v = gets(s, st, a[0], ins); c0 = scontent(st, v); n0 = v.n
    okn(s, st, a[1], ins)
    def g(j):
        k = simp(ult(j, n0))
        if k is True: return c0(j)
        if k is False: return 0
        return z3.If(k, bv(c0(j), 8), z3.BitVecVal(0, 8))
    sets(s, st, a[0], a[1], g); return [(st, None)]
@lib('std::string::reserve(unsigned long)', 'std::string::reserve()')
def s_reserve(s, st, a, ins):
    v = gets(s, st, a[0], ins)
    if len(a) > 1: okn(s, st, a[1], ins)
    sets(s, st, a[0], v.n, scontent(st, v)); return [(st, None)]
@lib('std::string::clear()')
def s_clear(s, st, a, ins):
    gets(s, st, a[0], ins); sets(s, st, a[0], 0, lambda j: 0); return [(st, None)]
@lib('std::string::length()', 'std::string::size()', 'std::string::length', 'std::string::size')
def s_len(s, st, a, ins): return [(st, gets(s, st, a[0], ins).n)]
@lib('std::string::empty')
def s_empty(s, st, a, ins): return [(st, simp(eq(gets(s, st, a[0], ins).n, 0)))]
@lib('std::string::c_str', 'std::string::data')
def s_cstr(s, st, a, ins):
    v = gets(s, st, a[0], ins)
    return [(st, P(sbuf(s, st, a[0], v), 0))]
@lib('std::string::operator[](unsigned long)', 'std::string::operator[]')
def s_idx(s, st, a, ins):
    v = gets(s, st, a[0], ins)
    s.oblig(st, ule(a[1], v.n), 'string index inside the string', ins)
    return [(st, P(sbuf(s, st, a[0], v), a[1]))]
@lib('std::string::substr')
def s_substr(s, st, a, ins):
    # sret, this, pos, n
    v = gets(s, st, a[1], ins); c = scontent(st, v)
    pos, n = a[2], a[3]
    s.oblig(st, ule(pos, v.n), 'substring position inside the string', ins)
    left = sub(v.n, pos)
    m = simp(ite(ult(n, left), n, left, 64))
    st.setc(a[0].o, a[0].f, 32, Str(m, lambda j: c(simp(add(pos, j))))); return [(st, None)]
def s_findch(rev):
    def h(s, st, a, ins):
        v = gets(s, st, a[0], ins); c = scontent(st, v)
        ch, pos = a[1], a[2]
        out = []
        st2 = st.clone()
        i = fresh('find')
        if rev: st2.assume(b_and(ult(i, v.n), ule(i, pos), eq(c(i), ch, 8)))
        else: st2.assume(b_and(ult(i, v.n), ule(pos, i), eq(c(i), ch, 8)))
        if s.feasible(st2, True): out.append((st2, i))
        out.append((st, M1))
        st.ghost['nochar'] = st.ghost.get('nochar', ()) + ((c, v.n, ch),)
        return out
    h.label = 'std::string::rfind' if rev else 'std::string::find'
    return h
LIB['std::string::rfind(char, unsigned long)'] = s_findch(True)
LIB['std::string::find(char, unsigned long)'] = s_findch(False)
def str_eq(s, st, v, w):
    """Bool: equal strings; exact when one length is constant"""
    c1, c2 = scontent(st, v), scontent(st, w)
    for x, y in ((v, w), (w, v)):
        if isc(x.n) and x.n <= 64:
            return simp(b_and(eq(v.n, w.n), *[eq(c1(k), c2(k), 8) for k in range(x.n)]))
    if v is w: return True
    b = fresh_bool('streq')
    st.assume(b_imp(b, eq(v.n, w.n)))
    return b
@lib('bool std::operator==<char, std::char_traits<char>, std::allocator<char>>(std::string const&, char const*)',
     'std::string::compare(char const*)')
def s_eqc(s, st, a, ins):
    v = gets(s, st, a[0], ins)
    n = c_strlen(s, st, a[1], ins)
    return [(st, str_eq(s, st, v, Str(n, ptr_c(s, st, a[1], n, ins))))]
@lib('bool std::operator!=<char, std::char_traits<char>, std::allocator<char>>(std::string const&, char const*)')
def s_nec(s, st, a, ins):
    v = gets(s, st, a[0], ins)
    n = c_strlen(s, st, a[1], ins)
    return [(st, b_not(str_eq(s, st, v, Str(n, ptr_c(s, st, a[1], n, ins)))))]
@lib('bool std::operator==<char>(std::string const&, std::string const&)', 'bool std::operator==<char, std::char_traits<char>, std::allocator<char>>(std::string const&, std::string const&)')
def s_eqs(s, st, a, ins):
    return [(st, str_eq(s, st, gets(s, st, a[0], ins), gets(s, st, a[1], ins)))]
@lib('bool std::operator!=<char, std::char_traits<char>, std::allocator<char>>(std::string const&, std::string const&)')
def s_nes(s, st, a, ins):
    return [(st, b_not(str_eq(s, st, gets(s, st, a[0], ins), gets(s, st, a[1], ins))))]
def plus(s, st, d, n1, c1, n2, c2):
    n, c = cat(n1, c1, n2, c2)
    st.setc(d.o, d.f, 32, Str(n, c)); return [(st, None)]
T3 = 'std::string std::operator+<char, std::char_traits<char>, std::allocator<char>>'
@lib(T3 + '(std::string const&, std::string const&)', T3 + '(std::string&&, std::string&&)', T3 + '(std::string&&, std::string const&)')
def s_plus(s, st, a, ins):
    v = gets(s, st, a[1], ins); w = gets(s, st, a[2], ins)
    return plus(s, st, a[0], v.n, scontent(st, v), w.n, scontent(st, w))
@lib(T3 + '(std::string const&, char const*)', T3 + '(std::string&&, char const*)')
def s_plusc(s, st, a, ins):
    v = gets(s, st, a[1], ins); m = c_strlen(s, st, a[2], ins)
    return plus(s, st, a[0], v.n, scontent(st, v), m, ptr_c(s, st, a[2], m, ins))
@lib(T3 + '(char const*, std::string const&)', T3 + '(char const*, std::string&&)')
def s_cplus(s, st, a, ins):
    v = gets(s, st, a[2], ins); m = c_strlen(s, st, a[1], ins)
    return plus(s, st, a[0], m, ptr_c(s, st, a[1], m, ins), v.n, scontent(st, v))
@lib('std::allocator<char>::allocator', 'std::allocator<char>::~allocator', 'std::__new_allocator<char>::__new_allocator', 'std::__new_allocator<char>::~__new_allocator')
def s_alloc(s, st, a, ins): return [(st, None)]

# ------------------------------------------------------------------ misc libc
@lib('fprintf', 'printf', 'puts', 'fflush', 'fputs')
def l_printf(s, st, a, ins): return [(st, fresh('printf', 32))]
@lib('strerror')
def l_strerror(s, st, a, ins):
    n = fresh('errlen'); st.assume(b_and(sle(0, n), sle(n, 1000)))
    c = fresh_fun('errtxt')
    o = s.new_arr(st, simp(add(n, 1)), 'error text', 1, lambda j: z3.If(bv(j, 64) == n, z3.BitVecVal(0, 8), c(j)))
    o.ro = True
    return [(st, P(o.id, 0))]
@lib('__errno_location')
def l_errno(s, st, a, ins):
    o = st.new('struct', 4, 'errno'); st.setc(o.id, 0, 4, st.ghost.get('errno') if st.ghost.get('errno') is not None else fresh('errno', 32))
    return [(st, P(o.id, 0))]
@lib('__cxa_atexit')
def l_atexit(s, st, a, ins): return [(st, 0)]
@lib('isblank')
def l_isblank(s, st, a, ins):
    x = a[0]
    return [(st, simp(ite(b_or(eq(x, 32, 32), eq(x, 9, 32)), 1, 0, 32)))]
@lib('isspace')
def l_isspace(s, st, a, ins):
    x = a[0]
    return [(st, simp(ite(b_or(eq(x, 32, 32), b_and(sle(9, x, 32), sle(x, 13, 32))), 1, 0, 32)))]
@lib('isxdigit')
def l_isxdigit(s, st, a, ins):
    x = a[0]
    r = lambda lo, hi: b_and(sle(lo, x, 32), sle(x, hi, 32))
    return [(st, simp(ite(b_or(r(48, 57), r(65, 70), r(97, 102)), 1, 0, 32)))]
for _n, _f in list(LIB.items()):
    pass
@lib('snprintf')
def l_snprintf(s, st, a, ins):
    """writes a terminated string within the space; the text is not modelled (the
    terminator is put at the last byte, the bytes in front of it are arbitrary)"""
    n = simp(a[1])
    s.check_access(st, a[0], n, 'snprintf', ins, write=True)
    p = s.redir(st, a[0]); o = st.obj(p.o)
    if not isc(n) or n == 0: raise Unsupported('snprintf of unknown size')
    junk = fresh_fun('text')
    if o.kind == 'arr':
        o = st.own(p.o); old = o.content; f = p.f
        o.content = lambda j: z3.If(bv(sub(j, f), 64) == n - 1, z3.BitVecVal(0, 8), z3.If(z3.ULT(bv(sub(j, f), 64), n), bv(junk(j), 8), bv(old(j), 8)))
        st.mark('a', p.o)
    else:
        if not isc(p.f): raise Unsupported('snprintf into a structure')
        for k in range(n): st.setc(p.o, p.f + k, 1, 0 if k == n - 1 else fresh('text', 8))
    return [(st, fresh('snprintf', 32))]
