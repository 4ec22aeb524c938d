"""Merging of symbolic states: n states with a common history become one state
whose path condition is the disjunction of theirs and whose values are chosen by
selector variables.  States whose pointers point to different things, or whose
ghost records differ, are kept apart."""
import z3
from sym import *
import sym

class No(Exception): pass

def vmerge(sels, vals):
    """one value for vals[i] under sels[i]"""
    v0 = vals[0]
    if all(v is v0 for v in vals): return v0
    if all(v is U for v in vals): return U
    if any(v is U for v in vals): raise No
    if all(isc(v) for v in vals):
        if all(v == v0 for v in vals): return v0
        raise NeedW
    if all(isinstance(v, (int, z3.ExprRef)) or type(v) is bool for v in vals):
        bs = [v for v in vals if type(v) is bool or isinstance(v, z3.BoolRef)]
        if len(bs) == len(vals):
            if all(type(v) is bool and v == v0 for v in vals): return v0
            r = vals[-1] if isinstance(vals[-1], z3.ExprRef) else z3.BoolVal(vals[-1])
            for s, v in list(zip(sels, vals))[-2::-1]:
                r = z3.If(s, v if isinstance(v, z3.ExprRef) else z3.BoolVal(v), r)
            return r
        if bs: raise No
        w = next(v.size() for v in vals if isinstance(v, z3.ExprRef))
        return wmerge(sels, vals, w)
    if all(isinstance(v, P) for v in vals):
        if any(v.o != v0.o for v in vals): raise No
        return P(v0.o, off(sels, [v.f for v in vals]))
    if all(isinstance(v, PI) for v in vals):
        p = vmerge(sels, [v.p for v in vals]); return PI(p)
    if all(isinstance(v, Fn) for v in vals):
        if any(v.name != v0.name for v in vals): raise No
        return v0
    if all(isinstance(v, VF) for v in vals):
        if any(v.model is not v0.model or v.slot != v0.slot for v in vals): raise No
        return v0
    if all(isinstance(v, Str) for v in vals):
        if all(v.n is v0.n and v.c is v0.c and v.buf is v0.buf for v in vals): return v0
        if any(v.buf is not None for v in vals): raise No
        cs = [v.c for v in vals]
        return Str(off(sels, [v.n for v in vals]), cmerge(sels, cs, 8))
    if all(isinstance(v, tuple) for v in vals):
        if all(v == v0 for v in vals): return v0
    if isinstance(v0, Blob) and all(v is v0 for v in vals): return v0
    raise No
class NeedW(Exception): pass
def wmerge(sels, vals, w):
    v0 = vals[0]
    if all((isc(v) and isc(v0) and v == v0) or v is v0 or (isinstance(v, z3.ExprRef) and isinstance(v0, z3.ExprRef) and v.eq(v0)) for v in vals): return v0
    r = bv(vals[-1], w)
    for s, v in list(zip(sels, vals))[-2::-1]:
        x = bv(v, w)
        if x.eq(r): continue
        r = z3.If(s, x, r)
    return r
def off(sels, vals): return wmerge(sels, vals, 64)
def cmerge(sels, cs, w):
    c0 = cs[0]
    if all(c is c0 for c in cs): return c0
    uniq = []
    for s, c in zip(sels, cs):
        for k in range(len(uniq)):
            if uniq[k][1] is c:
                uniq[k] = (z3.Or(uniq[k][0], s), c); break
        else: uniq.append((s, c))
    def g(j):
        vs = [c(j) for _, c in uniq]
        return wmerge([s for s, _ in uniq], vs, w)
    return g
def val(sels, vals, nbytes):
    try: return vmerge(sels, vals)
    except NeedW: return wmerge(sels, vals, 8 * nbytes)

def merge(eng, sts, extra, widths):
    """sts: states; extra: list of dicts key->value to be merged alongside, with
    widths[key] for scalars.  -> (state, dict)"""
    n = len(sts)
    # common prefix of the path conditions
    k = 0
    m = min(len(s.pc) for s in sts)
    while k < m and all(s.pc[k].eq(sts[0].pc[k]) for s in sts[1:]): k += 1
    sels = [fresh_bool('path') for _ in sts]
    st = sts[0].clone()
    if any(s.log != st.log for s in sts): raise No
    st.cut = any(s.cut for s in sts)
    st.pc = list(sts[0].pc[:k]); st.pcset = {c.get_id() for c in st.pc}; st.model = None
    keys = set(sts[0].ghost)
    for s in sts[1:]:
        if set(s.ghost) != keys: raise No
    for g in keys:
        vs = [s.ghost[g] for s in sts]
        if all(v is vs[0] for v in vs): continue
        try:
            st.ghost[g] = vmerge(sels, vs)
        except NeedW:
            w = eng.ghost_widths.get(g)
            if not w: raise No
            st.ghost[g] = wmerge(sels, vs, w)
    ids = set()
    for s in sts: ids |= set(s.mem)
    for i in ids:
        os_ = [s.mem.get(i) for s in sts]
        have = [o for o in os_ if o is not None]
        if len(have) < n and i < 0:
            # a global not materialised everywhere
            for s in sts: s.obj(i)
            os_ = [s.mem.get(i) for s in sts]; have = os_
        o0 = have[0]
        if all(o is o0 for o in have):
            st.mem[i] = o0; st.owned.discard(i); continue
        if len(have) < n:
            if len(have) == 1 : st.mem[i] = o0; st.owned.discard(i); continue
            raise No
        if any(o.kind != o0.kind or o.es != o0.es or o.model is not o0.model or o.heap != o0.heap or o.ro != o0.ro for o in os_): raise No
        o = o0.copy()
        o.size = off(sels, [x.size for x in os_])
        if any(x.alive is not o0.alive for x in os_):
            o.alive = vmerge(sels, [x.alive for x in os_])
        if any(x.zero != o0.zero for x in os_): raise No
        ck = set(o0.cells)
        for x in os_[1:]:
            if set(x.cells) != ck:
                # cells may be missing where the object was only partly written
                raise No
        for c in ck:
            nb = o0.cells[c][0]
            if any(x.cells[c][0] != nb for x in os_): raise No
            vs = [x.cells[c][1] for x in os_]
            if all(v is vs[0] for v in vs): continue
            o.cells[c] = (nb, val(sels, vs, nb))
        if o.kind == 'arr' and any(x.content is not o0.content for x in os_):
            o.content = cmerge(sels, [x.content for x in os_], 8 * o.es)
        gh = [x.ghost for x in os_]
        if any(g != gh[0] for g in gh[1:]) if all(g is None for g in gh) else any(g is not gh[0] for g in gh):
            if any(g is None for g in gh) or any(set(g) != set(gh[0]) for g in gh): raise No
            ng = {}
            for key in gh[0]:
                vs = [g[key] for g in gh]
                if key == 'seg':
                    if any(v != vs[0] for v in vs): raise No
                    ng[key] = vs[0]
                else:
                    if all(v is vs[0] for v in vs): ng[key] = vs[0]
                    elif all(isinstance(v, (int, z3.BitVecRef)) and type(v) is not bool for v in vs): ng[key] = wmerge(sels, vs, 64)
                    else: ng[key] = vmerge(sels, vs)
            o.ghost = ng
        st.mem[i] = o; st.owned.add(i)
    ex = {}
    if extra:
        ks = set(extra[0])
        for e in extra[1:]: ks &= set(e)
        for key in ks:
            vs = [e[key] for e in extra]
            if all(v is vs[0] for v in vs): ex[key] = vs[0]; continue
            try: ex[key] = vmerge(sels, vs)
            except NeedW:
                w = widths.get(key)
                if not w: raise No
                ex[key] = wmerge(sels, vs, w)
    # selected path conditions
    for s, b in zip(sts, sels):
        suf = s.pc[k:]
        if suf: st.assume(z3.Implies(b, z3.And(suf) if len(suf) > 1 else suf[0]))
    # exactly one of them
    st.assume(z3.Or(sels))
    for i in range(1, n):
        st.assume(z3.Implies(sels[i], z3.Not(z3.Or(sels[:i]) if i > 1 else sels[0])))
    return st, ex

def merge_all(eng, items, widths, live=None):
    """items: [(state, extra dict)] -> fewer items; live: the keys that matter"""
    if len(items) < 2: return items
    if live is not None:
        items = [(st, {k: v for k, v in e.items() if k in live}) for st, e in items]
    groups = []
    for it in items:
        for g in groups:
            try:
                merge(eng, [g[0][0], it[0]], [g[0][1], it[1]], widths)
            except (No, NeedW):
                continue
            g.append(it)
            break
        else: groups.append([it])
    out = []
    for g in groups:
        if len(g) == 1: out.append(g[0]); continue
        try:
            out.append(merge(eng, [x[0] for x in g], [x[1] for x in g], widths))
        except (No, NeedW):
            out += g
    return out
