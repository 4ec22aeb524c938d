"""Instruction semantics, calls and loops."""
import z3, time
from sym import *
import sym

class Loop:
    __slots__ = ('header', 'blocks')
class FnInfo:
    pass

CMPS = {
    'eq': lambda a, b, w: eq(a, b, w), 'ne': lambda a, b, w: ne(a, b, w),
    'slt': slt, 'sle': sle, 'sgt': sgt, 'sge': sge,
    'ult': ult, 'ule': ule,
    'ugt': lambda a, b, w: ult(b, a, w), 'uge': lambda a, b, w: ule(b, a, w),
}

class Shape:
    pass

class Exec(Engine):
    def fninfo(s, name):
        f = s.prog['functions'].get(name)
        if f is None: raise Unsupported('no function ' + name)
        if 'info' not in f:
            i = FnInfo()
            i.loops = {}
            for l in f.get('loops', []):
                L = Loop(); L.header = l['header']; L.blocks = set(l['blocks'])
                i.loops[L.header] = L
            i.by_var = {}
            f['info'] = i
        return f

    # -------------------------------------------------------------- calls
    def resolve(s, st, v, ins):
        if isinstance(v, (Fn, VF)): return v
        if v is U: 
            s.oblig(st, False, 'call through an uninitialised pointer', ins); raise Dead()
        if isinstance(v, P) and v.o is None:
            s.oblig(st, False, 'call through a null pointer', ins); raise Dead()
        raise Unsupported('indirect call %r' % (v,))

    def find_contract(s, dem):
        c = s.contracts.get(dem)
        if c is not None: return c
        k = dem.find('(')
        base = dem
        if k > 0:
            # strip the parameter list (last balanced group)
            base = strip_params(dem)
            c = s.contracts.get(base)
            if c is not None: return c
        return None

    def call(s, st, callee, args, ins, nret='void'):
        """-> list of (state, value)"""
        if isinstance(callee, VF):
            return callee.model.vcall(s, st, callee.slot, args, ins)
        name = callee.name
        f = s.prog['functions'].get(name)
        if f is None: raise Unsupported('call to unknown ' + name)
        dem = f['dem']
        c = s.find_contract(dem)
        if c is not None:
            s.stats.trusted[getattr(c, 'label', short(dem))] = s.stats.trusted.get(getattr(c, 'label', short(dem)), 0) + 1
            r = c(s, st, args, ins)
            if r is not None: return r
        from models import lib_call
        r = lib_call(s, st, name, dem, args, ins, f)
        if r is not None:
            return r
        if 'blocks' not in f: raise Unsupported('no contract for ' + short(dem))
        return s.inline(st, name, args, ins)

    def inline(s, st, name, args, ins=None):
        f = s.fninfo(name)
        if s.depth > 60: raise Unsupported('recursion too deep in ' + f['dem'])
        if s.curfn.count(short(f['dem'])) > 3: raise Unsupported('unbounded recursion in ' + short(f['dem']))
        env = {}
        for p, a in zip(f['params'], args): env[p['id']] = a
        s.stats.inlined[short(f['dem'])] = s.stats.inlined.get(short(f['dem']), 0) + 1
        s.depth += 1
        s.curfn.append(short(f['dem']))
        try:
            R = s.region(f, [(st, env, 0, None, 0)], None, None)
        finally:
            s.depth -= 1
            s.curfn.pop()
        return s.merge_rets(R.rets, f)

    MERGE = 3
    def merge_rets(s, rets, f):
        if len(rets) < s.MERGE: return rets
        from merge import merge_all
        r = merge_all(s, [(st, {'ret': v}) for st, v in rets], {'ret': ret_width(f)})
        return [(st, e.get('ret')) for st, e in r]
    def merge_backs(s, f, backs):
        if len(backs) < s.MERGE: return backs
        from merge import merge_all
        by = {}
        for st, env, bp in backs: by.setdefault(bp, []).append((st, env))
        out = []
        for bp, l in by.items():
            out += [(st, env, bp) for st, env in merge_all(s, l, val_widths(f))]
        return out
    def merge_exits(s, f, exits):
        if len(exits) < s.MERGE: return exits
        from merge import merge_all
        by = {}
        for st, env, b, p in exits: by.setdefault((b, p), []).append((st, env))
        out = []
        for (b, p), l in by.items():
            live = live_in(f, b) | {x for i in f['blocks'][b] if i['op'] == 'phi' for pb, a in i['in'] if pb == p and a[0] == 'v' for x in (a[1],)}
            out += [(st, env, b, p) for st, env in merge_all(s, l, val_widths(f), live)]
        return out

    # -------------------------------------------------------------- regions
    class Res:
        def __init__(s): s.rets = []; s.exits = []; s.backs = []

    def region(s, f, items, scope, header):
        """run until function return; with scope: until the blocks are left
        (exits) or the header is reached again (backs)"""
        R = Exec.Res()
        info = f['info']
        order = rpo(f)
        pend = {}          # block -> items that start it
        work = []          # items in the middle of a block
        def push(it):
            st, env, b, pred, idx = it
            if idx: work.append(it); return
            if pred is not None and scope is not None:
                if b == header and pred in scope:
                    R.backs.append((st, env, pred)); return
                if b not in scope:
                    R.exits.append((st, env, b, pred)); return
            pend.setdefault(b, []).append(it)
        for it in items: push(it)
        while work or pend:
            if s.deadline and time.time() > s.deadline: raise Budget('time')
            if work: st, env, b, pred, idx = work.pop()
            else:
                b = min(pend, key=lambda x: order[x])
                l = pend[b]
                if len(l) >= s.JOIN: l = pend[b] = s.join(f, b, l)
                st, env, b, pred, idx = l.pop()
                if not l: del pend[b]
                else:
                    # keep the others from being joined again and again
                    for it in l: work.append(it)
                    del pend[b]
            if idx == 0 and pred is not None:
                L = info.loops.get(b)
                if L is not None and pred not in L.blocks:
                    try:
                        ex, rets = s.do_loop(st, env, f, L, pred)
                    except Dead:
                        continue
                    for a, e, b2, p2 in ex: push((a, e, b2, p2, 0))
                    R.rets.extend(rets)
                    continue
            try:
                nxt = s.block(f, st, env, b, pred, idx, R)
            except Dead:
                continue
            for it in nxt: push(it)
            s.npaths += max(0, len(nxt) - 1)
            if s.npaths > s.max_paths: raise Budget('paths')
        return R

    JOIN = 2
    def join(s, f, b, l):
        from merge import merge_all
        its = []
        for st, env, b_, pred, idx in l:
            if pred is None: return l
            env = dict(env); env.update(s.phis(f, env, b, pred))
            its.append((st, env))
        its = merge_all(s, its, val_widths(f), live_in(f, b))
        return [(st, env, b, -1, 0) for st, env in its]

    def phis(s, f, env, b, pred):
        vals = {}
        for ins in f['blocks'][b]:
            if ins['op'] == 'dbg': continue
            if ins['op'] != 'phi': break
            if pred == -1:
                vals[ins['id']] = env[ins['id']]; continue
            for pb, a in ins['in']:
                if pb == pred:
                    vals[ins['id']] = s.val(env, a); break
            else: raise Unsupported('phi without predecessor')
        return vals

    def block(s, f, st, env, b, pred, idx, R):
        """execute block b from instruction idx; list of next work items"""
        insts = f['blocks'][b]
        if idx == 0:
            env.update(s.phis(f, env, b, pred)) if pred is not None else None
        i = idx
        n = len(insts)
        while i < n:
            ins = insts[i]
            op = ins['op']
            if op == 'phi' or op == 'dbg' or op == 'dbgdecl':
                i += 1; continue
            if op == 'br':
                if 'cond' not in ins:
                    return [(st, env, ins['t'], b, 0)]
                c = s.val(env, ins['cond'])
                return s.branch(f, st, env, b, ins, [(c, ins['t']), (b_not(c) if c is not U else U, ins['f'])])
            if op == 'switch':
                v = s.val(env, ins['cond'])
                if v is U:
                    s.oblig(st, False, 'switch on an uninitialised value', ins); return []
                cs = []
                nots = []
                by = {}
                for k, t in ins['cases']:
                    w = k[1]; c = simp(eq(v, s.const(k), w))
                    by.setdefault(t, []).append(c); nots.append(b_not(c))
                for t, l in by.items(): cs.append((b_or(*l), t))
                cs.append((b_and(*nots), ins['def']))
                return s.branch(f, st, env, b, ins, cs)
            if op == 'ret':
                v = s.val(env, ins['ops'][0]) if ins['ops'] else None
                R.rets.append((st, v))
                s.stats.paths += 1
                return []
            if op == 'unreachable':
                return []
            if op == 'call' or op == 'invoke':
                args = [s.val(env, a) if a[0] not in ('md',) else None for a in ins['args']]
                cal = ins['callee']
                if cal[0] == 'asm': raise Unsupported('inline assembly')
                callee = s.resolve(st, s.val(env, cal), ins)
                res = s.call(st, callee, args, ins)
                if not res: return []
                out = []
                if op == 'invoke':
                    for k, (st2, v) in enumerate(res):
                        e2 = env if k == len(res) - 1 else dict(env)
                        e2[ins['id']] = v
                        out.append((st2, e2, ins['t'], b, 0))
                    return out
                for (st2, v) in res[1:]:
                    e2 = dict(env); e2[ins['id']] = v
                    out.append((st2, e2, b, pred, i + 1))
                st, v = res[0]
                env[ins['id']] = v
                if out:
                    out.append((st, env, b, pred, i + 1))
                    return out
                i += 1; continue
            if op == 'load':
                p = s.val(env, ins['ops'][0])
                try:
                    v = s.load(st, p, ins['ty'], ins)
                except Fork as fk:
                    out = []
                    s.oblig(st, b_or(*[c for c, _ in fk.cases]), 'table index selects an entry', ins)
                    for c, k in fk.cases:
                        if s.feasible(st, c):
                            st2 = st.clone(); st2.assume(c)
                            e2 = dict(env); e2[ins['id']] = s.load(st2, P(p.o, k), ins['ty'], ins)
                            out.append((st2, e2, b, pred, i + 1))
                    return out
                env[ins['id']] = v
                i += 1; continue
            if op == 'store':
                v = s.val(env, ins['ops'][0])
                s.store(st, s.val(env, ins['ops'][1]), v, ins['ots'][0], ins)
                i += 1; continue
            if op == 'select':
                c = s.val(env, ins['ops'][0]); x = s.val(env, ins['ops'][1]); y = s.val(env, ins['ops'][2])
                if c is U:
                    s.oblig(st, False, 'choice on an uninitialised value', ins); return []
                if c is True: env[ins['id']] = x
                elif c is False: env[ins['id']] = y
                elif isc(x) or isc(y) or isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
                    if x is U or y is U: env[ins['id']] = y if x is U else x
                    elif ins['ty'] == 'i1':
                        env[ins['id']] = simp(z3.If(c, tob(x), tob(y)))
                    elif isinstance(x, PI) or isinstance(y, PI): raise Unsupported('select of pointer ints')
                    else: env[ins['id']] = simp(ite(c, x, y, width(ins['ty'])))
                else:
                    out = []
                    for cc, vv in ((c, x), (b_not(c), y)):
                        if s.feasible(st, cc):
                            st2 = st.clone(); st2.assume(cc)
                            e2 = dict(env); e2[ins['id']] = vv
                            out.append((st2, e2, b, pred, i + 1))
                    return out
                i += 1; continue
            env[ins['id']] = s.scalar(st, env, ins, op)
            i += 1
        raise Unsupported('fell off block')

    def branch(s, f, st, env, b, ins, cases):
        if any(c is U for c, _ in cases):
            s.oblig(st, False, 'branch on an uninitialised value', ins); return []
        out = []
        live = []
        for c, t in cases:
            c = simp(c)
            if c is False: continue
            live.append((c, t))
        if len(live) == 1 and live[0][0] is True:
            return [(st, env, live[0][1], b, 0)]
        feas = []
        for c, t in live:
            if c is True: feas.append((c, t, st.model)); continue
            ok, m = s.feasible_m(st, c)
            if ok: feas.append((c, t, m))
        if not feas: return []
        for k, (c, t, m) in enumerate(feas):
            last = k == len(feas) - 1
            st2 = st if last else st.clone()
            e2 = env if last else dict(env)
            st2.assume(c)
            st2.model = m
            out.append((st2, e2, t, b, 0))
        return out

    # -------------------------------------------------------------- scalars
    def scalar(s, st, env, ins, op):
        if op == 'getelementptr':
            p = s.val(env, ins['base'])
            if p is U: return U
            off = ins.get('off')
            if off is None: raise Unsupported('gep')
            if isinstance(p, VF): raise Unsupported('gep on vtable entry')
            o = off & M1
            for a, sc, ty in ins['vars']:
                v = s.val(env, a)
                if v is U: return U
                if isinstance(v, PI): raise Unsupported('pointer-int index')
                w = width(ty)
                o = add(o, mul(sext(v, w, 64), sc & M1))
            if isinstance(p, P) and p.o is None:
                return P(None, simp(add(p.f, o)))
            return s.padd(p, o)
        if op == 'alloca':
            n = s.val(env, ins['n'])
            aty = ins['aty']
            if isc(n) and n == 1 and not (aty.startswith('[') and (aty.endswith('xi8]') or aty.endswith('xi32]') or aty.endswith('xi16]')) and aty.count('[') == 1):
                o = st.new('struct', ins['size'], 'local')
                if aty.startswith('i') and aty != 'i1' or aty == 'ptr': pass
                return P(o.id, 0)
            if aty.startswith('['):
                es = {'8': 1, '2': 4, '6': 2}[aty[-2]]
                o = s.new_arr(st, mul(n, ins['size']), 'local array', es)
            else:
                es = {'i8': 1, 'i32': 4, 'i16': 2, 'i64': 8}.get(aty)
                if es is None: raise Unsupported('alloca ' + aty)
                o = s.new_arr(st, simp(mul(zext(n, 32, 64) if not isc(n) and n.size() == 32 else n, es)), 'local array', es)
            return P(o.id, 0)
        if op == 'icmp':
            return s.icmp(st, env, ins)
        if op in ('bitcast', 'freeze', 'addrspacecast'):
            return s.val(env, ins['ops'][0])
        if op == 'ptrtoint':
            p = s.val(env, ins['ops'][0])
            if p is U: return U
            if isinstance(p, P) and p.o is None: return p.f
            return PI(p)
        if op == 'inttoptr':
            v = s.val(env, ins['ops'][0])
            if isinstance(v, PI): return v.p
            if isc(v): return P(None, v)
            if v is U: return U
            raise Unsupported('inttoptr')
        if op in ('trunc', 'zext', 'sext'):
            v = s.val(env, ins['ops'][0])
            if v is U: return U
            if isinstance(v, PI):
                raise Unsupported('pointer truncated')
            fw, tw = width(ins['ots'][0]), width(ins['ty'])
            if fw == 1:
                if op == 'zext': return ite(v, 1, 0, tw)
                return ite(v, mask(tw), 0, tw)
            if op == 'trunc':
                if tw == 1: return simp(eq(trunc(v, 1), 1, 1))
                return simp(trunc(v, tw))
            return simp(sext(v, fw, tw) if op == 'sext' else zext(v, fw, tw))
        if op in ('fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'fadd', 'fsub', 'fmul', 'fdiv', 'fneg'):
            if op in ('fptosi', 'fptoui'): return fresh('fp', width(ins['ty']))
            return ('fpx',)
        if op == 'fcmp': return fresh_bool('fcmp')
        if op == 'extractvalue':
            v = s.val(env, ins['ops'][0])
            if v is U: return U
            for i in ins['idx']: v = v[i]
            return v
        if op == 'insertvalue':
            v = s.val(env, ins['ops'][0])
            x = s.val(env, ins['ops'][1])
            v = list(v) if v is not U else [U] * 8
            v[ins['idx'][0]] = x
            return v
        # binary operators
        a = s.val(env, ins['ops'][0]); b = s.val(env, ins['ops'][1])
        if a is U or b is U: return U
        if ins['ty'] == 'i1':
            a = tob(a); b = tob(b)
            if op == 'xor': return simp(b_not(eqb(a, b)))
            if op == 'and': return simp(b_and(a, b))
            if op == 'or': return simp(b_or(a, b))
            raise Unsupported('i1 ' + op)
        w = width(ins['ty'])
        if isinstance(a, PI) or isinstance(b, PI):
            if op == 'sub' and isinstance(a, PI) and isinstance(b, PI):
                if a.p.o == b.p.o: return simp(sub(a.p.f, b.p.f))
                s.oblig(st, False, 'difference of pointers into different objects', ins)
                raise Dead()
            if op == 'sub' and isinstance(a, PI) and isc(b):
                return PI(P(a.p.o, simp(sub(a.p.f, b))))
            if op == 'add' and isinstance(a, PI) and not isinstance(b, PI):
                return PI(P(a.p.o, simp(add(a.p.f, b))))
            if op == 'sub' and isinstance(b, PI) and isc(a) or op == 'sub' and isinstance(a, PI):
                # difference with a null pointer
                s.oblig(st, False, 'difference of a pointer and null', ins)
                raise Dead()
            raise Unsupported('arithmetic on a pointer value')
        if isc(a) and isc(b):
            r = s.cbin(st, op, a, b, w, ins)
            if r is not None: return r
        A, B = bv(a, w), bv(b, w)
        if ins.get('nsw') and s.nsw and op in ('add', 'sub', 'mul'):
            s.oblig(st, no_ovf(op, a, b, w), 'no signed overflow', ins)
        if op == 'add': r = A + B
        elif op == 'sub': r = A - B
        elif op == 'mul': r = A * B
        elif op == 'and': r = A & B
        elif op == 'or': r = A | B
        elif op == 'xor': r = A ^ B
        elif op in ('shl', 'lshr', 'ashr'):
            s.oblig(st, ult(b, w, w), 'shift amount in range', ins)
            r = A << B if op == 'shl' else (z3.LShR(A, B) if op == 'lshr' else A >> B)
        elif op in ('sdiv', 'srem', 'udiv', 'urem'):
            s.oblig(st, ne(b, 0, w), 'division by zero', ins)
            if op == 'sdiv': r = A / B
            elif op == 'srem': r = z3.SRem(A, B)
            elif op == 'udiv': r = z3.UDiv(A, B)
            else: r = z3.URem(A, B)
        else: raise Unsupported('instruction ' + op)
        return simp(r)

    def cbin(s, st, op, a, b, w, ins):
        m = mask(w)
        sa, sb = sgn(a, w), sgn(b, w)
        if op in ('add', 'sub', 'mul'):
            v = sa + sb if op == 'add' else sa - sb if op == 'sub' else sa * sb
            if ins.get('nsw') and s.nsw and not (-(1 << (w - 1)) <= v < (1 << (w - 1))):
                s.oblig(st, False, 'no signed overflow', ins)
            return v & m
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor': return a ^ b
        if op in ('shl', 'lshr', 'ashr'):
            if b >= w:
                s.oblig(st, False, 'shift amount in range', ins); raise Dead()
            return (a << b) & m if op == 'shl' else a >> b if op == 'lshr' else (sa >> b) & m
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            if b == 0:
                s.oblig(st, False, 'division by zero', ins); raise Dead()
            if op == 'udiv': return a // b
            if op == 'urem': return a % b
            q = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
            return (q if op == 'sdiv' else sa - q * sb) & m
        return None

    def icmp(s, st, env, ins):
        a = s.val(env, ins['ops'][0]); b = s.val(env, ins['ops'][1])
        pred = ins['pred']
        if a is U or b is U: return U
        if isinstance(a, PI): a = a.p
        if isinstance(b, PI): b = b.p
        pa, pb = isinstance(a, (P, Fn, VF)), isinstance(b, (P, Fn, VF))
        if pa or pb:
            if isc(a) and pb: a = P(None, a)
            if isc(b) and pa: b = P(None, b)
            if isinstance(a, Fn) or isinstance(b, Fn):
                if isinstance(a, Fn) and isinstance(b, Fn): r = a.name == b.name
                else: r = False
                if pred == 'eq': return r
                if pred == 'ne': return not r
                raise Unsupported('ordering of functions')
            if not (isinstance(a, P) and isinstance(b, P)): raise Unsupported('pointer/integer comparison')
            if a.o == b.o:
                if s.icmps is not None and a.o is not None:
                    s.icmps.append((a.f, b.f, 64))
                p2 = {'ult': 'slt', 'ule': 'sle', 'ugt': 'sgt', 'uge': 'sge'}.get(pred, pred)
                return simp(CMPS[p2](a.f, b.f, 64))
            if pred == 'eq': return False
            if pred == 'ne': return True
            if a.o is None or b.o is None:
                # ordering against null: objects lie above address 0
                r = {'ult': a.o is None, 'ule': a.o is None, 'ugt': b.o is None, 'uge': b.o is None}[pred]
                return r
            s.oblig(st, False, 'comparison of pointers into different objects', ins)
            raise Dead()
        ty = ins['ots'][0]
        if ty == 'i1':
            a = tob(a); b = tob(b)
            if pred == 'eq': return simp(eqb(a, b))
            if pred == 'ne': return simp(b_not(eqb(a, b)))
            return simp(CMPS[pred](ite(a, 1, 0, 1), ite(b, 1, 0, 1), 1))
        w = width(ty)
        if s.icmps is not None: s.icmps.append((a, b, w))
        return simp(CMPS[pred](a, b, w))

    # -------------------------------------------------------------- loops
    def do_loop(s, st, env, f, L, pred):
        """-> (exits, rets)"""
        key = (short(f['dem']), L.header)
        if s.unroll:
            return s.unroll_loop(st, env, f, L, pred, s.unroll, bounded=True)
        k = s.small_loop(f, L, env, pred)
        if k:
            try:
                sv = (len(s.obligs), s.npaths, s.deadline)
                st0 = st.clone(); env0 = dict(env)
                return s.unroll_loop(st, env, f, L, pred, k, bounded=False)
            except TooDeep:
                del s.obligs[sv[0]:]
                st, env = st0, env0
        from loops import cut_loop
        return cut_loop(s, st, env, f, L, pred)

    def small_loop(s, f, L, env, pred):
        """iteration bound when the loop counts a phi from a constant to a constant"""
        h = f['blocks'][L.header]
        hint = s.unroll_hint.get(short(f['dem']))
        if hint: return hint
        consts = {}
        for ins in h:
            if ins['op'] == 'phi':
                v = env.get(ins['id']) if pred == -1 else None
                for pb, a in ins['in']:
                    if pb == pred: v = s.val(env, a)
                if isc(v): consts[ins['id']] = v
                elif isinstance(v, P) and isc(v.f) and v.o is not None: consts[ins['id']] = ('p', v)
        for blk in L.blocks:
            for ins in f['blocks'][blk]:
                if ins['op'] == 'icmp':
                    a, b = ins['ops']
                    if a[0] == 'v' and a[1] in consts and b[0] == 'c' and isc(consts[a[1]]):
                        k = abs(sgn(int(b[2]), b[1]) - sgn(consts[a[1]], b[1]))
                        if 0 < k <= 40: return k + 2
                    if b[0] == 'v' and a[0] == 'v' and isinstance(consts.get(a[1]), tuple):
                        q = env.get(b[1])
                        p = consts[a[1]][1]
                        if isinstance(q, P) and q.o == p.o and isc(q.f) and 0 < q.f - p.f <= 64: return q.f - p.f + 2
        return 0

    def unroll_loop(s, st, env, f, L, pred, k, bounded):
        items = [(st, env, L.header, pred, 0)]
        exits = []; rets = []
        for it in range(k + 1):
            # run one iteration: enter header as if from inside
            R = Exec.Res()
            nxt = []
            for (a, e, b, p, i) in items:
                try:
                    first = s.block(f, a, e, b, p, 0, R)
                except Dead:
                    continue
                R2 = s.region(f, first, L.blocks, L.header)
                # first may already have left the scope
                exits += R2.exits; rets += R2.rets
                nxt += [(a2, e2, p2) for a2, e2, p2 in R2.backs]
            nxt = [(a2, e2, L.header, p2, 0) for a2, e2, p2 in s.merge_backs(f, nxt)]
            rets += R.rets
            items = nxt
            if not items: break
            if len(items) > 200 and not bounded: raise TooDeep()
        if items:
            if not bounded: raise TooDeep()
            s.bounded_cut = True
        return s.merge_exits(f, exits), rets

class TooDeep(Exception): pass

def succs(blk):
    t = blk[-1]
    if t['op'] == 'br': return [t['t']] + ([t['f']] if 'cond' in t else [])
    if t['op'] == 'switch': return [x for _, x in t['cases']] + [t['def']]
    if t['op'] == 'invoke': return [t['t']]
    return []
def rpo(f):
    if 'rpo' not in f:
        seen = {0}; post = []
        stack = [(0, iter(succs(f['blocks'][0])))]
        # postpone loop exits so that bodies come first is not needed: loops are regions
        while stack:
            b, it = stack[-1]
            for x in it:
                if x not in seen:
                    seen.add(x); stack.append((x, iter(succs(f['blocks'][x])))); break
            else:
                post.append(b); stack.pop()
        f['rpo'] = {b: i for i, b in enumerate(reversed(post))}
        for i in range(len(f['blocks'])): f['rpo'].setdefault(i, 1 << 30)
    return f['rpo']
def live_in(f, b):
    """values that may be used in or after block b (phis of b included)"""
    if 'live' not in f:
        n = len(f['blocks'])
        use = [set() for _ in range(n)]; dfn = [set() for _ in range(n)]
        def walk(x, out):
            if isinstance(x, list):
                if len(x) == 2 and x[0] == 'v' and isinstance(x[1], int): out.add(x[1])
                else:
                    for y in x: walk(y, out)
            elif isinstance(x, dict):
                for y in x.values(): walk(y, out)
        phiuse = {}
        for i, blk in enumerate(f['blocks']):
            for ins in blk:
                if ins['op'] == 'dbg': continue
                if ins['op'] == 'phi':
                    dfn[i].add(ins['id'])
                    for pb, a in ins['in']: walk([a], phiuse.setdefault(pb, set()))
                    continue
                u = set(); walk({k: v for k, v in ins.items() if k not in ('id', 'line', 'file')}, u)
                use[i] |= u - dfn[i]
                if 'id' in ins: dfn[i].add(ins['id'])
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in reversed(range(n)):
                out = set(phiuse.get(i, ()))
                for x in succs(f['blocks'][i]): out |= live[x]
                nl = use[i] | (out - dfn[i])
                if nl != live[i]: live[i] = nl; ch = True
        f['live'] = live
    return f['live'][b] | {i['id'] for i in f['blocks'][b] if i['op'] == 'phi'}
def val_widths(f):
    if 'vw' not in f:
        d = {}
        for p in f['params']: d[p['id']] = tyw(p['ty'])
        for b in f['blocks']:
            for i in b:
                if 'id' in i and 'ty' in i: d[i['id']] = tyw(i['ty'])
        f['vw'] = d
    return f['vw']
def tyw(t):
    if t == 'ptr': return 64
    if t and t[0] == 'i' and t[1:].isdigit(): return int(t[1:])
    return None
def ret_width(f):
    return tyw(f.get('ret'))
def ret_width_(f):
    if 'rw' not in f:
        f['rw'] = None
        for b in f['blocks']:
            for i in b:
                if i['op'] == 'ret' and i.get('ots'): f['rw'] = tyw(i['ots'][0])
    return f['rw']

def tob(x):
    if isc(x): return bool(x & 1)
    if isinstance(x, z3.BitVecRef): return ne(x, 0, x.size())
    return x
def eqb(a, b):
    if type(a) is bool and type(b) is bool: return a == b
    if a is True: return b
    if b is True: return a
    if a is False: return b_not(b)
    if b is False: return b_not(a)
    return a == b
def no_ovf(op, a, b, w):
    W = w + 1 if op != 'mul' else 2 * w
    A, B = sext(bv(a, w), w, W), sext(bv(b, w), w, W)
    r = A + B if op == 'add' else A - B if op == 'sub' else A * B
    return b_and(sle(sext(1 << (w - 1), w, W), r, W), sle(r, mask(w - 1), W))

def strip_params(d):
    """drop the parameter list of a demangled name"""
    d = d.strip()
    for suf in (' const', ' [clone', ' volatile'):
        if d.endswith(suf): d = d[:-len(suf)]
    if not d.endswith(')'): return d
    k = 0
    for i in range(len(d) - 1, -1, -1):
        if d[i] == ')': k += 1
        elif d[i] == '(':
            k -= 1
            if k == 0: return d[:i]
    return d
def short(d):
    d = d.replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'std::string')
    d = d.replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >', 'std::string')
    return strip_params(d)
