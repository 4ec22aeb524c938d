"""Loops cut at an inductive invariant.

The invariant is found by Houdini: candidate relations between the scalars the
loop changes (and the values they had on entry) are generated, those that do not
hold on entry or are not preserved are dropped, the rest is assumed at the head
of an arbitrary iteration and proved on entry and on every back edge.
Pointers are split by what they point to (the 'shape'); each shape met at the
loop head is its own abstract iteration start.
"""
import z3, itertools
from sym import *
import sym
from execu import Exec, eqb, tob, short, tyw

MAXSHAPES = 8

def free_vars(e, cache={}):
    k = e.get_id()
    r = cache.get(k)
    if r is not None and r[0].eq(e): return r[1]
    out = set()
    todo = [e]; seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        todo.extend(x.children())
    if len(cache) > 20000: cache.clear()
    cache[k] = (e, out)
    return out

class Head:
    """one abstract loop-head state (for one shape)"""
    pass

def phi_list(f, header):
    r = []
    for ins in f['blocks'][header]:
        if ins['op'] == 'dbg': continue
        if ins['op'] != 'phi': break
        r.append(ins)
    return r

def cut_loop(s, st0, env0, f, L, pred, peel=0):
    s.stats.loops += 1
    phis = phi_list(f, L.header)
    entry = s.phis(f, env0, L.header, pred)
    env0 = dict(env0); env0.update(entry)
    pty = {p['id']: p['ty'] for p in phis}
    outer_wr = st0.wr
    preobjs = set(st0.mem.keys()) | set(s.gnames)
    # locations the loop writes
    mod = set()
    ctx = Ctx(s, f, L, st0, env0, pty, preobjs)
    # ---- 1. discovery to a fixpoint
    s.discover += 1
    sv_ic = s.icmps
    s.icmps = []
    try:
        heads = {}
        for rnd in range(12):
            ctx.mod = mod
            sh0 = ctx.shape_of(st0, entry)
            heads = {sh0: ctx.make_head(sh0, [])}
            todo = [sh0]
            grown = False
            while todo:
                h = heads[todo.pop()]
                wr = set()
                backs, exits, rets = ctx.run(h, wr)
                new = ctx.filter_writes(wr)
                if not new <= mod:
                    mod = mod | new; grown = True
                    break
                for bst, benv, bphi in backs:
                    sh = ctx.shape_of(bst, bphi)
                    if sh not in heads:
                        if len(heads) >= MAXSHAPES: raise Unsupported('too many pointer shapes in a loop of ' + short(f['dem']))
                        heads[sh] = ctx.make_head(sh, [])
                        todo.append(sh)
            if not grown: break
        else:
            raise Unsupported('write set of a loop does not settle in ' + short(f['dem']))
        icmps = s.icmps
    finally:
        s.icmps = sv_ic
        s.discover -= 1
    ctx.mod = mod
    # ---- 2. candidates and Houdini
    s.discover += 1
    try:
        get0 = ctx.getter(st0, entry, sh0)
        bounds = ctx.bounds(icmps, heads)
        ctx.hooks = [hk for hk in s.inv_hooks if hk.relevant(ctx)]
        if ctx.hooks:
            for hk in list(ctx.hooks):
                if not ctx.hook_ok(hk, st0): ctx.hooks.remove(hk)
        for sh, h in heads.items():
            h.cands = ctx.candidates(h, get0, bounds, sh == sh0)
        h0 = heads[sh0]
        hkey = ctx.hints(heads)
        ctx.drop_false(st0, get0, h0, 'entry')
        for rnd in range(60):
            changed = False
            allbacks = []
            for sh in list(heads):
                h = heads[sh]
                st, env = ctx.head_state(h)
                wr = set()
                backs, exits, rets = ctx.run(h, wr, st, env)
                new = ctx.filter_writes(wr)
                if not new <= mod: raise Unsupported('loop writes more than discovered')
                allbacks += [x[0] for x in backs]
                if s.trace: print('  loop', ctx.line(), short(f['dem']), 'round', rnd, 'shapes', len(heads), 'backs', len(backs), 'cands', len(h.cands), 'hooks', len(ctx.hooks), 'q', s.stats.queries, '%.1f' % s.stats.time, flush=True)
                for bst, benv, bphi in backs:
                    bsh = ctx.shape_of(bst, bphi)
                    if bsh not in heads:
                        heads[bsh] = ctx.make_head(bsh, [])
                        heads[bsh].cands = ctx.candidates(heads[bsh], get0, bounds, False)
                        ctx.filter_hints(hkey, heads)
                        changed = True
                    if ctx.drop_false(bst, ctx.getter(bst, bphi, bsh), heads[bsh], 'back'): changed = True
            if changed: continue
            # the class invariants of the objects the loop changes
            for hk in list(ctx.hooks):
                if not all(ctx.hook_ok(hk, bst) for bst in allbacks):
                    ctx.hooks.remove(hk); changed = True
            if not changed: break
        else:
            raise Unsupported('no inductive invariant within 60 rounds')
        ctx.save_hints(hkey, heads)
    finally:
        s.discover -= 1
    # ---- 3. final pass with obligations
    exits = []; rets = []
    name = 'loop at %s:%s of %s' % (f.get('file', '').split('/')[-1], ctx.line(), short(f['dem']))
    if not s.discover:
        s.obligs.append(Oblig('%s%s: invariant holds on entry (%d conjuncts)' % (s.goal + ': ' if s.goal else '', name, len(h0.cands)), True, 'z3'))
    for sh, h in heads.items():
        st, env = ctx.head_state(h)
        wr = set()
        backs, ex, rt = ctx.run(h, wr, st, env)
        for bst, benv, bphi in backs:
            if not s.discover:
                s.obligs.append(Oblig('%s%s: invariant preserved (%d conjuncts)' % (s.goal + ': ' if s.goal else '', name, len(h.cands)), True, 'z3'))
        exits += ex; rets += rt
    s.stats.inv += sum(len(h.cands) for h in heads.values())
    for a in exits: a[0].wr = outer_wr
    for a in rets: a[0].wr = outer_wr
    if outer_wr is not None:
        for m in mod:
            if m[0] != 'phi': outer_wr.add(m)
    return exits, rets

class Ctx:
    def __init__(c, s, f, L, st0, env0, pty, preobjs):
        c.s = s; c.f = f; c.L = L; c.st0 = st0; c.env0 = env0; c.pty = pty; c.pre = preobjs
        c.mod = set(); c.hooks = []
    def hook_ok(c, hk, st):
        try:
            gs = hk.goals(c.s, st)
            st = st.clone()
            gs = [simp(g(st)) if callable(g) else simp(g) for g in gs]
        except (Unsupported, AttributeError, TypeError):
            return False
        g = b_and(*gs)
        if g is True: return True
        if g is False: return not c.s.feasible(st, True)
        r, _, dt = c.s.check(st, z3.Not(g), pref='cvc5')
        if c.s.trace and not r.startswith('unsat'):
            print('   hook fails:', r, '%.1f' % dt, flush=True)
            for k, x in enumerate(gs): print('     ', k, c.s.check(st, b_not(x))[0])
        return r.startswith('unsat')
    def line(c):
        for ins in c.f['blocks'][c.L.header]:
            if 'line' in ins: return ins['line']
        for b in sorted(c.L.blocks):
            for ins in c.f['blocks'][b]:
                if 'line' in ins: return ins['line']
        return '?'
    def filter_writes(c, wr):
        out = set()
        for w in wr:
            oid = w[1]
            if oid not in c.pre: continue
            o = c.st0.mem.get(oid) or c.st0.obj(oid)
            if o.model is not None and hasattr(o.model, 'loop_havoc'):
                out.add(('m', oid)); continue
            if w[0] == 'c':
                _, _, off, n = w
                if w[0] == 'c': out.add(('c', oid, off, n))
            else: out.add(w)
        return out
    # ---- pointer locations and shapes
    def ptr_locs(c, st, phi):
        """all pointer-valued locations among the modified ones, in a fixed order"""
        r = []
        for i, ty in sorted(c.pty.items()):
            if ty == 'ptr': r.append((('phi', i), phi[i]))
        for m in sorted((m for m in c.mod if m[0] == 'c'), key=str):
            v = st.getc(m[1], m[2], m[3]) if st.mem.get(m[1]) is not None or True else U
            if isinstance(v, (P, Fn, VF)): r.append((m, v))
            elif v is U: r.append((m, U))
            elif isinstance(v, (Str, Blob)): r.append((m, v))
        return r
    def shape_of(c, st, phi):
        groups = {}
        sh = []
        for loc, v in c.ptr_locs(st, phi):
            if v is U: sh.append((loc, 'undef'))
            elif isinstance(v, Str): sh.append((loc, 'str'))
            elif isinstance(v, Blob): sh.append((loc, 'blob', v.tag))
            elif isinstance(v, Fn): sh.append((loc, 'fn', v.name))
            elif isinstance(v, VF): raise Unsupported('vtable entry across a loop')
            elif v.o is None: sh.append((loc, 'null') if isc(v.f) and v.f == 0 else (loc, 'nulloff'))
            else:
                role = c.role(st, v.o)
                if role is not None: sh.append((loc, 'role') + role)
                elif v.o in c.pre:
                    o = st.obj(v.o)
                    if o.kind == 'struct' and isc(v.f) and (o.model is not None or v.f == 0): sh.append((loc, 'objc', v.o, v.f))
                    else: sh.append((loc, 'obj', v.o))
                else:
                    o = st.obj(v.o)
                    if o.alive is False: sh.append((loc, 'dead'))
                    elif o.kind == 'arr':
                        g = groups.setdefault(v.o, len(groups))
                        sh.append((loc, 'new', g, o.es, o.name, o.heap))
                    else:
                        raise Unsupported('structure allocated in a loop (%s) in %s' % (o.name, short(c.f['dem'])))
        return tuple(sh)
    def role(c, st, oid):
        for i, o in st.mem.items():
            if o.model is not None and hasattr(o.model, 'seg_of') and i in c.pre and ('m', i) in c.mod:
                if o.model.seg_of(st, i) == oid: return ('seg', i)
        return None
    # ---- heads
    def make_head(c, sh, cands):
        h = Head()
        h.shape = sh; h.cands = cands
        h.vars = {}
        return h
    def head_state(c, h):
        """fresh state at the loop head for this shape, candidates assumed"""
        s = c.s
        st = c.st0.clone(); env = dict(c.env0)
        st.model = None; st.cut = True
        shp = {x[0]: x[1:] for x in h.shape}
        # models first: they provide the segments
        for m in sorted((m for m in c.mod if m[0] == 'm'), key=str):
            st.obj(m[1]).model.loop_havoc(s, st, m[1])
        grp = {}
        dims = {}
        def mkptr(loc, x):
            k = x[0]
            if k == 'undef': return U
            if k == 'null': return NULL
            if k == 'nulloff': return P(None, fresh('noff'))
            if k == 'fn': return Fn(x[1])
            if k == 'dead':
                o = st.new('arr', 0, 'dead memory'); o.alive = False; o.content = lambda i: 0
                return P(o.id, 0)
            if k == 'role':
                if x[1] == 'seg': oid = st.obj(x[2]).model.seg_of(st, x[2])
            elif k == 'objc': return P(x[1], x[2])
            elif k == 'obj': oid = x[1]
            elif k == 'new':
                if x[1] not in grp:
                    sz = fresh('objsize')
                    o = s.new_arr(st, sz, x[3], x[2]); o.heap = x[4]
                    st.assume(b_and(sle(0, sz), sle(sz, 1 << 62)))
                    grp[x[1]] = o.id
                oid = grp[x[1]]
            return P(oid, fresh('off'))
        for i, ty in sorted(c.pty.items()):
            loc = ('phi', i)
            if ty == 'ptr': env[i] = mkptr(loc, shp[loc])
            elif ty == 'i1': env[i] = fresh_bool('phi%d' % i)
            elif ty[0] == 'i': env[i] = fresh('phi%d' % i, width(ty))
            else: env[i] = ('fpx',)
        for m in sorted((m for m in c.mod if m[0] != 'm'), key=str):
            if m[0] == 'c':
                if m in shp:
                    x = shp[m]
                    if x[0] == 'str':
                        n = fresh('strlen')
                        st.assume(b_and(sle(0, n), sle(n, 1 << 40)))
                        v = Str(n, fresh_fun('str'))
                    elif x[0] == 'blob': v = st.getc(m[1], m[2], m[3])
                    else: v = mkptr(m, x)
                else:
                    v = fresh('cell', 8 * m[3])
                # overlapping cells of another width were dropped by setc
                st.setc(m[1], m[2], m[3], v)
            elif m[0] == 'a':
                o = st.own(m[1])
                o.content = fresh_fun('arr', 8 * o.es)
                hook = s.array_hooks.get(m[1]) if hasattr(s, 'array_hooks') else None
                if hook: hook(s, st, m[1], env, c)
            elif m[0] == 'alive':
                st.own(m[1]).alive = fresh_bool('alive')
            elif m[0] == 'sz':
                o = st.own(m[1]); o.size = fresh('objsize'); st.assume(b_and(sle(0, o.size), sle(o.size, 1 << 62)))
            elif m[0] == 'g':
                st.ghost[m[2]] = s.ghost_havoc(st, m[2])
        h.grp = grp
        for hk in c.hooks:
            hk.assume(s, st)
        get = c.getter(st, env, h.shape)
        for nm, fn in h.cands:
            st.assume(fn(get))
        # let pointers stay inside reasonable offsets is left to the candidates
        return st, env
    def run(c, h, wr, st=None, env=None):
        """one arbitrary iteration; -> backs [(st, env, phis)], exits, rets"""
        s = c.s
        if st is None: st, env = c.head_state(h)
        st.wr = wr
        R = Exec.Res()
        try:
            first = s.block(c.f, st, env, c.L.header, None, 0, R)
        except Dead:
            return [], [], []
        R2 = s.region(c.f, first, c.L.blocks, c.L.header)
        backs = []
        exits = list(R2.exits); rets = R.rets + R2.rets
        for bst, benv, bp in R2.backs:
            phi = s.phis(c.f, benv, c.L.header, bp)
            if c.forced_exit(bst, benv, phi, exits): continue
            backs.append((bst, benv, phi))
        if len(backs) >= s.MERGE:
            from merge import merge_all
            backs = [(a, None, p) for a, p in merge_all(s, [(a, p) for a, _, p in backs], {i: tyw(t) for i, t in c.pty.items()})]
        return backs, s.merge_exits(c.f, exits), rets
    def forced_exit(c, st, env, phi, exits):
        """the header sends this state straight out of the loop: no cut needed"""
        s = c.s
        blk = c.f['blocks'][c.L.header]
        if any(i['op'] in ('call', 'invoke', 'store') for i in blk): return False
        if blk[-1]['op'] != 'br' or 'cond' not in blk[-1]: return False
        t = blk[-1]
        inn = [x for x in (t['t'], t['f']) if x in c.L.blocks]
        if len(inn) != 1: return False
        st2 = st.clone(); e2 = dict(env); e2.update(phi)
        R = Exec.Res()
        s.discover += 1
        try:
            nxt = s.block(c.f, st2, e2, c.L.header, None, 0, R)
        except Dead:
            return False
        finally:
            s.discover -= 1
        if any(b in c.L.blocks for _, _, b, _, _ in nxt): return False
        for a, e, b, p, _ in nxt: exits.append((a, e, b, p))
        return True
    # ---- scalar dimensions
    def dims(c, shape):
        """names and widths of the scalars at the loop head for this shape"""
        shp = {x[0]: x[1:] for x in shape}
        d = []
        for i, ty in sorted(c.pty.items()):
            if ty == 'ptr':
                if shp[('phi', i)][0] in ('obj', 'new', 'role'): d.append((('off', ('phi', i)), 64))
            elif ty == 'i1': d.append((('phi', i), 1))
            elif ty[0] == 'i': d.append((('phi', i), width(ty)))
        seen = set()
        for m in sorted((m for m in c.mod if m[0] != 'phi'), key=str):
            if m[0] == 'c':
                if m in shp:
                    if shp[m][0] in ('obj', 'new', 'role'): d.append((('off', m), 64))
                    elif shp[m][0] == 'str': d.append((('len', m), 64))
                else: d.append((m, 8 * m[3]))
            elif m[0] == 'm':
                for nm, w in c.st0.obj(m[1]).model.loop_dims(): d.append((('gh', m[1], nm), w))
            elif m[0] == 'alive': d.append((m, 1))
            elif m[0] == 'g' and c.s.ghost_width(m[2]): d.append((m, c.s.ghost_width(m[2])))
        for x in shape:
            if x[1] == 'new' and ('sz', x[2]) not in seen:
                seen.add(('sz', x[2])); d.append((('szof', x[0]), 64))
            elif x[1] == 'role' and x not in seen:
                seen.add(x); d.append((('szof', x[0]), 64))
        return d
    def getter(c, st, phi, shape):
        def loc(l):
            if l[0] == 'phi': return phi[l[1]]
            return st.getc(l[1], l[2], l[3])
        def get(dim):
            k = dim[0]
            if k == 'phi': return phi[dim[1]]
            if k == 'off':
                v = loc(dim[1])
                return v.f if isinstance(v, P) else None
            if k == 'szof':
                v = loc(dim[1])
                return st.obj(v.o).size if isinstance(v, P) and v.o is not None else None
            if k == 'len':
                v = loc(dim[1])
                return v.n if isinstance(v, Str) else None
            if k == 'gh': return st.obj(dim[1]).model.loop_get(st, dim[1], dim[2])
            if k == 'alive': return st.obj(dim[1]).alive
            if k == 'c':
                v = st.getc(dim[1], dim[2], dim[3])
                return v if isc(v) or isinstance(v, z3.BitVecRef) else None
            if k == 'g': return st.ghost.get(dim[2])
            if k == 'state': return (st, phi)
            return None
        get.st = st; get.phi = phi; get.shape = shape
        return get
    def bounds(c, icmps, heads):
        """loop-invariant expressions compared inside the loop"""
        base = set()
        st0 = c.st0
        out = []
        known = set()
        for cc in st0.pc: known |= free_vars(cc)
        for v in c.env0.values():
            if isinstance(v, z3.ExprRef): known |= free_vars(v)
            elif isinstance(v, P) and isinstance(v.f, z3.ExprRef): known |= free_vars(v.f)
        for o in st0.mem.values():
            if isinstance(o.size, z3.ExprRef): known |= free_vars(o.size)
            for n, v in o.cells.values():
                if isinstance(v, z3.ExprRef): known |= free_vars(v)
                elif isinstance(v, P) and isinstance(v.f, z3.ExprRef): known |= free_vars(v.f)
        seen = set()
        for a, b, w in icmps:
            for x in (a, b):
                if isc(x):
                    if ('k', x, w) not in seen:
                        seen.add(('k', x, w)); out.append((x, w))
                elif isinstance(x, z3.BitVecRef):
                    if x.get_id() in seen: continue
                    seen.add(x.get_id())
                    if free_vars(x) <= known: out.append((x, w))
        return out[:24]
    # hints: the candidates that survived in an earlier run (only a matter of
    # speed: whatever they say, the invariant is proved inductive again)
    def hints(c, heads):
        s = c.s
        s.hint_no = getattr(s, 'hint_no', 0) + 1
        key = '%s#%d' % (short(c.f['dem']), s.hint_no)
        c.hinted = set()
        c.filter_hints(key, heads)
        return key
    def filter_hints(c, key, heads):
        hs = (getattr(c.s, 'hints', None) or {}).get(key)
        if hs is None: return
        for sh, h in heads.items():
            if id(h) in c.hinted: continue
            c.hinted.add(id(h))
            h.cands = [(nm, fn) for nm, fn in h.cands if hname(nm) in hs or nm.startswith('axiom:')]
    def save_hints(c, key, heads):
        out = getattr(c.s, 'hints_out', None)
        if out is None: return
        out[key] = sorted({hname(nm) for h in heads.values() for nm, fn in h.cands})
    def candidates(c, h, get0, bounds, is_entry):
        s = c.s
        ds = c.dims(h.shape)
        C = []
        def S(v, w): return sext(v, w, 64) if w < 64 else v
        e0 = {}
        for d, w in ds:
            try: v = get0(d)
            except Exception: v = None
            if v is U: v = None
            e0[d] = v
        hooked = {getattr(hk, 'oid', None) for hk in c.hooks} - {None}
        def own(d):
            k = d[1] if d[0] in ('off', 'szof', 'len') else d
            return k[0] == 'c' and k[1] in hooked
        ints = [(d, w) for d, w in ds if w in (8, 16, 32, 64)]
        only = short(c.f['dem']) in s.loop_only
        for d, w in ds if not only else []:
            v0 = e0[d]
            if own(d):
                # the class invariant speaks about these
                if v0 is not None: C.append(('%s unchanged' % (d,), lambda g, d=d, v0=v0, w=w: eqb(tob(g(d)), tob(v0)) if w == 1 else eq(g(d), v0, w)))
                if v0 is not None and w >= 32:
                    C.append(('%s >= entry' % (d,), lambda g, d=d, v0=v0, w=w: sle(v0, g(d), w)))
                if w == 32:
                    for bx, bw in bounds:
                        if bw == 32 and not isc(bx): C.append(('%s <= %s' % (d, bx), lambda g, d=d, bx=bx: sle(g(d), bx, 32))); C.append(('%s >= %s' % (d, bx), lambda g, d=d, bx=bx: sle(bx, g(d), 32)))
                    C.append(('%s <=u 1' % (d,), lambda g, d=d: ule(g(d), 1, 32)))
                continue
            if w == 1:
                if v0 is not None:
                    C.append(('%s unchanged' % (d,), lambda g, d=d, v0=v0: eqb(tob(g(d)), tob(v0))))
                continue
            if v0 is not None:
                C.append(('%s unchanged' % (d,), lambda g, d=d, v0=v0, w=w: eq(g(d), v0, w)))
                C.append(('%s >= entry' % (d,), lambda g, d=d, v0=v0, w=w: sle(v0, g(d), w)))
                C.append(('%s <= entry' % (d,), lambda g, d=d, v0=v0, w=w: sle(g(d), v0, w)))
            C.append(('%s >= 0' % (d,), lambda g, d=d, w=w: sle(0, g(d), w)))
            C.append(('%s >= -1' % (d,), lambda g, d=d, w=w: sle(mask(w), g(d), w)))
            if w == 8 or w == 32:
                for hi in (1, 2): C.append(('%s <=u %d' % (d, hi), lambda g, d=d, w=w, hi=hi: ule(g(d), hi, w)))
            if w == 64: C.append(('%s <= 2^62' % (d,), lambda g, d=d: sle(g(d), 1 << 62)))
            for bx, bw in bounds:
                if bw == w or (bw == 32 and w == 64) or (bw == 64 and w == 32):
                    C.append(('%s <= %s' % (d, bx), lambda g, d=d, w=w, bx=bx, bw=bw: sle(S(g(d), w), S(bx, bw))))
                    C.append(('%s < %s' % (d, bx), lambda g, d=d, w=w, bx=bx, bw=bw: slt(S(g(d), w), S(bx, bw))))
                    C.append(('%s >= %s' % (d, bx), lambda g, d=d, w=w, bx=bx, bw=bw: sle(S(bx, bw), S(g(d), w))))
                if bw == 32 and w == 64:
                    C.append(('%s <=u %s' % (d, bx), lambda g, d=d, w=w, bx=bx, bw=bw: sle(g(d), zext(bx, 32, 64))))
            # inside the object
            if d[0] == 'off':
                C.append(('%s inside' % (d,), lambda g, d=d: b_and(sle(0, g(d)), sle(g(d), g(('szof', d[1]))))))
                C.append(('%s aligned' % (d,), lambda g, d=d: eq(z3.Extract(1, 0, bv(g(d), 64)), 0, 2)))
        big = [(d, w) for d, w in ints if w >= 32]
        if len(big) <= 24 and not only:
            for (d1, w1), (d2, w2) in itertools.combinations(big, 2):
                if own(d1) and own(d2): continue
                v1, v2 = e0[d1], e0[d2]
                if v1 is not None and v2 is not None:
                    a, b = S(v1, w1), S(v2, w2)
                    C.append(('%s - %s const' % (d1, d2), lambda g, d1=d1, d2=d2, w1=w1, w2=w2, k=sub(a, b): eq(sub(S(g(d1), w1), S(g(d2), w2)), k)))
                    C.append(('%s + %s const' % (d1, d2), lambda g, d1=d1, d2=d2, w1=w1, w2=w2, k=add(a, b): eq(add(S(g(d1), w1), S(g(d2), w2)), k)))
                C.append(('%s <= %s' % (d1, d2), lambda g, d1=d1, d2=d2, w1=w1, w2=w2: sle(S(g(d1), w1), S(g(d2), w2))))
                C.append(('%s >= %s' % (d1, d2), lambda g, d1=d1, d2=d2, w1=w1, w2=w2: sle(S(g(d2), w2), S(g(d1), w1))))
        for hk in s.loop_hooks:
            C += hk(s, c, h, get0, ds) or []
        # evaluate safely
        out = []
        for nm, fn in C:
            out.append((nm, safe(fn)))
        return out
    def drop_false(c, st, get, h, what):
        """remove the candidates that do not hold in st; True when some went"""
        s = c.s
        if not h.cands: return False
        changed = False
        exprs = []
        keep = []
        for nm, fn in h.cands:
            if nm.startswith('axiom:'): keep.append((nm, fn)); continue    # instance of a ghost definition
            e = fn(get)
            if not isinstance(e, bool): e = simp(e)
            if e is True: keep.append((nm, fn)); continue
            if e is False:
                if st.model is None:
                    r, m, _ = s.check(st)
                    if r.startswith('unsat'): return False
                    st.model = m
                changed = True; continue
            exprs.append((nm, fn, e))
        while exprs:
            r, m, _ = s.check(st, z3.Not(z3.And([e for _, _, e in exprs])) if len(exprs) > 1 else z3.Not(exprs[0][2]), bools=[e for _, _, e in exprs])
            if r.startswith('unsat'): break
            if r == 'sat':
                nx = []
                for x, v in zip(exprs, m):
                    if v: nx.append(x)
                    else: changed = True
                if len(nx) == len(exprs):
                    # model did not decide: test one by one
                    nx = []
                    for x in exprs:
                        r2, _, _ = s.check(st, z3.Not(x[2]))
                        if r2.startswith('unsat'): nx.append(x)
                        else: changed = True
                    exprs = nx
                    break
                exprs = nx
            else:
                nx = []
                for x in exprs:
                    r2, _, _ = s.check(st, z3.Not(x[2]), to=20 if x[0].startswith('must:') else 3)
                    if r2.startswith('unsat'): nx.append(x)
                    else: changed = True
                exprs = nx
                break
        names = {id(x[1]) for x in exprs}
        order = {id(fn) for _, fn in keep} | names
        for nm, fn in h.cands:
            if nm.startswith('must:') and id(fn) not in order and s.trace:
                e = fn(get)
                print('   must fails:', nm, e if isinstance(e, bool) else s.check(st, b_not(e), to=20)[0], flush=True)
                if not isinstance(e, bool) and z3.is_and(e):
                    for x in e.children(): print('      ', s.check(st, z3.Not(x), to=20)[0], str(x)[:300].replace('\n', ' '))
                continue
            if nm.startswith('must:') and id(fn) not in order: raise Unsupported('a required loop invariant does not hold (%s) in %s' % (nm[5:].strip(), short(c.f['dem'])))
        h.cands = [(nm, fn) for nm, fn in h.cands if id(fn) in order]
        return changed

import hashlib
def hname(nm): return hashlib.md5(nm.encode()).hexdigest()[:8]
def safe(fn):
    def g(get):
        try:
            r = fn(get)
        except (TypeError, AttributeError, z3.Z3Exception):
            return False
        return r
    return g
