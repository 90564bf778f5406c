"""Inductive loop invariants: modified-location discovery, havoc, and Houdini
over structural templates plus the predicates a contract supplies."""
import z3
from . import ir
from .sym import *
from .mem import *

import os
DBG = int(os.environ.get("KVC_DBG", "0"))
def _eng():
    from . import engine
    return engine

class Loc:
    """a modified location and how it is havoced"""
    __slots__ = ('key', 'kind', 'n', 'comps', 'tags')
    def __init__(s, key, kind, n):
        s.key = key      # ('phi',name) ('cell',oid,off)
        s.kind = kind    # 'i' 'b' 'p' 'P'(PI) 't'
        s.n = n          # width in bits
        s.comps = set()
        s.tags = set()

def getv(E, st, depth, loc_key, kind, n):
    if loc_key[0] == 'phi':
        return st.frames[depth - 1].loc[loc_key[1]]
    _, oid, off = loc_key
    return E.rd(st, Ptr(oid, 0, off), n // 8, 'p' if kind in ('p', 'P') else 'i')

def same(a, b):
    if a is b: return True
    if type(a) in (int, bool) or type(b) in (int, bool):
        return type(a) == type(b) and a == b
    if isinstance(a, PI): a = a.p
    if isinstance(b, PI): b = b.p
    if isinstance(a, Ptr):
        return isinstance(b, Ptr) and same(a.tag, b.tag) and same(a.idx, b.idx) and same(a.off, b.off)
    if type(a) is tuple:
        return type(b) is tuple and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Opq) or isinstance(b, Opq): return False
    if isinstance(b, (Ptr, PI)): return False
    return a.eq(b)

class Mods:
    def __init__(s):
        s.locs = {}
        s.arrs = set()
        s.fields = {}     # (oid,fo) -> (kind, n, tags)

def havoc(E, S, M, depth):
    H = S.fork()
    H.cut = True
    fr = H.frames[depth - 1]
    for k, L in M.locs.items():
        old = getv(E, S, depth, k, L.kind, L.n)
        nm = 'hv'
        if L.kind == 'i':
            v = BitVec('%s!%d' % (nm, fresh_id()), L.n)
        elif L.kind == 'b':
            v = z3.Bool('%s!%d' % (nm, fresh_id()))
        elif L.kind in ('p', 'P'):
            if isinstance(old, PI): old = old.p
            if not isinstance(old, Ptr): old = Ptr(0, 0, old)
            tag, idx, off = old.tag, old.idx, old.off
            if 'tag' in L.comps:
                tag = E.fresh_tag('hvt', sorted(L.tags))
                H.pc.append(lor(*[eq(tag, t, 16) for t in sorted(L.tags)]))
            if 'idx' in L.comps: idx = BitVec('hvi!%d' % fresh_id(), 64)
            if 'off' in L.comps: off = BitVec('hvo!%d' % fresh_id(), 64)
            v = Ptr(tag, idx, off)
            if L.kind == 'P': v = PI(v)
        elif L.kind == 'o':
            v = Opq()
        else:
            raise Unsupported('havoc of aggregate')
        if k[0] == 'phi': fr.loc[k[1]] = v
        else:
            w = H.w(k[1])
            E.clear_cells(w, k[1], k[2], L.n // 8)
            w.cells[k[2]] = (L.n // 8, v)
    for oid in M.arrs:
        w = H.w(oid)
        w.arr = ABase(E.objs[oid].name, bool(E.objs[oid].stride))
        for co in [c for c, (sz, v) in w.cells.items() if ('cell', oid, c) not in M.locs and not isinstance(v, (Ptr, PI))]:
            pass
    for (oid, fo), (kind, n, tags) in M.fields.items():
        w = H.w(oid)
        b = FBase('%s.%d' % (E.objs[oid].name, fo), kind, n * 8)
        if kind == 'p': E.symtags[b.name + '!t'] = sorted(tags)
        w.fields[fo] = (n, b, kind)
    # a cached model no longer describes the havoced state, but its values for
    # the symbols in pc are still fine (fresh symbols are unconstrained) unless tags were added
    H.model = None
    return H

def ptags(E, v):
    if isinstance(v, PI): v = v.p
    if isinstance(v, Ptr): return set(E.tag_values(v.tag))
    return set()

def kind_of(v):
    if isinstance(v, PI): return 'P'
    if isinstance(v, Ptr): return 'p'
    if type(v) is bool or isinstance(v, z3.BoolRef): return 'b'
    if isinstance(v, Opq): return 'o'
    if type(v) is tuple: return 't'
    return 'i'

def chain_tags(E, ch, seen=None):
    """tags a pointer field chain may contain"""
    out = set()
    while True:
        if isinstance(ch, FStore):
            out |= ptags(E, ch.v)
            ch = ch.prev
        elif isinstance(ch, FCopy):
            out |= chain_tags(E, ch.src)
            ch = ch.prev
        elif isinstance(ch, FBase):
            return out | set(E.symtags.get(ch.name + '!t', ()))
        elif isinstance(ch, FFun):
            v = ch.read(BitVec('probe_idx', 64), 0)
            return out | ptags(E, v)
        else:
            return out

def known_tag(E, S, t):
    """a tag that makes sense at the head of the loop: an object made by an earlier iteration is
    represented by a dead object (so that nothing but a comparison can be done with a pointer to it)"""
    if not t or t in S.mem: return t
    o = E.objs[t]
    if o.kind == 'func':
        S.mem[t] = OState()
        return t
    if o.kind == 'global' and o.home:
        E.gptr(S, o.home[0], o.home[1])
        if t in S.mem: return t
    w = getattr(E, 'wild', None)
    if w is None:
        from .engine import Obj
        E.nobj += 1
        o = Obj(E.nobj, 'object of an earlier iteration', 'wild', 0)
        E.objs[o.id] = o
        w = E.wild = o.id
    if w not in S.mem:
        S.mem[w] = OState()
        S.mem[w].alive = False
    return w

def diff_states(E, S, H, hits, M, depth, phis, phity):
    """extend M with locations that differ between H and the back-edge states; returns True if M grew"""
    grew = False
    def addloc(k, vh, vb, w):
        nonlocal grew
        kd = kind_of(vb)
        if kd == 'i' and kind_of(vh) in ('p', 'P') or kd in ('p', 'P') and kind_of(vh) == 'i':
            # integers mixed with pointers: allow null
            z = vh if kind_of(vh) == 'i' else vb
            if not (type(z) is int and z == 0):
                raise Unsupported('loop mixes integer and pointer in one location %s %s %s' % (k, vh, vb))
            kd = 'p' if kd in ('p',) or kind_of(vh) == 'p' else 'P'
        L = M.locs.get(k)
        if L is None:
            L = Loc(k, kd, w)
            M.locs[k] = L
            grew = True
        if kd == 't': raise Unsupported('aggregate modified in loop')
        if kd in ('p', 'P'):
            a = vh.p if isinstance(vh, PI) else vh if isinstance(vh, Ptr) else NULL
            b = vb.p if isinstance(vb, PI) else vb if isinstance(vb, Ptr) else NULL
            tg = set(E.tag_values(a.tag)) | set(E.tag_values(b.tag))
            tg = set(known_tag(E, S, t) for t in tg)
            if len(tg) > 1 or 'tag' in L.comps:
                if not tg <= L.tags or 'tag' not in L.comps:
                    L.tags |= tg
                    L.comps |= {'tag'}
                    grew = True
            for c in ('idx', 'off'):
                if not same(getattr(a, c), getattr(b, c)) and c not in L.comps:
                    L.comps.add(c)
                    grew = True
    for B in hits:
        fb = B.frames[depth - 1]
        fh = H.frames[depth - 1]
        for p in phis:
            vh, vb = fh.loc[p], fb.loc[p]
            if not same(vh, vb): addloc(('phi', p), vh, vb, phity[p])
        for oid, ob in B.mem.items():
            oh = H.mem.get(oid)
            if oh is None and oid not in S.mem and E.objs[oid].kind == 'global' and not E.objs[oid].readonly:
                # a global first touched inside the loop: its value before the loop is its initial value
                o = E.objs[oid]
                if o.home: E.gptr(S, o.home[0], o.home[1])
                else: S.mem[oid] = type(ob)()
                grew = True
                continue
            if oh is None or oh is ob: continue
            if oid not in S.mem: continue
            if ob.alive != oh.alive: raise Unsupported('object freed inside a loop')
            o = E.objs[oid]
            if o.stride:
                for fo, (fn, ch, kd) in ob.fields.items():
                    hh = oh.fields.get(fo)
                    if hh is not None and hh[1] is ch: continue
                    if hh is None:
                        # field discovered by a read: install in S so both agree
                        if isinstance(ch, FBase):
                            S.w(oid).fields[fo] = (fn, ch, kd)
                            grew = True
                            continue
                    tags = set()
                    if kd == 'p':
                        tags = chain_tags(E, ch) | (chain_tags(E, hh[1]) if hh else set())
                    cur = M.fields.get((oid, fo))
                    if cur is None or not tags <= cur[2]:
                        M.fields[(oid, fo)] = (kd, fn, tags | (cur[2] if cur else set()))
                        grew = True
                if ob.arr is not oh.arr and oid not in M.arrs:
                    if oh.arr is None and isinstance(ob.arr, ABase):
                        S.w(oid).arr = ob.arr
                        grew = True
                        continue
                    M.arrs.add(oid)
                    grew = True
                continue
            # plain object
            lost = [c for c in oh.cells if c not in ob.cells]
            if lost and any(not isinstance(oh.cells[c][1], (Ptr, PI)) for c in lost):
                # integer cells were flushed into the byte contents
                os_ = S.mem[oid]
                if any(not isinstance(v, (Ptr, PI, Opq)) for _, v in os_.cells.values()):
                    E.flush(S, oid)
                    for k in [k for k in M.locs if k[0] == 'cell' and k[1] == oid]:
                        del M.locs[k]
                    return True
                # flushed cells that were themselves havoced: keep them in the byte contents
                for c in lost:
                    k = ('cell', oid, c)
                    if k in M.locs:
                        del M.locs[k]
                if oid not in M.arrs:
                    M.arrs.add(oid)
                    return True
            for co, (sz, vb) in ob.cells.items():
                ch = oh.cells.get(co)
                if ch is not None and ch[0] == sz:
                    vh = ch[1]
                else:
                    vh = E.rd(H.fork(), Ptr(oid, 0, co), sz, 'p' if kind_of(vb) in 'pP' else 'i')
                if type(vb) is bool: vb = int(vb)
                if type(vh) is bool: vh = int(vh)
                if not same(vh, vb): addloc(('cell', oid, co), vh, vb, sz * 8)
            if ob.arr is not oh.arr and oid not in M.arrs:
                if oh.arr is None and isinstance(ob.arr, ABase):
                    S.w(oid).arr = ob.arr
                    grew = True
                    continue
                M.arrs.add(oid)
                grew = True
    return grew

class Var:
    __slots__ = ('name', 'get', 'w', 'key', 'comp')
    def __init__(s, name, get, w, key, comp):
        s.name = name; s.get = get; s.w = w; s.key = key; s.comp = comp

def gather_vars(E, M, depth):
    out = []
    for k, L in M.locs.items():
        if L.kind == 'i':
            out.append(Var(str(k), (lambda st, k=k, L=L: E.toint(getv(E, st, depth, k, 'i', L.n), L.n)), L.n, k, None))
        elif L.kind in ('p', 'P'):
            for c in ('idx', 'off'):
                if c in L.comps:
                    def g(st, k=k, L=L, c=c):
                        v = getv(E, st, depth, k, L.kind, L.n)
                        if isinstance(v, PI): v = v.p
                        if not isinstance(v, Ptr): v = Ptr(0, 0, v)
                        return getattr(v, c)
                    out.append(Var(str(k) + '.' + c, g, 64, k, c))
    return out

class Cand:
    __slots__ = ('name', 'fn', 'forall', 'rng', 'tm')
    def __init__(s, name, fn=None, rng=None, tm=None):
        s.name = name
        s.fn = fn          # state -> Bool
        s.rng = rng        # state -> (lo, hi)
        s.tm = tm          # template index
        s.forall = rng is not None

def tmpl_body(E, st, i, J):
    f, ctx = st.tmpl[i][:2]
    v = E.eval_fn(st, f, [ctx, J])
    return tobool(v)

def consts(t):
    """uninterpreted constants of a term"""
    out = {}
    stk = [t]; seen = set()
    while stk:
        x = stk.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 0:
            out[x.decl().name()] = x
        stk.extend(x.children())
    return out

def late(nm, fid):
    """symbol created after fresh id fid"""
    i = nm.rfind('!')
    try: return int(nm[i + 1:]) > fid
    except ValueError:
        try: return int(''.join(c for c in nm if c.isdigit()) or 0) > fid
        except ValueError: return True

def trivial_range(c, hv):
    """a pure comparison of the index itself"""
    stk = [c]
    while stk:
        x = stk.pop()
        if z3.is_select(x): return False
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args(): return False
        stk.extend(x.children())
    return True

def tobool(v):
    if type(v) is bool: return v
    if type(v) is int: return v != 0
    if isinstance(v, z3.BoolRef): return v
    return simp(v != 0)

def enter_inv(E, S, h):
    engine = _eng()
    depth = len(S.frames)
    fr = S.frames[-1]
    fn = fr.fn
    body = ir.find_loops(fn)[h]
    phis = []
    phity = {}
    for ins in fn.blocks[h].insts:
        if ins.op != 'phi': break
        phis.append(ins.res)
        t = fn.mod.resolve(ins.ty)
        phity[ins.res] = t[1] if t[0] == 'i' else 64
    where = E.where(S)

    def probe(H, extra_hyps=()):
        """run the loop body once from H; collects back-edge states"""
        X = H.fork()
        X.specs = []
        ctx = engine.LoopCtx('probe', h, body)
        X.frames[-1].active[h] = ctx
        om = E.mode
        of, ob = E.failures, E.obl
        sub_exits = E.exits
        E.mode = 'quiet' if om != 'pure' else 'pure'
        E.failures = []; E.obl = {}
        E.exits = []
        c0 = E.completed
        try:
            E.run([X])
        finally:
            E.mode = om
            E.failures = of; E.obl = ob
            E.exits = sub_exits
            E.completed = c0
        return ctx.hits

    # ---- modified locations
    M = Mods()
    oldlog = E.icmp_log
    log = []
    S.specs = []
    for rnd in range(25):
        fid0 = fresh_id()
        H = havoc(E, S, M, depth)
        log = []
        E.icmp_log = log
        try:
            hits = probe(H)
        finally:
            E.icmp_log = oldlog
        if not diff_states(E, S, H, hits, M, depth, phis, phity): break
    else:
        raise Unsupported('loop modification set does not stabilise')
    if oldlog is not None: oldlog.extend(log)

    V = gather_vars(E, M, depth)
    # 64-bit views of 32-bit variables, related to sizes and indices
    base = {}
    for v in [v for v in V if v.w == 32]:
        def g64(st, v=v):
            x = v.get(st)
            return x if type(x) is int else simp(ZeroExt(32, x))
        d = Var(v.name + '.z', g64, 64, v.key, v.comp)
        base[id(d)] = v
        V.append(d)
    # symbols introduced by the havoc
    hsyms = set()
    for v in V:
        t = v.get(H)
        if type(t) is not int: hsyms.add(t.get_id())
    newarr = set()

    def has_h(t):
        if type(t) is int: return False
        stk = [t]; seen = set()
        while stk:
            x = stk.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                if x.num_args() == 0:
                    if late(nm, fid0) or nm.startswith('undef!') or nm.startswith('opq!'): return True
                else: return True
            stk.extend(x.children())
        return False

    T = {}
    def addT(t, w=64):
        if isinstance(t, (PI, Ptr, Opq)) or type(t) is bool: return
        t = norm(t)
        T.setdefault(w, {}).setdefault(key(t), t)
    for w in {v.w for v in V}: addT(0, w)
    for t in S.terms: addT(t)
    for v in V:
        addT(v.get(S), v.w)
    nlog = 0
    for a, b in log:
        for x in (a, b):
            if isinstance(x, (PI, Ptr, Opq)) or type(x) is bool: continue
            if not has_h(x):
                if nlog < 16: addT(x)
                nlog += 1
    cands = []
    for v in V:
        for t in list(T.get(v.w, {}).values()):
            cands.append(Cand('%s<=%s' % (v.name, t), lambda st, v=v, t=t: ule(v.get(st), t, v.w)))
            cands.append(Cand('%s>=%s' % (v.name, t), lambda st, v=v, t=t: ule(t, v.get(st), v.w)))
            if v.w == 32:
                cands.append(Cand('%s<=s%s' % (v.name, t), lambda st, v=v, t=t: sle(v.get(st), t, v.w)))
                cands.append(Cand('%s>=s%s' % (v.name, t), lambda st, v=v, t=t: sle(t, v.get(st), v.w)))
    # increments
    inc = {}
    for i, v in enumerate(V):
        ds = set()
        for B in hits:
            d = sub(v.get(B), v.get(H), v.w)
            ds.add(d if type(d) is int else None)
        if len(ds) == 1 and None not in ds:
            inc[i] = sgn(ds.pop(), v.w)
    for i, v in enumerate(V):
        if id(v) in base and V.index(base[id(v)]) in inc: inc[i] = inc[V.index(base[id(v)])]
    for i, v in enumerate(V):
        for j, u in enumerate(V):
            if i == j or u.w != v.w: continue
            if id(v) in base and id(u) in base: continue
            cands.append(Cand('%s<=%s' % (v.name, u.name), lambda st, v=v, u=u: ule(v.get(st), u.get(st), v.w)))
            if i < j:
                v0, u0 = v.get(S), u.get(S)
                ci, cj = inc.get(i, 1), inc.get(j, 1)
                for (a, b) in {(cj, ci), (1, 1), (1, -1)}:
                    cands.append(Cand('%d*d%s==%d*d%s' % (a, v.name, b, u.name),
                        lambda st, v=v, u=u, a=a, b=b, v0=v0, u0=u0: eq(mul(sub(v.get(st), v0, v.w), a & mask(v.w), v.w), mul(sub(u.get(st), u0, v.w), b & mask(v.w), v.w), v.w)))
    for i, v in enumerate(V):
        c = abs(inc.get(i, 1))
        if c > 1 and c & (c - 1) == 0:
            v0 = v.get(S)
            cands.append(Cand('%s%%%d' % (v.name, c), lambda st, v=v, c=c, v0=v0: eq(bv(sub(v.get(st), v0, v.w), v.w) & (c - 1), 0, v.w)))
    # modified pointers whose object varies: null-ness relative to an index bound
    for k, L in M.locs.items():
        if L.kind in ('p', 'P') and 'tag' in L.comps:
            def g(st, k=k, L=L):
                v = getv(E, st, depth, k, L.kind, L.n)
                if isinstance(v, PI): v = v.p
                if not isinstance(v, Ptr): v = Ptr(0, 0, v)
                return v
            for t in sorted(L.tags):
                cands.append(Cand('%s tag!=%d' % (k, t), lambda st, g=g, t=t: lnot(eq(g(st).tag, t, 16))))
            # idx related facts only matter when it is not null
            if 'idx' in L.comps:
                for t in list(T.get(64, {}).values()):
                    for nm, f in (('<', lambda a, b: ult(a, b)), ('>=', lambda a, b: ule(b, a)), ('<=', lambda a, b: ule(a, b))):
                        cands.append(Cand('%s!=0=>idx%s%s' % (k, nm, t), lambda st, g=g, t=t, f=f: lor(eq(g(st).tag, 0, 16), f(g(st).idx, t))))
                    cands.append(Cand('%s null<=>idx==%s' % (k, t), lambda st, g=g, t=t: lor(lnot(eq(g(st).tag, 0, 16)), True)))
    for i, tm in enumerate(S.tmpl0):
        f, ctx = tm
        cands.append(Cand('contract predicate %d' % i, lambda st, f=f, ctx=ctx: tobool(E.eval_fn(st, f, [ctx]))))
    for i, (f, ctx) in enumerate(S.opts.get('pv', ())):
        for k, L in M.locs.items():
            if L.kind not in ('p', 'P'): continue
            def gp(st, k=k, L=L):
                v = getv(E, st, depth, k, L.kind, L.n)
                if isinstance(v, PI): v = v.p
                return v if isinstance(v, Ptr) else Ptr(0, 0, v)
            for v in [v for v in V if v.w == 64 and v.key != k] or [None]:
                cands.append(Cand('contract predicate of %s, %s %d' % (k, v and v.name, i), lambda st, f=f, ctx=ctx, gp=gp, v=v: tobool(E.eval_fn(st, f, [ctx, gp(st), v.get(st) if v else 0]))))
    # facts every iteration establishes about its own index value (search loops):
    # continuing at v means P(v), hence P(t) for all earlier t
    gen = []
    for i, v in enumerate(V):
        if v.w != 64 or abs(inc.get(i, 0)) != 1 or not hits: continue
        hv = v.get(H)
        if type(hv) is int: continue
        if id(v) in base: hv = base[id(v)].get(H)
        if type(hv) is int or not (z3.is_app(hv) and hv.num_args() == 0): continue
        ds = []
        for B in hits:
            if len(B.pc) < len(H.pc): ds = None; break
            cs = []
            for c in B.pc[len(H.pc):]:
                if type(c) is bool: continue
                ok = False
                for nm, x in consts(c).items():
                    if x.eq(hv): ok = True
                    elif late(nm, fid0):
                        ok = False
                        break
                if ok and not trivial_range(c, hv): cs.append(c)
            if not cs: ds = None; break
            ds.append(land(*cs))
        if not ds: continue
        gb = lor(*ds)
        if type(gb) is bool: continue
        gen.append((i, v, hv, gb))
    for i, v, hv, gb in gen:
        v0 = v.get(S)
        f = lambda st, J, gb=gb, hv=hv: simp(z3.substitute(gb, (hv, bv(J, 64) if hv.size() == 64 else Extract(31, 0, bv(J, 64)))))
        if inc[i] > 0: cands.append(Cand('forall [init,v) v=%s generalised iteration facts' % v.name, rng=lambda st, v=v, v0=v0: (v0, v.get(st)), tm=f))
        else: cands.append(Cand('forall [v+1,init] v=%s generalised iteration facts' % v.name, rng=lambda st, v=v, v0=v0: (add(v.get(st), 1), add(v0, 1)), tm=f))
    if S.tmpl:
        tt = list(T.get(64, {}).values())
        V64 = [v for i, v in enumerate(V) if v.w == 64 and (id(v) not in base or abs(inc.get(i, 0)) == 1)]
        for i, tm in enumerate(S.tmpl):
            only = tm[2] if len(tm) > 2 else None
            for v in V64 if only != 'all' else ():
                cands.append(Cand('at v=%s P%d' % (v.name, i), rng=lambda st, v=v: (v.get(st), add(v.get(st), 1)), tm=i))
                for t in tt if not only else ():
                    for nm, r in (('[t,v)', lambda st, v=v, t=t: (t, v.get(st))),
                                  ('[v,t)', lambda st, v=v, t=t: (v.get(st), t)),
                                  ('[t,v]', lambda st, v=v, t=t: (t, add(v.get(st), 1))),
                                  ('[v+1,t)', lambda st, v=v, t=t: (add(v.get(st), 1), t)),
                                  ('[v+1,t]', lambda st, v=v, t=t: (add(v.get(st), 1), add(t, 1)))):
                        if nm[1] == 'v' and type(t) is int and t == 0: continue
                        cands.append(Cand('forall %s v=%s t=%s P%d' % (nm, v.name, t, i), rng=r, tm=i))
            if (M.arrs or M.fields) and only != 'at':
                for a in S.terms + [0]:
                    for b in S.terms:
                        if same(a, b): continue
                        cands.append(Cand('forall [%s,%s) P%d' % (a, b, i), rng=(lambda st, a=a, b=b: (a, b)), tm=i))
                cands.append(Cand('forall all P%d' % i, rng=(lambda st: (0, (1 << 64) - 1)), tm=i))

    if S.opts.get('only'):
        cands = [c for c in cands if c.name.startswith('contract') or type(c.tm) is int or '*d' in c.name]

    def goals(st, cs, J, bodies):
        out = []
        for c in cs:
            if c.forall:
                if c.tm not in bodies: bodies[c.tm] = c.tm(st, J) if callable(c.tm) else tmpl_body(E, st, c.tm, J)
                lo, hi = c.rng(st)
                out.append(implies(eq(J, lo) if c.name.startswith('at v') else land(ule(lo, J), ult(J, hi)), bodies[c.tm]))
            else:
                out.append(c.fn(st))
        return out

    def filt(st, cs):
        """candidates of cs provable in st"""
        J = BitVec('k?%d' % fresh_id(), 64)
        gs = goals(st, cs, J, {})
        alive = list(range(len(cs)))
        inst = None
        if DBG: print('    filt', len(cs), 'goals', len(st.pc), 'pc', len(st.hyps), 'hyps', flush=True)
        kept = []
        while alive:
            bad = [lnot(gs[i]) for i in alive if gs[i] is not True]
            if not bad: break
            if False in [gs[i] for i in alive]:
                alive = [i for i in alive if gs[i] is not False]
                continue
            ng = lor(*bad)
            if inst is None:
                inst = E.instances(st, [ng]) if st.hyps else []
                if st.hyps:
                    extra = [J + 1, J - 1]
                    for t in extra:
                        for hh in st.hyps:
                            f = hh.at(t)
                            if f is not True: inst.append(boolz(f))
            r, m = E.solve_lazy(st.pc, [ng], inst, 8000, keep=kept)
            if r == 'unsat': break
            if DBG: print('      round', len(alive), r, len(kept), flush=True)
            if r == 'unknown':
                # fall back to one at a time
                keep = []
                for i in alive:
                    if gs[i] is True:
                        keep.append(i)
                        continue
                    r, m = E.solve_lazy(st.pc, [lnot(gs[i])], inst, 3000, keep=kept)
                    if r == 'unsat': keep.append(i)
                alive = keep
                break
            nx = []
            for i in alive:
                if gs[i] is True: nx.append(i)
                elif z3.is_false(m.eval(boolz(gs[i]), model_completion=True)):
                    if DBG and (cs[i].name.startswith('contract') or type(cs[i].tm) is int): print('        drop', cs[i].name, {d.name(): m[d] for d in m.decls() if len(str(m[d])) < 80} if DBG > 1 else '')
                    continue
                else: nx.append(i)
            if len(nx) == len(alive):
                raise Unsupported('houdini: model does not refute a candidate')
            alive = nx
        return [cs[i] for i in alive]

    cands = filt(S, cands)
    rounds = 0
    while True:
        rounds += 1
        H = havoc(E, S, M, depth)
        # assume candidates
        J = BitVec('j!%d' % fresh_id(), 64)
        bodies = {}
        ok = True
        for c in cands:
            if not c.forall:
                f = c.fn(H)
                if f is False: ok = False
                if f is not True: H.pc.append(boolz(f))
        for c in cands:
            if c.forall:
                if c.tm not in bodies: bodies[c.tm] = c.tm(H, J) if callable(c.tm) else tmpl_body(E, H, c.tm, J)
                lo, hi = c.rng(H)
                b = bodies[c.tm]
                if b is True: continue
                def hf(t, lo=lo, hi=hi, b=b, J=J):
                    bb = b if type(b) is bool else simp(z3.substitute(b, (J, bv(t, 64))))
                    return implies(land(ule(lo, t), ult(t, hi)), bb)
                if c.name.startswith('at v'):
                    f = b if type(b) is bool else simp(z3.substitute(b, (J, bv(lo, 64))))
                    if f is False: ok = False
                    if f is not True: H.pc.append(boolz(f))
                else: H.hyps.append(_eng().Hyp(hf, c.name))
        hits = probe(H)
        n0 = len(cands)
        for B in hits:
            cands = filt(B, cands)
        if len(cands) == n0: break
        if rounds > 40: raise Unsupported('houdini does not converge')
    # ---- termination measure
    if S.opts.get('total') and E.mode == 'full':
        okm = not hits
        meas = [(v.name, v.get) for v in V if id(v) not in base]
        for nm, g in meas:
            w = [v.w for v in V if v.name == nm][0]
            if all(E.prove(B, ult(g(H), g(B), w))[0] == 'yes' for B in hits) or \
               all(E.prove(B, ult(g(B), g(H), w))[0] == 'yes' for B in hits):
                okm = True
                break
        E.check(S.fork(), okm, 'termination', 'loop has a strictly monotone bounded measure')
    if E.mode == 'full':
        k = ('loop-invariant', where[0], where[1], 'inductive invariant holds initially and is preserved')
        rec = E.obl.setdefault(k, [0, 0, 0])
        rec[0] += len(cands) * (1 + len(hits))
        E.loopinfo.append((where, [c.name for c in cands], len(M.locs), len(hits)))
    if E.verbose:
        print('   loop at', where, 'modified', [str(k) for k in M.locs], 'arrs', M.arrs, 'fields', list(M.fields), 'cands', len(cands), 'hits', len(hits))
        if E.verbose > 1:
            for c in cands: print('        ', c.name)
    ctx = engine.LoopCtx('inv', h, body)
    H.frames[-1].active[h] = ctx
    return H

def houdini(*a): pass
