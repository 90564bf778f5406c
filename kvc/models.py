"""Contracts of functions outside /repo (C library, compiler intrinsics) and the
contract-language intrinsics (kv_*).  Everything marked trusted is an assumption
reported in the evidence."""
import z3
from .sym import *
from .mem import *
from . import engine as EN

MODELS = {}
class Model:
    def __init__(s, fn, trusted=None, force=False):
        s.fn = fn; s.trusted = trusted; s.force = force

def model(*names, trusted=None, force=False):
    def d(f):
        for n in names: MODELS[n] = Model(f, trusted, force)
        return f
    return d

def prefix(p, trusted=None):
    def d(f):
        EN.Engine.prefix_models.append((p, Model(f, trusted)))
        return f
    return d

def fork(alts): return EN.Forks(alts)

def cstr(E, st, p):
    """python string of a constant C string"""
    if isinstance(p, PI): p = p.p
    o = E.objs[p.tag]
    out = []
    i = p.off
    while len(out) < 400:
        b = E.byte_at(st, p.tag, i)
        if type(b) is not int or b == 0: break
        out.append(chr(b))
        i += 1
    return ''.join(out)

def conc(E, st, p):
    """pointer with concrete tag; forks are not possible inside a model so the tag must be decidable"""
    if isinstance(p, PI): p = p.p
    if not isinstance(p, Ptr): return Ptr(0, 0, p)
    if type(p.tag) is int: return p
    vals = [v for v in E.tag_values(p.tag) if E.mode == 'pure' or E.feasible(st, eq(p.tag, v, 16))]
    if len(vals) == 1:
        return Ptr(vals[0], p.idx, p.off)
    raise NeedTag(p)

class NeedTag(Exception):
    def __init__(s, p): s.p = p

def tagged(*which):
    """resolve the tags of pointer arguments by forking and re-executing the call"""
    def d(f):
        def g(E, st, av, ins):
            for i in which:
                p = av[i]
                if isinstance(p, PI): p = p.p
                if isinstance(p, Ptr) and type(p.tag) is not int:
                    rs = E.resolve_tag(st, p)
                    alts = []
                    for x, q in rs:
                        a2 = list(av)
                        a2[i] = q
                        r = g(E, x, a2, ins)
                        if isinstance(r, EN.Forks): alts += r.alts
                        else: alts.append((x, r))
                    return fork(alts)
            av = [a.p if isinstance(a, PI) and i in which else a for i, a in enumerate(av)]
            av = [Ptr(0, 0, a) if i in which and type(a) is int else a for i, a in enumerate(av)]
            return f(E, st, av, ins)
        return g
    return d

# ---------------------------------------------------------------- kv_ intrinsics
def inp(E, st, name, kind, v, extra=None):
    st.inputs.append((name, kind, v, extra))

def kv_int(w):
    def f(E, st, av, ins):
        name = cstr(E, st, av[0])
        v = BitVec('%s%s!%d' % ('k?' if w == 64 and name.startswith('k') else 'in_', name, fresh_id()), w)
        inp(E, st, name, w, v)
        if w == 64 and name.startswith('k'): st.terms = st.terms + [v]
        return v
    return f
for w, n in ((64, 'kv_u64'), (32, 'kv_u32'), (16, 'kv_u16'), (8, 'kv_u8')):
    MODELS[n] = Model(kv_int(w))

@model('kv_size')
def kv_size(E, st, av, ins):
    """u64 input that sizes an object; bounded only in counterexample search"""
    name = cstr(E, st, av[0])
    v = BitVec('in_%s!%d' % (name, fresh_id()), 64)
    inp(E, st, name, 'size', v)
    if E.bmc and E.maxsize is not None: E.assume(st, ULE(v, E.maxsize))
    return v

@model('kv_bool')
def kv_bool(E, st, av, ins):
    v = z3.Bool('in_%s!%d' % (cstr(E, st, av[0]), fresh_id()))
    inp(E, st, cstr(E, st, av[0]), 1, v)
    return v

@model('kv_assume')
def kv_assume(E, st, av, ins):
    c = av[0]
    if E.mode != 'pure':
        if not E.feasible(st, c): raise EN.PathEnd('assume')
    E.assume(st, c)

@model('kv_assert')
def kv_assert(E, st, av, ins):
    msg = cstr(E, st, av[1])
    E.check(st, av[0], 'postcondition', msg)
    if E.mode == 'full': E.covers['assert:' + msg] = E.covers.get('assert:' + msg, 0) + 1

@model('kv_cover')
def kv_cover(E, st, av, ins):
    msg = cstr(E, st, av[0])
    if E.mode == 'full' and not E.bmc and not E.covers.get(msg):
        r, m = E.solve(st.pc, E.instances(st, []), 10000)
        E.covers[msg] = 1 if r == 'sat' else E.covers.get(msg, 0)

@model('kv_bytes')
def kv_bytes(E, st, av, ins):
    name = cstr(E, st, av[0])
    n = av[1]
    o = E.new_obj(st, name, 'heap', n)
    o.freeable = True
    w = st.w(o.id)
    w.arr = ABase(name, False)
    inp(E, st, name, 'bytes', (w.arr, n))
    if type(n) is not int: E.assume(st, ULE(n, BitVecVal(1 << 46, 64)))
    return Ptr(o.id, 0, 0)

@model('kv_family')
def kv_family(E, st, av, ins):
    name = cstr(E, st, av[0])
    stride, count, payload = av[1], av[2], av[3]
    if type(stride) is not int: raise Unsupported('family stride')
    o = E.new_obj(st, name, 'family', 0)
    o.stride = stride
    o.count = count
    o.payload = payload if type(payload) is int and payload < stride else None
    if type(count) is not int: E.assume(st, ULE(count, BitVecVal(1 << 30, 64)))
    inp(E, st, name, 'family', (o, count))
    return Ptr(o.id, 0, 0)

@model('kv_field_int')
def kv_field_int(E, st, av, ins):
    """kv_field_int(base, off, size): arbitrary integer field"""
    p, off, n = av[0], av[1], av[2]
    w = st.w(p.tag)
    b = FBase('%s.%d' % (E.objs[p.tag].name, off), 'i', n * 8)
    w.fields[off] = (n, b, 'i')
    inp(E, st, 'field', 'field', (E.objs[p.tag], off, n, b))
    return None

@model('kv_field_fn')
def kv_field_fn(E, st, av, ins):
    """kv_field_fn(base, off, size, is_ptr, fn, ctx): field given by a pure function of the index"""
    p, off, n, isp, f, ctx = av
    snap = st.fork()
    isp = bool(isp)
    cache = {}
    def fn(i):
        v = E.eval_fn(snap, f, [ctx, i])
        if isp:
            return v
        if isinstance(v, PI): return v
        if n < 8: return v & mask(8 * n) if type(v) is int else simp(Extract(8 * n - 1, 0, v))
        return v
    w = st.w(p.tag)
    w.fields[off] = (n, FFun(fn), 'p' if isp else 'i')
    inp(E, st, 'fieldfn', 'fieldfn', None)
    return None

@model('kv_template')
def kv_template(E, st, av, ins):
    st.tmpl = st.tmpl + [(av[0], av[1])]

@model('kv_template_at')
def kv_template_at(E, st, av, ins):
    st.tmpl = st.tmpl + [(av[0], av[1], 'at')]

@model('kv_template_all')
def kv_template_all(E, st, av, ins):
    st.tmpl = st.tmpl + [(av[0], av[1], 'all')]

@model('kv_eval')
def kv_eval(E, st, av, ins):
    from .loops import tobool
    return tobool(E.eval_fn(st, av[0], [av[1], av[2]]))

@model('kv_select')
def kv_select(E, st, av, ins):
    from .loops import tobool
    c = tobool(av[0])
    if type(c) is bool: return av[1] if c else av[2]
    return merge(c, av[1], av[2], 64)

@model('kv_template0')
def kv_template0(E, st, av, ins):
    st.tmpl0 = st.tmpl0 + [(av[0], av[1])]

@model('kv_template_pv')
def kv_template_pv(E, st, av, ins):
    st.opts['pv'] = st.opts.get('pv', ()) + ((av[0], av[1]),)

@model('kv_template_only')
def kv_template_only(E, st, av, ins):
    st.opts['only'] = bool(av[0])

@model('kv_template_clear')
def kv_template_clear(E, st, av, ins):
    st.tmpl = []; st.tmpl0 = []; st.terms = []; st.opts.pop('pv', None)

@model('kv_term')
def kv_term(E, st, av, ins):
    st.terms = st.terms + [av[0]]

@model('kv_unroll')
def kv_unroll(E, st, av, ins):
    st.unroll = av[0]

@model('kv_unroll_in')
def kv_unroll_in(E, st, av, ins):
    st.opts['unroll_in'] = tuple(x for x in st.opts.get('unroll_in', ()) if x[0] != cstr(E, st, av[0])) + ((cstr(E, st, av[0]), av[1]),)

@model('kv_total')
def kv_total(E, st, av, ins):
    st.opts['total'] = bool(av[0])

@model('kv_readonly')
def kv_readonly(E, st, av, ins):
    p = conc(E, st, av[0])
    st.w(p.tag).ro = av[1] is True or av[1] == 1

@model('kv_forall')
def kv_forall(E, st, av, ins):
    """assume: for all j in [lo,hi): pred(ctx,j) in the current state"""
    f, ctx, lo, hi = av
    snap = st.fork()
    def hf(t):
        from .loops import tobool
        return implies(land(ule(lo, t), ult(t, hi)), tobool(E.eval_fn(snap, f, [ctx, t])))
    st.hyps = st.hyps + [EN.Hyp(hf, 'assumed')]

@model('kv_check_forall')
def kv_check_forall(E, st, av, ins):
    f, ctx, lo, hi, msg = av
    from .loops import tobool
    J = BitVec('k?q%d' % fresh_id(), 64)
    inp(E, st, 'skolem', 'skolem', J)
    E.check(st, implies(land(ule(lo, J), ult(J, hi)), tobool(E.eval_fn(st, f, [ctx, J]))), 'postcondition', cstr(E, st, msg))
    if E.mode == 'full': E.covers['assert:' + cstr(E, st, msg)] = 1

@model('kv_index')
def kv_index(E, st, av, ins):
    """element index of a pointer into a family"""
    p = av[0].p if isinstance(av[0], PI) else av[0]
    if not isinstance(p, Ptr): return 0
    return p.idx

@model('kv_is_elem')
def kv_is_elem(E, st, av, ins):
    p = av[0].p if isinstance(av[0], PI) else av[0]
    q = av[1]
    return eq(p.tag, q.tag, 16)

@model('kv_valid')
def kv_valid(E, st, av, ins):
    """obligation: [p,p+n) may be accessed"""
    p = conc(E, st, av[0])
    n = av[1]
    E.access_if(st, ult(0, n), p, n, False)

@model('kv_live_heap')
def kv_live_heap(E, st, av, ins):
    return sum(1 for oid, os_ in st.mem.items() if os_.alive and E.objs[oid].kind == 'heap') + st.live

@model('kv_mode')
def kv_mode(E, st, av, ins):
    return 0   # 0: proof, 1: native replay

@model('kv_native_only')
def kv_native_only(E, st, av, ins): return False

@model('kv_ub')
def kv_ub(E, st, av, ins):
    E.ubcheck = av[0] is True or av[0] == 1

@model('kv_pathend')
def kv_pathend(E, st, av, ins): raise EN.PathEnd('kv_pathend')

@model('kv_note')
def kv_note(E, st, av, ins): return None

# ---------------------------------------------------------------- allocation
ALLOC = 'memory allocation succeeds and returns fresh, suitably aligned storage'
@model('malloc', '_Znwm', '_Znam', '_ZnwmRKSt9nothrow_t', trusted=ALLOC)
def m_malloc(E, st, av, ins):
    n = av[0]
    o = E.new_obj(st, 'heap', 'heap', n)
    o.freeable = True
    if type(n) is not int: E.assume(st, ULE(n, BitVecVal(1 << 46, 64)))
    return Ptr(o.id, 0, 0)

@model('_ZnwmSt11align_val_t', trusted=ALLOC)
def m_newa(E, st, av, ins): return m_malloc(E, st, av[:1], ins)

@model('calloc', trusted=ALLOC)
def m_calloc(E, st, av, ins):
    n = mul(av[0], av[1])
    p = m_malloc(E, st, [n], ins)
    st.w(p.tag).arr = AConst(b'')
    return p

@model('free', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t', trusted=ALLOC)
@tagged(0)
def m_free(E, st, av, ins):
    p = av[0]
    if p.tag == 0:
        E.check(st, eq(p.off, 0), 'memory', 'free of an invalid pointer')
        return None
    o = E.objs[p.tag]
    os_ = st.mem.get(p.tag)
    if os_ is None or not os_.alive: E.fail(st, 'memory', 'double free')
    if o.kind == 'family':
        fn = E.lookup_func('kv_delete_element', st.frames[-1].fn.mod)
        if fn is not None:
            E.enter(st, fn, [p], (ins.res, ins.x[3]))
            return EN.HANDLED
    if not o.freeable: E.fail(st, 'memory', 'free of storage that was not allocated')
    E.check(st, land(eq(p.off, 0), eq(p.idx, 0)), 'memory', 'free of a pointer into the middle of a block')
    st.w(p.tag).alive = False

@model('realloc', trusted=ALLOC)
@tagged(0)
def m_realloc(E, st, av, ins):
    p, n = av[0], av[1]
    if p.tag == 0:
        return m_malloc(E, st, [n], ins)
    o = E.objs[p.tag]
    os_ = st.mem.get(p.tag)
    if os_ is None or not os_.alive: E.fail(st, 'memory', 'realloc of freed storage')
    if not o.freeable: E.fail(st, 'memory', 'realloc of storage that was not allocated')
    E.check(st, eq(p.off, 0), 'memory', 'realloc of a pointer into the middle of a block')
    if type(n) is int and n == 0:       # glibc: frees the block
        st.w(p.tag).alive = False
        return Ptr(0, 0, 0)
    q = m_malloc(E, st, [n], ins)
    old = o.size
    k = ite(ult(n, old), n, old)
    k = simp(k)
    E.memcpy(st, q, p, k)
    st.w(p.tag).alive = False
    return q

# ---------------------------------------------------------------- memory and strings
def as_ptr(p):
    if isinstance(p, PI): return p.p
    return p

@tagged(0, 1)
def m_memcpy(E, st, av, ins):
    E.memcpy(st, av[0], av[1], av[2])
    return av[0]
for n in ('memcpy', 'memmove', 'llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64'):
    MODELS[n] = Model(m_memcpy, 'memcpy/memmove copy exactly n bytes (overlap of memcpy operands not checked)')

@tagged(0)
def m_memset(E, st, av, ins):
    p, v, n = av[0], av[1], av[2]
    b = v & 255 if type(v) is int else (simp(Extract(7, 0, v)) if v.size() > 8 else v)
    if type(n) is int:
        if n == 0: return av[0]
        E.access(st, p, n, True)
    else:
        E.access_if(st, ult(0, n), p, n, True)
        if p.tag == 0: return av[0]
    o = E.objs[p.tag]
    if o.stride:
        if type(n) is int and type(p.off) is int:
            for fo, (fn, ch, fk) in list(st.mem[p.tag].fields.items()):
                if p.off <= fo and fo + fn <= p.off + n:
                    E.wr(st, Ptr(p.tag, p.idx, fo), fn, concat_bytes([b] * fn) if not (fk == 'p' and b == 0) else NULL)
            return av[0]
        w = st.w(p.tag)
        if w.arr is None: w.arr = ABase(o.name, True)
        w.arr = AFill(w.arr, p.idx, p.off, n, b)
        return av[0]
    if type(n) is int and type(p.off) is int:
        w = st.w(p.tag)
        E.clear_cells(w, p.tag, p.off, n)
        if b == 0 and n <= 256 and n % 8 == 0 and p.off % 8 == 0:
            for i in range(0, n, 8): w.cells[p.off + i] = (8, 0)
            return av[0]
    else:
        E.flush(st, p.tag)
        w = st.w(p.tag)
        if w.cells: E.no_ptr_overlap(st, p.tag, p.off, n)
    if w.arr is None: w.arr = ABase(o.name, False)
    w.arr = AFill(w.arr, 0, p.off, n, b)
    return av[0]
for n in ('memset', 'llvm.memset.p0.i64'):
    MODELS[n] = Model(m_memset, 'memset fills exactly n bytes')

def snap_reader(E, st, p):
    """byte reader of the object p points into, in the current state"""
    o = E.objs[p.tag]
    if not o.stride:
        E.flush(st, p.tag)
        if st.mem[p.tag].cells and not all(isinstance(v, Opq) for _, v in st.mem[p.tag].cells.values()):
            pass
    w = st.mem[p.tag]
    if w.arr is None:
        w = st.w(p.tag)
        w.arr = ABase(o.name, bool(o.stride))
    arr = w.arr
    return lambda k: arr.read(p.idx, add(p.off, k))

def lexcmp(E, st, a, b, n, lower=False, nul=False):
    """memcmp-style comparison contract; returns Forks or value"""
    f = (lambda x: x) if not lower else lower_byte
    if type(n) is int and n == 0: return 0
    if n is not None and type(n) is not int:
        z = ult(0, n)
        E.access_if(st, z, a, n, False)
        E.access_if(st, z, b, n, False)
        if a.tag == 0 or b.tag == 0: return 0
    else:
        E.access(st, a, n, False)
        E.access(st, b, n, False)
    ra, rb = snap_reader(E, st, a), snap_reader(E, st, b)
    if type(n) is int and n <= 16:
        r = 0
        for i in reversed(range(n)):
            x, y = f(ra(i)), f(rb(i))
            if nul: r = ite(eq(x, 0, 8), 0, r, 32)
            r = ite(eq(x, y, 8), r, ite(ult(x, y, 8), mask(32), 1, 32), 32)
        return r if type(r) is int else simp(r)
    if E.mode == 'pure': raise Unsupported('memcmp in predicate')
    alts = []
    x = st.fork()
    x.hyps = x.hyps + [EN.Hyp(lambda t: implies(ult(t, n), eq(f(ra(t)), f(rb(t)), 8)), 'memcmp==0')]
    alts.append((x, 0))
    y = st
    if nul:
        z = st.fork()
        e = BitVec('k?e%d' % fresh_id(), 64)
        z.pc = z.pc + [boolz(ult(e, n)), bv(f(ra(e)), 8) == 0]
        z.hyps = z.hyps + [EN.Hyp(lambda t: implies(ule(t, e), eq(f(ra(t)), f(rb(t)), 8)), 'strncmp==0')]
        z.model = None
        if E.solve(z.pc, E.instances(z, []), 5000)[0] != 'unsat': alts.append((z, 0))
    d = BitVec('k?d%d' % fresh_id(), 64)
    r = BitVec('memcmp!%d' % fresh_id(), 32)
    xa, xb = bv(f(ra(d)), 8), bv(f(rb(d)), 8)
    y.pc = y.pc + [boolz(ult(d, n)), xa != xb, z3.If(ULT(xa, xb), r < 0, r > 0)]
    y.model = None
    y.hyps = y.hyps + [EN.Hyp(lambda t: implies(ult(t, d), land(eq(f(ra(t)), f(rb(t)), 8), lnot(eq(f(ra(t)), 0, 8)) if nul else True)), 'memcmp!=0')]
    s, m = E.solve(y.pc, E.instances(y, []), 5000)
    if s != 'unsat': alts.append((y, r))
    s, m = E.solve(x.pc, E.instances(x, []), 5000)
    if s == 'unsat': alts = alts[1:]
    if not alts: raise EN.PathEnd('memcmp')
    return fork(alts)

def lower_byte(x):
    if type(x) is int: return x + 32 if 65 <= x <= 90 else x
    return simp(If(And(ULE(BitVecVal(65, 8), x), ULE(x, BitVecVal(90, 8))), x + 32, x))

@model('strncmp', trusted='strncmp: sign of the first differing byte before a NUL')
@tagged(0, 1)
def m_strncmp(E, st, av, ins):
    return lexcmp(E, st, av[0], av[1], av[2], nul=True)

@model('memcmp', 'bcmp', trusted='memcmp: sign of the first differing byte')
@tagged(0, 1)
def m_memcmp(E, st, av, ins):
    return lexcmp(E, st, av[0], av[1], av[2])

@model('strcmp', trusted='strcmp: sign of the first differing byte, up to the terminator')
@tagged(0, 1)
def m_strcmp(E, st, av, ins):
    a, b = m_strlen(E, st, av[:1], ins), m_strlen(E, st, av[1:2], ins)
    n = min(a, b) if type(a) is int and type(b) is int else ite(ult(a, b), a, b)
    return lexcmp(E, st, av[0], av[1], add(n, 1))

@model('strncasecmp', trusted='strncasecmp: C-locale case folding, first difference (operands without NUL before n)')
@tagged(0, 1)
def m_strncasecmp(E, st, av, ins):
    return lexcmp(E, st, av[0], av[1], av[2], True)

@model('strlen', trusted='strlen: index of the first NUL')
@tagged(0)
def m_strlen(E, st, av, ins):
    p = av[0]
    E.access(st, p, 1, False)
    o = E.objs[p.tag]
    # constant prefix
    whole = None
    if type(p.off) is int and not o.stride:
        i = p.off
        k = 0
        symb = []
        while k < 4096 and len(symb) < 64 and (type(o.size) is not int or i < o.size):
            b = E.byte_at(st, p.tag, i)
            if type(b) is not int: symb.append(lnot(eq(b, 0, 8)))
            elif b == 0:
                if not symb or E.prove(st, land(*symb), 1000)[0] == 'yes': return k
                break
            i += 1; k += 1
        else:
            if type(o.size) is int and i >= o.size and k <= 64: whole = lnot(land(*symb)) if symb else False   # some byte of the object is NUL
    rd = snap_reader(E, st, p)
    n = BitVec('k?strlen%d' % fresh_id(), 64)
    # a terminator must exist inside the object
    last = sub(o.size if not o.stride else o.stride, 1)
    rl = E.mem_last = st.mem[p.tag].arr.read(p.idx, last)
    E.check(st, eq(rl, 0, 8) if whole is None else whole, 'memory', 'string is NUL-terminated inside its object')
    room = sub(last, p.off)
    st.pc = st.pc + [boolz(ule(n, room)), boolz(eq(rd(n), 0, 8))]
    st.model = None
    st.hyps = st.hyps + [EN.Hyp(lambda t: implies(ult(t, n), lnot(eq(rd(t), 0, 8))), 'strlen')]
    return n

@model('memchr', trusted='memchr: first occurrence')
@tagged(0)
def m_memchr(E, st, av, ins):
    p, c, n = av
    E.access_if(st, ult(0, n), p, n, False)
    ch = c & 255 if type(c) is int else simp(Extract(7, 0, c))
    if p.tag == 0: return NULL
    rd = snap_reader(E, st, p)
    alts = []
    x = st.fork()
    x.hyps = x.hyps + [EN.Hyp(lambda t: implies(ult(t, n), lnot(eq(rd(t), ch, 8))), 'memchr none')]
    alts.append((x, NULL))
    d = BitVec('k?m%d' % fresh_id(), 64)
    st.pc = st.pc + [boolz(ult(d, n)), boolz(eq(rd(d), ch, 8))]
    st.model = None
    st.hyps = st.hyps + [EN.Hyp(lambda t: implies(ult(t, d), lnot(eq(rd(t), ch, 8))), 'memchr')]
    s, m = E.solve(st.pc, [], 5000)
    if s != 'unsat': alts.append((st, Ptr(p.tag, p.idx, add(p.off, d))))
    return fork(alts)

@model('tolower', trusted='tolower/toupper in the C locale')
def m_tolower(E, st, av, ins):
    x = av[0]
    if type(x) is int: return x + 32 if 65 <= x <= 90 else x
    return simp(If(And(ULE(BitVecVal(65, 32), x), ULE(x, BitVecVal(90, 32))), x + 32, x))

@model('toupper', trusted='tolower/toupper in the C locale')
def m_toupper(E, st, av, ins):
    x = av[0]
    if type(x) is int: return x - 32 if 97 <= x <= 122 else x
    return simp(If(And(ULE(BitVecVal(97, 32), x), ULE(x, BitVecVal(122, 32))), x - 32, x))

@model('snprintf', trusted='snprintf: writes at most n bytes including the terminator; contents not modelled')
@tagged(0)
def m_snprintf(E, st, av, ins):
    p, n = av[0], av[1]
    E.access_if(st, ult(0, n), p, n, True)
    r = BitVec('snprintf!%d' % fresh_id(), 32)
    E.assume(st, r >= 0)
    if p.tag:
        o = E.objs[p.tag]
        if o.stride: raise Unsupported('snprintf into family')
        E.flush(st, p.tag)
        w = st.w(p.tag)
        if w.arr is None: w.arr = ABase(o.name, False)
        w.arr = ACopy(w.arr, 0, p.off, n, ABase('snprintf', False), 0, 0)
    return r

@model('llvm.va_start', 'llvm.va_start.p0')
def m_va_start(E, st, av, ins):
    """every variable argument is in the overflow area of the System V va_list"""
    fr = st.frames[-1]
    va = getattr(fr, 'va', None)
    if va is None: raise Unsupported('va_start')
    mod = fr.fn.mod
    o = E.new_obj(st, 'va', 'stack', 8 * max(len(va), 1))
    fr.stk.append(o.id)
    for i, (t, v) in enumerate(va):
        E.store(st, Ptr(o.id, 0, 8 * i), t, v, mod)
    p = av[0]
    for off, x in ((0, 48), (4, 176)):
        E.store(st, Ptr(p.tag, p.idx, add(p.off, off)), ('i', 32), x, mod)
    E.store(st, Ptr(p.tag, p.idx, add(p.off, 8)), ('ptr',), Ptr(o.id, 0, 0), mod)
    E.store(st, Ptr(p.tag, p.idx, add(p.off, 16)), ('ptr',), Ptr(o.id, 0, 0), mod)

@model('llvm.va_end', 'llvm.va_end.p0')
def m_va_end(E, st, av, ins): return None

# ---------------------------------------------------------------- termination
@model('__assert_fail', '__assert')
def m_assert_fail(E, st, av, ins):
    try: msg = cstr(E, st, av[0])
    except Exception: msg = '?'
    E.check(st, False, 'assertion', 'source assertion: ' + msg)
    raise EN.PathEnd('assert')

@model('abort', '_ZSt9terminatev', '__clang_call_terminate', 'exit', '_exit', force=True)
def m_abort(E, st, av, ins):
    E.check(st, False, 'abort', 'abort/terminate not reached')
    raise EN.PathEnd('abort')

@model('llvm.trap', 'llvm.ubsantrap', 'llvm.debugtrap')
def m_trap(E, st, av, ins):
    E.check(st, False, 'abort', 'trap not reached')
    raise EN.PathEnd('trap')

@model('__cxa_pure_virtual')
def m_purev(E, st, av, ins):
    E.check(st, False, 'abort', 'pure virtual call not reached')
    raise EN.PathEnd('pure virtual')

# ---------------------------------------------------------------- exceptions
@model('__cxa_allocate_exception')
def m_cxa_alloc(E, st, av, ins):
    o = E.new_obj(st, 'exception', 'exc', av[0])
    return Ptr(o.id, 0, 0)

@model('__cxa_free_exception', '__cxa_end_catch')
def m_cxa_free(E, st, av, ins): return None

@model('__cxa_begin_catch', '__cxa_get_exception_ptr')
def m_cxa_begin(E, st, av, ins): return av[0]

@model('__cxa_throw')
def m_cxa_throw(E, st, av, ins):
    if E.mode == 'pure': raise EN.PathEnd('throw')
    ti = E.objs[av[1].tag].name.lstrip('@') if isinstance(av[1], Ptr) and av[1].tag else '?'
    E.raise_exc(st, av[0], ti)
    return EN.HANDLED

@model('__cxa_rethrow')
def m_cxa_rethrow(E, st, av, ins):
    if st.exc is None: raise Unsupported('rethrow')
    E.raise_exc(st, st.exc[0], st.exc[1])
    return EN.HANDLED

def std_throw(ti):
    def f(E, st, av, ins):
        o = E.new_obj(st, 'exception', 'exc', 16)
        E.raise_exc(st, Ptr(o.id), ti)
        return EN.HANDLED
    return f
for n, ti in (('_ZSt20__throw_length_errorPKc', '_ZTISt12length_error'), ('_ZSt19__throw_logic_errorPKc', '_ZTISt11logic_error'),
              ('_ZSt20__throw_out_of_rangePKc', '_ZTISt12out_of_range'), ('_ZSt24__throw_out_of_range_fmtPKcz', '_ZTISt12out_of_range'),
              ('_ZSt17__throw_bad_allocv', '_ZTISt9bad_alloc'), ('_ZSt28__throw_bad_array_new_lengthv', '_ZTISt20bad_array_new_length'),
              ('_ZSt25__throw_bad_function_callv', '_ZTISt17bad_function_call'), ('_ZSt20__throw_system_errori', '_ZTISt12system_error'),
              ('_ZSt24__throw_invalid_argumentPKc', '_ZTISt16invalid_argument'), ('_ZSt16__throw_bad_castv', '_ZTISt8bad_cast')):
    MODELS[n] = Model(std_throw(ti))

def nop(E, st, av, ins): return None
for n in ('_ZNSt12length_errorC1EPKc', '_ZNSt12out_of_rangeC1EPKc', '_ZNSt13runtime_errorC1EPKc', '_ZNSt11logic_errorC1EPKc',
          '_ZNSt12length_errorD1Ev', '_ZNSt12out_of_rangeD1Ev', '_ZNSt13runtime_errorD1Ev', '_ZNSt11logic_errorD1Ev',
          '_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE',
          '_ZNSt11logic_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE',
          '_ZNSt9exceptionD2Ev', '_ZNSt9exceptionD1Ev', '_ZNSt13runtime_errorC2EPKc', '_ZNSt13runtime_errorD2Ev',
          '_ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE',
          '_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev', '__cxa_atexit', 'llvm.donothing',
          'llvm.lifetime.start.p0', 'llvm.dbg.value', 'llvm.dbg.declare', 'llvm.dbg.label',
          'llvm.experimental.noalias.scope.decl', 'llvm.assume', 'llvm.stackrestore.p0', 'llvm.va_end', 'llvm.va_end.p0', 'llvm.prefetch.p0'):
    MODELS[n] = Model(nop)
@model('llvm.lifetime.end.p0')
def m_lifetime_end(E, st, av, ins):
    # the contents of a local variable are gone when its scope ends
    p = av[-1]
    if not isinstance(p, Ptr) or type(p.tag) is not int or not p.tag or p.off != 0: return None
    o = E.objs.get(p.tag)
    if o is None or o.kind != 'stack' or o.stride: return None
    w = st.w(p.tag)
    w.cells = {}
    w.arr = None
    return None
MODELS['llvm.stacksave.p0'] = Model(lambda E, st, av, ins: NULL)
MODELS['llvm.threadlocal.address.p0'] = Model(lambda E, st, av, ins: av[0])
MODELS['llvm.invariant.start.p0'] = Model(lambda E, st, av, ins: NULL)
MODELS['llvm.is.constant.i64'] = Model(lambda E, st, av, ins: type(av[0]) is int)
MODELS['llvm.is.constant.i32'] = MODELS['llvm.is.constant.i64']
MODELS['llvm.is.constant.i8'] = MODELS['llvm.is.constant.i64']
MODELS['llvm.objectsize.i64.p0'] = Model(lambda E, st, av, ins: mask(64))
@model('__cxa_guard_acquire')
def m_guard_acq(E, st, av, ins):
    v = E.rd(st, av[0], 1, 'i')
    if type(v) is not int: return ite(eq(v, 0, 8), 1, 0, 32)
    return 0 if v else 1
@model('__cxa_guard_release')
def m_guard_rel(E, st, av, ins): E.wr(st, av[0], 1, 1)
@model('__cxa_guard_abort')
def m_guard_abort(E, st, av, ins): return None

@model('llvm.eh.typeid.for', 'llvm.eh.typeid.for.p0')
def m_typeid(E, st, av, ins):
    return E.typeid(E.objs[av[0].tag].name.lstrip('@'))

# ---------------------------------------------------------------- arithmetic intrinsics
def minmax(op, w):
    def f(E, st, av, ins):
        a, b = (E.toint(x, w) for x in av[:2])
        c = {'umin': ult(a, b, w), 'umax': ult(b, a, w), 'smin': slt(a, b, w), 'smax': slt(b, a, w)}[op]
        return simp(ite(c, a, b, w)) if type(c) is not bool else (a if c else b)
    return f
def mabs(w):
    def f(E, st, av, ins):
        a = av[0]
        if type(a) is int: return abs(sgn(a, w)) & mask(w)
        return simp(If(a < 0, -a, a))
    return f
def bswap(w):
    def f(E, st, av, ins):
        a = E.toint(av[0], w)
        return concat_bytes([byte_of(a, w, i) for i in reversed(range(w // 8))])
    return f
def ovf(op, w):
    def f(E, st, av, ins):
        a, b = (E.toint(x, w) for x in av[:2])
        sg = op[0] == 's'
        o = op[1:4]
        if type(a) is int and type(b) is int:
            x, y = (sgn(a, w), sgn(b, w)) if sg else (a, b)
            r = x + y if o == 'add' else x - y if o == 'sub' else x * y
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, mask(w))
            return (r & mask(w), not lo <= r <= hi)
        x, y = bv(a, w), bv(b, w)
        if o == 'add':
            r = x + y
            ok = And(z3.BVAddNoOverflow(x, y, sg), z3.BVAddNoUnderflow(x, y)) if sg else z3.BVAddNoOverflow(x, y, False)
        elif o == 'sub':
            r = x - y
            ok = And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)) if sg else z3.BVSubNoUnderflow(x, y, False)
        else:
            r = x * y
            ok = And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y)) if sg else z3.BVMulNoOverflow(x, y, False)
        return (simp(r), simp(Not(ok)))
    return f
def usubsat(w):
    def f(E, st, av, ins):
        a, b = av[:2]
        c = ult(a, b, w)
        return ite(c, 0, sub(a, b, w), w)
    return f
def count_zeros(w, lead):
    def f(E, st, av, ins):
        a = av[0]
        if type(a) is int:
            if lead: return w - a.bit_length()
            return w if a == 0 else (a & -a).bit_length() - 1
        r = BitVecVal(w, w)
        rng = range(w) if lead else reversed(range(w))
        for i in rng:
            r = If(Extract(i, i, a) == 1, BitVecVal(w - 1 - i if lead else i, w), r)
        return simp(r)
    return f
def fshl(w):
    def f(E, st, av, ins):
        a, b, c = av
        if type(c) is int:
            c %= w
            if c == 0: return a
            return simp((bv(a, w) << c) | LShR(bv(b, w), w - c))
        raise Unsupported('fshl')
    return f
for w in (8, 16, 32, 64):
    for op in ('umin', 'umax', 'smin', 'smax'): MODELS['llvm.%s.i%d' % (op, w)] = Model(minmax(op, w))
    MODELS['llvm.abs.i%d' % w] = Model(mabs(w))
    if w > 8: MODELS['llvm.bswap.i%d' % w] = Model(bswap(w))
    for op in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul'):
        MODELS['llvm.%s.with.overflow.i%d' % (op, w)] = Model(ovf(op, w))
    MODELS['llvm.usub.sat.i%d' % w] = Model(usubsat(w))
    MODELS['llvm.ctlz.i%d' % w] = Model(count_zeros(w, True))
    MODELS['llvm.cttz.i%d' % w] = Model(count_zeros(w, False))
    MODELS['llvm.fshl.i%d' % w] = Model(fshl(w))
    MODELS['llvm.expect.i%d' % w] = Model(lambda E, st, av, ins: av[0])
MODELS['llvm.expect.i1'] = Model(lambda E, st, av, ins: av[0])

for n, w in (('htonl', 32), ('ntohl', 32), ('htons', 16), ('ntohs', 16)):
    MODELS[n] = Model(bswap(w), 'htonl/htons byte swap (little-endian host)')
@model('__errno_location')
def m_errno(E, st, av, ins):
    o = E.objs.get(E.consts.get('errno'))
    if o is None:
        E.nobj += 1
        o = Obj(E.nobj, 'errno', 'global', 4)
        E.objs[o.id] = o
        E.consts['errno'] = o.id
    if o.id not in st.mem: st.mem[o.id] = OState()
    return Ptr(o.id, 0, 0)
