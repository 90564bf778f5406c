"""Objects, byte contents and per-element fields."""
import z3
from .sym import *

B64 = z3.BitVecSort(64)
B8 = z3.BitVecSort(8)
B16 = z3.BitVecSort(16)

_ctr = [0]
def fresh_id():
    _ctr[0] += 1
    return _ctr[0]

def key(t):
    return t if type(t) is int else ('z', t.get_id())

class ANode:
    __slots__ = ('memo', 'keep')
    def __init__(s):
        s.memo = {}
        s.keep = []
    def read(s, i, o):
        k = (key(i), key(o))
        r = s.memo.get(k)
        if r is None:
            r = s._read(i, o)
            s.memo[k] = r
            s.keep.append((i, o))
        return r

class ABase(ANode):
    """unconstrained contents"""
    __slots__ = ('f', 'fam', 'name')
    def __init__(s, name, fam):
        super().__init__()
        s.fam = fam
        s.name = 'A!%s!%d' % (name, fresh_id())
        s.f = z3.Function(s.name, B64, B64, B8) if fam else z3.Function(s.name, B64, B8)
    def _read(s, i, o):
        return s.f(bv(i, 64), bv(o, 64)) if s.fam else s.f(bv(o, 64))

class AConst(ANode):
    __slots__ = ('b',)
    def __init__(s, b):
        super().__init__()
        s.b = b
    def _read(s, i, o):
        if type(o) is int:
            return s.b[o] if o < len(s.b) else 0
        if len(s.b) > 300: raise Unsupported('symbolic read of large constant')
        r = 0
        n = len(s.b)
        # group equal bytes
        r = bv(0, 8)
        for k in range(n):
            if s.b[k]:
                r = If(o == k, BitVecVal(s.b[k], 8), r)
        return r

class AStore(ANode):
    __slots__ = ('prev', 'idx', 'off', 'bs')
    def __init__(s, prev, idx, off, bs):
        super().__init__()
        s.prev = prev; s.idx = idx; s.off = off; s.bs = bs
    def _read(s, i, o):
        ci = eq(i, s.idx)
        if ci is False: return s.prev.read(i, o)
        d = sub(o, s.off)
        if type(d) is int:
            if d >= len(s.bs): return s.prev.read(i, o)
            if ci is True: return s.bs[d]
            return ite(ci, s.bs[d], s.prev.read(i, o), 8)
        r = s.prev.read(i, o)
        for j, b in enumerate(s.bs):
            r = ite(land(ci, eq(d, j)), b, r, 8)
        return r

class ACopy(ANode):
    __slots__ = ('prev', 'idx', 'dst', 'n', 'src', 'sidx', 'soff')
    def __init__(s, prev, idx, dst, n, src, sidx, soff):
        super().__init__()
        s.prev = prev; s.idx = idx; s.dst = dst; s.n = n; s.src = src; s.sidx = sidx; s.soff = soff
    def _read(s, i, o):
        d = sub(o, s.dst)
        c = land(eq(i, s.idx), ult(d, s.n))
        if c is False: return s.prev.read(i, o)
        v = s.src.read(s.sidx, add(s.soff, d))
        if c is True: return v
        return ite(c, v, s.prev.read(i, o), 8)

class AFill(ANode):
    __slots__ = ('prev', 'idx', 'dst', 'n', 'v')
    def __init__(s, prev, idx, dst, n, v):
        super().__init__()
        s.prev = prev; s.idx = idx; s.dst = dst; s.n = n; s.v = v
    def _read(s, i, o):
        d = sub(o, s.dst)
        c = land(eq(i, s.idx), ult(d, s.n))
        if c is False: return s.prev.read(i, o)
        if c is True: return s.v
        return ite(c, s.v, s.prev.read(i, o), 8)

# ---------------------------------------------------------------- per-element fields

class FBase(ANode):
    """kind 'i': width w function of the element index; kind 'p': pointer triple"""
    __slots__ = ('kind', 'w', 'f', 'tags', 'name')
    def __init__(s, name, kind, w, tags=None, idxsym=True):
        super().__init__()
        s.kind = kind; s.w = w
        s.name = 'F!%s!%d' % (name, fresh_id())
        s.tags = tags
        if kind == 'i':
            s.f = z3.Function(s.name, B64, z3.BitVecSort(w))
        else:
            s.f = (z3.Function(s.name + '!t', B64, B16), z3.Function(s.name + '!i', B64, B64))
    def _read(s, i, o):
        if s.kind == 'i':
            return s.f(bv(i, 64))
        # pointers to whole elements (offset 0)
        return Ptr(s.f[0](bv(i, 64)), s.f[1](bv(i, 64)), 0)

class FFun(ANode):
    """initial contents given by a pure function of the index"""
    __slots__ = ('fn',)
    def __init__(s, fn):
        super().__init__()
        s.fn = fn
    def _read(s, i, o):
        return s.fn(i)

def merge(c, a, b, w):
    if c is True: return a
    if c is False: return b
    if isinstance(a, PI): a = a.p
    if isinstance(b, PI): b = b.p
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if type(a) is int and a == 0: a = NULL
        if type(b) is int and b == 0: b = NULL
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
            raise Unsupported('merge pointer with integer')
        return Ptr(ite(c, a.tag, b.tag, 16), ite(c, a.idx, b.idx), ite(c, a.off, b.off))
    if isinstance(a, Opq) or isinstance(b, Opq):
        return a if a is b else Opq()
    if type(a) is tuple:
        raise Unsupported('merge aggregate')
    return ite(c, a, b, w)

class FStore(ANode):
    __slots__ = ('prev', 'idx', 'v', 'w')
    def __init__(s, prev, idx, v, w):
        super().__init__()
        s.prev = prev; s.idx = idx; s.v = v; s.w = w
    def _read(s, i, o):
        c = eq(i, s.idx)
        if c is True: return s.v
        if c is False: return s.prev.read(i, o)
        return merge(c, s.v, s.prev.read(i, o), s.w)

class FCopy(ANode):
    __slots__ = ('prev', 'dst', 'n', 'src', 'soff', 'w')
    def __init__(s, prev, dst, n, src, soff, w):
        super().__init__()
        s.prev = prev; s.dst = dst; s.n = n; s.src = src; s.soff = soff; s.w = w
    def _read(s, i, o):
        d = sub(i, s.dst)
        c = ult(d, s.n)
        if c is False: return s.prev.read(i, o)
        v = s.src.read(add(s.soff, d), 0)
        if c is True: return v
        return merge(c, v, s.prev.read(i, o), s.w)

class Obj:
    __slots__ = ('id', 'name', 'kind', 'size', 'stride', 'count', 'payload', 'readonly', 'func', 'glob', 'freeable', 'addr', 'fieldspec', 'depth', 'home')
    def __init__(s, id, name, kind, size):
        s.id = id; s.name = name; s.kind = kind; s.size = size
        s.stride = None; s.count = None; s.payload = None
        s.readonly = False; s.func = None; s.glob = None; s.freeable = False; s.addr = None
        s.fieldspec = None; s.depth = 0; s.home = None
    def __repr__(s): return '<%s #%d %s>' % (s.name, s.id, s.kind)

class OState:
    __slots__ = ('cells', 'arr', 'fields', 'alive', 'ro')
    def __init__(s):
        s.cells = {}
        s.arr = None
        s.fields = {}
        s.alive = True
        s.ro = False
    def copy(s):
        n = OState()
        n.cells = dict(s.cells); n.arr = s.arr; n.fields = dict(s.fields); n.alive = s.alive; n.ro = s.ro
        return n
