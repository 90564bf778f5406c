"""Exact translation of a bit-vector query to linear integer arithmetic.
Every w-bit term t becomes an integer term T with 0 <= T < 2^w; wrap-around is
expressed by explicit quotient variables, so the translation preserves
satisfiability (no machine arithmetic is idealised)."""
import os, z3
TRACE = os.environ.get('KVC_IB')
from z3 import Z3_OP_BADD, Z3_OP_BMUL, Z3_OP_BNEG, Z3_OP_BSUB

class No(Exception): pass

I = z3.IntSort()

class Tr:
    def __init__(s, bounds):
        s.bounds = bounds        # id of variable -> (lo, hi)
        s.cache = {}             # id -> (int term, lo, hi)
        s.bcache = {}
        s.side = []
        s.keep = []
        s.n = 0
        s.fns = {}
        s.vars = {}

    def fresh(s, lo, hi, nm='q'):
        s.n += 1
        v = z3.Int('%s!%d' % (nm, s.n))
        s.side.append(v >= lo); s.side.append(v <= hi)
        return v

    def wrap(s, e, lo, hi, w):
        """e in [lo,hi] -> e mod 2^w"""
        m = 1 << w
        kl, kh = lo // m, hi // m
        if kl == kh:
            if kl == 0: return e, lo, hi
            return e - kl * m, lo - kl * m, hi - kl * m
        k = s.fresh(kl, kh)
        r = e - k * m
        s.side.append(r >= 0); s.side.append(r < m)
        return r, 0, m - 1

    def linear(s, t, c, acc):
        """accumulate c * t over bvadd/bvmul-by-constant/bvneg/bvsub"""
        w = t.size()
        k = t.decl().kind()
        if z3.is_bv_value(t):
            v = t.as_long()
            if v >= 1 << (w - 1): v -= 1 << w
            acc[1] += c * v
            return
        if k == z3.Z3_OP_BADD:
            for a in t.children(): s.linear(a, c, acc)
            return
        if k == z3.Z3_OP_BSUB:
            ch = t.children()
            s.linear(ch[0], c, acc)
            for a in ch[1:]: s.linear(a, -c, acc)
            return
        if k == z3.Z3_OP_BNEG:
            s.linear(t.arg(0), -c, acc)
            return
        if k == z3.Z3_OP_BNOT:
            acc[1] -= c
            s.linear(t.arg(0), -c, acc)
            return
        if k == z3.Z3_OP_BMUL:
            cs = [a for a in t.children() if z3.is_bv_value(a)]
            os_ = [a for a in t.children() if not z3.is_bv_value(a)]
            if len(os_) == 1:
                v = 1
                for a in cs:
                    x = a.as_long()
                    if x >= 1 << (w - 1): x -= 1 << w
                    v *= x
                s.linear(os_[0], c * v, acc)
                return
            raise No('nonlinear')
        i = t.get_id()
        if i in acc[0]: acc[0][i] = (acc[0][i][0] + c, t)
        else: acc[0][i] = (c, t)

    def bv(s, t):
        i = t.get_id()
        r = s.cache.get(i)
        if r is None:
            r = s._bv(t)
            s.cache[i] = r
            s.keep.append(t)
        return r

    def _bv(s, t):
        w = t.size()
        if z3.is_bv_value(t):
            v = t.as_long()
            return z3.IntVal(v), v, v
        k = t.decl().kind()
        if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG, z3.Z3_OP_BMUL, z3.Z3_OP_BNOT):
            acc = [{}, 0]
            s.linear(t, 1, acc)
            e = None; lo = hi = 0
            m = 1 << w
            for c, a in acc[0].values():
                # the coefficient only matters modulo 2^w
                c %= m
                if c > m // 2: c -= m
                if c == 0: continue
                x, l, h = s.bv(a)
                y = x if c == 1 else c * x
                e = y if e is None else e + y
                if c > 0: lo += c * l; hi += c * h
                else: lo += c * h; hi += c * l
            c0 = acc[1] % m
            if c0 >= m // 2: c0 -= m
            lo += c0; hi += c0
            if e is None:
                v = c0 % m
                return z3.IntVal(v), v, v
            if c0: e = e + c0
            return s.wrap(e, lo, hi, w)
        if k == z3.Z3_OP_UNINTERPRETED:
            if t.num_args() == 0:
                b = s.bounds.get(t.get_id())
                lo, hi = b if b else (0, (1 << w) - 1)
                v = z3.Int('v!' + t.decl().name())
                s.vars[t.decl().name()] = (t, v)
                s.side.append(v >= lo); s.side.append(v <= hi)
                return v, lo, hi
            d = t.decl()
            key = d.name()
            f = s.fns.get(key)
            if f is None:
                f = s.fns[key] = z3.Function('f!' + key, *([I] * (d.arity() + 1)))
            args = [s.any(a) for a in t.children()]
            v = f(*args)
            hi = (1 << w) - 1
            s.side.append(v >= 0); s.side.append(v <= hi)
            return v, 0, hi
        if k == z3.Z3_OP_ITE:
            c = s.boolean(t.arg(0))
            a, al, ah = s.bv(t.arg(1)); b, bl, bh = s.bv(t.arg(2))
            return z3.If(c, a, b), min(al, bl), max(ah, bh)
        if k == z3.Z3_OP_ZERO_EXT:
            return s.bv(t.arg(0))
        if k == z3.Z3_OP_SIGN_EXT:
            a, l, h = s.bv(t.arg(0))
            m = t.arg(0).size()
            if h < 1 << (m - 1): return a, l, h
            return z3.If(a < (1 << (m - 1)), a, a + ((1 << w) - (1 << m))), 0, (1 << w) - 1
        if k == z3.Z3_OP_EXTRACT:
            hi_, lo_ = t.decl().params()[0], t.decl().params()[1]
            a, l, h = s.bv(t.arg(0))
            return s.field(a, l, h, lo_, hi_)
        if k == z3.Z3_OP_CONCAT:
            e = None; lo = hi = 0; sh = 0
            for c in reversed(t.children()):
                a, l, h = s.bv(c)
                y = a if sh == 0 else a * (1 << sh)
                e = y if e is None else y + e
                lo += l << sh; hi += h << sh
                sh += c.size()
            return e, lo, hi
        if k == z3.Z3_OP_BUDIV or k == z3.Z3_OP_BUDIV_I:
            b = t.arg(1)
            if not z3.is_bv_value(b) or b.as_long() == 0: raise No('div')
            a, l, h = s.bv(t.arg(0)); c = b.as_long()
            q, r = s.divmod(a, l, h, c)
            return q, l // c, h // c
        if k == z3.Z3_OP_BUREM or k == z3.Z3_OP_BUREM_I:
            b = t.arg(1)
            if not z3.is_bv_value(b) or b.as_long() == 0: raise No('rem')
            a, l, h = s.bv(t.arg(0)); c = b.as_long()
            if h < c: return a, l, h
            q, r = s.divmod(a, l, h, c)
            return r, 0, c - 1
        if k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I):
            b = t.arg(1)
            if not z3.is_bv_value(b) or not 0 < b.as_long() < 1 << (w - 1): raise No('sdiv')
            a, l, h = s.bv(t.arg(0)); c = b.as_long()
            div = k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I)
            if h < 1 << (w - 1):
                q, r = s.divmod(a, l, h, c)
                return (q, l // c, h // c) if div else (r, 0, c - 1)
            M = 1 << w
            q1, r1 = s.divmod(a, l, h, c)
            na = M - a
            q2, r2 = s.divmod(na, M - h, M - l, c)
            x, y = (q1, q2) if div else (r1, r2)
            return z3.If(a < M // 2, x, z3.If(y == 0, 0, M - y)), 0, M - 1
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(t.arg(1)):
            c = t.arg(1).as_long()
            if c >= w: return z3.IntVal(0), 0, 0
            a, l, h = s.bv(t.arg(0))
            return s.wrap(a * (1 << c), l << c, h << c, w)
        if k == z3.Z3_OP_BLSHR and z3.is_bv_value(t.arg(1)):
            c = t.arg(1).as_long()
            if c >= w: return z3.IntVal(0), 0, 0
            a, l, h = s.bv(t.arg(0))
            return s.field(a, l, h, c, w - 1)
        if k == z3.Z3_OP_BASHR and z3.is_bv_value(t.arg(1)):
            a, l, h = s.bv(t.arg(0))
            c = min(t.arg(1).as_long(), w - 1)
            q, r = s.divmod(a, l, h, 1 << c)
            return z3.If(a < (1 << (w - 1)), q, q + ((1 << w) - (1 << (w - c)))), 0, (1 << w) - 1
        if k == z3.Z3_OP_BAND:
            cs = [a for a in t.children() if z3.is_bv_value(a)]
            os_ = [a for a in t.children() if not z3.is_bv_value(a)]
            if len(os_) == 1 and len(cs) == 1:
                c = cs[0].as_long()
                a, l, h = s.bv(os_[0])
                if c and (c & (c + 1)) == 0:        # low mask
                    return s.field(a, l, h, 0, c.bit_length() - 1)
                inv = (~c) & ((1 << w) - 1)
                if inv and (inv & (inv + 1)) == 0:   # clear low bits
                    q, r = s.divmod(a, l, h, inv + 1)
                    return a - r, 0, h
            raise No('and')
        raise No('op %s' % t.decl().name())

    def divmod(s, a, l, h, c):
        key = (a.get_id(), c)
        r = s.bcache.get(('dm', key))
        if r is None:
            q = s.fresh(l // c, h // c, 'd'); m = s.fresh(0, c - 1, 'm')
            s.side.append(a == q * c + m)
            r = (q, m)
            s.bcache[('dm', key)] = r
            s.keep.append(a)
        return r

    def field(s, a, l, h, lo, hi):
        n = hi - lo + 1
        if lo:
            q, r = s.divmod(a, l, h, 1 << lo)
            a, l, h = q, l >> lo, h >> lo
        if h < 1 << n: return a, l, h
        q, r = s.divmod(a, l, h, 1 << n)
        return r, 0, (1 << n) - 1

    def any(s, a):
        if z3.is_bv(a): return s.bv(a)[0]
        raise No('sort')

    def signed(s, t):
        a, l, h = s.bv(t)
        w = t.size()
        if h < 1 << (w - 1): return a
        if l >= 1 << (w - 1): return a - (1 << w)
        return z3.If(a < (1 << (w - 1)), a, a - (1 << w))

    def boolean(s, t):
        i = t.get_id()
        r = s.bcache.get(i)
        if r is None:
            r = s._bool(t)
            s.bcache[i] = r
            s.keep.append(t)
        return r

    def _bool(s, t):
        k = t.decl().kind()
        if k == z3.Z3_OP_TRUE or k == z3.Z3_OP_FALSE: return t
        if k == z3.Z3_OP_AND: return z3.And([s.boolean(c) for c in t.children()])
        if k == z3.Z3_OP_OR: return z3.Or([s.boolean(c) for c in t.children()])
        if k == z3.Z3_OP_NOT: return z3.Not(s.boolean(t.arg(0)))
        if k == z3.Z3_OP_IMPLIES: return z3.Implies(s.boolean(t.arg(0)), s.boolean(t.arg(1)))
        if k == z3.Z3_OP_XOR: return z3.Xor(s.boolean(t.arg(0)), s.boolean(t.arg(1)))
        if k == z3.Z3_OP_ITE: return z3.If(*[s.boolean(c) for c in t.children()])
        if k == z3.Z3_OP_EQ or k == z3.Z3_OP_DISTINCT:
            a, b = t.arg(0), t.arg(1)
            if z3.is_bv(a): e = s.eqbv(a, b)
            elif z3.is_bool(a): e = s.boolean(a) == s.boolean(b)
            else: raise No('eq sort')
            if k == z3.Z3_OP_DISTINCT:
                if t.num_args() != 2: raise No('distinct')
                return z3.Not(e)
            return e
        if k == z3.Z3_OP_ULEQ: return s.bv(t.arg(0))[0] <= s.bv(t.arg(1))[0]
        if k == z3.Z3_OP_ULT: return s.bv(t.arg(0))[0] < s.bv(t.arg(1))[0]
        if k == z3.Z3_OP_UGEQ: return s.bv(t.arg(0))[0] >= s.bv(t.arg(1))[0]
        if k == z3.Z3_OP_UGT: return s.bv(t.arg(0))[0] > s.bv(t.arg(1))[0]
        if k == z3.Z3_OP_SLEQ: return s.signed(t.arg(0)) <= s.signed(t.arg(1))
        if k == z3.Z3_OP_SLT: return s.signed(t.arg(0)) < s.signed(t.arg(1))
        if k == z3.Z3_OP_SGEQ: return s.signed(t.arg(0)) >= s.signed(t.arg(1))
        if k == z3.Z3_OP_SGT: return s.signed(t.arg(0)) > s.signed(t.arg(1))
        if k == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0: return t
        raise No('bool op %s' % t.decl().name())

    def eqbv(s, a, b):
        # byte-wise equality of concatenations avoids large sums
        if a.decl().kind() == z3.Z3_OP_CONCAT and b.decl().kind() == z3.Z3_OP_CONCAT:
            x, y = a.children(), b.children()
            if [c.size() for c in x] == [c.size() for c in y]:
                return z3.And([s.eqbv(p, q) for p, q in zip(x, y)])
        return s.bv(a)[0] == s.bv(b)[0]

def bounds_of(conjs):
    """constant bounds of variables stated by the conjuncts"""
    lo, hi = {}, {}
    def isvar(t): return z3.is_bv(t) and t.num_args() == 0 and not z3.is_bv_value(t)
    def upd(t, l=None, h=None):
        i = t.get_id()
        if l is not None: lo[i] = max(lo.get(i, 0), l)
        if h is not None: hi[i] = min(hi.get(i, (1 << t.size()) - 1), h)
        lo.setdefault(i, 0); hi.setdefault(i, (1 << t.size()) - 1)
    def walk(c, neg=False):
        k = c.decl().kind()
        if k == z3.Z3_OP_NOT: return walk(c.arg(0), not neg)
        if k == z3.Z3_OP_AND and not neg or k == z3.Z3_OP_OR and neg:
            for x in c.children(): walk(x, neg)
            return
        flip = {z3.Z3_OP_UGEQ: z3.Z3_OP_ULEQ, z3.Z3_OP_UGT: z3.Z3_OP_ULT}
        if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT):
            a, b = c.arg(0), c.arg(1)
            if k in flip: a, b, k = b, a, flip[k]
            strict = k == z3.Z3_OP_ULT
            if neg: a, b, strict = b, a, not strict
            # a <= b or a < b
            if isvar(a) and z3.is_bv_value(b): upd(a, h=b.as_long() - (1 if strict else 0))
            elif isvar(b) and z3.is_bv_value(a): upd(b, l=a.as_long() + (1 if strict else 0))
        elif k == z3.Z3_OP_EQ and not neg:
            a, b = c.arg(0), c.arg(1)
            if isvar(b): a, b = b, a
            if isvar(a) and z3.is_bv_value(b): upd(a, l=b.as_long(), h=b.as_long())
    for c in conjs: walk(c)
    out = {}
    for i in lo:
        if lo[i] <= hi[i]: out[i] = (lo[i], hi[i])
    return out

def check(conjs, timeout):
    """-> ('unsat', None) | ('sat', [equalities pinning the variables]) | ('unknown', None)"""
    tr = Tr(bounds_of(conjs))
    fs = []; dropped = False
    for c in conjs:
        try: fs.append(tr.boolean(c))
        except No as e: dropped = True       # weaker, so unsat is still unsat
        if TRACE and dropped: print('intblast drops', c.sexpr()[:200])
    s = z3.SolverFor('QF_UFLIA')
    s.set('timeout', timeout)
    for f in fs: s.add(f)
    for f in tr.side: s.add(f)
    r = s.check()
    if r == z3.unsat: return 'unsat', None
    if r == z3.sat and not dropped:
        m = s.model()
        pins = []
        for t, v in tr.vars.values():
            x = m.eval(v, model_completion=True)
            if z3.is_int_value(x): pins.append(t == z3.BitVecVal(x.as_long(), t.size()))
        return 'sat', pins
    return 'unknown', None
