"""Symbolic values: ints (python int or z3 BitVec), bools (python bool or z3
Bool), pointers (object tag, element index, byte offset)."""
import z3
from z3 import (BitVecVal, BitVec, BoolVal, If, And, Or, Not, UDiv, URem, LShR,
                ULT, ULE, UGT, UGE, Concat, Extract, ZeroExt, SignExt, is_bv_value,
                is_true, is_false, simplify)

class Unsupported(Exception):
    pass

class Ptr:
    __slots__ = ('tag', 'idx', 'off')
    def __init__(s, tag, idx=0, off=0):
        s.tag = tag; s.idx = idx; s.off = off
    def __repr__(s):
        return 'Ptr(%s,%s,%s)' % (s.tag, s.idx, s.off)

NULL = Ptr(0, 0, 0)

class PI:
    """a pointer held in an integer register (ptrtoint)"""
    __slots__ = ('p',)
    def __init__(s, p): s.p = p
    def __repr__(s): return 'PI(%r)' % s.p

class Opq:
    """opaque value (floating point and the like)"""
    __slots__ = ('n',)
    cnt = 0
    def __init__(s, n=None):
        Opq.cnt += 1
        s.n = n or 'opq%d' % Opq.cnt
    def __repr__(s): return s.n

def is_int(v): return type(v) is int

def bv(v, w):
    if type(v) is int:
        return BitVecVal(v, w)
    return v

def norm(e):
    """z3 term -> python constant when it is one"""
    if type(e) in (int, bool): return e
    if is_bv_value(e): return e.as_long()
    if is_true(e): return True
    if is_false(e): return False
    return e

_simp_cache = {}
def simp(e):
    if type(e) in (int, bool): return e
    return norm(simplify(e))

def boolz(b):
    if type(b) is bool: return BoolVal(b)
    return b

def mask(w): return (1 << w) - 1
def sgn(v, w): return v - (1 << w) if v >> (w - 1) else v

def add(a, b, w=64):
    if type(a) is int and type(b) is int: return (a + b) & mask(w)
    if type(a) is int and a == 0: return b
    if type(b) is int and b == 0: return a
    return simp(bv(a, w) + bv(b, w))
def sub(a, b, w=64):
    if type(a) is int and type(b) is int: return (a - b) & mask(w)
    if type(b) is int and b == 0: return a
    if type(a) is not int and type(b) is not int and a.eq(b): return 0
    return simp(bv(a, w) - bv(b, w))
def mul(a, b, w=64):
    if type(a) is int and type(b) is int: return (a * b) & mask(w)
    for x, y in ((a, b), (b, a)):
        if type(x) is int:
            if x == 0: return 0
            if x == 1: return y
    return simp(bv(a, w) * bv(b, w))
def eq(a, b, w=64):
    if type(a) is int and type(b) is int: return a == b
    x, y = bv(a, w), bv(b, w)
    if x.eq(y): return True
    return simp(x == y)
def ult(a, b, w=64):
    if type(a) is int and type(b) is int: return a < b
    if type(b) is int and b == 0: return False
    return simp(ULT(bv(a, w), bv(b, w)))
def ule(a, b, w=64):
    if type(a) is int and type(b) is int: return a <= b
    if type(a) is int and a == 0: return True
    if type(a) is not int and type(b) is not int and a.eq(b): return True
    return simp(ULE(bv(a, w), bv(b, w)))
def slt(a, b, w=64):
    if type(a) is int and type(b) is int: return sgn(a, w) < sgn(b, w)
    return simp(bv(a, w) < bv(b, w))
def sle(a, b, w=64):
    if type(a) is int and type(b) is int: return sgn(a, w) <= sgn(b, w)
    return simp(bv(a, w) <= bv(b, w))
def ite(c, a, b, w=64):
    if c is True: return a
    if c is False: return b
    if type(a) is int and type(b) is int and a == b: return a
    x, y = bv(a, w), bv(b, w)
    if x.eq(y): return a
    return norm(If(c, x, y))
def land(*cs):
    out = []
    for c in cs:
        if c is True: continue
        if c is False: return False
        out.append(c)
    if not out: return True
    if len(out) == 1: return out[0]
    return And(*out)
def lor(*cs):
    out = []
    for c in cs:
        if c is False: continue
        if c is True: return True
        out.append(c)
    if not out: return False
    if len(out) == 1: return out[0]
    return Or(*out)
def lnot(c):
    if c is True: return False
    if c is False: return True
    if z3.is_not(c): return c.arg(0)
    return Not(c)
def implies(a, b): return lor(lnot(a), b)

def byte_of(v, w, i):
    """i-th little-endian byte of a w-bit value"""
    if type(v) is int: return (v >> (8 * i)) & 255
    if type(v) is bool: return int(v)
    if w == 8: return v
    hi = min(8 * i + 7, w - 1)
    e = Extract(hi, 8 * i, v)
    if hi - 8 * i < 7:
        e = ZeroExt(7 - (hi - 8 * i), e)
    return norm(simplify(e))

def concat_bytes(bs):
    """little-endian bytes -> value"""
    if all(type(b) is int for b in bs):
        r = 0
        for i, b in enumerate(bs): r |= b << (8 * i)
        return r
    if len(bs) == 1: return bs[0]
    return norm(simplify(Concat(*[bv(b, 8) for b in reversed(bs)])))
