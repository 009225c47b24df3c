"""Values and memory of the symbolic state."""
import z3
from ir import Unsupported, Ty
from fp import conc, bv, unz

_ctr = [0]


def fresh_name(p):
    _ctr[0] += 1
    return '%s!%d' % (p, _ctr[0])


def fresh(p, bits):
    if bits == 1:
        return z3.Bool(fresh_name(p))
    return z3.BitVec(fresh_name(p), bits)


class Ptr:
    __slots__ = ("b", "o")

    def __init__(self, b, o):
        self.b, self.o = b, o

    def __eq__(self, x):
        return isinstance(x, Ptr) and self.b == x.b and self.o == x.o

    def __hash__(self):
        return hash((self.b, self.o))

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.b, self.o)


NULL = Ptr(0, 0)


class FnPtr:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __eq__(self, x):
        return isinstance(x, FnPtr) and self.n == x.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return 'Fn(%s)' % self.n


class SeqPtr:
    """pointer into element `i` (absolute index) of the sequence at (b, o)"""
    __slots__ = ("b", "o", "i", "f")

    def __init__(self, b, o, i, f):
        self.b, self.o, self.i, self.f = b, o, i, f

    def same_slot(self, x):
        return isinstance(x, SeqPtr) and self.b == x.b and self.o == x.o and self.f == x.f

    def __eq__(self, x):
        return self.same_slot(x) and idx_eq(self.i, x.i) is True

    def __hash__(self):
        return hash((self.b, self.o, self.f))

    def __repr__(self):
        return 'SeqPtr(%s,%s,[%s],%s)' % (self.b, self.o, self.i, self.f)


class PtrIte:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Poison:
    """value whose use is not supported (reason attached)"""
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'Poison(%s)' % self.why


class _Uninit:
    def __repr__(self):
        return 'UNINIT'


UNINIT = _Uninit()


class Pieces:
    """a multi-cell scalar load: list of (byteoff, bytewidth, value)"""
    __slots__ = ("w", "ps")

    def __init__(self, w, ps):
        self.w, self.ps = w, ps


def veq(a, b):
    """cheap syntactic equality of two cell values"""
    if a is b:
        return True
    if isinstance(a, (int, bool)) or isinstance(b, (int, bool)):
        return type(a) is type(b) and a == b
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, (Ptr, FnPtr, SeqPtr)):
        return a == b
    if isinstance(a, SeqVal) and isinstance(b, SeqVal):
        return veq(a.start, b.start) and veq(a.n, b.n) and a.arrs == b.arrs
    if isinstance(a, PtrIte) and isinstance(b, PtrIte):
        return veq(a.c, b.c) and veq(a.a, b.a) and veq(a.b, b.b)
    return False


_diffcache = {}


def idx_diff(a, b):
    """a-b as int if syntactically constant else None (64-bit signed)"""
    if isinstance(a, int) and isinstance(b, int):
        d = (a - b) & (2**64 - 1)
    else:
        a, b = bv(a, 64), bv(b, 64)
        if a.eq(b):
            return 0
        d = z3.simplify(a - b)
        if not z3.is_bv_value(d):
            return None
        d = d.as_long()
    return d - 2**64 if d >> 63 else d


def idx_eq(a, b):
    d = idx_diff(a, b)
    if d is None:
        return None
    return d == 0


def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) & (2**64 - 1)
    if isinstance(b, int) and b == 0:
        return a
    if isinstance(a, int) and a == 0:
        return b
    return unz(z3.simplify(bv(a, 64) + bv(b, 64)))


def isub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return (a - b) & (2**64 - 1)
    if isinstance(b, int) and b == 0:
        return a
    return unz(z3.simplify(bv(a, 64) - bv(b, 64)))


# -------- python-level functional arrays (index BV64 -> BVw)
class PArr:
    __slots__ = ("k", "w", "a", "b", "c", "d")

    def __init__(self, k, w, a=None, b=None, c=None, d=None):
        self.k, self.w, self.a, self.b, self.c, self.d = k, w, a, b, c, d

    def sel(self, i):
        x = self
        pend = []
        while True:
            if x.k == 'store':
                d = idx_diff(i, x.b)
                if d == 0:
                    r = x.c
                    break
                if d is None:
                    pend.append((bv(i, 64) == bv(x.b, 64), x.c))
                x = x.a
                continue
            if x.k == 'base':
                r = x.a(bv(i, 64))
                break
            if x.k == 'prefix':
                # index within [start0, start0+len0): old contents
                off = isub(i, x.b)
                n0 = x.c
                if isinstance(off, int) and isinstance(n0, int):
                    x = x.a if off < n0 else x.d
                    continue
                dd = idx_diff(off, n0)
                cnd = z3.ULT(bv(off, 64), bv(n0, 64))
                if dd is not None and dd >= 0:
                    pass
                old = x.a.sel(i)
                new = x.d.sel(i)
                if isinstance(old, z3.ExprRef) and isinstance(new, z3.ExprRef) and old.eq(new):
                    r = old
                else:
                    r = z3.If(cnd, bv(old, self.w), bv(new, self.w))
                break
            if x.k == 'ite':
                p, q = x.b.sel(i), x.c.sel(i)
                r = p if veq(p, q) else z3.If(x.a, bv(p, self.w), bv(q, self.w))
                break
            raise AssertionError(x.k)
        for c, v in reversed(pend):
            r = z3.If(c, bv(v, self.w), bv(r, self.w))
        return r

    def st(self, i, v):
        # overwrite of the same slot collapses
        if self.k == 'store' and idx_diff(i, self.b) == 0:
            return PArr('store', self.w, self.a, i, v)
        return PArr('store', self.w, self, i, v)


def fresh_arr(name, w):
    return PArr('base', w, z3.Function(fresh_name(name), z3.BitVecSort(64), z3.BitVecSort(w)))


class SeqVal:
    __slots__ = ("lay", "arrs", "start", "n")

    def __init__(self, lay, arrs, start, n):
        self.lay, self.arrs, self.start, self.n = lay, arrs, start, n

    def with_(self, **k):
        r = SeqVal(self.lay, self.arrs, self.start, self.n)
        for a, b in k.items():
            setattr(r, a, b)
        return r


class Lay:
    """leaf layout of a sequence element"""

    def __init__(self, mod, ty):
        self.size = mod.size(ty)
        self.leaves = []
        for o, t in mod.leaves(ty):
            if t.k not in ('i', 'f'):
                raise Unsupported('sequence of non-scalar leaves')
            self.leaves.append((o, t, mod.size(t)))
        self.by = {o: k for k, (o, t, s) in enumerate(self.leaves)}


class Block:
    __slots__ = ("size", "cells", "kind", "name", "ty")

    def __init__(self, size, kind, name=None, ty=None):
        self.size, self.kind, self.name, self.ty = size, kind, name, ty
        self.cells = {}

    def copy(self):
        b = Block(self.size, self.kind, self.name, self.ty)
        b.cells = dict(self.cells)
        return b


def extract_bytes(v, w, o, n):
    """bytes [o,o+n) of a w-byte scalar value"""
    if v is UNINIT:
        return UNINIT
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return (v >> (8 * o)) & ((1 << (8 * n)) - 1)
    if isinstance(v, z3.BitVecRef):
        return unz(z3.simplify(z3.Extract(8 * (o + n) - 1, 8 * o, v)))
    raise Unsupported('partial access to a %s' % type(v).__name__)
