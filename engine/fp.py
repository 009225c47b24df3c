"""Floating point for the VC generator.

Every float/double value is the bit vector of its IEEE-754 representation.
Comparisons, classification, negation, absolute value, min/max are encoded
exactly over those bits.  Rounding operations are uninterpreted functions that
are (a) folded when both operands are constants, (b) normalised by identities
that are exact in IEEE-754 (commutativity, x-y = x+(-y), sign of products,
division by a power of two), (c) characterised on demand by instances of the
lemma schemas in LEMMAS below, and (d) interpreted by the SMT theory of
floating point when an obligation needs their exact meaning."""
import math
import struct
import warnings
import numpy as np
import z3

warnings.filterwarnings('ignore')
EXP = {32: 8, 64: 11}
MAN = {32: 23, 64: 52}


def inf(w):
    return ((1 << EXP[w]) - 1) << MAN[w]


def sgn(w):
    return 1 << (w - 1)


def bv(x, w):
    return z3.BitVecVal(x, w) if isinstance(x, (int, bool)) else x


def conc(x):
    """python int if x is a literal, else None"""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if z3.is_bv_value(x):
        return x.as_long()
    return None


def unz(x):
    if isinstance(x, int):
        return x
    if z3.is_bv_value(x):
        return x.as_long()
    return x


def b2f(x, w):
    return struct.unpack('<f' if w == 32 else '<d', x.to_bytes(w // 8, 'little'))[0]


def npf(x, w):
    return np.frombuffer(x.to_bytes(w // 8, 'little'), dtype=np.float32 if w == 32 else np.float64)[0]


def f2b(v, w):
    a = np.array([v], dtype=np.float32 if w == 32 else np.float64)
    return int.from_bytes(a.tobytes(), 'little')


_uf = {}


def UF(name, *ws):
    k = (name,) + ws
    if k not in _uf:
        _uf[k] = z3.Function(name, *[z3.BitVecSort(w) for w in ws])
    return _uf[k]


def AND(*a):
    r = []
    for x in a:
        if x is True:
            continue
        if x is False:
            return False
        r.append(x)
    if not r:
        return True
    return r[0] if len(r) == 1 else z3.And(*r)


def OR(*a):
    r = []
    for x in a:
        if x is False:
            continue
        if x is True:
            return True
        r.append(x)
    if not r:
        return False
    return r[0] if len(r) == 1 else z3.Or(*r)


def NOT(x):
    if isinstance(x, bool):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def ZB(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


# ------------------------------------------------------------ classification
def isnan(x, w):
    c = conc(x)
    if c is not None:
        return (c & (sgn(w) - 1)) > inf(w)
    if is_uf(x, 'fext'):
        return isnan(x.arg(0), 32)
    if is_uf(x, 'sitofp') or is_uf(x, 'uitofp'):
        return False
    m = z3.Extract(w - 2, 0, x)
    return z3.UGT(m, z3.BitVecVal(inf(w), w - 1))


def is_uf(x, name):
    return z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0 and x.decl().name().startswith(name)


def iszero(x, w):
    c = conc(x)
    if c is not None:
        return (c & (sgn(w) - 1)) == 0
    return z3.Extract(w - 2, 0, x) == 0


def signbit(x, w):
    c = conc(x)
    if c is not None:
        return bool(c >> (w - 1))
    return z3.Extract(w - 1, w - 1, x) == 1


def _lt(a, b, w):
    ca, cb = conc(a), conc(b)
    if ca is not None and cb is not None:
        return bool(b2f(ca, w) < b2f(cb, w))
    S, I = sgn(w), inf(w)
    if cb is not None:
        if isnan(cb, w):
            return False
        neg, mag = cb >> (w - 1), cb & (S - 1)
        if mag == 0:      # a < 0
            return z3.And(z3.UGT(a, z3.BitVecVal(S, w)), z3.ULE(a, z3.BitVecVal(S | I, w)))
        if neg:
            return z3.And(z3.UGT(a, z3.BitVecVal(cb, w)), z3.ULE(a, z3.BitVecVal(S | I, w)))
        return z3.Or(z3.ULT(a, z3.BitVecVal(cb, w)), z3.And(z3.UGE(a, z3.BitVecVal(S, w)), z3.ULE(a, z3.BitVecVal(S | I, w))))
    if ca is not None:
        if isnan(ca, w):
            return False
        neg, mag = ca >> (w - 1), ca & (S - 1)
        if mag == 0:
            return z3.And(z3.UGT(b, z3.BitVecVal(0, w)), z3.ULE(b, z3.BitVecVal(I, w)))
        if not neg:
            return z3.And(z3.UGT(b, z3.BitVecVal(ca, w)), z3.ULE(b, z3.BitVecVal(I, w)))
        return z3.Or(z3.ULE(b, z3.BitVecVal(I, w)), z3.And(z3.UGE(b, z3.BitVecVal(S, w)), z3.ULT(b, z3.BitVecVal(ca, w))))
    if a.eq(b):
        return False
    sa, sb = signbit(a, w), signbit(b, w)
    return AND(NOT(isnan(a, w)), NOT(isnan(b, w)),
               z3.If(sa, z3.If(sb, z3.ULT(b, a), z3.Not(z3.And(iszero(a, w), iszero(b, w)))),
                     z3.And(z3.Not(sb), z3.ULT(a, b))))


def _eq(a, b, w):
    ca, cb = conc(a), conc(b)
    if ca is not None and cb is not None:
        return bool(b2f(ca, w) == b2f(cb, w))
    if ca is not None:
        return _eq(b, a, w)
    if cb is not None:
        if isnan(cb, w):
            return False
        if (cb & (sgn(w) - 1)) == 0:
            return iszero(a, w)
        return a == z3.BitVecVal(cb, w)
    if a.eq(b):
        return NOT(isnan(a, w))
    return AND(NOT(isnan(a, w)), NOT(isnan(b, w)), z3.Or(a == b, z3.And(iszero(a, w), iszero(b, w))))


def _le(a, b, w):
    ca, cb = conc(a), conc(b)
    if ca is not None and cb is not None:
        return bool(b2f(ca, w) <= b2f(cb, w))
    if cb is not None or ca is not None:
        # not (b < a) and ordered
        return AND(NOT(_lt(b, a, w)), NOT(isnan(a, w)), NOT(isnan(b, w)))
    if a.eq(b):
        return NOT(isnan(a, w))
    sa, sb = signbit(a, w), signbit(b, w)
    return AND(NOT(isnan(a, w)), NOT(isnan(b, w)),
               z3.If(sa, z3.If(sb, z3.ULE(b, a), True), z3.If(sb, z3.And(iszero(a, w), iszero(b, w)), z3.ULE(a, b))))


def _floor_ceil_f32(d):
    """(largest float <= d, smallest float >= d) as bits; d finite/inf python float"""
    f = np.float32(d)
    fd = float(f)
    if fd == d:
        return f2b(f, 32), f2b(f, 32)
    if fd < d:
        return f2b(f, 32), f2b(np.nextafter(f, np.float32(np.inf)), 32)
    return f2b(np.nextafter(f, np.float32(-np.inf)), 32), f2b(f, 32)


def cmp(pred, a, b, w):
    """ordered comparison lt/le/eq with exact narrowing through fpext"""
    if w == 64:
        ea, eb = is_ext(a), is_ext(b)
        if ea is not None and eb is not None:
            return cmp(pred, ea, eb, 32)
        cb, ca = conc(b), conc(a)
        if ea is not None and cb is not None:
            d = b2f(cb, 64)
            if d != d:
                return False
            lo, hi = _floor_ceil_f32(d)
            if pred == 'lt':
                return _lt(ea, hi, 32)
            if pred == 'le':
                return _le(ea, lo, 32)
            return _eq(ea, lo, 32) if lo == hi else False
        if eb is not None and ca is not None:
            d = b2f(ca, 64)
            if d != d:
                return False
            lo, hi = _floor_ceil_f32(d)
            if pred == 'lt':
                return _lt(lo, eb, 32)
            if pred == 'le':
                return _le(hi, eb, 32)
            return _eq(eb, lo, 32) if lo == hi else False
    return {'lt': _lt, 'le': _le, 'eq': _eq}[pred](a, b, w)


def is_ext(x):
    if isinstance(x, int):
        return None
    if is_uf(x, 'fext'):
        return x.arg(0)
    return None


def fcmp(pred, a, b, w):
    if pred == 'true':
        return True
    if pred == 'false':
        return False
    if pred == 'ord':
        return AND(NOT(isnan(a, w)), NOT(isnan(b, w)))
    if pred == 'uno':
        return OR(isnan(a, w), isnan(b, w))
    o, p = pred[0], pred[1:]
    if o == 'o':
        if p == 'lt':
            return cmp('lt', a, b, w)
        if p == 'gt':
            return cmp('lt', b, a, w)
        if p == 'le':
            return cmp('le', a, b, w)
        if p == 'ge':
            return cmp('le', b, a, w)
        if p == 'eq':
            return cmp('eq', a, b, w)
        if p == 'ne':
            return AND(NOT(cmp('eq', a, b, w)), NOT(isnan(a, w)), NOT(isnan(b, w)))
    neg = {'lt': 'oge', 'ge': 'olt', 'gt': 'ole', 'le': 'ogt', 'ne': 'oeq', 'eq': 'one'}[p]
    return NOT(fcmp(neg, a, b, w))


def same(a, b, w):
    """bit-identical or both NaN: the equality used by specifications"""
    ca, cb = conc(a), conc(b)
    if ca is not None and cb is not None:
        return ca == cb or (isnan(ca, w) and isnan(cb, w))
    a, b = bv(a, w), bv(b, w)
    if a.eq(b):
        return True
    return z3.Or(a == b, z3.And(ZB(isnan(a, w)), ZB(isnan(b, w))))


def fpclass(x, w, mask):
    I, S = inf(w), sgn(w)
    qbit = 1 << (MAN[w] - 1)
    rng = []       # list of (lo,hi) unsigned ranges
    def add(lo, hi):
        rng.append((lo, hi))
    if mask & 1:
        add(I + 1, (I | qbit) - 1)
        add(S | (I + 1), S | ((I | qbit) - 1))
    if mask & 2:
        add(I | qbit, S - 1)
        add(S | I | qbit, S | (S - 1))
    mn = 1 << MAN[w]
    for bit, lo, hi in ((2, S | I, S | I), (3, S | mn, S | (I - 1)), (4, S | 1, S | (mn - 1)), (5, S, S), (6, 0, 0), (7, 1, mn - 1), (8, mn, I - 1), (9, I, I)):
        if mask >> bit & 1:
            add(lo, hi)
    rng.sort()
    m = []
    for lo, hi in rng:
        if m and m[-1][1] + 1 == lo:
            m[-1] = (m[-1][0], hi)
        else:
            m.append((lo, hi))
    c = conc(x)
    if c is not None:
        return any(lo <= c <= hi for lo, hi in m)
    if w == 64 and is_ext(x) is not None and (mask >> 4 & 1) == (mask >> 3 & 1) and (mask >> 7 & 1) == (mask >> 8 & 1):
        return fpclass(is_ext(x), 32, mask)
    r = []
    for lo, hi in m:
        t = []
        if lo > 0:
            t.append(z3.UGE(x, z3.BitVecVal(lo, w)))
        if hi < (1 << w) - 1:
            t.append(z3.ULE(x, z3.BitVecVal(hi, w)))
        r.append(AND(*t))
    return OR(*r)


# ------------------------------------------------------------ arithmetic
def neg(x, w):
    c = conc(x)
    if c is not None:
        return c ^ sgn(w)
    # double negation
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_BXOR and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() == sgn(w):
        return x.arg(1)
    return z3.BitVecVal(sgn(w), w) ^ x


def isneg(x, w):
    """x syntactically -(y): returns y"""
    if isinstance(x, int):
        return None
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_BXOR and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() == sgn(w):
        return x.arg(1)
    return None


def fabs(x, w):
    c = conc(x)
    if c is not None:
        return c & (sgn(w) - 1)
    return x & z3.BitVecVal(sgn(w) - 1, w)


def _key(x):
    return x.get_id()


def _pow2(c, w):
    """c is a normal power of two whose reciprocal is normal"""
    m = c & ((1 << MAN[w]) - 1)
    e = (c >> MAN[w]) & ((1 << EXP[w]) - 1)
    return m == 0 and 1 < e < (1 << EXP[w]) - 3


NPOP = {'add': np.add, 'mul': np.multiply, 'div': np.divide}


def arith(op, a, b, w):
    if op == 'sub':
        return arith('add', a, neg(b, w), w)
    ca, cb = conc(a), conc(b)
    if op == 'rem':
        if ca is not None and cb is not None:
            return f2b(np.fmod(npf(ca, w), npf(cb, w)), w)
        return UF('frem%d' % w, w, w, w)(bv(a, w), bv(b, w))
    if ca is not None and cb is not None:
        with np.errstate(all='ignore'):
            return f2b(NPOP[op](npf(ca, w), npf(cb, w)), w)
    one = f2b(1.0, w)
    if op == 'div' and cb is not None and _pow2(cb, w):
        op, b = 'mul', f2b(1.0 / b2f(cb, w), w)
        cb = b
    if op == 'mul':
        if cb == one:
            return a
        if ca == one:
            return b
    if op == 'add':
        if cb == sgn(w):
            return a
        if ca == sgn(w):
            return b
    s = False
    if op in ('mul', 'div'):     # sign is exact
        for_ = []
        for x in (a, b):
            n = isneg(x, w)
            if n is not None:
                s = not s
                x = n
            elif conc(x) is not None and conc(x) >> (w - 1) and not isnan(conc(x), w):
                s = not s
                x = conc(x) ^ sgn(w)
            for_.append(x)
        a, b = for_
        if op == 'mul' and conc(b) == one or op == 'div' and conc(b) == one:
            return neg(a, w) if s else a
        if op == 'mul' and conc(a) == one:
            return neg(b, w) if s else b
    a, b = bv(a, w), bv(b, w)
    # operands keep their order (so that equal terms stay congruent); constants go second
    if op in ('add', 'mul') and z3.is_bv_value(a) and not z3.is_bv_value(b):
        a, b = b, a
    r = UF('f%s%d' % (op, w), w, w, w)(a, b)
    return neg(r, w) if s else r


def fext(x):
    c = conc(x)
    if c is not None:
        return f2b(np.float64(npf(c, 32)), 64)
    n = isneg(x, 32)
    if n is not None:
        return neg(fext(n), 64)
    return UF('fext', 32, 64)(x)


def ftrunc(x):
    c = conc(x)
    if c is not None:
        with np.errstate(all='ignore'):
            return f2b(np.float32(npf(c, 64)), 32)
    if is_uf(x, 'fext'):
        return x.arg(0)
    n = isneg(x, 64)
    if n is not None:
        return neg(ftrunc(n), 32)
    return UF('ftrunc', 64, 32)(x)


def itof(x, iw, w, signed):
    c = conc(x)
    if c is not None:
        if signed and c >> (iw - 1):
            c -= 1 << iw
        # correctly rounded int -> float
        if w == 64:
            return f2b(np.float64(c), 64)
        return f2b(_int_to_f32(c), 32)
    return UF('%sitofp%d_%d' % ('s' if signed else 'u', iw, w), iw, w)(x)


def _int_to_f32(c):
    # round to nearest even exactly
    if c == 0:
        return np.float32(0)
    s, m = (-1, -c) if c < 0 else (1, c)
    bl = m.bit_length()
    if bl > 24:
        sh = bl - 24
        q, r = m >> sh, m & ((1 << sh) - 1)
        h = 1 << (sh - 1)
        if r > h or (r == h and q & 1):
            q += 1
        m = q << sh
    return np.float32(s * m)


def ftoi(x, w, iw, signed):
    """(value, in-range condition)"""
    lo = -(1 << (iw - 1)) if signed else 0
    hi = (1 << (iw - 1)) if signed else (1 << iw)      # exclusive
    c = conc(x)
    if c is not None:
        v = b2f(c, w)
        if v != v or math.isinf(v):
            return 0, False
        t = int(v)
        if not (lo <= t < hi):
            return 0, False
        return t & ((1 << iw) - 1), True
    # trunc(x) in [lo, hi)  <=>  lo-1 < x < hi ; lo-1 is exact in binary64 for i32
    hi_b = f2b(float(hi), w)
    if w == 64 and iw <= 32 or lo == 0:
        rng = AND(cmp('lt', f2b(float(lo - 1), w), x, w), cmp('lt', x, hi_b, w))
    else:
        rng = AND(cmp('le', f2b(float(lo), w), x, w), cmp('lt', x, hi_b, w))
    return UF('fto%si%d_%d' % ('s' if signed else 'u', w, iw), w, iw)(x), rng


def rnd(kind, x, w):
    c = conc(x)
    if c is not None:
        f = {'ceil': np.ceil, 'floor': np.floor, 'trunc': np.trunc, 'rint': np.rint, 'nearbyint': np.rint}.get(kind)
        if f is not None:
            return f2b(f(npf(c, w)), w)
        if kind == 'round':
            v = npf(c, w)
            return f2b(np.copysign(np.floor(np.abs(v) + npf(f2b(0.5, w), w)), v), w) if abs(v) < 2 ** 20 else c
    if w == 64 and is_ext(x) is not None:
        return fext(rnd(kind, x.arg(0), 32))
    return UF('f%s%d' % (kind, w), w, w)(x)


def ite(c, a, b, w=None):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    if not isinstance(a, int) and not isinstance(b, int) and a.eq(b):
        return a
    return z3.If(c, bv(a, w), bv(b, w))


def maxmin(kind, a, b, w):
    ca, cb = conc(a), conc(b)
    lt = cmp('lt', a, b, w) if kind == 'max' else cmp('lt', b, a, w)
    return ite(isnan(a, w), b, ite(isnan(b, w), a, ite(lt, b, a, w), w), w)


# ------------------------------------------------------------ precise mode
def fsort(w):
    return z3.FPSort(EXP[w], MAN[w] + 1)


def _tofp(x, w):
    return z3.fpBVToFP(x, fsort(w))


def _frombv(f):
    return z3.fpToIEEEBV(f)


RNE = z3.RNE()


def precise_decl(name, args):
    """interpretation of an arithmetic UF application in FP theory, or None"""
    def W(i):
        return args[i].size()
    import re
    m = re.fullmatch(r'f(add|mul|div)(32|64)', name)
    if m:
        w = int(m.group(2))
        f = {'add': z3.fpAdd, 'mul': z3.fpMul, 'div': z3.fpDiv}[m.group(1)]
        return _frombv(f(RNE, _tofp(args[0], w), _tofp(args[1], w)))
    if name == 'fext':
        return _frombv(z3.fpFPToFP(RNE, _tofp(args[0], 32), fsort(64)))
    if name == 'ftrunc':
        return _frombv(z3.fpFPToFP(RNE, _tofp(args[0], 64), fsort(32)))
    m = re.fullmatch(r'([su])itofp(\d+)_(32|64)', name)
    if m:
        f = z3.fpSignedToFP if m.group(1) == 's' else z3.fpUnsignedToFP
        return _frombv(f(RNE, args[0], fsort(int(m.group(3)))))
    m = re.fullmatch(r'fto([su])i(32|64)_(\d+)', name)
    if m:
        f = z3.fpToSBV if m.group(1) == 's' else z3.fpToUBV
        return f(z3.RTZ(), _tofp(args[0], int(m.group(2))), z3.BitVecSort(int(m.group(3))))
    m = re.fullmatch(r'f(ceil|floor|trunc|round|rint|nearbyint)(32|64)', name)
    if m:
        rm = {'ceil': z3.RTP(), 'floor': z3.RTN(), 'trunc': z3.RTZ(), 'round': z3.RNA(), 'rint': RNE, 'nearbyint': RNE}[m.group(1)]
        return _frombv(z3.fpRoundToIntegral(rm, _tofp(args[0], int(m.group(2)))))
    m = re.fullmatch(r'fsqrt(32|64)', name)
    if m:
        return _frombv(z3.fpSqrt(RNE, _tofp(args[0], int(m.group(1)))))
    return None


def make_precise(e, cache):
    """rewrite all arithmetic UFs bottom-up"""
    st = [e]
    while st:
        x = st[-1]
        k = x.get_id()
        if k in cache:
            st.pop()
            continue
        if not z3.is_app(x):
            cache[k] = (x, x)
            st.pop()
            continue
        ch = x.children()
        todo = [c for c in ch if c.get_id() not in cache]
        if todo:
            st.extend(todo)
            continue
        nch = [cache[c.get_id()][0] for c in ch]
        r = None
        if ch and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            r = precise_decl(x.decl().name(), nch)
        if r is None:
            if any(not a.eq(b) for a, b in zip(ch, nch)):
                if z3.is_and(x):
                    r = z3.And(*nch)
                elif z3.is_or(x):
                    r = z3.Or(*nch)
                else:
                    r = x.decl()(*nch)
            else:
                r = x
        cache[k] = (r, x)
        st.pop()
    return cache[e.get_id()][0]


# ------------------------------------------------------------ lemma schemas
# Each schema is a theorem of IEEE-754 round-to-nearest-even arithmetic.
# `engine/lemmas.py` validates every schema against the SMT theory of floating
# point (binary16 exhaustively-symbolic; binary32 where the solver terminates).
_lm = {}


def _memo(out, key, refs, fn):
    v = _lm.get(key)
    if v is None:
        v = ([o for o in fn() if o is not True], refs)
        _lm[key] = v
    out.extend(v[0])


def _shared(l, nargs, comm):
    """pairs (r, q, position in r, position in q) of applications sharing an operand"""
    ix = {}
    for r in l:
        for i in range(nargs):
            k = r.arg(i).get_id()
            for q, j in ix.get(k, ()):
                if q is not r and (comm or i == j):
                    yield r, q, i, j
        for i in range(nargs):
            ix.setdefault(r.arg(i).get_id(), []).append((r, i))


def lemma_instances(apps):
    """apps: dict declname -> list of applications.  Returns list of Bool"""
    out = []
    import re
    for w in (32, 64):
        for op, fn in (('add', lem_add), ('mul', lem_mul), ('div', lem_div)):
            for r in apps.get('f%s%d' % (op, w), []):
                _memo(out, (op, r.get_id()), r, lambda: fn(r, r.arg(0), r.arg(1), w))
        for kind in ('ceil', 'floor', 'trunc'):
            for r in apps.get('f%s%d' % (kind, w), []):
                _memo(out, (kind, r.get_id()), r, lambda: lem_rnd(kind, r, r.arg(0), w))
        # pairwise monotonicity
        for r, q, i, j in _shared(apps.get('fadd%d' % w, []), 2, True):
            _memo(out, ('addm', r.get_id(), q.get_id(), i, j), (r, q), lambda: lem_add_mono(r, r.arg(1 - i), q, q.arg(1 - j), w))
        for r, q, i, j in _shared(apps.get('fmul%d' % w, []), 2, True):
            _memo(out, ('mulm', r.get_id(), q.get_id(), i, j), (r, q), lambda: lem_mul_mono(r, r.arg(1 - i), q, q.arg(1 - j), r.arg(i), w))
        for r, q, i, j in _shared(apps.get('fdiv%d' % w, []), 2, False):
            if i == 1:
                _memo(out, ('divm', r.get_id(), q.get_id()), (r, q), lambda: lem_div_mono(r, r.arg(0), q, q.arg(0), r.arg(1), w))
        for kind in ('ceil', 'floor', 'trunc'):
            l = apps.get('f%s%d' % (kind, w), [])
            for i, r in enumerate(l):
                for q in l[:i]:
                    _memo(out, (kind + 'm', r.get_id(), q.get_id()), (r, q), lambda: lem_mono1(r, r.arg(0), w, q, q.arg(0), w))
    for r in apps.get('fext', []):
        _memo(out, ('fext', r.get_id()), r, lambda: lem_conv(r, 64, r.arg(0), 32))
    for r in apps.get('ftrunc', []):
        _memo(out, ('ftrunc', r.get_id()), r, lambda: lem_trunc(r, r.arg(0)))
    for nm, wo, wi in (('fext', 64, 32), ('ftrunc', 32, 64)):
        l = apps.get(nm, [])
        for i, r in enumerate(l):
            for q in l[:i]:
                _memo(out, (nm + 'm', r.get_id(), q.get_id()), (r, q), lambda: lem_mono1(r, r.arg(0), wi, q, q.arg(0), wi, wo))
    # ftrunc(y) against fext(x): thresholds are exact
    for r in apps.get('ftrunc', []):
        for q in apps.get('fext', []):
            _memo(out, ('et', r.get_id(), q.get_id()), (r, q), lambda: lem_ext_trunc(r, r.arg(0), q, q.arg(0)))
    for nm, l in apps.items():
        m = re.fullmatch(r'([su])itofp(\d+)_(32|64)', nm)
        if m:
            iw, w, sg = int(m.group(2)), int(m.group(3)), m.group(1) == 's'
            for i, r in enumerate(l):
                _memo(out, ('itof', r.get_id()), r, lambda: lem_itof(r, r.arg(0), iw, w, sg))
                for q in l[:i]:
                    _memo(out, ('itofm', r.get_id(), q.get_id()), (r, q), lambda: lem_itof_mono(r, r.arg(0), q, q.arg(0), iw, w, sg))
        m = re.fullmatch(r'fto([su])i(32|64)_(\d+)', nm)
        if m:
            w, iw, sg = int(m.group(2)), int(m.group(3)), m.group(1) == 's'
            for i, r in enumerate(l):
                _memo(out, ('ftoi', r.get_id()), r, lambda: lem_ftoi(r, r.arg(0), w, iw, sg))
                for q in l[:i]:
                    _memo(out, ('ftoim', r.get_id(), q.get_id()), (r, q), lambda: lem_ftoi_mono(r, r.arg(0), q, q.arg(0), w, iw, sg))
    out.extend(libm_lemmas(apps))
    return out


def _h(w):
    return (lambda a, b: ZB(_lt(a, b, w)), lambda a, b: ZB(_le(a, b, w)), lambda a, b: ZB(_eq(a, b, w)), lambda a: ZB(isnan(a, w)),
            lambda a: fabs(bv(a, w), w) == z3.BitVecVal(inf(w), w), lambda a: ZB(signbit(a, w)), lambda a: ZB(iszero(a, w)),
            z3.BitVecVal(0, w), z3.BitVecVal(f2b(1.0, w), w), lambda a: bv(fabs(a, w), w))


def lem_add(r, a, b, w):
    LT, LE, EQ, NAN, INF, SG, ZR, Z, ONE, ABS = _h(w)
    I, A, O, N = z3.Implies, z3.And, z3.Or, z3.Not
    o = [NAN(r) == O(NAN(a), NAN(b), A(INF(a), INF(b), SG(a) != SG(b)))]
    ok = N(NAN(r))
    for x, y in ((a, b), (b, a)):
        o.append(I(A(ok, LE(Z, x)), LE(y, r)))
        o.append(I(A(ok, LE(x, Z)), LE(r, y)))
        o.append(I(A(ok, INF(x)), r == x))
        o.append(I(A(ok, ZR(x), N(ZR(y))), r == y))
    # exact zero result iff operands cancel (gradual underflow)
    o.append(I(A(ok, N(INF(a)), N(INF(b))), EQ(r, Z) == EQ(a, bv(neg(b, w), w))))
    o.append(I(A(ok, LT(bv(neg(b, w), w), a)), A(LT(Z, r))))
    o.append(I(A(ok, LT(a, bv(neg(b, w), w))), A(LT(r, Z))))
    return o


def lem_add_mono(r, a, q, b, w):
    """r = a + c, q = b + c"""
    LT, LE, EQ, NAN, INF, SG, ZR, Z, ONE, ABS = _h(w)
    ok = z3.And(z3.Not(NAN(r)), z3.Not(NAN(q)))
    return [z3.Implies(z3.And(ok, LE(a, b)), LE(r, q)), z3.Implies(z3.And(ok, LE(b, a)), LE(q, r))]


def lem_mul(r, a, b, w):
    LT, LE, EQ, NAN, INF, SG, ZR, Z, ONE, ABS = _h(w)
    I, A, O, N = z3.Implies, z3.And, z3.Or, z3.Not
    o = [NAN(r) == O(NAN(a), NAN(b), A(INF(a), ZR(b)), A(ZR(a), INF(b)))]
    ok = N(NAN(r))
    o.append(I(ok, SG(r) == (SG(a) != SG(b))))
    for x, y in ((a, b), (b, a)):
        o.append(I(A(ok, LE(ABS(x), ONE)), LE(ABS(r), ABS(y))))
        o.append(I(A(ok, LE(ONE, ABS(x))), LE(ABS(y), ABS(r))))
        o.append(I(A(ok, ZR(x)), ZR(r)))
        o.append(I(A(ok, INF(x)), INF(r)))
        o.append(I(A(ok, EQ(x, ONE)), r == y))
    return o


def lem_mul_mono(r, a, q, b, c, w):
    LT, LE, EQ, NAN, INF, SG, ZR, Z, ONE, ABS = _h(w)
    ok = z3.And(z3.Not(NAN(r)), z3.Not(NAN(q)))
    I, A = z3.Implies, z3.And
    return [I(A(ok, LE(Z, c), LE(a, b)), LE(r, q)), I(A(ok, LE(Z, c), LE(b, a)), LE(q, r)),
            I(A(ok, LE(c, Z), LE(a, b)), LE(q, r)), I(A(ok, LE(c, Z), LE(b, a)), LE(r, q))]


def lem_div(r, a, b, w):
    LT, LE, EQ, NAN, INF, SG, ZR, Z, ONE, ABS = _h(w)
    I, A, O, N = z3.Implies, z3.And, z3.Or, z3.Not
    o = [NAN(r) == O(NAN(a), NAN(b), A(INF(a), INF(b)), A(ZR(a), ZR(b)))]
    ok = N(NAN(r))
    o.append(I(ok, SG(r) == (SG(a) != SG(b))))
    o.append(I(A(ok, LE(ABS(a), ABS(b))), LE(ABS(r), ONE)))
    o.append(I(A(ok, LE(ABS(b), ABS(a))), LE(ONE, ABS(r))))
    o.append(I(A(ok, EQ(a, b)), r == ONE))
    o.append(I(A(ok, ZR(a)), ZR(r)))
    o.append(I(A(ok, INF(b)), ZR(r)))
    o.append(I(A(ok, INF(a)), INF(r)))
    o.append(I(A(ok, ZR(b)), INF(r)))
    o.append(I(A(ok, LE(ONE, ABS(b))), LE(ABS(r), ABS(a))))
    o.append(I(A(ok, LE(ABS(b), ONE)), LE(ABS(a), ABS(r))))
    return o


def lem_div_mono(r, a, q, b, c, w):
    LT, LE, EQ, NAN, INF, SG, ZR, Z, ONE, ABS = _h(w)
    ok = z3.And(z3.Not(NAN(r)), z3.Not(NAN(q)))
    I, A = z3.Implies, z3.And
    return [I(A(ok, LT(Z, c), LE(a, b)), LE(r, q)), I(A(ok, LT(Z, c), LE(b, a)), LE(q, r))]


def lem_rnd(kind, r, a, w):
    LT, LE, EQ, NAN, INF, SG, ZR, Z, ONE, ABS = _h(w)
    I, A, O, N = z3.Implies, z3.And, z3.Or, z3.Not
    o = [NAN(r) == NAN(a), I(INF(a), r == a), I(ZR(a), r == a), INF(r) == INF(a)]
    ok = N(NAN(a))
    if kind == 'ceil':
        o.append(I(ok, LE(a, r)))
        o.append(I(A(ok, LT(Z, a)), LE(ONE, r)))
        o.append(I(A(ok, LE(a, Z)), LE(r, Z)))
    if kind == 'floor':
        o.append(I(ok, LE(r, a)))
        o.append(I(A(ok, LE(Z, a)), LE(Z, r)))
        o.append(I(A(ok, LT(a, Z)), LE(r, bv(neg(ONE, w), w))))
    if kind == 'trunc':
        o.append(I(ok, LE(ABS(r), ABS(a))))
    return o


def lem_mono1(r, a, wi, q, b, wi2, wo=None):
    wo = wo or wi
    LE = lambda x, y: ZB(_le(x, y, wo))
    LI = lambda x, y: ZB(_le(x, y, wi))
    return [z3.Implies(LI(a, b), LE(r, q)), z3.Implies(LI(b, a), LE(q, r))]


def lem_conv(r, wo, a, wi):
    o = [ZB(isnan(r, wo) if not is_uf(r, 'fext') else _isnan_raw(r, wo)) == ZB(isnan(a, wi)),
         z3.Implies(z3.Not(ZB(isnan(a, wi))), ZB(signbit(r, wo)) == ZB(signbit(a, wi))),
         ZB(iszero(r, wo)) == ZB(iszero(a, wi)),
         (fabs(r, wo) == inf(wo)) == (fabs(a, wi) == inf(wi)),
         # range of binary32
         z3.Implies(z3.And(z3.Not(ZB(isnan(a, wi))), fabs(a, wi) != inf(wi)),
                    z3.ULE(fabs(r, wo), z3.BitVecVal(f2b(float(np.finfo(np.float32).max), 64), 64)))]
    # order against 1.0 is exact
    o.append((z3.ULE(fabs(a, wi), f2b(1.0, wi))) == (z3.ULE(fabs(r, wo), f2b(1.0, wo))))
    return o


def _isnan_raw(x, w):
    return z3.UGT(z3.Extract(w - 2, 0, x), z3.BitVecVal(inf(w), w - 1))


def lem_trunc(r, a):
    N, I, A = z3.Not, z3.Implies, z3.And
    nanr, nana = ZB(isnan(r, 32)), ZB(isnan(a, 64))
    o = [nanr == nana, I(N(nana), ZB(signbit(r, 32)) == ZB(signbit(a, 64))), I(ZB(iszero(a, 64)), ZB(iszero(r, 32))),
         I(fabs(a, 64) == inf(64), fabs(r, 32) == inf(32))]
    one32, one64 = f2b(1.0, 32), f2b(1.0, 64)
    o.append(I(z3.ULE(fabs(a, 64), one64), z3.ULE(fabs(r, 32), one32)))
    o.append(I(A(N(nana), z3.UGE(fabs(a, 64), one64)), z3.UGE(fabs(r, 32), one32)))
    return o


def lem_ext_trunc(r, y, q, x):
    """r = ftrunc(y), q = fext(x)"""
    LE64 = lambda a, b: ZB(_le_raw(a, b, 64))
    LE32 = lambda a, b: ZB(_le(a, b, 32))
    return [z3.Implies(LE64(y, q), LE32(r, x)), z3.Implies(LE64(q, y), LE32(x, r)), z3.Implies(y == q, z3.Or(r == x, ZB(isnan(x, 32))))]


def _le_raw(a, b, w):
    sa, sb = signbit(a, w), signbit(b, w)
    return AND(NOT(_isnan_raw(bv(a, w), w)), NOT(_isnan_raw(bv(b, w), w)),
               z3.If(ZB(sa), z3.If(ZB(sb), z3.ULE(b, a), True), z3.If(ZB(sb), z3.And(ZB(iszero(a, w)), ZB(iszero(b, w))), z3.ULE(a, b))))


def lem_itof(r, a, iw, w, sg):
    I, A = z3.Implies, z3.And
    zero = z3.BitVecVal(0, w)
    o = [z3.Not(_isnan_raw(r, w)), fabs(r, w) != inf(w), (a == 0) == (r == 0),
         ZB(iszero(r, w)) == (a == 0)]
    if iw <= MAN[w]:
        o += _itof_range(r, a, iw, w, sg)
    if sg:
        o.append(ZB(signbit(r, w)) == (a < 0))
        o.append(I(a >= 1, z3.And(z3.UGE(r, f2b(1.0, w)), z3.ULT(r, sgn(w)))))
        o.append((a == 1) == (r == f2b(1.0, w)))
        o.append(I(a <= -1, z3.UGE(r, f2b(-1.0, w))))
    else:
        o.append(z3.Not(ZB(signbit(r, w))))
        o.append(I(a != 0, z3.UGE(r, f2b(1.0, w))))
        o.append((a == 1) == (r == f2b(1.0, w)))
    return o


def _itof_range(r, a, iw, w, sg):
    hi = ((1 << (iw - 1)) if sg else (1 << iw)) - 1
    o = [ZB(_le_raw(r, z3.BitVecVal(f2b(float(hi), w), w), w)), (r == f2b(float(hi), w)) == (a == hi)]
    if sg:
        o.append(ZB(_le_raw(z3.BitVecVal(f2b(float(-(1 << (iw - 1))), w), w), r, w)))
    return o


def lem_itof_mono(r, a, q, b, iw, w, sg):
    le = (lambda x, y: x <= y) if sg else z3.ULE
    o = [z3.Implies(le(a, b), ZB(_le_raw(r, q, w))), z3.Implies(le(b, a), ZB(_le_raw(q, r, w)))]
    if iw < MAN[w]:
        o.append((a == b) == (r == q))
    return o


def integral(x, w, depth=6):
    """x is syntactically a rounded value (or NaN or infinite)"""
    c = conc(x)
    if c is not None:
        f = b2f(c, w)
        return f == f and abs(f) < 2.0 ** 62 and f == int(f)
    if any(is_uf(x, 'f%s%d' % (k, w)) for k in ('ceil', 'floor', 'trunc')):
        return True
    if depth and z3.is_app_of(x, z3.Z3_OP_ITE):
        return integral(x.arg(1), w, depth - 1) and integral(x.arg(2), w, depth - 1)
    return is_uf(x, 'sitofp') and w == 64


def lem_ftoi(r, x, w, iw, sg):
    LT, LE, EQ, NAN, INF, SG, ZR, Z, ONE, ABS = _h(w)
    I, A = z3.Implies, z3.And
    _, rng = ftoi(x, w, iw, sg)
    rng = ZB(rng)
    o = []
    if sg:
        o.append(I(A(rng, LE(Z, x)), r >= 0))
        o.append(I(A(rng, LE(x, Z)), r <= 0))
        o.append(I(A(rng, LE(ONE, x)), r >= 1))
        o.append(I(A(rng, LT(x, ONE)), r <= 0))
        o.append(I(A(rng, LT(bv(f2b(-1.0, w), w), x)), r >= 0))
        if iw <= MAN[w]:
            back = bv(itof(r, iw, w, sg), w)
            o.append(I(rng, A(I(LE(Z, x), ZB(_le_raw(back, x, w))), I(LE(x, Z), ZB(_le_raw(x, back, w))))))
            # x integral  =>  round trip
            if integral(x, w):
                o.append(I(A(rng, z3.Not(ZR(x))), back == x))
                o.append(I(A(rng, ZR(x)), r == 0))
            o.extend(lem_itof(back, r, iw, w, sg) if not isinstance(back, int) and is_uf(back, 'sitofp') else [])
    return o


def lem_ftoi_mono(r, x, q, y, w, iw, sg):
    _, r1 = ftoi(x, w, iw, sg)
    _, r2 = ftoi(y, w, iw, sg)
    le = (lambda a, b: a <= b) if sg else z3.ULE
    ok = z3.And(ZB(r1), ZB(r2))
    return [z3.Implies(z3.And(ok, ZB(_le(x, y, w))), le(r, q)), z3.Implies(z3.And(ok, ZB(_le(y, x, w))), le(q, r))]


def lem_hypot(r, a, b, w):
    """assumed contract of hypot (libm): sign, NaN, infinities, zero and |a|,|b| <= r"""
    LT, LE, EQ, NAN, INF, SG, ZR, Z, ONE, ABS = _h(w)
    I, A, O, N = z3.Implies, z3.And, z3.Or, z3.Not
    return [I(O(INF(a), INF(b)), r == inf(w)), I(A(N(INF(a)), N(INF(b))), NAN(r) == O(NAN(a), NAN(b))),
            I(N(NAN(r)), A(N(SG(r)), LE(Z, r))), ZR(r) == A(ZR(a), ZR(b)),
            I(A(N(NAN(r)), N(NAN(a))), LE(ABS(a), r)), I(A(N(NAN(r)), N(NAN(b))), LE(ABS(b), r))]


def lem_fmod(r, a, b, w):
    """assumed contract of fmod (exact in IEEE-754)"""
    LT, LE, EQ, NAN, INF, SG, ZR, Z, ONE, ABS = _h(w)
    I, A, O, N = z3.Implies, z3.And, z3.Or, z3.Not
    return [NAN(r) == O(NAN(a), NAN(b), INF(a), ZR(b)),
            I(N(NAN(r)), A(LE(ABS(r), ABS(a)), SG(r) == SG(a), I(N(INF(b)), LT(ABS(r), ABS(b))))),
            I(A(N(NAN(r)), LT(ABS(a), ABS(b))), r == a)]


def lem_acos(r, a, w):
    """assumed contract of acos: range [0, pi] on [-1, 1], NaN elsewhere"""
    LT, LE, EQ, NAN, INF, SG, ZR, Z, ONE, ABS = _h(w)
    I, A, O, N = z3.Implies, z3.And, z3.Or, z3.Not
    PI = z3.BitVecVal(f2b(np.float32(np.pi) if w == 32 else np.pi, w), w)
    return [NAN(r) == O(NAN(a), LT(ONE, ABS(a))), I(N(NAN(r)), A(N(SG(r)), LE(Z, r), LE(r, PI))), ZR(r) == EQ(a, ONE)]


def const_mono(exprs, apps, limit=48):
    """monotonicity of rounding operations against constants: for r = f(x) and a
    constant c, x <= c implies r <= f(c), where f(c) is computed exactly.  The
    constants are those of the formula and their images under its operations."""
    pool = {32: {}, 64: {}}

    def put(w, c):
        if len(pool[w]) >= limit or c in pool[w]:
            return False
        v = b2f(c, w)
        if v != v:
            return False
        a = abs(v)
        if a not in (0.0, math.inf) and not 1e-9 < a < 1e12:
            return False
        pool[w][c] = None
        return True
    for w in (32, 64):
        put(w, f2b(0.0, w))
    seen, st = set(), list(exprs)
    while st:
        x = st.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_bv_value(x):
            if x.size() in (32, 64) and x.as_long():
                put(x.size(), x.as_long())
                put(x.size(), x.as_long() ^ sgn(x.size()))
        elif z3.is_app(x):
            st.extend(x.children())
    un = []     # (app, input width, output width, x, f, increasing)
    import re
    for nm, l in apps.items():
        m = re.fullmatch(r'f(add|mul|div)(32|64)', nm)
        if m:
            w = int(m.group(2))
            for r in l:
                for i in (0, 1):
                    c = conc(r.arg(i))
                    if c is None or isinstance(c, bool):
                        continue
                    op = m.group(1)
                    if op == 'div' and i == 0:
                        continue
                    sg = 1
                    if op != 'add':
                        v = b2f(c, w)
                        if not (v > 0 or v < 0) or v in (math.inf, -math.inf):
                            continue
                        sg = 1 if v > 0 else -1
                    un.append((r, w, w, r.arg(1 - i), (lambda x, op=op, c=c, w=w: conc(arith(op, x, c, w))), sg))
        m = re.fullmatch(r'f(ceil|floor|trunc)(32|64)', nm)
        if m:
            w = int(m.group(2))
            un.extend((r, w, w, r.arg(0), (lambda x, k=m.group(1), w=w: conc(rnd(k, x, w))), 1) for r in l)
        if nm == 'fext':
            un.extend((r, 32, 64, r.arg(0), (lambda x: conc(fext(x))), 1) for r in l)
        if nm == 'ftrunc':
            un.extend((r, 64, 32, r.arg(0), (lambda x: conc(ftrunc(x))), 1) for r in l)
    if len(un) > 60:
        return []
    for rnd_ in range(4):
        ch = False
        for r, wi, wo, x, f, sg in un:
            for c in list(pool[wi]):
                v = f(c)
                if v is not None:
                    ch |= put(wo, v)
        if not ch:
            break
    out = []
    for r, wi, wo, x, f, sg in un:
        for c in pool[wi]:
            _memo(out, ('cm', r.get_id(), c, x.get_id()), (r, x), lambda: _const_mono1(r, wi, wo, x, f, sg, c))
    return out


def _const_mono1(r, wi, wo, x, f, sg, c):
    v = f(c)
    if v is None or b2f(v, wo) != b2f(v, wo):
        return []
    nr = z3.Not(_isnan_raw(bv(r, wo), wo))
    cb, vb = z3.BitVecVal(c, wi), z3.BitVecVal(v, wo)
    a, b = ZB(_le_raw(x, cb, wi)), ZB(_le_raw(cb, x, wi))
    p, q = ZB(_le_raw(r, vb, wo)), ZB(_le_raw(vb, r, wo))
    if sg < 0:
        p, q = q, p
    return [z3.Implies(z3.And(nr, a), p), z3.Implies(z3.And(nr, b), q)]


def comm(apps):
    out = []
    for n in ('fadd32', 'fadd64', 'fmul32', 'fmul64'):
        for r in apps.get(n, []):
            _memo(out, ('comm', r.get_id()), r, lambda: [r == r.decl()(r.arg(1), r.arg(0))])
    return out


def mag_lemmas(apps):
    """magnitude bounds 2^k: |a| <= 2^k, |b| <= 2^k  =>  |a+b| <= 2^(k+1) and is a number, and so on"""
    out = []
    KS = range(0, 12)

    def le(x, w, k):
        return z3.ULE(bv(fabs(x, w), w), z3.BitVecVal(f2b(2.0 ** k, w), w))
    for w in (32, 64):
        for r in apps.get('fadd%d' % w, []):
            _memo(out, ('magadd', r.get_id()), r, lambda: [z3.Implies(z3.And(le(r.arg(0), w, k), le(r.arg(1), w, k)), le(r, w, k + 1)) for k in KS])
        for r in apps.get('fmul%d' % w, []):
            _memo(out, ('magmul', r.get_id()), r, lambda: [z3.Implies(z3.And(le(r.arg(0), w, k), le(r.arg(1), w, j)), le(r, w, k + j))
                                                           for k in range(0, 12, 3) for j in range(0, 12, 3)])
    for r in apps.get('fext', []):
        _memo(out, ('magext', r.get_id()), r, lambda: [z3.Implies(le(r.arg(0), 32, k), le(r, 64, k)) for k in KS])
    for r in apps.get('ftrunc', []):
        _memo(out, ('magtr', r.get_id()), r, lambda: [z3.Implies(le(r.arg(0), 64, k), le(r, 32, k)) for k in KS])
    return out


def libm_lemmas(apps):
    out = []
    for sfx, w in (('f', 32), ('', 64)):
        for r in apps.get('hypot' + sfx, []):
            _memo(out, ('hypot', r.get_id()), r, lambda: lem_hypot(r, r.arg(0), r.arg(1), w))
        for r in apps.get('fmod' + sfx, []):
            _memo(out, ('fmod', r.get_id()), r, lambda: lem_fmod(r, r.arg(0), r.arg(1), w))
        for r in apps.get('acos' + sfx, []):
            _memo(out, ('acos', r.get_id()), r, lambda: lem_acos(r, r.arg(0), w))
    return out


_ARITH = None


def is_arith(n):
    import re
    return re.fullmatch(r'f(add|mul|div|rem|ceil|floor|trunc|round|rint|nearbyint|sqrt)(32|64)|fext|ftrunc|[su]itofp\d+_\d+|fto[su]i\d+_\d+', n) is not None


LIBM = set()
for _n in ('sqrt', 'cos', 'sin', 'tan', 'acos', 'asin', 'atan', 'exp', 'log', 'log2', 'log10', 'cbrt', 'tanh', 'hypot', 'atan2', 'pow', 'fmod', 'remainder'):
    LIBM |= {_n, _n + 'f'}


def is_libm(n):
    return n in LIBM or n.startswith('frem')


# contracts of summarised functions: name -> (declaration, formals, [(path condition, result)])
PURE = {}
PURE_FACTS = {}


def isfinite(x, w):
    return z3.ULT(bv(x, w) & z3.BitVecVal(sgn(w) - 1, w), z3.BitVecVal(inf(w), w))


def f2b_dir(c, w):
    """smallest w-bit float >= c and largest <= c"""
    b = f2b(c, w)
    v = b2f(b, w)
    f = np.float32 if w == 32 else np.float64
    up = b if v >= c else f2b(float(np.nextafter(f(v), f(np.inf))), w)
    dn = b if v <= c else f2b(float(np.nextafter(f(v), f(-np.inf))), w)
    return up, dn


def constants(exprs):
    """moderate floating-point values of the constants of the formulas"""
    out, seen, st = {0.0}, set(), list(exprs)
    while st:
        x = st.pop()
        if not isinstance(x, z3.ExprRef) or x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_bv_value(x):
            if x.size() in (32, 64):
                v = b2f(x.as_long(), x.size())
                if v == v and 1e-6 < abs(v) < 1e9:
                    out.add(float(v))
        elif z3.is_app(x):
            st.extend(x.children())
    return out


def pure_facts(exprs):
    out = []
    for n, l in collect_apps(exprs).items():
        if n in PURE:
            for a in l:
                for _, r, c in PURE_FACTS[n]:
                    out.append(z3.substitute(ZB(c), (r, a), (PURE[n][1][0], a.arg(0))))
    return out


def pure_axioms(exprs, rounds=8):
    out, done = [], set()
    cur = list(exprs)
    for _ in range(rounds):
        new = []
        for n, l in collect_apps(cur).items():
            if n in PURE:
                d, xs, cl = PURE[n]
                for r in l:
                    if r.get_id() in done:
                        continue
                    done.add(r.get_id())
                    sub = list(zip(xs, [r.arg(i) for i in range(len(xs))]))
                    g = []
                    for pc, v in cl:
                        c = z3.substitute(z3.And(*pc) if pc else z3.BoolVal(True), *sub)
                        g.append(c)
                        new.append(z3.Implies(c, r == z3.substitute(v, *sub)))
                    new.append(z3.Or(*g))
        if not new:
            break
        out += new
        cur = new
    return out


def collect_apps(exprs):
    apps, seen = {}, set()
    st = list(exprs)
    while st:
        x = st.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_app(x):
            ch = x.children()
            if ch and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                apps.setdefault(x.decl().name(), []).append(x)
            st.extend(ch)
    return apps
