"""A cheap sound over-approximation used as a first decision stage.

Bit vectors that carry floating-point values are re-sorted to an uninterpreted
sort and every operation on them (including the bit-level comparisons) becomes
an uninterpreted function; indices, sizes and counters stay bit vectors.  The
result is implied by the original formula, so `unsat` carries over."""
import z3

FPOPS = ('fadd', 'fmul', 'fdiv', 'frem', 'ftrunc', 'fext', 'sitofp', 'uitofp', 'fto', 'fto', 'hypot', 'fmod', 'acos', 'asin', 'atan', 'cos', 'sin',
         'sqrt', 'ffloor', 'fceil', 'fround', 'frint', 'fnearby', 'flround', 'exp', 'log', 'pow')
BOOLK = {z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE, z3.Z3_OP_XOR}
COMM = {z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_BXOR, z3.Z3_OP_BAND, z3.Z3_OP_BOR}
ORDER = {z3.Z3_OP_ULT, z3.Z3_OP_ULEQ, z3.Z3_OP_UGT, z3.Z3_OP_UGEQ, z3.Z3_OP_SLT, z3.Z3_OP_SLEQ, z3.Z3_OP_SGT, z3.Z3_OP_SGEQ}


class Mixed(Exception):
    pass


class Euf:
    def __init__(self):
        self.par = {}
        self.flag = {}
        self.seen = {}
        self.c = {}
        self.sorts = {}
        self.vals = {}
        self.f = {}

    # ---- which terms are floating-point values
    def find(self, x):
        p = self.par
        while p.get(x, x) != x:
            p[x] = p.get(p[x], p[x])
            x = p[x]
        return x

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b:
            self.par[a] = b
            self.flag[b] = self.flag.get(a, 0) | self.flag.get(b, 0)

    def mark(self, a, v):
        a = self.find(a)
        self.flag[a] = self.flag.get(a, 0) | v

    def key(self, x):
        if z3.is_bv_value(x):
            return None
        return x.get_id()

    def scan(self, es):
        st = list(es)
        while st:
            x = st.pop()
            i = x.get_id()
            if i in self.seen:
                continue
            self.seen[i] = x
            ch = x.children()
            st.extend(ch)
            d = x.decl()
            k = d.kind()
            if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and z3.is_bv(ch[0]):
                ks = [self.key(y) for y in ch if self.key(y) is not None]
                for y in ks[1:]:
                    self.union(ks[0], y)
            elif k == z3.Z3_OP_ITE and z3.is_bv(x):
                for y in ch[1:]:
                    if self.key(y) is not None:
                        self.union(i, self.key(y))
            elif k == z3.Z3_OP_UNINTERPRETED and ch:
                n = d.name()
                fl = n.startswith(FPOPS)
                for p, y in enumerate(ch):
                    if z3.is_bv(y):
                        a = ('arg', n, p)
                        if self.key(y) is not None:
                            self.union(self.key(y), a)
                        if fl and not (n.startswith(('sitofp', 'uitofp'))):
                            self.mark(a, 1)
                if z3.is_bv(x):
                    a = ('res', n)
                    self.union(i, a)
                    if fl and not n.startswith('fto'):
                        self.mark(a, 1)
            elif k in ORDER:
                ks = [self.key(y) for y in ch if self.key(y) is not None]
                for y in ks[1:]:
                    self.union(ks[0], y)
            elif k in (z3.Z3_OP_SELECT, z3.Z3_OP_STORE):
                raise Mixed()
            elif k == z3.Z3_OP_BXOR:
                ks = [self.key(y) for y in ch if self.key(y) is not None] + [i]
                for y in ks[1:]:
                    self.union(ks[0], y)
            elif k == z3.Z3_OP_EXTRACT:
                lo = d.params()[1]
                hi = d.params()[0]
                w = ch[0].size()
                if not ((lo == 0 and hi == w - 2) or (lo == hi == w - 1) or (hi == w - 2)):
                    if self.key(ch[0]) is not None:
                        self.mark(self.key(ch[0]), 2)
            elif z3.is_bv(x) and ch:
                self.mark(i, 2)
                for y in ch:
                    if z3.is_bv(y) and self.key(y) is not None:
                        self.mark(self.key(y), 2)

    def isf(self, x):
        if z3.is_bv_value(x):
            return None
        return self.flag.get(self.find(x.get_id()), 0) == 1

    # ---- translation
    def sort(self, n):
        if n not in self.sorts:
            self.sorts[n] = z3.DeclareSort('U%d' % n)
        return self.sorts[n]

    def val(self, x):
        k = (x.as_long(), x.size())
        if k not in self.vals:
            self.vals[k] = z3.Const('v%d_%d' % k, self.sort(x.size()))
        return self.vals[k]

    def fl(self, a, x):
        """argument translated, as an element of the float sort"""
        return self.val(x) if z3.is_bv_value(x) else a

    def bits(self, t, y):
        # comparisons with constants keep their meaning
        return self.fn(('bits', y.size()), 'bits%d' % y.size(), [t], y.sort())

    def tr(self, e):
        st = [e]
        c = self.c
        while st:
            x = st[-1]
            i = x.get_id()
            if i in c:
                st.pop()
                continue
            ch = x.children()
            m = [y for y in ch if y.get_id() not in c]
            if m:
                st.extend(m)
                continue
            st.pop()
            c[i] = (self.mk(x, [c[y.get_id()][0] for y in ch]), x)
        return c[e.get_id()][0]

    def fn(self, key, name, args, res):
        if key not in self.f:
            self.f[key] = z3.Function('f%d_%s' % (len(self.f), name), *[y.sort() for y in args], res)
        return self.f[key](*args)

    def mk(self, x, a):
        d = x.decl()
        k = d.kind()
        ch = x.children()
        if z3.is_bv_value(x):
            return x
        if k in BOOLK:
            return d(*a) if a else x
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) or k == z3.Z3_OP_ITE:
            j = 1 if k == z3.Z3_OP_ITE else 0
            if z3.is_bv(ch[j]):
                if any(self.isf(y) for y in ch[j:]) or (k == z3.Z3_OP_ITE and self.isf(x)):
                    a = a[:j] + [self.fl(p, y) for p, y in zip(a[j:], ch[j:])]
            if k == z3.Z3_OP_EQ:
                return a[0] == a[1]
            return z3.If(*a) if k == z3.Z3_OP_ITE else z3.Distinct(*a)
        f = [z3.is_bv(y) and bool(self.isf(y)) for y in ch]
        if k == z3.Z3_OP_UNINTERPRETED:
            n = d.name()
            b = []
            for p, (t, y) in enumerate(zip(a, ch)):
                if z3.is_bv_value(y) and self.flag.get(self.find(('arg', n, p)), 0) == 1:
                    t = self.val(y)
                b.append(t)
            if z3.is_bv(x) and self.isf(x):
                res = self.sort(x.size())
            else:
                res = x.sort()
            if not b:
                return z3.Const('c_' + n, res) if res is not x.sort() else x
            return self.fn((n,) + tuple(t.sort().get_id() for t in b) + (res.get_id(),), n, b, res)
        if any(f):
            if k in ORDER and any(z3.is_bv_value(y) for y in ch):
                return d(*[t if z3.is_bv_value(y) else self.bits(t, y) for t, y in zip(a, ch)])
            if k in ORDER or k == z3.Z3_OP_BXOR:
                a = [self.fl(p, y) for p, y in zip(a, ch)]
            if k in COMM and z3.is_bv_value(ch[-1]):
                a = a[-1:] + a[:-1]
            res = x.sort()
            if z3.is_bv(x) and self.isf(x):
                res = self.sort(x.size())
            nm = d.name() + ''.join('_%s' % p for p in d.params())
            return self.fn((nm, k) + tuple(t.sort().get_id() for t in a) + (res.get_id(),), nm, a, res)
        return d(*a)

    def distinct(self):
        by = {}
        for (v, n), c in self.vals.items():
            by.setdefault(n, []).append(c)
        r = [z3.Distinct(*l) for l in by.values() if len(l) > 1]
        for (v, n), c in self.vals.items():
            if ('bits', n) in self.f:
                r.append(self.f[('bits', n)](c) == z3.BitVecVal(v, n))
        return r


def unsat(exprs, ms):
    E = Euf()
    try:
        E.scan(exprs)
        B = [E.tr(e) for e in exprs]
    except (Mixed, z3.Z3Exception):
        return False
    s = z3.Solver()
    s.set('timeout', ms)
    s.add(*B)
    s.add(*E.distinct())
    return s.check() == z3.unsat


if __name__ == '__main__':
    import sys
    import time
    for f in sys.argv[1:]:
        s = z3.Solver()
        s.from_file(f)
        A = list(s.assertions())
        t = time.time()
        E = Euf()
        E.scan(A)
        B = [E.tr(e) for e in A]
        t1 = time.time()
        s = z3.Solver()
        s.set('timeout', 10000)
        s.add(*B)
        s.add(*E.distinct())
        print(f.split('/')[-1], 'tr %.2f' % (t1 - t), s.check(), round(time.time() - t1, 2), flush=True)
