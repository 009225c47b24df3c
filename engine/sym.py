"""Symbolic executor / verification-condition generator over LLVM IR."""
import sys
import time
import re
import z3
import fp
import euf
from fp import AND, OR, NOT, conc, bv, unz, ite, ZB
from ir import Unsupported, Reg, GRef, ConstAgg, UNDEF, ZERO, Ty
from mem import (Ptr, NULL, FnPtr, SeqPtr, PtrIte, Poison, UNINIT, Pieces, veq, idx_diff, iadd, isub, PArr, fresh_arr,
                 SeqVal, Lay, Block, extract_bytes, fresh, fresh_name)

sys.setrecursionlimit(20000)


class NeedCut(Exception):
    pass


class Budget(Exception):
    pass


class Frame:
    __slots__ = ("f", "blk", "ip", "prev", "regs", "allocas", "res", "line")

    def __init__(self, f):
        self.f, self.blk, self.ip, self.prev = f, f.entry, 0, None
        self.regs, self.allocas, self.res, self.line = {}, [], None, 0

    def copy(self):
        g = Frame.__new__(Frame)
        g.f, g.blk, g.ip, g.prev = self.f, self.blk, self.ip, self.prev
        g.regs, g.allocas, g.res, g.line = dict(self.regs), list(self.allocas), self.res, self.line
        return g


class State:
    __slots__ = ("frames", "mem", "owned", "pc", "tape", "retval", "invs", "specs", "ghost")

    def __init__(self):
        self.frames, self.mem, self.owned, self.pc, self.tape = [], {}, set(), [], []
        self.specs, self.retval, self.invs, self.ghost = (), None, None, {}

    def fork(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        self.owned = set()
        s.owned = set()
        s.pc = list(self.pc)
        s.tape = list(self.tape)
        s.specs, s.retval, s.invs = self.specs, self.retval, self.invs
        s.ghost = dict(self.ghost)
        return s


class Oblig:
    __slots__ = ("tag", "label", "where", "pc", "goal", "tape", "status", "by", "t", "model", "n")

    def __init__(self, tag, label, where, pc, goal, tape):
        self.tag, self.label, self.where, self.pc, self.goal, self.tape = tag, label, where, pc, goal, tape
        self.status = None
        self.by = None
        self.t = 0
        self.model = None


class Loop:
    __slots__ = ("h", "body", "depth", "f", "mode")

    def __init__(self, f, h, depth, mode):
        self.f, self.h, self.body, self.depth, self.mode = f, h, f.loops[h], depth, mode


UNARY_MATH = {}
for _n in ('sqrt', 'cos', 'sin', 'tan', 'acos', 'asin', 'atan', 'exp', 'log', 'log2', 'log10', 'cbrt', 'tanh'):
    UNARY_MATH[_n] = (1, 64)
    UNARY_MATH[_n + 'f'] = (1, 32)
for _n in ('hypot', 'atan2', 'pow', 'fmod', 'remainder'):
    UNARY_MATH[_n] = (2, 64)
    UNARY_MATH[_n + 'f'] = (2, 32)

ABORTS = {'abort', 'llvm.trap', '__cxa_pure_virtual', '_ZSt9terminatev', '_ZSt20__throw_length_errorPKc',
          '_ZSt19__throw_logic_errorPKc', '_ZSt17__throw_bad_allocv', '_ZSt28__throw_bad_array_new_lengthv',
          '_ZSt20__throw_out_of_rangePKc', '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt26__throw_bad_variant_accessPKc',
          '_ZSt26__throw_bad_variant_accessb', '_ZSt27__throw_bad_optional_accessv', '__assert_fail'}


class Engine:
    def __init__(self, mod, opts=None):
        self.mod = mod
        self.o = dict(check_ms=400, max_unroll=600, max_steps=3_000_000, wall=600, merge=True)
        self.o.update(opts or {})
        self.obs = []
        self.covers = {}
        self.nblk = 1
        self.gblk = {}
        self.lays = {}
        self.solver = None
        self.spc = []
        self.nsteps = 0
        self.mute = 0
        self.stats = dict(forks=0, checks=0, merges=0, cuts=0, tsolve=0.0, funcs={}, loops={}, replaced={}, summaries={})
        self.assumed_ext = set()
        self.pure = {}
        self.force_pure = set()
        self.replace = {}
        self.tbranch = {}
        self.loopmemo = {}
        self.in_spec = 0
        self.t0 = time.time()
        self.basemem = {}
        self.notes = []

    # ------------------------------------------------------------ solver
    def feasible(self, st, cond):
        """is pc && cond satisfiable (unknown counts as yes)"""
        if cond is False:
            return False
        if cond is True:
            return True
        for p in st.pc[-40:]:
            if p.eq(cond):
                return True
        nc = NOT(cond)
        for p in st.pc[-40:]:
            if p.eq(nc):
                return False
        self.sync(st)
        self.stats['checks'] += 1
        t = time.time()
        self.solver.push()
        self.solver.add(cond)
        r = self.solver.check()
        self.solver.pop()
        self.stats['tsolve'] += time.time() - t
        return r != z3.unsat

    def sync(self, st):
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set('timeout', self.o['check_ms'])
            self.spc = []
        pc = st.pc
        i = 0
        m = min(len(pc), len(self.spc))
        while i < m and (self.spc[i] is pc[i] or self.spc[i].eq(pc[i])):
            i += 1
        if i < len(self.spc):
            self.solver.pop(len(self.spc) - i)
            del self.spc[i:]
        for c in pc[i:]:
            self.solver.push()
            self.solver.add(c)
            self.spc.append(c)

    def valid(self, st, cond, lem=True):
        """pc |= cond, for pruning / invariants (unknown => False)"""
        if cond is True:
            return True
        if cond is False:
            return not self.feasible(st, True) if False else False
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        for p in st.pc:
            if p.eq(cond):
                return True
        self.sync(st)
        self.stats['checks'] += 1
        t = time.time()
        self.solver.push()
        self.solver.add(NOT(cond))
        r = self.solver.check()
        if r == z3.unknown and euf.unsat(list(st.pc) + [ZB(NOT(cond))], 3000):
            r = z3.unsat
        if r == z3.unknown:
            s2 = z3.Solver()
            s2.set('timeout', 4000)
            s2.add(*st.pc)
            s2.add(NOT(cond))
            r = s2.check()
        self.solver.pop()
        if r == z3.sat and lem:
            # retry with FP lemma instances
            ex = list(st.pc) + [NOT(cond)]
            apps = fp.collect_apps(ex)
            cm = fp.comm(apps)
            if cm:
                s2 = z3.Solver()
                s2.set('timeout', 4000)
                s2.add(*ex)
                s2.add(*cm)
                r = s2.check()
            lms = fp.lemma_instances(apps) + cm if r != z3.unsat and lem != 'comm' else None
            if lms:
                s2 = z3.Solver()
                s2.set('timeout', 6000)
                s2.add(*ex)
                s2.add(*lms)
                r = s2.check()
        self.stats['tsolve'] += time.time() - t
        if self.o.get('dump') and time.time() - t > .3:
            s3 = z3.Solver(); s3.add(*st.pc); s3.add(NOT(cond))
            self.ndump = getattr(self, 'ndump', 0) + 1
            open('%s/q%d_%s.smt2' % (self.o['dump'], self.ndump, r), 'w').write(s3.to_smt2())
        if self.o.get('verbose') and time.time() - t > .3:
            print('slow valid %.1f %s' % (time.time() - t, r), str(cond)[:200].replace('\n', ' '))
        return r == z3.unsat

    # ------------------------------------------------------------ memory
    def new_block(self, st, size, kind, name=None, ty=None):
        b = self.nblk
        self.nblk += 1
        st.mem[b] = Block(size, kind, name, ty)
        st.owned.add(b)
        return b

    def wblock(self, st, b):
        blk = st.mem[b]
        if b not in st.owned:
            blk = blk.copy()
            st.mem[b] = blk
            st.owned.add(b)
        return blk

    def global_block(self, st, name):
        """block id of a global; its initial contents live in basemem"""
        if name in self.gblk:
            b = self.gblk[name]
            if b not in st.mem:
                st.mem[b] = self.basemem[b]
            return b
        g = self.mod.globals.get(name)
        if isinstance(g, tuple):
            return self.global_block(st, g[1])
        if g is None:
            raise Unsupported('unknown global ' + name)
        b = self.nblk
        self.nblk += 1
        self.gblk[name] = b
        blk = Block(self.mod.size(g.ty) if not (g.ext and g.ty.k == 'a') else 1 << 30, 'const' if g.const else 'global', name, g.ty)
        self.basemem[b] = blk
        st.mem[b] = blk
        if g.init is not None:
            self.init_cells(st, blk, 0, g.ty, g.init)
        return b

    def init_cells(self, st, blk, off, ty, v):
        if v is UNDEF:
            return
        if v is ZERO:
            for o, t in self.all_leaves(ty):
                blk.cells[off + o] = (self.mod.size(t), NULL if t.k == 'p' else 0)
            return
        if isinstance(v, ConstAgg):
            if ty.k == 's':
                for o, t, x in zip(self.mod.offsets(ty), ty.elems, v.vals):
                    self.init_cells(st, blk, off + o, t, x)
            else:
                s = self.mod.size(ty.t)
                for i, x in enumerate(v.vals):
                    self.init_cells(st, blk, off + i * s, ty.t, x)
            return
        if isinstance(v, GRef):
            blk.cells[off] = (8, self.gref(st, v))
            return
        blk.cells[off] = (self.mod.size(ty), int(v))

    def all_leaves(self, ty):
        if ty.k in ('a', 'vec'):
            s = self.mod.size(ty.t)
            for i in range(ty.n):
                for o, t in self.all_leaves(ty.t):
                    yield i * s + o, t
        elif ty.k == 's':
            for b, e in zip(self.mod.offsets(ty), ty.elems):
                for o, t in self.all_leaves(e):
                    yield b + o, t
        else:
            yield 0, ty

    def gref(self, st, g):
        if g.n is None:
            return NULL
        n = g.n
        a = self.mod.globals.get(n)
        if isinstance(a, tuple):
            n = a[1]
        if n in self.mod.funcs or n in self.mod.decls:
            return FnPtr(n)
        return Ptr(self.global_block(st, n), g.off)

    def check_access(self, st, p, n, what):
        if isinstance(p, Poison):
            raise Unsupported('use of ' + p.why)
        if not isinstance(p, Ptr):
            raise Unsupported('%s through %r' % (what, p))
        if p.b == 0:
            return 'null pointer ' + what
        blk = st.mem.get(p.b)
        if blk is None:
            return 'dangling pointer ' + what
        if p.o < 0 or p.o + n > blk.size:
            return 'out-of-bounds ' + what
        return None

    def fail_path(self, st, label):
        """path that must be unreachable: obligation false, path ends"""
        self.oblige(st, 'SAFE', label, False)
        raise PathEnd()

    def load_raw(self, st, p, w):
        """w-byte load: scalar value, UNINIT or Pieces"""
        if isinstance(p, PtrIte):
            a, b = self.load_raw(st, p.a, w), self.load_raw(st, p.b, w)
            return self.ite_val(p.c, a, b, w)
        if isinstance(p, SeqPtr):
            return self.seq_load(st, p, w)
        err = self.check_access(st, p, w, 'read')
        if err:
            self.fail_path(st, err)
        cells = st.mem[p.b].cells
        c = cells.get(p.o)
        if c is not None and c[0] == w:
            return c[1]
        return self.load_mixed(cells, p.o, w)

    def load_mixed(self, cells, off, w):
        ps = []
        o = off
        end = off + w
        # a wider cell starting before
        while o < end:
            c = cells.get(o)
            if c is not None:
                cw, v = c
                if o + cw <= end:
                    ps.append((o - off, cw, v))
                    o += cw
                    continue
                ps.append((o - off, end - o, extract_bytes(v, cw, 0, end - o)))
                o = end
                continue
            hit = None
            for d in range(1, 16):
                c = cells.get(o - d)
                if c is not None:
                    if c[0] > d:
                        hit = (d, c)
                    break
            if hit:
                d, (cw, v) = hit
                n = min(cw - d, end - o)
                ps.append((o - off, n, extract_bytes(v, cw, d, n)))
                o += n
                continue
            # uninitialised byte(s)
            n = 1
            while o + n < end and (o + n) not in cells:
                n += 1
            ps.append((o - off, n, UNINIT))
            o += n
        if len(ps) == 1:
            return ps[0][2]
        return Pieces(w, ps)

    def store_raw(self, st, p, w, v):
        if isinstance(p, PtrIte):
            a, b = self.load_raw(st, p.a, w), self.load_raw(st, p.b, w)
            self.store_raw(st, p.a, w, self.ite_val(p.c, v, a, w))
            # re-read b in case a and b alias
            b = self.load_raw(st, p.b, w)
            self.store_raw(st, p.b, w, self.ite_val(p.c, b, v, w))
            return
        if isinstance(v, Pieces):
            for o, n, x in v.ps:
                self.store_raw(st, self.padd(p, o), n, x)
            return
        if isinstance(p, SeqPtr):
            return self.seq_store(st, p, w, v)
        err = self.check_access(st, p, w, 'write')
        if err:
            self.fail_path(st, err)
        blk = self.wblock(st, p.b)
        if blk.kind == 'const':
            self.fail_path(st, 'write to constant')
        if blk.kind == 'global' and not self.o.get('global_writes_ok') and self.in_ctor is False:
            self.global_writes.add(blk.name)
        cells = blk.cells
        c = cells.get(p.o)
        if c is not None and c[0] == w:
            cells[p.o] = (w, v)
            return
        self.clear_range(cells, p.o, w)
        if v is not UNINIT:
            cells[p.o] = (w, v)

    def clear_range(self, cells, off, w):
        end = off + w
        for d in range(1, 16):
            c = cells.get(off - d)
            if c is not None:
                if c[0] > d:
                    cw, v = c
                    cells[off - d] = (d, extract_bytes(v, cw, 0, d))
                    if off - d + cw > end:
                        n = off - d + cw - end
                        cells[end] = (n, extract_bytes(v, cw, cw - n, n))
                        return
                break
        o = off
        while o < end:
            c = cells.pop(o, None)
            if c is not None:
                cw, v = c
                if o + cw > end:
                    n = o + cw - end
                    cells[end] = (n, extract_bytes(v, cw, cw - n, n))
                o += cw
            else:
                o += 1

    def padd(self, p, n):
        if n == 0:
            return p
        if isinstance(p, Ptr):
            return Ptr(p.b, p.o + n)
        if isinstance(p, SeqPtr):
            return SeqPtr(p.b, p.o, p.i, p.f + n)
        if isinstance(p, PtrIte):
            return PtrIte(p.c, self.padd(p.a, n), self.padd(p.b, n))
        if isinstance(p, Poison):
            return p
        raise Unsupported('pointer arithmetic on %r' % (p,))

    def seq_get(self, st, b, o):
        blk = st.mem.get(b)
        c = blk.cells.get(o) if blk else None
        if c is None or not isinstance(c[1], SeqVal):
            raise Unsupported('sequence expected')
        return c[1]

    def seq_leaf(self, sv, p, w):
        k = sv.lay.by.get(p.f % sv.lay.size if p.f >= 0 else p.f)
        i = p.i
        if p.f >= sv.lay.size or p.f < 0:
            i = iadd(i, (p.f // sv.lay.size) & (2**64 - 1))
        if k is None or sv.lay.leaves[k][2] != w:
            return None, i
        return k, i

    def seq_load(self, st, p, w):
        sv = self.seq_get(st, p.b, p.o)
        k, i = self.seq_leaf(sv, p, w)
        if k is None:
            ps, o = [], 0
            f0 = p.f % sv.lay.size
            base = SeqPtr(p.b, p.o, i, 0)
            cur = f0
            for lo, lt, ls in sv.lay.leaves:
                if lo >= f0 and lo + ls <= f0 + w:
                    if lo > cur:
                        ps.append((cur - f0, lo - cur, UNINIT))
                    ps.append((lo - f0, ls, self.seq_load(st, SeqPtr(p.b, p.o, i, lo), ls)))
                    cur = lo + ls
                elif lo < f0 + w and lo + ls > f0:
                    if lo <= f0 and lo + ls >= f0 + w:
                        return extract_bytes(self.seq_load(st, SeqPtr(p.b, p.o, i, lo), ls), ls, f0 - lo, w)
                    raise Unsupported('partial element access')
            if cur < f0 + w:
                ps.append((cur - f0, f0 + w - cur, UNINIT))
            return Pieces(w, ps)
        return sv.arrs[k].sel(i)

    def seq_store(self, st, p, w, v):
        if v is UNINIT:
            return
        sv = self.seq_get(st, p.b, p.o)
        k, i = self.seq_leaf(sv, p, w)
        if k is None:
            f0 = p.f % sv.lay.size
            done = False
            for lo, lt, ls in sv.lay.leaves:
                if lo >= f0 and lo + ls <= f0 + w:
                    self.seq_store(st, SeqPtr(p.b, p.o, i, lo), ls, extract_bytes(v, w, lo - f0, ls))
                    done = True
            if not done:
                raise Unsupported('partial element store')
            return
        if not isinstance(v, (int, z3.BitVecRef)):
            v = self.scalar(v, w)
        arrs = list(sv.arrs)
        arrs[k] = arrs[k].st(i, v)
        blk = self.wblock(st, p.b)
        blk.cells[p.o] = (8, sv.with_(arrs=tuple(arrs)))

    def scalar(self, v, w):
        """w-byte value as int/BV"""
        if isinstance(v, Pieces):
            r = None
            allc = all(isinstance(x, int) or x is UNINIT for _, _, x in v.ps)
            if allc:
                t = 0
                for o, n, x in v.ps:
                    if x is not UNINIT:
                        t |= int(x) << (8 * o)
                return t
            parts = []
            for o, n, x in reversed(v.ps):
                if x is UNINIT:
                    x = 0          # padding never observed
                parts.append(bv(self.as_bv(x, n), 8 * n))
            return z3.Concat(*parts)
        if v is UNINIT:
            raise Unsupported('uninitialised scalar')
        return self.as_bv(v, w)

    def as_bv(self, v, n):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, z3.BitVecRef)):
            return v
        if isinstance(v, z3.BoolRef):
            return z3.If(v, z3.BitVecVal(1, 8 * n), z3.BitVecVal(0, 8 * n))
        raise Unsupported('scalar from %r' % type(v).__name__)

    def ite_val(self, c, a, b, w):
        if veq(a, b):
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.ite_val(c, x, y, None) for x, y in zip(a, b))
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
            return z3.If(c, ZB(a), ZB(b))
        if isinstance(a, (int, z3.BitVecRef)) and isinstance(b, (int, z3.BitVecRef)):
            bits = a.size() if not isinstance(a, int) else b.size() if not isinstance(b, int) else (8 * w if w else None)
            if bits is None:
                raise CantMerge()
            return z3.If(c, bv(a, bits), bv(b, bits))
        pt = (Ptr, SeqPtr, PtrIte, FnPtr)
        if isinstance(a, pt) and isinstance(b, pt):
            if isinstance(a, SeqPtr) and isinstance(b, SeqPtr) and a.same_slot(b):
                return SeqPtr(a.b, a.o, z3.If(c, bv(a.i, 64), bv(b.i, 64)), a.f)
            return PtrIte(c, a, b)
        if isinstance(a, Pieces) or isinstance(b, Pieces):
            if isinstance(a, Pieces) and isinstance(b, Pieces) and [(o, n) for o, n, _ in a.ps] == [(o, n) for o, n, _ in b.ps]:
                return Pieces(a.w, [(o, n, self.ite_val(c, x, y, n)) for (o, n, x), (_, _, y) in zip(a.ps, b.ps)])
            return self.ite_val(c, self.scalar(a, w), self.scalar(b, w), w)
        if a is UNINIT:
            return b
        if b is UNINIT:
            return a
        raise CantMerge()

    # ------------------------------------------------------------ obligations
    def where(self, st):
        r = []
        for f in st.frames[-6:]:
            r.append(f.f.name)
        return r

    def oblige(self, st, tag, label, goal):
        """record pc |= goal, then assume it"""
        if goal is True:
            if not self.mute:
                self.obs.append(Oblig(tag, label, self.where(st), None, True, None))
            return
        if not self.mute:
            self.obs.append(Oblig(tag, label, self.where(st), list(st.pc), goal, list(st.tape)))

    def assume(self, st, c):
        if c is True:
            return
        if c is False:
            raise PathEnd()
        if z3.is_and(c):
            for x in c.children():
                self.assume(st, x)
            return
        if z3.is_true(c):
            return
        st.pc.append(c)

    def oblige_assume(self, st, tag, label, goal):
        self.oblige(st, tag, label, goal)
        if goal is False:
            raise PathEnd()
        self.assume(st, goal)

    # ------------------------------------------------------------ operands
    def val(self, st, fr, x, ty):
        if isinstance(x, Reg):
            return fr.regs[x.n]
        if isinstance(x, GRef):
            return self.gref(st, x)
        if x is ZERO:
            if ty.k == 'p':
                return NULL
            if ty.k == 'vec':
                return tuple([0] * ty.n)
            if ty.k == 'i' and ty.n == 1:
                return False
            if ty.k in ('i', 'f'):
                return 0
            if ty.k == 's':
                return tuple(self.val(st, fr, ZERO, e) for e in ty.elems)
            if ty.k == 'a':
                return tuple(self.val(st, fr, ZERO, ty.t) for _ in range(ty.n))
        if x is UNDEF:
            if ty.k == 'vec':
                return tuple([UNINIT] * ty.n)
            if ty.k == 's':
                return tuple(self.val(st, fr, UNDEF, e) for e in ty.elems)
            return UNINIT
        if isinstance(x, ConstAgg):
            sub = ty.elems if ty.k == 's' else [ty.t] * ty.n
            return tuple(self.val(st, fr, v, t) for v, t in zip(x.vals, sub))
        if ty.k == 'i' and ty.n == 1:
            return bool(x)
        return x

    def num(self, st, v, ty):
        """materialise a numeric operand"""
        if isinstance(v, (int, z3.ExprRef)):
            return v
        if v is UNINIT:
            self.oblige(st, 'SAFE', 'use of uninitialised value', False)
            raise PathEnd()
        if isinstance(v, Pieces):
            return self.scalar(v, v.w)
        if isinstance(v, Poison):
            raise Unsupported('use of ' + v.why)
        return v

    # ------------------------------------------------------------ running
    def call_function(self, st, name, args):
        """push a frame for a defined function"""
        f = self.mod.funcs[name]
        fr = Frame(f)
        for (t, n, a), v in zip(f.params, args):
            fr.regs[n] = v
        st.frames.append(fr)
        c = self.stats['funcs']
        c[name] = c.get(name, 0) + 1
        if len(st.frames) > 200:
            raise Unsupported('recursion')
        return fr

    def transitive_branch(self, name, seen=None):
        if name in self.tbranch:
            return self.tbranch[name]
        f = self.mod.funcs.get(name)
        if f is None:
            return False
        if f.has_branch:
            self.tbranch[name] = True
            return True
        seen = seen or set()
        if name in seen:
            return False
        seen.add(name)
        r = False
        for ins in (i for b in f.blocks.values() for i in b):
            if ins.op == 'call':
                if not isinstance(ins.x, GRef) or ins.x.n.startswith('__vc_'):
                    if not isinstance(ins.x, GRef):
                        r = True
                        break
                    continue
                if self.transitive_branch(ins.x.n, seen):
                    r = True
                    break
        self.tbranch[name] = r
        return r

    def explore(self, st, depth, loop):
        return self.explore_events([('run', st, None)], depth, loop)

    def explore_events(self, work, depth, loop):
        out = []
        work = list(work)
        while work:
            tag, s, tgt = work.pop()
            if time.time() - self.t0 > self.o['wall']:
                raise Budget('time budget of the executor exhausted')
            try:
                if tag == 'goto':
                    fr = s.frames[-1]
                    if loop is not None and len(s.frames) == depth:
                        if tgt == loop.h:
                            out.append(('back', s, tgt))
                            continue
                        if tgt not in loop.body:
                            out.append(('exit', s, tgt))
                            continue
                    if tgt in fr.f.loops:
                        work.extend(self.handle_loop(s, tgt))
                        continue
                    fr.blk, fr.ip = tgt, 0
                    tag = 'run'
                if len(s.frames) < depth:
                    out.append(('ret', s, None))
                    continue
                work.extend(self.advance(s))
            except PathEnd:
                continue
        return out

    def run_harness(self, name):
        st = State()
        self.in_ctor = True
        self.global_writes = set()
        for _, c in sorted(self.mod.ctors):
            self.call_function(st, c, [])
            res = self.explore(st, 1, None)
            if len(res) != 1:
                raise Unsupported('static initialisation forks')
            st = res[0][1]
        self.in_ctor = False
        # contents of globals after static initialisation are the base
        self.call_function(st, name, [])
        res = self.explore(st, 1, None)
        return [s for _, s, _ in res]

    # one path until fork / event
    def advance(self, st):
        fr = st.frames[-1]
        while True:
            self.nsteps += 1
            if self.nsteps > self.o['max_steps']:
                raise Budget('instruction budget of the executor exhausted')
            ins = fr.f.blocks[fr.blk][fr.ip]
            fr.ip += 1
            fr.line = ins.line
            op = ins.op
            if op == 'load':
                fr.regs[ins.res] = self.do_load(st, self.val(st, fr, ins.args[0], self.mod.PTR), ins.ty)
            elif op == 'store':
                v = self.val(st, fr, ins.args[0], ins.ty)
                self.do_store(st, self.val(st, fr, ins.args[1], self.mod.PTR), ins.ty, v)
            elif op == 'alloca':
                b = self.new_block(st, self.mod.size(ins.ty), 'stack', None, ins.ty)
                fr.allocas.append(b)
                fr.regs[ins.res] = Ptr(b, 0)
            elif op == 'getelementptr':
                fr.regs[ins.res] = self.do_gep(st, fr, ins)
            elif op == 'call':
                r = self.do_call(st, fr, ins)
                if r is not None:
                    return r
                if st.frames[-1] is not fr:
                    fr = st.frames[-1]
            elif op == 'br':
                fr.prev = fr.blk
                if len(ins.x) == 1:
                    t = ins.x[0]
                    if t in fr.f.loops or True:
                        return [('goto', st, t)]
                c = self.num(st, self.val(st, fr, ins.args[0], self.mod.ity(1)), None)
                return self.do_branch(st, fr, c, ins.x[0], ins.x[1])
            elif op == 'ret':
                v = self.val(st, fr, ins.args[0], ins.ty) if ins.args else None
                for b in fr.allocas:
                    st.mem.pop(b, None)
                st.frames.pop()
                if not st.frames:
                    st.retval = v
                    return [('run', st, None)]
                up = st.frames[-1]
                if fr.res is not None:
                    up.regs[fr.res] = v
                st.retval = v
                return [('run', st, None)]
            elif op == 'unreachable':
                self.fail_path(st, 'unreachable code reached')
            elif op == 'switch':
                return self.do_switch(st, fr, ins)
            elif op == 'phi':
                for v, l in ins.x:
                    if l == fr.prev:
                        fr.regs[ins.res] = self.val(st, fr, v, ins.ty)
                        break
                else:
                    raise Unsupported('phi')
            else:
                fr.regs[ins.res] = self.do_op(st, fr, ins)

    def do_branch(self, st, fr, c, t, f):
        if isinstance(c, z3.BoolRef):
            cs = z3.simplify(c)
            if z3.is_true(cs):
                c = True
            elif z3.is_false(cs):
                c = False
        if isinstance(c, (bool, int)):
            return [('goto', st, t if c else f)]
        ft = self.feasible(st, c)
        ff = self.feasible(st, NOT(c)) if ft else True
        if ft and ff:
            self.stats['forks'] += 1
            s2 = st.fork()
            n0 = len(st.pc)
            self.assume(st, c)
            self.assume(s2, NOT(c))
            ev = [('goto', s2, f), ('goto', st, t)]
            j = self.join_of(fr.f, fr.blk) if self.o.get('join') and not fr.f.name.startswith('h_') else None
            return ev if j is None else self.joined(ev, j, len(st.frames), n0)
        if ft:
            self.assume(st, c)
            return [('goto', st, t)]
        self.assume(st, NOT(c))
        return [('goto', st, f)]

    # Join of the two sides of a branch: both are executed up to the block where
    # they meet again, and the states there are merged where possible.
    def join_of(self, f, blk):
        if getattr(f, 'joins', None) is None:
            f.joins = self.joins(f)
        return f.joins.get(blk)

    def joins(self, f):
        succ = {}
        for b, l in f.blocks.items():
            t = l[-1]
            succ[b] = list(dict.fromkeys(t.x)) if t.op == 'br' else [t.x[0]] + [l2 for _, l2 in t.x[1]] if t.op == 'switch' else []
        dead = {b for b, l in f.blocks.items() if l[-1].op == 'unreachable'}
        every = set(f.blocks)
        pd = {b: ({b} if not succ[b] and b not in dead else set(every)) for b in f.blocks}
        ch = True
        while ch:
            ch = False
            for b in f.blocks:
                if succ[b]:
                    n = set.intersection(*[pd[x] for x in succ[b]]) | {b}
                    if n != pd[b]:
                        pd[b] = n
                        ch = True
        out = {}
        for b in f.blocks:
            if len(succ[b]) != 2:
                continue
            c = pd[b] - {b}
            if not c or len(c) >= len(every) - 1:
                continue
            # the nearest: the one that all others post-dominate
            p = [x for x in c if len(pd[x] & c) == len(c)]
            if len(p) != 1 or p[0] in f.loops:
                continue
            p = p[0]
            body, w = set(), list(succ[b])
            while w:
                x = w.pop()
                if x == p or x in body:
                    continue
                body.add(x)
                w.extend(succ[x])
            if b not in body and len(body) <= 40:
                out[b] = (p, body)
        return out

    def joined(self, ev, j, depth, n0):
        p, body = j
        lp = Loop.__new__(Loop)
        lp.f, lp.h, lp.body, lp.depth, lp.mode = None, None, body, depth, 'join'
        at, out = [], []
        for e in self.explore_events(ev, depth, lp):
            kd, s, tgt = e
            if kd == 'exit' and tgt == p:
                at.append(s)
            elif kd == 'exit':
                out.append(('goto', s, tgt))
            else:
                out.append(('run', s, None))
        ty = {}
        for s in at:
            fr = s.frames[-1]
            blk = fr.f.blocks[p]
            vals = []
            i = 0
            while blk[i].op == 'phi':
                for v, l in blk[i].x:
                    if l == fr.prev:
                        vals.append((blk[i].res, self.val(s, fr, v, blk[i].ty)))
                        ty[blk[i].res] = blk[i].ty
                        break
                else:
                    raise Unsupported('phi')
                i += 1
            for r, v in vals:
                fr.regs[r] = v
            fr.blk, fr.ip, fr.prev = p, i, p
        if len(at) > 1:
            at = self.merge_states(at, n0, JoinIns(ty))
        return out + [('run', s, None) for s in at]

    def do_switch(self, st, fr, ins):
        v = self.num(st, self.val(st, fr, ins.args[0], ins.ty), ins.ty)
        fr.prev = fr.blk
        d, cases = ins.x
        if isinstance(v, int):
            for c, l in cases:
                if c == v:
                    return [('goto', st, l)]
            return [('goto', st, d)]
        out = []
        negs = []
        tgt = {}
        for c, l in cases:
            tgt.setdefault(l, []).append(v == c)
            negs.append(v != c)
        opts = [(OR(*cs), l) for l, cs in tgt.items()] + [(AND(*negs), d)]
        opts = [(c, l) for c, l in opts if self.feasible(st, c)]
        for i, (c, l) in enumerate(opts):
            s = st if i == len(opts) - 1 else st.fork()
            self.assume(s, c)
            out.append(('goto', s, l))
        return out

    def do_load(self, st, p, ty):
        if ty.k == 'vec':
            s = self.mod.size(ty.t)
            return tuple(self.load_scalar(st, self.padd(p, i * s), ty.t) for i in range(ty.n))
        if ty.k == 's':
            return tuple(self.do_load(st, self.padd(p, o), e) for o, e in zip(self.mod.offsets(ty), ty.elems))
        if ty.k == 'a':
            s = self.mod.size(ty.t)
            return tuple(self.do_load(st, self.padd(p, i * s), ty.t) for i in range(ty.n))
        return self.load_scalar(st, p, ty)

    def load_scalar(self, st, p, ty):
        v = self.load_raw(st, p, self.mod.size(ty))
        if v is UNINIT or isinstance(v, Pieces):
            return v
        if ty.k == 'p':
            if isinstance(v, int):
                if v == 0:
                    return NULL
                raise Unsupported('integer as pointer')
            return v
        if ty.k == 'i' and ty.n == 1:
            if isinstance(v, int):
                return bool(v & 1)
            if isinstance(v, z3.BoolRef):
                return v
            return z3.Extract(0, 0, v) == 1
        if isinstance(v, (Ptr, SeqPtr, FnPtr)) and v == NULL:
            return 0
        return v

    def do_store(self, st, p, ty, v):
        if ty.k == 'vec':
            s = self.mod.size(ty.t)
            for i in range(ty.n):
                self.store_raw(st, self.padd(p, i * s), s, v[i])
            return
        if ty.k == 's':
            for i, (o, e) in enumerate(zip(self.mod.offsets(ty), ty.elems)):
                self.do_store(st, self.padd(p, o), e, v[i])
            return
        if ty.k == 'a':
            s = self.mod.size(ty.t)
            for i in range(ty.n):
                self.do_store(st, self.padd(p, i * s), ty.t, v[i])
            return
        if ty.k == 'i' and ty.n == 1 and isinstance(v, (bool, z3.BoolRef)):
            v = self.as_bv(v, 1)
        self.store_raw(st, p, self.mod.size(ty), v)

    def do_gep(self, st, fr, ins):
        p = self.val(st, fr, ins.args[0], self.mod.PTR)
        cur = ins.ty
        off = 0
        for k, (it, iv) in enumerate(ins.x):
            i = self.val(st, fr, iv, it)
            if k > 0 and cur.k == 's':
                off += self.mod.offsets(cur)[i]
                cur = cur.elems[i]
                continue
            if k > 0:
                cur = cur.t
            sz = self.mod.size(cur)
            i = self.num(st, i, it)
            if not isinstance(i, int):
                i = unz(z3.simplify(i))
            if isinstance(i, int):
                if i >> (it.n - 1):
                    i -= 1 << it.n
                off += i * sz
            else:
                return self.sym_gep(st, self.padd(p, off), i, it, sz)
        return self.padd(p, off)

    def sym_gep(self, st, p, i, it, sz):
        """symbolic array index: into a sequence, or case split over a fixed-size block"""
        if isinstance(p, SeqPtr):
            sv = self.seq_get(st, p.b, p.o)
            if sv.lay.size == sz:
                ii = z3.SignExt(64 - it.n, i) if it.n < 64 else i
                return SeqPtr(p.b, p.o, iadd(p.i, ii), p.f)
        if isinstance(p, Ptr) and p.b in st.mem:
            n = (st.mem[p.b].size - p.o) // sz
            if 0 < n <= 64:
                w = it.n
                self.oblige_assume(st, 'SAFE', 'array index out of bounds', z3.ULT(i, z3.BitVecVal(n, w)))
                r = Ptr(p.b, p.o + (n - 1) * sz)
                for k in range(n - 2, -1, -1):
                    r = PtrIte(i == k, Ptr(p.b, p.o + k * sz), r)
                return r
        raise Unsupported('symbolic index into %r' % (p,))

    # ------------------------------------------------------------ operations
    def do_op(self, st, fr, ins):
        op = ins.op
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            t = ins.ty
            a = self.val(st, fr, ins.args[0], t)
            b = self.val(st, fr, ins.args[1], t)
            if t.k == 'vec':
                return tuple(fp.arith(op[1:], self.num(st, x, None), self.num(st, y, None), t.t.n) for x, y in zip(a, b))
            return fp.arith(op[1:], self.num(st, a, t), self.num(st, b, t), t.n)
        if op == 'fneg':
            return fp.neg(self.num(st, self.val(st, fr, ins.args[0], ins.ty), None), ins.ty.n)
        if op == 'fcmp':
            a = self.num(st, self.val(st, fr, ins.args[0], ins.ty), None)
            b = self.num(st, self.val(st, fr, ins.args[1], ins.ty), None)
            return fp.fcmp(ins.x, a, b, ins.ty.n)
        if op == 'icmp':
            return self.do_icmp(st, ins.x, self.val(st, fr, ins.args[0], ins.ty), self.val(st, fr, ins.args[1], ins.ty), ins.ty)
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            return self.do_bin(st, op, self.val(st, fr, ins.args[0], ins.ty), self.val(st, fr, ins.args[1], ins.ty), ins.ty, ins.x)
        if op in ('sext', 'zext', 'trunc'):
            return self.do_cast(st, op, self.num(st, self.val(st, fr, ins.args[0], ins.x), None), ins.x.n, ins.ty.n)
        if op == 'fpext':
            return fp.fext(self.num(st, self.val(st, fr, ins.args[0], ins.x), None))
        if op == 'fptrunc':
            return fp.ftrunc(self.num(st, self.val(st, fr, ins.args[0], ins.x), None))
        if op in ('sitofp', 'uitofp'):
            v = self.num(st, self.val(st, fr, ins.args[0], ins.x), None)
            if ins.x.n == 1:
                v = self.do_cast(st, 'zext', v, 1, 32)
                return fp.itof(v, 32, ins.ty.n, False)
            return fp.itof(v, ins.x.n, ins.ty.n, op == 'sitofp')
        if op in ('fptosi', 'fptoui'):
            v = self.num(st, self.val(st, fr, ins.args[0], ins.x), None)
            r, rng = fp.ftoi(v, ins.x.n, ins.ty.n, op == 'fptosi')
            self.oblige_assume(st, 'SAFE', 'float to integer conversion in range', rng)
            return r
        if op == 'select':
            c = self.num(st, self.val(st, fr, ins.args[0], self.mod.ity(1)), None)
            a, b = self.val(st, fr, ins.args[1], ins.ty), self.val(st, fr, ins.args[2], ins.ty)
            if isinstance(c, (bool, int)):
                return a if c else b
            return self.ite_val(c, a, b, self.mod.size(ins.ty))
        if op == 'extractvalue':
            v = self.val(st, fr, ins.args[0], ins.ty)
            for i in ins.x:
                v = v[i]
            return v
        if op == 'insertvalue':
            v = self.val(st, fr, ins.args[0], ins.ty)

            def put(v, ix, x):
                l = list(v)
                l[ix[0]] = x if len(ix) == 1 else put(v[ix[0]], ix[1:], x)
                return tuple(l)
            t2 = ins.ty
            for i in ins.x:
                t2 = t2.elems[i] if t2.k == 's' else t2.t
            return put(v, ins.x, self.val(st, fr, ins.args[1], t2))
        if op == 'extractelement':
            v = self.val(st, fr, ins.args[0], ins.ty)
            return v[self.val(st, fr, ins.args[1], self.mod.ity(32))]
        if op == 'insertelement':
            v = list(self.val(st, fr, ins.args[0], ins.ty))
            v[self.val(st, fr, ins.args[2], self.mod.ity(32))] = self.val(st, fr, ins.args[1], ins.ty.t)
            return tuple(v)
        if op == 'ptrtoint':
            p = self.val(st, fr, ins.args[0], ins.x)
            if p == NULL:
                return 0
            return p
        if op == 'inttoptr':
            return self.val(st, fr, ins.args[0], ins.x)
        if op == 'bitcast':
            v = self.val(st, fr, ins.args[0], ins.x)
            if ins.x.k == 'vec' and ins.ty.k in ('i', 'f'):
                s = self.mod.size(ins.x.t)
                return Pieces(s * ins.x.n, [(i * s, s, e) for i, e in enumerate(v)])
            if ins.ty.k == 'vec' and ins.x.k in ('i', 'f'):
                s = self.mod.size(ins.ty.t)
                if isinstance(v, Pieces) and [n for _, n, _ in v.ps] == [s] * ins.ty.n:
                    return tuple(x for _, _, x in v.ps)
                v = self.num(st, v, None)
                return tuple(extract_bytes(v, s * ins.ty.n, i * s, s) for i in range(ins.ty.n))
            return v
        if op == 'freeze':
            return self.val(st, fr, ins.args[0], ins.ty)
        raise Unsupported('instruction ' + op)

    def do_cast(self, st, op, v, wi, wo):
        if wi == 1:
            if isinstance(v, (bool, int)):
                return int(v) if op == 'zext' else ((1 << wo) - 1 if v else 0)
            one = 1 if op == 'zext' else (1 << wo) - 1
            return z3.If(v, z3.BitVecVal(one, wo), z3.BitVecVal(0, wo))
        if op == 'zext':
            return v if isinstance(v, int) else z3.ZeroExt(wo - wi, v)
        if op == 'sext':
            if isinstance(v, int):
                return v | (((1 << (wo - wi)) - 1) << wi) if v >> (wi - 1) else v
            return z3.SignExt(wo - wi, v)
        if wo == 1:
            if isinstance(v, int):
                return bool(v & 1)
            # bool stored as i8: recognise ite(c,1,0)
            if z3.is_app_of(v, z3.Z3_OP_ITE) and z3.is_bv_value(v.arg(1)) and z3.is_bv_value(v.arg(2)):
                x, y = v.arg(1).as_long() & 1, v.arg(2).as_long() & 1
                if x == 1 and y == 0:
                    return v.arg(0)
                if x == 0 and y == 1:
                    return NOT(v.arg(0))
            return z3.Extract(0, 0, v) == 1
        if isinstance(v, int):
            return v & ((1 << wo) - 1)
        return unz(z3.simplify(z3.Extract(wo - 1, 0, v)))

    def do_bin(self, st, op, a, b, ty, fl):
        w = ty.n
        if isinstance(a, (Ptr, SeqPtr)) or isinstance(b, (Ptr, SeqPtr)):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.b == b.b:
                return (a.o - b.o) & (2**64 - 1)
            if op == 'sub' and isinstance(a, SeqPtr) and isinstance(b, SeqPtr) and a.b == b.b and a.o == b.o:
                sz = self.seq_get(st, a.b, a.o).lay.size
                d = isub(a.i, b.i)
                return (d * sz) & (2**64 - 1) if isinstance(d, int) else d * sz
            raise Unsupported('integer arithmetic on pointers')
        a, b = self.num(st, a, ty), self.num(st, b, ty)
        if w == 1:
            if op == 'xor':
                if isinstance(b, bool):
                    return NOT(a) if b else a
                if isinstance(a, bool):
                    return NOT(b) if a else b
                return z3.Xor(a, b)
            if op == 'and':
                return AND(a, b)
            if op == 'or':
                return OR(a, b)
            raise Unsupported('i1 ' + op)
        M = (1 << w) - 1

        def sg(x):
            return x - (1 << w) if x >> (w - 1) else x
        if isinstance(a, int) and isinstance(b, int):
            if op in ('add', 'sub', 'mul'):
                f = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y}[op]
                if 'nsw' in fl and not (-(1 << (w - 1)) <= f(sg(a), sg(b)) < (1 << (w - 1))):
                    self.fail_path(st, 'signed integer overflow')
                return f(a, b) & M
            if op in ('udiv', 'sdiv', 'urem', 'srem') and b == 0:
                self.fail_path(st, 'integer division by zero')
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            if op in ('sdiv', 'srem'):
                x, y = sg(a), sg(b)
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return (q if op == 'sdiv' else x - q * y) & M
            return {'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b, 'shl': lambda: (a << b) & M,
                    'lshr': lambda: a >> b, 'ashr': lambda: (sg(a) >> b) & M}[op]()
        A, B = bv(a, w), bv(b, w)
        if op in ('add', 'sub', 'mul'):
            if 'nsw' in fl:
                if op == 'add':
                    ok = AND(z3.BVAddNoOverflow(A, B, True), z3.BVAddNoUnderflow(A, B))
                elif op == 'sub':
                    ok = AND(z3.BVSubNoOverflow(A, B), z3.BVSubNoUnderflow(A, B, True))
                else:
                    ok = AND(z3.BVMulNoOverflow(A, B, True), z3.BVMulNoUnderflow(A, B))
                oks = z3.simplify(ok)
                if not z3.is_true(oks):
                    self.oblige_assume(st, 'SAFE', 'signed integer overflow', ok)
            r = {'add': lambda: A + B, 'sub': lambda: A - B, 'mul': lambda: A * B}[op]()
            return unz(z3.simplify(r))
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            self.oblige_assume(st, 'SAFE', 'integer division by zero', B != 0)
        return {'udiv': lambda: z3.UDiv(A, B), 'urem': lambda: z3.URem(A, B), 'sdiv': lambda: A / B, 'srem': lambda: z3.SRem(A, B),
                'and': lambda: A & B, 'or': lambda: A | B, 'xor': lambda: A ^ B, 'shl': lambda: A << B,
                'lshr': lambda: z3.LShR(A, B), 'ashr': lambda: A >> B}[op]()

    def do_icmp(self, st, pred, a, b, ty):
        if ty.k == 'p' or isinstance(a, (Ptr, SeqPtr, FnPtr, PtrIte)) or isinstance(b, (Ptr, SeqPtr, FnPtr, PtrIte)):
            return self.ptr_cmp(st, pred, a, b)
        a, b = self.num(st, a, ty), self.num(st, b, ty)
        w = ty.n
        if w == 1:
            if pred in ('eq', 'ne'):
                r = (a == b) if isinstance(a, (bool, int)) and isinstance(b, (bool, int)) else ZB(a) == ZB(b)
                return r if pred == 'eq' else NOT(r)
            raise Unsupported('icmp i1 ' + pred)
        if isinstance(a, int) and isinstance(b, int):
            def sg(x):
                return x - (1 << w) if x >> (w - 1) else x
            if pred[0] == 's':
                a, b = sg(a), sg(b)
            p = pred[-2:]
            return {'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[p]
        A, B = bv(a, w), bv(b, w)
        r = {'eq': lambda: A == B, 'ne': lambda: A != B, 'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B), 'ult': lambda: z3.ULT(A, B),
             'ule': lambda: z3.ULE(A, B), 'sgt': lambda: A > B, 'sge': lambda: A >= B, 'slt': lambda: A < B, 'sle': lambda: A <= B}[pred]()
        s = z3.simplify(r)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return r

    def ptr_cmp(self, st, pred, a, b):
        if isinstance(a, PtrIte):
            return OR(AND(a.c, self.ptr_cmp(st, pred, a.a, b)), AND(NOT(a.c), self.ptr_cmp(st, pred, a.b, b)))
        if isinstance(b, PtrIte):
            return OR(AND(b.c, self.ptr_cmp(st, pred, a, b.a)), AND(NOT(b.c), self.ptr_cmp(st, pred, a, b.b)))
        for x in (a, b):
            if isinstance(x, Poison):
                raise Unsupported('use of ' + x.why)
            if x is UNINIT:
                self.fail_path(st, 'use of uninitialised pointer')
        if isinstance(a, int) and a == 0:
            a = NULL
        if isinstance(b, int) and b == 0:
            b = NULL
        if isinstance(a, SeqPtr) and isinstance(b, SeqPtr) and a.b == b.b and a.o == b.o and a.f == b.f:
            A, B = bv(a.i, 64), bv(b.i, 64)
            return {'eq': lambda: A == B, 'ne': lambda: A != B, 'ult': lambda: A < B, 'ule': lambda: A <= B, 'ugt': lambda: A > B, 'uge': lambda: A >= B}[pred]()
        if pred in ('eq', 'ne'):
            r = a == b
            return r if pred == 'eq' else not r
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.b == b.b:
            return {'ult': a.o < b.o, 'ule': a.o <= b.o, 'ugt': a.o > b.o, 'uge': a.o >= b.o}[pred]
        raise Unsupported('pointer comparison')

    # ------------------------------------------------------------ calls
    def do_call(self, st, fr, ins):
        callee = ins.x
        if isinstance(callee, GRef):
            name = callee.n
            a = self.mod.globals.get(name)
            if isinstance(a, tuple):
                name = a[1]
        else:
            v = self.val(st, fr, callee, self.mod.PTR)
            if isinstance(v, PtrIte):
                raise Unsupported('merged function pointer')
            if not isinstance(v, FnPtr):
                if v == NULL or v is UNINIT:
                    self.fail_path(st, 'call through null/uninitialised pointer')
                raise Unsupported('indirect call through %r' % (v,))
            name = v.n
        args = []
        for t, x, a in ins.args:
            v = self.val(st, fr, x, t)
            if 'byval' in a:
                bt = a['byval']
                b = self.new_block(st, self.mod.size(bt), 'stack', None, bt)
                fr.allocas.append(b)
                self.memcpy(st, Ptr(b, 0), v, self.mod.size(bt))
                v = Ptr(b, 0)
            args.append(v)
        if name in self.replace and not self.in_replace_of(st, name):
            rn = self.replace[name]
            self.stats['replaced'][name] = self.stats['replaced'].get(name, 0) + 1
            name = rn
        if name in self.mod.funcs and not name.startswith('__vc_'):
            r = self.pure_call(st, name, args)
            if r is not None:
                if ins.res is not None:
                    fr.regs[ins.res] = r
                return None
            nf = self.call_function(st, name, args)
            nf.res = ins.res
            if self.o['merge'] and self.transitive_branch(name):
                d = len(st.frames)
                n0 = len(st.pc)
                tape0 = len(st.tape)
                base = st.pc[-1] if st.pc else None
                res = self.explore(st, d, None)
                states = [s for _, s, _ in res]
                if len(states) > 1:
                    states = self.merge_states(states, n0, ins)
                return [('run', s, None) for s in states]
            return [('run', st, None)] if False else None
        r = self.intrinsic(st, fr, ins, name, args)
        if isinstance(r, Forked):
            return r.states
        if ins.res is not None:
            fr.regs[ins.res] = r
        return None

    # A function of scalars only, whose loops are controlled by floating-point
    # comparisons, is verified once for arbitrary arguments; its callers see the
    # resulting contract (one clause per path) as the definition of a function
    # symbol.
    def pure_call(self, st, name, args):
        s = self.pure.get(name)
        if s is None:
            s = self.pure[name] = self.pure_summary(name)
        if s is False:
            return None
        xs = []
        for (t, n, _), v in zip(self.mod.funcs[name].params, args):
            if t.k == 'p':
                continue
            v = self.num(st, v, t)
            xs.append(bv(v, t.n))
        return fp.PURE[s][0](*xs)

    def pure_summary(self, name):
        f = self.mod.funcs[name]
        if not (f.loops or 'VcPure' in name or name in self.force_pure) or f.ret.k not in ('i', 'f') or f.ret.n == 1:
            return False
        if any(t.k not in ('i', 'f', 'p') or t.k == 'i' and t.n == 1 for t, _, _ in f.params) or not any(t.k != 'p' for t, _, _ in f.params):
            return False
        for h in f.loops:
            if not self.soft_candidate(Loop(f, h, 1, 'unroll')):
                return False
        st = State()
        xs, args = [], []
        for t, n, _ in f.params:
            if t.k == 'p':
                args.append(Poison('pointer argument of a summarised function'))
            else:
                v = fresh('pa', t.n)
                xs.append(v)
                args.append(v)
                st.tape.append(('pure', v))
        nobs, gw = len(self.obs), set(self.global_writes)
        sv, self.solver, self.spc = (self.solver, self.spc), None, []
        try:
            self.call_function(st, name, args)
            res = self.explore(st, 1, None)
            cl = []
            for _, s, _ in res:
                r = s.retval
                if isinstance(r, int):
                    r = bv(r, f.ret.n)
                if not isinstance(r, z3.ExprRef):
                    raise Unsupported('summary result')
                cl.append((list(s.pc), r))
            if self.global_writes != gw or any(o.tag not in ('SAFE', 'TERM') for o in self.obs[nobs:]):
                raise Unsupported('summary has effects')
        except Unsupported:
            del self.obs[nobs:]
            return False
        finally:
            self.solver, self.spc = sv
        for k, (d, ys, cl2) in fp.PURE.items():
            if d.range().size() == f.ret.n and [y.size() for y in ys] == [x.size() for x in xs]:
                # functionally equal to an already summarised function?
                sub = list(zip(xs, ys))
                w = f.ret.n
                import solve
                if all(solve.contradiction([z3.substitute(c, *sub) for c in pc] + pc2 + [ZB(NOT(fp.same(z3.substitute(r, *sub), r2, w)))], 4000)
                       for pc, r in cl for pc2, r2 in cl2):
                    self.stats['summaries'][name] = 'equal to ' + k
                    return k
        k = 'pure!' + name
        d = z3.Function(k, *[x.sort() for x in xs], z3.BitVecSort(f.ret.n))
        fp.PURE[k] = (d, xs, cl)
        fp.PURE_FACTS[k] = self.pure_facts(xs, cl, f.ret.n) if f.ret.k == 'f' and len(xs) == 1 and xs[0].size() == f.ret.n else []
        self.stats['summary_facts'] = {name: [n for n, _, _ in fp.PURE_FACTS[k]]}
        self.stats['summaries'][name] = len(cl)
        return k

    def pure_facts(self, xs, cl, w):
        """contract clauses over the result alone, each verified against every path"""
        import solve
        r = fresh('pr', w)
        ks = set()
        for pc, v in cl:
            for c in fp.constants(pc + [v]):
                ks |= {c, -c}
        ks = sorted(ks)
        nan = fp.isnan(r, w)
        cand = []
        for c in ks:
            up, dn = fp.f2b_dir(c, w)
            cand.append(('result <= %r or NaN' % c, OR(nan, fp._le(r, dn, w))))
            cand.append(('result >= %r or NaN' % c, OR(nan, fp._le(up, r, w))))
        cand.append(('a number for finite arguments', OR(NOT(nan), NOT(fp.isfinite(xs[0], w)))))
        out = []
        for n, c in cand:
            if all(solve.contradiction(pc + [z3.substitute(NOT(c), (r, v))], 4000) for pc, v in cl):
                out.append((n, r, c))
        # keep the tightest bounds
        ups = [x for x in out if '<=' in x[0]][:1]
        dns = [x for x in out if '>=' in x[0]][-1:]
        return ups + dns + [x for x in out if 'finite' in x[0]]

    def in_replace_of(self, st, name):
        rn = self.replace[name]
        return any(f.f.name == rn for f in st.frames)

    # merging of states returned from one call
    def merge_states(self, states, n0, ins):
        cur = states[0]
        out = []
        pend = states[1:]
        groups = []
        for s in states:
            for g in groups:
                try:
                    m = self.try_merge(g[0], s, n0, ins)
                except CantMerge:
                    continue
                g[0] = m
                self.stats['merges'] += 1
                break
            else:
                groups.append([s])
        return [g[0] for g in groups]

    MAXDIFF = 24

    def try_merge(self, a, b, n0, ins):
        if len(a.frames) != len(b.frames) or len(a.tape) != len(b.tape) or a.specs != b.specs:
            raise CantMerge()
        if a.tape and not (a.tape[-1] is b.tape[-1] or veq(a.tape[-1][1], b.tape[-1][1])):
            raise CantMerge()
        if a.invs is not b.invs:
            raise CantMerge()
        for fa, fb in zip(a.frames, b.frames):
            if fa.f is not fb.f or fa.blk != fb.blk or fa.ip != fb.ip or fa.prev != fb.prev:
                raise CantMerge()
        # differing cells
        if a.mem.keys() != b.mem.keys():
            ka, kb = set(a.mem), set(b.mem)
            # blocks that exist only in one state must be dead stack blocks / globals
            for k in ka ^ kb:
                blk = a.mem.get(k) or b.mem.get(k)
                if blk.kind not in ('const', 'global'):
                    raise CantMerge()
        diffs = []
        for k in a.mem:
            x, y = a.mem[k], b.mem.get(k)
            if y is None or x is y:
                continue
            for o in set(x.cells) | set(y.cells):
                cx, cy = x.cells.get(o), y.cells.get(o)
                if cx is cy:
                    continue
                if cx is None or cy is None:
                    # one side uninitialised: accept only for scalars
                    c = cx or cy
                    if isinstance(c[1], SeqVal):
                        raise CantMerge()
                    diffs.append((k, o, c[0], UNINIT if cx is None else cx[1], UNINIT if cy is None else cy[1]))
                    continue
                if cx[0] != cy[0]:
                    raise CantMerge()
                if veq(cx[1], cy[1]):
                    continue
                if isinstance(cx[1], SeqVal) or isinstance(cy[1], SeqVal):
                    raise CantMerge()
                diffs.append((k, o, cx[0], cx[1], cy[1]))
                if len(diffs) > self.MAXDIFF:
                    raise CantMerge()
        # path conditions
        i = n0
        m = min(len(a.pc), len(b.pc))
        while i < m and a.pc[i].eq(b.pc[i]):
            i += 1
        ga, gb = AND(*a.pc[i:]), AND(*b.pc[i:])
        if ga is True or gb is True:
            # one is a superset path; cannot discriminate
            raise CantMerge()
        # discriminate by the first differing branch condition when complementary
        c = a.pc[i]
        if not (b.pc[i].eq(NOT(c)) or NOT(b.pc[i]).eq(c)):
            c = ga
        new = {}
        for k, o, w, va, vb in diffs:
            new[(k, o)] = (w, self.ite_val(c, va, vb, w))
        regs = []
        for d, (fa, fb) in enumerate(zip(a.frames, b.frames)):
            if fa.regs is fb.regs:
                continue
            for n in fa.regs:
                va = fa.regs[n]
                if n not in fb.regs:
                    continue
                vb = fb.regs[n]
                if va is vb or veq(va, vb):
                    continue
                if isinstance(va, (bool, int)) and isinstance(vb, (bool, int)) and not (isinstance(va, bool) and isinstance(vb, bool)):
                    t = ins.types.get(n) if isinstance(ins, JoinIns) else ins.ty
                    if (isinstance(ins, JoinIns) and t is not None or n == ins.res) and t.k in ('i', 'f'):
                        regs.append((d, n, z3.If(c, bv(va, t.n), bv(vb, t.n))))
                        continue
                    raise CantMerge()
                if isinstance(va, tuple) and isinstance(vb, tuple):
                    regs.append((d, n, self.ite_tuple(c, va, vb, ins.ty if n == ins.res else None)))
                    continue
                regs.append((d, n, self.ite_val(c, va, vb, None)))
        for kk in set(a.ghost) | set(b.ghost):
            va, vb = a.ghost.get(kk), b.ghost.get(kk)
            if va is vb:
                continue
            if isinstance(va, tuple) and va == vb:
                continue
            else:
                raise CantMerge()
        # commit into a
        compl = len(a.pc) == i + 1 and len(b.pc) == i + 1 and (b.pc[i].eq(NOT(a.pc[i])) or NOT(b.pc[i]).eq(a.pc[i]))
        del a.pc[i:]
        if not compl:
            a.pc.append(z3.Or(ZB(ga), ZB(gb)))
        for (k, o), (w, v) in new.items():
            blk = self.wblock(a, k)
            if v is UNINIT:
                blk.cells.pop(o, None)
            else:
                blk.cells[o] = (w, v)
        for d, n, v in regs:
            a.frames[d].regs[n] = v
            if d == len(a.frames) - 1 and n == ins.res:
                a.retval = v
        return a

    def ite_tuple(self, c, va, vb, ty):
        r = []
        for i, (x, y) in enumerate(zip(va, vb)):
            if veq(x, y):
                r.append(x)
            elif isinstance(x, int) and isinstance(y, int) and not isinstance(x, bool):
                if ty is None:
                    raise CantMerge()
                t = ty.t if ty.k == 'vec' else ty.elems[i]
                if t.k not in ('i', 'f'):
                    raise CantMerge()
                r.append(z3.If(c, bv(x, t.n), bv(y, t.n)))
            elif isinstance(x, tuple):
                t = None if ty is None else (ty.t if ty.k in ('vec', 'a') else ty.elems[i])
                r.append(self.ite_tuple(c, x, y, t))
            else:
                r.append(self.ite_val(c, x, y, None))
        return tuple(r)

    def memcpy(self, st, d, s, n):
        if n == 0:
            return
        if isinstance(s, PtrIte):
            # copy leaf-wise through temporaries
            tmp = self.new_block(st, n, 'stack')
            a = self.new_block(st, n, 'stack')
            b = self.new_block(st, n, 'stack')
            self.memcpy(st, Ptr(a, 0), s.a, n)
            self.memcpy(st, Ptr(b, 0), s.b, n)
            ca, cb = st.mem[a].cells, st.mem[b].cells
            if {o: c[0] for o, c in ca.items()} != {o: c[0] for o, c in cb.items()}:
                raise Unsupported('merged memcpy with different layouts')
            for o in ca:
                st.mem[tmp].cells[o] = (ca[o][0], self.ite_val(s.c, ca[o][1], cb[o][1], ca[o][0]))
            self.memcpy(st, d, Ptr(tmp, 0), n)
            for x in (tmp, a, b):
                st.mem.pop(x)
            return
        if isinstance(d, PtrIte):
            raise Unsupported('memcpy to merged pointer')
        if isinstance(d, SeqPtr):
            sv = self.seq_get(st, d.b, d.o)
            for lo, lt, ls in sv.lay.leaves:
                if d.f <= lo and lo + ls <= d.f + n:
                    v = self.load_raw(st, self.padd(s, lo - d.f), ls)
                    self.seq_store(st, SeqPtr(d.b, d.o, d.i, lo), ls, v if v is UNINIT or not isinstance(v, Pieces) else self.scalar(v, ls))
            return
        if isinstance(s, SeqPtr):
            sv = self.seq_get(st, s.b, s.o)
            err = self.check_access(st, d, n, 'write')
            if err:
                self.fail_path(st, err)
            blk = self.wblock(st, d.b)
            self.clear_range(blk.cells, d.o, n)
            for lo, lt, ls in sv.lay.leaves:
                if s.f <= lo and lo + ls <= s.f + n:
                    self.store_raw(st, Ptr(d.b, d.o + lo - s.f), ls, self.seq_load(st, SeqPtr(s.b, s.o, s.i, lo), ls))
            return
        for p, what in ((s, 'read'), (d, 'write')):
            err = self.check_access(st, p, n, what)
            if err:
                self.fail_path(st, err)
        src = st.mem[s.b].cells
        got = []
        end = s.o + n
        cand = src if len(src) < 4 * n else None
        offs = sorted(o for o in src if s.o <= o < end) if len(src) <= 4 * n + 64 else [o for o in range(s.o, end) if o in src]
        # a cell that straddles the start
        o = s.o
        for dd in range(1, 16):
            c = src.get(s.o - dd)
            if c is not None:
                if c[0] > dd:
                    k = min(c[0] - dd, n)
                    got.append((0, k, extract_bytes(c[1], c[0], dd, k)))
                break
        for o in offs:
            w, v = src[o]
            if isinstance(v, SeqVal):
                raise Unsupported('memcpy of a sequence object')
            if o + w > end:
                v = extract_bytes(v, w, 0, end - o)
                w = end - o
            got.append((o - s.o, w, v))
        blk = self.wblock(st, d.b)
        if blk.kind == 'const':
            self.fail_path(st, 'write to constant')
        if blk.kind == 'global' and self.in_ctor is False:
            self.global_writes.add(blk.name)
        self.clear_range(blk.cells, d.o, n)
        for o, w, v in got:
            if v is not UNINIT:
                blk.cells[d.o + o] = (w, v)

    # ------------------------------------------------------------ strings
    def cstr(self, st, p):
        if not isinstance(p, Ptr) or p.b not in st.mem:
            return '?'
        cells = st.mem[p.b].cells
        r = []
        o = p.o
        while o in cells and cells[o][1] != 0:
            r.append(chr(cells[o][1]))
            o += 1
        return ''.join(r)

    # ------------------------------------------------------------ intrinsics
    def intrinsic(self, st, fr, ins, name, args):
        h = getattr(self, 'i_' + name.replace('.', '_'), None)
        if h is not None:
            return h(st, fr, ins, args)
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove') or name in ('memcpy', 'memmove'):
            n = self.num(st, args[2], None)
            if not isinstance(n, int):
                raise Unsupported('memcpy of symbolic size')
            self.memcpy(st, args[0], args[1], n)
            return args[0]
        if name.startswith('llvm.memset') or name == 'memset':
            return self.memset(st, args)
        if name.startswith('llvm.'):
            return self.llvm_intrinsic(st, fr, ins, name, args)
        if name in ABORTS or '__throw_' in name:
            self.fail_path(st, 'abort reached: ' + name)
        if name == '_ZSt21__glibcxx_assert_failPKciS0_S0_':
            self.fail_path(st, 'library precondition violated: ' + self.cstr(st, args[3]))
        if name in ('_Znwm', '_Znam', 'malloc'):
            n = self.num(st, args[0], None)
            if not isinstance(n, int):
                raise Unsupported('allocation of symbolic size')
            return Ptr(self.new_block(st, n, 'heap'), 0)
        if name in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free'):
            p = args[0]
            if p == NULL:
                return None
            if not isinstance(p, Ptr):
                raise Unsupported('free of %r' % (p,))
            blk = st.mem.get(p.b)
            if blk is None or blk.kind != 'heap' or p.o != 0:
                self.fail_path(st, 'invalid free')
            st.mem.pop(p.b)
            return None
        if name == 'strlen':
            return len(self.cstr(st, args[0]))
        if name in UNARY_MATH:
            n, w = UNARY_MATH[name]
            self.assumed_ext.add(name)
            a = [bv(self.num(st, x, None), w) for x in args]
            return fp.UF(name, *([w] * n), w)(*a)
        if name in ('ceilf', 'floorf', 'truncf', 'roundf', 'rintf', 'nearbyintf'):
            return fp.rnd(name[:-1], self.num(st, args[0], None), 32)
        if name in ('ceil', 'floor', 'trunc', 'round', 'rint', 'nearbyint'):
            return fp.rnd(name, self.num(st, args[0], None), 64)
        if name in ('fabsf', 'fabs'):
            return fp.fabs(self.num(st, args[0], None), 32 if name == 'fabsf' else 64)
        if name in ('fmaxf', 'fminf', 'fmax', 'fmin'):
            return fp.maxmin(name[1:4], self.num(st, args[0], None), self.num(st, args[1], None), 32 if name[-1] == 'f' else 64)
        if name == '__cxa_atexit':
            return 0
        raise Unsupported('call to external function ' + name)

    def llvm_intrinsic(self, st, fr, ins, name, args):
        m = re.match(r'llvm\.(ceil|floor|trunc|round|rint|nearbyint|roundeven)\.f(32|64)', name)
        if m:
            k = m.group(1)
            return fp.rnd('rint' if k == 'roundeven' else k, self.num(st, args[0], None), int(m.group(2)))
        m = re.match(r'llvm\.fabs\.f(32|64)', name)
        if m:
            return fp.fabs(self.num(st, args[0], None), int(m.group(1)))
        m = re.match(r'llvm\.(max|min)num\.f(32|64)', name)
        if m:
            return fp.maxmin(m.group(1), self.num(st, args[0], None), self.num(st, args[1], None), int(m.group(2)))
        m = re.match(r'llvm\.is\.fpclass\.f(32|64)', name)
        if m:
            return fp.fpclass(self.num(st, args[0], None), int(m.group(1)), args[1])
        m = re.match(r'llvm\.fmuladd\.f(32|64)', name)
        if m:
            w = int(m.group(1))
            a, b, c = [self.num(st, x, None) for x in args]
            return fp.arith('add', fp.arith('mul', a, b, w), c, w)
        m = re.match(r'llvm\.(sqrt|cos|sin|exp|log|pow)\.f(32|64)', name)
        if m:
            w = int(m.group(2))
            nm = 'fsqrt%d' % w if m.group(1) == 'sqrt' else m.group(1) + ('f' if w == 32 else '')
            a = [bv(self.num(st, x, None), w) for x in args]
            return fp.UF(nm, *([w] * len(a)), w)(*a)
        m = re.match(r'llvm\.copysign\.f(32|64)', name)
        if m:
            w = int(m.group(1))
            a, b = [self.num(st, x, None) for x in args]
            if isinstance(a, int) and isinstance(b, int):
                return (a & (fp.sgn(w) - 1)) | (b & fp.sgn(w))
            return (bv(a, w) & z3.BitVecVal(fp.sgn(w) - 1, w)) | (bv(b, w) & z3.BitVecVal(fp.sgn(w), w))
        m = re.match(r'llvm\.(smax|smin|umax|umin)\.i(\d+)', name)
        if m:
            w = int(m.group(2))
            a, b = [bv(self.num(st, x, None), w) for x in args]
            c = {'smax': a >= b, 'smin': a <= b, 'umax': z3.UGE(a, b), 'umin': z3.ULE(a, b)}[m.group(1)]
            return unz(z3.simplify(z3.If(c, a, b)))
        m = re.match(r'llvm\.abs\.i(\d+)', name)
        if m:
            w = int(m.group(1))
            a = bv(self.num(st, args[0], None), w)
            return unz(z3.simplify(z3.If(a < 0, -a, a)))
        if re.match(r'llvm\.(lifetime|dbg|assume|stacksave|stackrestore|experimental\.noalias)', name):
            return None
        if name.startswith('llvm.expect'):
            return args[0]
        if name == 'llvm.trap':
            self.fail_path(st, 'abort reached: trap')
        raise Unsupported('intrinsic ' + name)

    def memset(self, st, args):
        p, v, n = args[0], self.num(st, args[1], None), self.num(st, args[2], None)
        if not isinstance(v, int) or not isinstance(n, int) or not isinstance(p, Ptr):
            raise Unsupported('memset')
        err = self.check_access(st, p, n, 'write')
        if err:
            self.fail_path(st, err)
        blk = self.wblock(st, p.b)
        self.clear_range(blk.cells, p.o, n)
        o = p.o
        while o < p.o + n:
            w = 8 if o % 8 == 0 and o + 8 <= p.o + n else 4 if o % 4 == 0 and o + 4 <= p.o + n else 1
            blk.cells[o] = (w, int.from_bytes(bytes([v & 255]) * w, 'little'))
            o += w
        return p

    # sequences -----------------------------------------------------
    def sig_type(self, sig):
        """the element type witnessed by &vc_wit<T>: the source type of its pointer increment"""
        if isinstance(sig, FnPtr):
            for b in self.mod.funcs[sig.n].blocks.values():
                for i in b:
                    if i.op == 'getelementptr':
                        return i.ty
        raise Unsupported('type witness')

    def lay_of(self, st, sig):
        if isinstance(sig, FnPtr):
            if sig.n not in self.lays:
                self.lays[sig.n] = Lay(self.mod, self.sig_type(sig))
            return self.lays[sig.n]
        if isinstance(sig, Ptr):
            name = st.mem[sig.b].name if sig.b in st.mem else self.basemem[sig.b].name
            if name not in self.lays:
                self.lays[name] = Lay(self.mod, self.mod.globals[name].ty)
            return self.lays[name]
        raise Unsupported('sequence signature')

    def seq_at_ptr(self, st, p):
        if isinstance(p, PtrIte) or not isinstance(p, Ptr):
            raise Unsupported('sequence through %r' % (p,))
        if p.b == 0 or p.b not in st.mem:
            self.fail_path(st, 'null or dangling container')
        c = st.mem[p.b].cells.get(p.o)
        if c is None or not isinstance(c[1], SeqVal):
            raise Unsupported('uninitialised sequence')
        return c[1]

    def seq_set(self, st, p, sv):
        blk = self.wblock(st, p.b)
        c = blk.cells.get(p.o)
        if c is None or c[0] != 8:
            self.clear_range(blk.cells, p.o, 8)
        blk.cells[p.o] = (8, sv)

    def i___vc_seq_init(self, st, fr, ins, a):
        lay = self.lay_of(st, a[1])
        self.seq_set(st, a[0], SeqVal(lay, tuple(fresh_arr('e', 8 * s) for _, _, s in lay.leaves), 0, 0))

    def i___vc_seq_havoc(self, st, fr, ins, a):
        """arbitrary contents, arbitrary length below 2^40"""
        lay = self.lay_of(st, a[1])
        n = fresh('len', 64)
        st.pc.append(z3.ULT(n, z3.BitVecVal(1 << 30, 64)))
        sv = SeqVal(lay, tuple(fresh_arr('e', 8 * s) for _, _, s in lay.leaves), 0, n)
        self.seq_set(st, a[0], sv)
        st.tape.append(('seq', sv))

    def i___vc_seq_size(self, st, fr, ins, a):
        return self.seq_at_ptr(st, a[0]).n

    def i___vc_seq_at(self, st, fr, ins, a):
        sv = self.seq_at_ptr(st, a[0])
        i = self.num(st, a[2], None)
        if not (isinstance(a[1], Ptr) and a[1] == NULL):
            self.bound(st, i, sv.n, 'sequence index out of range')
        return SeqPtr(a[0].b, a[0].o, iadd(sv.start, i), 0)

    def bound(self, st, i, n, label):
        if isinstance(i, int) and isinstance(n, int):
            ok = i < n
        else:
            ok = z3.ULT(bv(i, 64), bv(n, 64))
            s = z3.simplify(ok)
            if z3.is_true(s):
                ok = True
            elif z3.is_false(s):
                ok = False
        if ok is True:
            return
        self.oblige_assume(st, 'SAFE', label, ok)

    def i___vc_seq_push_back(self, st, fr, ins, a):
        sv = self.seq_at_ptr(st, a[0])
        i = iadd(sv.start, sv.n)
        self.seq_set(st, a[0], sv.with_(n=iadd(sv.n, 1)))
        if not isinstance(sv.n, int):
            self.assume(st, z3.ULT(sv.n, z3.BitVecVal(1 << 62, 64)))
        return SeqPtr(a[0].b, a[0].o, i, 0)

    def i___vc_seq_push_front(self, st, fr, ins, a):
        sv = self.seq_at_ptr(st, a[0])
        i = isub(sv.start, 1)
        self.seq_set(st, a[0], sv.with_(n=iadd(sv.n, 1), start=i))
        return SeqPtr(a[0].b, a[0].o, i, 0)

    def i___vc_seq_pop_back(self, st, fr, ins, a):
        sv = self.seq_at_ptr(st, a[0])
        k = self.num(st, a[2], None)
        self.bound(st, k, iadd(sv.n, 1), 'pop from empty sequence')
        self.seq_set(st, a[0], sv.with_(n=isub(sv.n, k)))

    def i___vc_seq_pop_front(self, st, fr, ins, a):
        sv = self.seq_at_ptr(st, a[0])
        k = self.num(st, a[2], None)
        self.bound(st, k, iadd(sv.n, 1), 'pop from empty sequence')
        self.seq_set(st, a[0], sv.with_(n=isub(sv.n, k), start=iadd(sv.start, k)))

    def i___vc_seq_clear(self, st, fr, ins, a):
        sv = self.seq_at_ptr(st, a[0])
        self.seq_set(st, a[0], sv.with_(n=0, start=0))

    def i___vc_seq_copy(self, st, fr, ins, a):
        sv = self.seq_at_ptr(st, a[1])
        self.seq_set(st, a[0], sv)

    def i___vc_seq_swap(self, st, fr, ins, a):
        x, y = self.seq_at_ptr(st, a[0]), self.seq_at_ptr(st, a[1])
        self.seq_set(st, a[0], y)
        self.seq_set(st, a[1], x)

    def i___vc_unsupported(self, st, fr, ins, a):
        if self.feasible(st, True):
            raise Unsupported(self.cstr(st, a[0]))

    # verification interface -------------------------------------------
    def nondet(self, st, bits):
        v = fresh('in', bits)
        st.tape.append(('i%d' % bits, v))
        return v

    def i___vc_nondet_u8(self, st, fr, ins, a):
        return self.nondet(st, 8)

    def i___vc_nondet_u32(self, st, fr, ins, a):
        return self.nondet(st, 32)

    def i___vc_nondet_u64(self, st, fr, ins, a):
        return self.nondet(st, 64)

    def i___vc_nondet_f32(self, st, fr, ins, a):
        return self.nondet(st, 32)

    def i___vc_nondet_f64(self, st, fr, ins, a):
        return self.nondet(st, 64)

    def i___vc_nondet_bool(self, st, fr, ins, a):
        return self.nondet(st, 1)

    def i___vc_assume(self, st, fr, ins, a):
        c = self.num(st, a[0], None)
        if c is False:
            raise PathEnd()
        if c is True:
            return
        if not self.feasible(st, c):
            raise PathEnd()
        self.assume(st, c)

    def i___vc_assert(self, st, fr, ins, a):
        c = self.num(st, a[0], None)
        self.oblige_assume(st, self.cstr(st, a[1]), self.cstr(st, a[2]), c if not isinstance(c, int) else bool(c))

    def i___vc_cover(self, st, fr, ins, a):
        if self.mute or self.in_spec:
            return
        n = self.cstr(st, a[0])
        if self.covers.get(n):
            return
        self.sync(st)
        self.covers[n] = self.solver.check() == z3.sat or self.cover_retry(st)

    def cover_retry(self, st):
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(*st.pc)
        return s.check() == z3.sat

    def same(self, st, a, w):
        x, y = self.num(st, a[0], None), self.num(st, a[1], None)
        if self.in_spec or st.ghost.get('exact'):
            # ghost definitions and invariants: bit-identical, so that they are congruences
            if isinstance(x, int) and isinstance(y, int):
                return x == y
            return bv(x, w) == bv(y, w)
        return fp.same(x, y, w)

    def i___vc_exact(self, st, fr, ins, a):
        st.ghost['exact'] = bool(self.num(st, a[0], None))

    def i___vc_same_f32(self, st, fr, ins, a):
        return self.same(st, a, 32)

    def i___vc_same_f64(self, st, fr, ins, a):
        return self.same(st, a, 64)

    def i___vc_and(self, st, fr, ins, a):
        return AND(self.num(st, a[0], None), self.num(st, a[1], None))

    def i___vc_or(self, st, fr, ins, a):
        return OR(self.num(st, a[0], None), self.num(st, a[1], None))

    def i___vc_implies(self, st, fr, ins, a):
        return OR(NOT(self.num(st, a[0], None)), self.num(st, a[1], None))

    def i___vc_loop_spec(self, st, fr, ins, a):
        st.specs = st.specs + ((a[0].n, a[1], self.cstr(st, a[2])),)

    def i___vc_loop_spec_clear(self, st, fr, ins, a):
        st.specs = ()

    def i___vc_inv(self, st, fr, ins, a):
        if st.invs is None:
            raise Unsupported('vc_inv outside a loop specification')
        c = self.num(st, a[0], None)
        c = bool(c) if isinstance(c, int) else c
        st.invs = st.invs + ((self.cstr(st, a[1]), c, len(st.pc)),)

    def i___vc_def(self, st, fr, ins, a):
        c = self.num(st, a[0], None)
        c = bool(c) if isinstance(c, int) else c
        if st.invs is None:
            self.assume(st, c)
        else:
            st.invs = st.invs + (('#def', c, len(st.pc)),)

    def i___vc_symbolic(self, st, fr, ins, a):
        return True

    def i___vc_ghost(self, st, fr, ins, a):
        """fill object of type sig with UF_<name>_leaf(k): ghost sequence element"""
        name = self.cstr(st, a[0])
        k = bv(self.num(st, a[1], None), 64)
        ty = self.sig_type(a[3])
        gid = conc(self.num(st, a[4], None))
        for o, t in self.mod.leaves(ty):
            n = self.mod.size(t)
            f = z3.Function('ghost_%s_%s_%d' % (name, gid, o), z3.BitVecSort(64), z3.BitVecSort(8 * n))
            self.store_raw(st, self.padd(a[2], o), n, f(k))

    def i___vc_last_k(self, st, fr, ins, a):
        return st.ghost.get('lastk', 0)

    def i___vc_newid(self, st, fr, ins, a):
        self._gid = getattr(self, '_gid', 0) + 1
        return self._gid

    def i___vc_snapshot(self, st, fr, ins, a):
        """remember the current contents of the object(s) reachable from a[0]"""
        p = a[0]
        snap = self.reach(st, p)
        self._snaps = getattr(self, '_snaps', {})
        k = len(self._snaps) + 1
        self._snaps[k] = (p, snap)
        return k

    def reach(self, st, p):
        """{(path)-> cells}: the object block and every heap block reachable"""
        seen = {}
        work = [p.b]
        while work:
            b = work.pop()
            if b in seen or b not in st.mem:
                continue
            blk = st.mem[b]
            if blk.kind in ('const', 'global') and b != p.b:
                continue
            seen[b] = dict(blk.cells)
            for w, v in blk.cells.values():
                if isinstance(v, Ptr) and v.b:
                    work.append(v.b)
        return seen

    def i___vc_assert_unchanged(self, st, fr, ins, a):
        """every cell reachable from the object has its value at the snapshot, except in the ranges given by __vc_except"""
        k = self.num(st, a[0], None)
        tag, label = self.cstr(st, a[1]), self.cstr(st, a[2])
        p, old = self._snaps[k]
        exc = st.ghost.get('except', ())
        now = self.reach(st, p)
        conj = []
        bad = None
        for b in set(old) | set(now):
            if b not in old or b not in now:
                bad = 'heap object set changed'
                break
            x, y = old[b], now[b]
            for o in set(x) | set(y):
                if any(eb == b and eo <= o < eo + en for eb, eo, en in exc):
                    continue
                cx, cy = x.get(o), y.get(o)
                if cx is cy:
                    continue
                if cx is None or cy is None or cx[0] != cy[0]:
                    vx = self.load_mixed(x, o, (cx or cy)[0])
                    vy = self.load_mixed(y, o, (cx or cy)[0])
                    w = (cx or cy)[0]
                    if vx is UNINIT and vy is UNINIT:
                        continue
                    if vx is UNINIT or vy is UNINIT:
                        bad = 'cell %d of block %s (un)initialised' % (o, b)
                        break
                    vx, vy = self.scalar(vx, w), self.scalar(vy, w)
                    conj.append(bv(vx, 8 * w) == bv(vy, 8 * w))
                    continue
                conj.append(self.cell_same(cx[1], cy[1], cx[0]))
            if bad:
                break
        goal = False if bad or any(c is False for c in conj) else AND(*conj)
        self.oblige_assume(st, tag, label + ((': ' + bad) if bad else ''), goal)

    def cell_same(self, a, b, w):
        if veq(a, b):
            return True
        if isinstance(a, SeqVal) and isinstance(b, SeqVal):
            j = fresh('anyj', 64)
            c = [bv(a.n, 64) == bv(b.n, 64)]
            el = []
            for (o, t, s), x, y in zip(a.lay.leaves, a.arrs, b.arrs):
                p, q = x.sel(iadd(a.start, j)), y.sel(iadd(b.start, j))
                el.append(ZB(veq(p, q)) if veq(p, q) else bv(p, 8 * s) == bv(q, 8 * s))
            c.append(z3.Implies(z3.ULT(j, bv(a.n, 64)), z3.And(*el)))
            return z3.And(*c)
        if isinstance(a, (int, z3.ExprRef)) and isinstance(b, (int, z3.ExprRef)):
            a, b = self.as_bv(a, w), self.as_bv(b, w)
            if isinstance(a, int) and isinstance(b, int):
                return a == b
            return bv(a, 8 * w) == bv(b, 8 * w)
        if isinstance(a, PtrIte) or isinstance(b, PtrIte):
            return self.ptr_cmp(None, 'eq', a, b)
        return False

    def i___vc_except(self, st, fr, ins, a):
        p = a[0]
        n = self.num(st, a[1], None)
        st.ghost['except'] = st.ghost.get('except', ()) + ((p.b, p.o, n),)

    def i___vc_except_clear(self, st, fr, ins, a):
        st.ghost['except'] = ()

    def i___vc_pure(self, st, fr, ins, a):
        self.force_pure.add(a[0].n)
        self.pure.pop(a[0].n, None)

    def i___vc_replace(self, st, fr, ins, a):
        """calls of the functions named a[0] (qualified name) see the contract function a[1] instead of the body"""
        pat = self.cstr(st, a[0])
        spec = self.mod.funcs[a[1].n]
        def sig(f):
            return repr(f.ret), [(repr(t), 'byval' in at, 'sret' in at) for t, _, at in f.params]
        def whole(d, i):
            lev = 0
            while i < len(d):
                if d[i] in '<(':
                    lev += 1
                elif d[i] in '>)':
                    lev -= 1
                    if lev == 0 and d[i] == ')':
                        return d[i + 1:] in ('', ' const')
                i += 1
            return False
        rx = re.compile(r'(^|[ :*&])' + re.escape(pat) + r'(<|\()')
        n = 0
        for m, d in self.demangled().items():
            x = rx.search(d)
            if m == a[1].n or not x or not whole(d, x.end() - 1):
                continue
            if sig(self.mod.funcs[m]) != sig(spec):
                raise Unsupported('the contract of %s does not match its signature' % pat)
            self.replace[m] = a[1].n
            n += 1
        if not n:
            raise Unsupported('no function %s to apply the contract to' % pat)

    def demangled(self):
        if not hasattr(self, '_dem'):
            import subprocess
            l = [f for f in self.mod.funcs]
            r = subprocess.run(['c++filt'], input='\n'.join(l), capture_output=True, text=True)
            self._dem = dict(zip(l, r.stdout.split('\n')))
        return self._dem

    def i___vc_heap_alloc(self, st, fr, ins, a):
        return Ptr(self.new_block(st, self.num(st, a[0], None), 'heap'), 0)

    def i___vc_print(self, st, fr, ins, a):
        if self.o.get('verbose'):
            print('vc_print', self.cstr(st, a[0]), [str(z3.simplify(x)) if isinstance(x, z3.ExprRef) else x for x in a[1:]])

    # ------------------------------------------------------------ loops
    def handle_loop(self, st, h):
        fr = st.frames[-1]
        depth = len(st.frames)
        lp = Loop(fr.f, h, depth, 'unroll')
        key = (fr.f.name, h)
        if not self.loopmemo.get(key, {}).get('cut'):
            snap = st.fork()
            nobs = len(self.obs)
            ncov = dict(self.covers)
            try:
                return self.unroll(st, lp)
            except NeedCut:
                del self.obs[nobs:]
                self.covers = ncov
                st = snap
                memo = self.loopmemo.setdefault(key, {})
                memo['cut'] = True
        memo = self.loopmemo[key]
        if 'soft' not in memo:
            memo['soft'] = self.soft_candidate(lp)
        if memo['soft']:
            snap = st.fork()
            nobs = len(self.obs)
            ncov = dict(self.covers)
            try:
                return self.unroll(st, lp, soft=3)
            except NeedCut:
                del self.obs[nobs:]
                self.covers = ncov
                st = snap
        return self.cut(st, lp)

    def soft_candidate(self, lp):
        """a loop controlled by floating-point comparisons only: worth a few
        iterations of case splitting before cutting it"""
        seen, todo = set(), [i for b in lp.body for i in lp.f.blocks[b]]
        fc = False
        while todo:
            i = todo.pop()
            if i.op == 'fcmp':
                fc = True
            elif i.op == 'icmp':
                return False
            elif i.op == 'call':
                if not isinstance(i.x, GRef) or i.x.n.startswith('__vc_'):
                    return False
                f = self.mod.funcs.get(i.x.n)
                if f is not None and i.x.n not in seen:
                    seen.add(i.x.n)
                    todo.extend(j for b in f.blocks.values() for j in b)
        return fc

    def impossible(self, st):
        """the path condition is contradictory, using the meaning of the arithmetic"""
        import solve
        return solve.contradiction(st.pc)

    def unroll(self, st, lp, soft=0):
        out = []
        cur = [st]
        for it in range(soft or self.o['max_unroll']):
            nxt = []
            for s in cur:
                fr = s.frames[-1]
                fr.blk, fr.ip = lp.h, 0
                n_b, n_e = 0, 0
                for kind, t, tgt in self.explore(s, lp.depth, lp):
                    if kind == 'back':
                        nxt.append(t)
                        n_b += 1
                    elif kind == 'exit':
                        out.append(('goto', t, tgt))
                        n_e += 1
                    else:
                        out.append(('run', t, None))
                        n_e += 1
                if n_b and n_e and not soft:
                    raise NeedCut()
                if n_b > 1:
                    nxt = self.merge_loop(nxt)
                    if len(nxt) > 8:
                        raise NeedCut()
            if soft:
                if it:
                    nxt = [t for t in nxt if not self.impossible(t)]
                if not nxt and len(out) > 1:
                    out = [x for x in out if not self.impossible(x[1])]
            if not nxt:
                return out
            cur = nxt
        raise NeedCut()

    def merge_loop(self, l):
        return l

    def cut(self, st0, lp):
        import loops
        return loops.cut(self, st0, lp)


class Forked:
    def __init__(self, states):
        self.states = states


class PathEnd(Exception):
    pass


class JoinIns:
    res = ty = None

    def __init__(self, types):
        self.types = types


class CantMerge(Exception):
    pass
