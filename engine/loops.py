"""Loop contracts: cut a loop at its head, find what the body modifies, assume
an inductive invariant, execute one arbitrary iteration.

The invariant is the conjunction of the candidates that survive: automatic ones
(counters and container sizes that advance by a constant per iteration, the part
of a container that the body only appends to, the loop guard of the previous
iteration) and those of the loop specifications the harness registered.  A
candidate is used only if it holds on entry and is preserved by the body, so a
wrong candidate can only make a proof fail, never succeed."""
import itertools
import re
import z3
import fp
from fp import AND, OR, NOT, conc, bv, unz, ZB
from ir import Unsupported
from mem import (Ptr, NULL, FnPtr, SeqPtr, PtrIte, Poison, UNINIT, Pieces, veq, idx_diff, iadd, isub, PArr, fresh_arr, SeqVal,
                 fresh)

B62 = z3.BitVecVal(1 << 62, 64)


class Mod:
    """one modified cell"""

    def __init__(self, b, o, w):
        self.b, self.o, self.w = b, o, w
        self.kind = 'int'        # int | seq | seqptr | poison | drop
        self.stride = None       # int / seqptr
        self.tried = False
        self.arrs = set()
        self.ns = self.ss = None     # seq: stride of n / start
        self.nmod = self.smod = False
        self.prefix = True
        self.needgrow = False
        self.dead = False

    def key(self):
        return (self.b, self.o)


def sx(v, w):
    """w-byte value sign-extended to 64 bits"""
    v = bv(v, 8 * w)
    return z3.SignExt(64 - 8 * w, v) if w < 8 else v


def lin(c0, w, s, k):
    """c0 + s*k at width w bytes"""
    r = sx(c0, w) + z3.BitVecVal(s & (2**64 - 1), 64) * k if s not in (1,) else sx(c0, w) + k
    r = z3.simplify(r)
    return unz(r if w == 8 else z3.simplify(z3.Extract(8 * w - 1, 0, r)))


class Cutter:
    def __init__(self, E, st0, lp):
        self.E, self.st0, self.lp = E, st0, lp
        self.mods = {}
        self.nogrow = False
        self.memo = E.loopmemo.setdefault((lp.f.name, lp.h), {})

    # ---------------------------------------------------------------- head
    def cell(self, st, m):
        return st.mem[m.b].cells.get(m.o)

    def make_head(self, k):
        E = self.E
        st = self.st0.fork()
        self.havocked = []
        for m in self.mods.values():
            blk = E.wblock(st, m.b)
            c = blk.cells.get(m.o)
            v0 = c[1] if c is not None and c[0] == m.w else None
            if m.kind == 'drop':
                blk.cells.pop(m.o, None)
                continue
            if m.kind == 'poison':
                E.clear_range(blk.cells, m.o, m.w)
                blk.cells[m.o] = (m.w, Poison('a pointer carried around a loop'))
                continue
            if m.kind == 'seq':
                sv = v0
                n, s0 = sv.n, sv.start
                if m.nmod:
                    n = lin(sv.n, 8, m.ns, k) if m.ns is not None else fresh('hn', 64)
                if m.smod:
                    s0 = lin(sv.start, 8, m.ss, k) if m.ss is not None else fresh('hs', 64)
                arrs = list(sv.arrs)
                for i in m.arrs:
                    w = sv.lay.leaves[i][2] * 8
                    if m.prefix:
                        arrs[i] = PArr('prefix', w, sv.arrs[i], sv.start, sv.n, fresh_arr('h', w))
                    else:
                        arrs[i] = fresh_arr('h', w)
                nv = SeqVal(sv.lay, tuple(arrs), s0, n)
                blk.cells[m.o] = (8, nv)
                if not isinstance(n, int):
                    st.pc.append(z3.ULT(n, B62))
                continue
            if m.kind == 'seqptr':
                p = v0
                i = lin(p.i, 8, m.stride, k) if m.stride is not None else fresh('hp', 64)
                blk.cells[m.o] = (8, SeqPtr(p.b, p.o, i, p.f))
                continue
            if m.stride is not None and v0 is not None:
                v = lin(v0, m.w, m.stride, k)
            else:
                v = fresh('h', 8 * m.w)
                self.havocked.append(v)
            E.clear_range(blk.cells, m.o, m.w)
            blk.cells[m.o] = (m.w, v)
        st.pc.append(z3.ULT(k, B62))
        return st

    def run(self, head):
        s = head.fork()
        fr = s.frames[-1]
        fr.blk, fr.ip = self.lp.h, 0
        return self.E.explore(s, self.lp.depth, self.lp)

    # ---------------------------------------------------------------- diff
    def diff(self, head, back):
        """adds to self.mods; True if something new"""
        new = False
        for b, hb in head.mem.items():
            bb = back.mem.get(b)
            if bb is hb:
                continue
            if bb is None:
                raise Unsupported('loop body frees an object')
            for o in set(hb.cells) | set(bb.cells):
                ch, cb = hb.cells.get(o), bb.cells.get(o)
                if ch is cb:
                    continue
                if ch is not None and cb is not None and ch[0] == cb[0] and veq(ch[1], cb[1]):
                    continue
                new |= self.add(b, o, ch, cb)
        return new

    def add(self, b, o, ch, cb):
        m = self.mods.get((b, o))
        if cb is None:
            if m is None or m.kind != 'drop':
                m = m or Mod(b, o, ch[0])
                m.kind = 'drop'
                self.mods[(b, o)] = m
                return True
            return False
        w, v = cb
        if isinstance(v, SeqVal):
            hv = ch[1] if ch is not None else None
            if not isinstance(hv, SeqVal):
                raise Unsupported('sequence created inside a loop')
            new = False
            if m is None:
                m = Mod(b, o, 8)
                m.kind = 'seq'
                self.mods[(b, o)] = m
                new = True
            for i, (x, y) in enumerate(zip(hv.arrs, v.arrs)):
                if x is not y and i not in m.arrs:
                    m.arrs.add(i)
                    new = True
            if not veq(hv.n, v.n) and not m.nmod:
                m.nmod = True
                new = True
            if not veq(hv.start, v.start) and not m.smod:
                m.smod = True
                new = True
            return new
        if m is not None and m.w != w:
            raise Unsupported('loop-carried cell with varying width')
        if isinstance(v, (Ptr, FnPtr, SeqPtr, PtrIte, Poison)):
            if m is not None and m.kind == 'poison':
                return False
            hv = ch[1] if ch is not None else None
            nm = m or Mod(b, o, w)
            if isinstance(hv, SeqPtr) and isinstance(v, SeqPtr) and hv.same_slot(v) and (m is None or m.kind == 'seqptr'):
                if m is None:
                    nm.kind = 'seqptr'
                    self.mods[(b, o)] = nm
                    return True
                return False
            nm.kind = 'poison'
            self.mods[(b, o)] = nm
            return True
        if m is None:
            self.mods[(b, o)] = Mod(b, o, w)
            return True
        if m.kind == 'poison':
            return False
        return False

    # strides ------------------------------------------------------------
    def strides(self, head, backs):
        """derive constant per-iteration increments; True if something changed"""
        ch = False
        for m in self.mods.values():
            if m.kind == 'int' and m.w in (4, 8):
                c0 = self.st0.mem[m.b].cells.get(m.o)
                hv = head.mem[m.b].cells[m.o][1]
                ok = c0 is not None and c0[0] == m.w and isinstance(c0[1], (int, z3.BitVecRef))
                d = None
                for bk in backs:
                    c = bk.mem[m.b].cells.get(m.o)
                    if not ok or c is None or c[0] != m.w or not isinstance(c[1], (int, z3.BitVecRef)):
                        ok = False
                        break
                    x = z3.simplify(bv(c[1], 8 * m.w) - bv(hv, 8 * m.w))
                    if not z3.is_bv_value(x):
                        ok = False
                        break
                    x = x.as_long()
                    x = x - (1 << (8 * m.w)) if x >> (8 * m.w - 1) else x
                    if d is not None and d != x:
                        ok = False
                        break
                    d = x
                if m.stride is None and ok and d is not None and not m.tried:
                    m.stride = d
                    m.tried = True
                    ch = True
                elif m.stride is not None and (not ok or d != m.stride):
                    m.stride = None
                    ch = True
            elif m.kind == 'seqptr':
                hv = head.mem[m.b].cells[m.o][1]
                ds = {idx_diff(bk.mem[m.b].cells[m.o][1].i, hv.i) for bk in backs}
                d = ds.pop() if len(ds) == 1 else None
                if m.stride is None and d is not None and not m.tried:
                    m.stride, m.tried, ch = d, True, True
                elif m.stride is not None and d != m.stride:
                    m.stride, ch = None, True
            elif m.kind == 'seq':
                hv = head.mem[m.b].cells[m.o][1]
                for at, mod, get in (('ns', m.nmod, lambda s: s.n), ('ss', m.smod, lambda s: s.start)):
                    if not mod:
                        continue
                    ds = {idx_diff(get(bk.mem[m.b].cells[m.o][1]), get(hv)) for bk in backs}
                    d = ds.pop() if len(ds) == 1 else None
                    cur = getattr(m, at)
                    if cur is None and d is not None and not getattr(m, 'tried_' + at, False):
                        setattr(m, at, d)
                        setattr(m, 'tried_' + at, True)
                        ch = True
                    elif cur is not None and d != cur:
                        setattr(m, at, None)
                        ch = True
        return ch

    def prefix_ok(self, head, backs):
        """container parts present at loop entry are never overwritten"""
        ch = False
        for m in self.mods.values():
            if m.kind != 'seq' or not m.prefix or not m.arrs:
                continue
            sv0 = self.st0.mem[m.b].cells[m.o][1]
            hv = head.mem[m.b].cells[m.o][1]
            for bk in backs:
                nv = bk.mem[m.b].cells[m.o][1]
                for i in m.arrs:
                    a = nv.arrs[i]
                    while a is not hv.arrs[i]:
                        if a.k != 'store':
                            m.prefix = False
                            break
                        off = isub(a.b, sv0.start)
                        c = z3.UGE(bv(off, 64), bv(sv0.n, 64))
                        if not (isinstance(sv0.n, int) and sv0.n == 0) and not self.E.valid(bk, z3.simplify(c)):
                            # provided the container never gets shorter than on entry (checked as an invariant below)
                            g = z3.UGE(bv(hv.n, 64), bv(sv0.n, 64))
                            if m.nmod and m.ns is None and not self.nogrow and self.E.valid(bk, z3.Implies(g, z3.simplify(c))):
                                m.needgrow = True
                                a = a.a
                                continue
                            m.prefix = False
                            break
                        a = a.a
                    if not m.prefix:
                        break
                if not m.prefix:
                    ch = True
                    break
        return ch

    # candidates ----------------------------------------------------------
    def auto_cands(self):
        """[(name, fn(state,k) -> Bool)]"""
        out = []
        flags, ints = [], []
        for m in self.mods.values():
            c0 = self.st0.mem[m.b].cells.get(m.o)
            if m.kind == 'int':
                nm = 'cell%d+%d' % (m.b, m.o)
                if m.w == 1:
                    out.append((nm + ':bool', lambda s, k, m=m: z3.ULE(bv(self.cv(s, m), 8), 1) if self.cv(s, m) is not None else True))
                    flags.append(m)
                if m.w == 4 and m.stride is not None:
                    out.append((nm + ':nowrap', lambda s, k, m=m, c0=c0: sx(self.cv(s, m), 4) == sx(c0[1], 4) + z3.BitVecVal(m.stride & (2**64 - 1), 64) * k))
                if m.stride is None and m.w in (4, 8):
                    ints.append(m)
                    if c0 is not None and isinstance(c0[1], (int, z3.BitVecRef)) and m.w == 4:
                        # a float that started non-NaN / within [0, inf]
                        pass
            elif m.kind == 'seq':
                sv0 = c0[1]
                if m.nmod and m.ns is not None and m.ns < 0:
                    out.append(('len%d+%d:k<=n0' % (m.b, m.o), lambda s, k, sv0=sv0, m=m: z3.ULE(k * z3.BitVecVal(-m.ns, 64), bv(sv0.n, 64))))
                if m.nmod and m.ns is None:
                    out.append(('len%d+%d:grow' % (m.b, m.o), lambda s, k, sv0=sv0, m=m: z3.UGE(bv(self.cv(s, m).n, 64), bv(sv0.n, 64))))
                    out.append(('len%d+%d:<=n0+k' % (m.b, m.o), lambda s, k, sv0=sv0, m=m: z3.ULE(bv(self.cv(s, m).n, 64), bv(sv0.n, 64) + k)))
        for m in ints:
            if m.dead:
                continue
            out.append(('cell%d+%d:<k' % (m.b, m.o), lambda s, k, m=m: self.ilt(s, m, k)))
            for f in flags:
                out.append(('cell%d+%d:flag%d+%d=><k' % (m.b, m.o, f.b, f.o), lambda s, k, m=m, f=f: OR(self.fzero(s, f), self.ilt(s, m, k))))
        return out

    def cv(self, s, m):
        c = s.mem[m.b].cells.get(m.o)
        return c[1] if c is not None and c[0] == m.w else None

    def ilt(self, s, m, k):
        v = self.cv(s, m)
        if v is None or not isinstance(v, (int, z3.BitVecRef)):
            return False
        return z3.ULT(sx(v, m.w), k)

    def fzero(self, s, f):
        v = self.cv(s, f)
        if v is None:
            return False
        return v == 0 if isinstance(v, int) else bv(v, 8) == 0

    # loop specifications of the harness ------------------------------------
    def eval_spec(self, st, k, live=None):
        """-> (defs, {label: Bool})"""
        E = self.E
        defs, invs = [], {}
        if not st.specs:
            return defs, invs
        E.mute += 1
        E.in_spec += 1
        try:
            for si, sp in enumerate(st.specs):
                fn, ctx = sp[0], sp[1]
                pat = sp[2] if len(sp) > 2 else ''
                for tup in self.tuples(pat):
                    key = '%d:%s' % (si, ','.join('%d+%d' % m.key() for m in tup))
                    if live is not None and pat and not any(l.startswith(key + '|') for l in live):
                        continue
                    args = []
                    bad = False
                    for m, ch in zip(tup, pat):
                        v = self.cv(st, m)
                        if not isinstance(v, (int, z3.BitVecRef)):
                            bad = True
                            break
                        if ch == 'b':
                            v = (v != 0) if isinstance(v, int) else bv(v, 8) != 0
                        args.append(v)
                    if bad:
                        invs[key + '|*'] = False
                        continue
                    s = st.fork()
                    s.invs = ()
                    d = len(s.frames)
                    n0 = len(s.pc)
                    E.call_function(s, fn, [ctx, k] + args)
                    for _, r, _ in E.explore(s, d + 1, None):
                        for lab, c, at in r.invs:
                            g = AND(*r.pc[n0:at])
                            f = c if g is True else OR(NOT(g), c)
                            if lab == '#def':
                                if f is not True:
                                    defs.append(ZB(f))
                            else:
                                L = key + '|' + lab
                                invs[L] = AND(invs.get(L, True), f)
        finally:
            E.mute -= 1
            E.in_spec -= 1
        return defs, invs

    def tuples(self, pat):
        if not pat:
            return [()]
        W = {'b': 1, 'i': 4, 'f': 4, 'd': 8, 'q': 8}
        pools = []
        for ch in pat:
            pools.append([m for m in self.mods.values() if m.kind == 'int' and m.w == W[ch] and m.stride is None and not m.dead])
        out = [t for t in itertools.product(*pools) if len(set(map(id, t))) == len(t)]
        if len(out) > 600:
            raise Unsupported('too many loop-carried cells for the loop specification')
        return out

    # ---------------------------------------------------------------- main
    def go(self):
        E = self.E
        E.stats['cuts'] += 1
        k = fresh('k', 64)
        # 1. what does the body modify, and by how much per iteration
        E.mute += 1
        try:
            for rnd in range(12):
                head = self.make_head(k)
                res = self.run(head)
                backs = [s for kd, s, _ in res if kd == 'back']
                new = False
                for s in backs:
                    new |= self.diff(head, s)
                if new:
                    continue
                if self.strides(head, backs):
                    continue
                if self.prefix_ok(head, backs):
                    continue
                break
            else:
                raise Unsupported('loop modification set does not stabilise')
        finally:
            E.mute -= 1
        self.find_dead(head, res)
        # 2. candidates that hold on entry
        zero = z3.BitVecVal(0, 64)
        entry = self.st0
        cands = {}
        defs0, inv0 = self.eval_spec(entry, zero)
        ent = entry.fork()
        ent.pc.extend(defs0)
        for nm, fn in self.auto_cands():
            try:
                f = fn(ent, zero)
            except Unsupported:
                continue
            if f is True or (f is not False and E.valid(ent, z3.simplify(f))):
                cands[nm] = fn
        spec = set()
        for lab, f in inv0.items():
            if f is True or (f is not False and E.valid(ent, f)):
                spec.add(lab)
        # guard of the previous iteration
        guard = self.guard(head, backs, k)
        if guard is not None:
            cands['guard'] = lambda s, kk, g=guard: OR(kk == 0, z3.substitute(g, (k, kk - 1)))
        # 3. Houdini
        nobs = len(E.obs)
        cov = dict(E.covers)
        dropped = []
        for rnd in range(40):
            del E.obs[nobs:]
            E.covers = dict(cov)
            head = self.make_head(k)
            defs, invs = self.eval_spec(head, k, spec if rnd else None)
            if rnd == 0:
                # a clause that no path reaches on entry holds there vacuously
                spec |= {l for l in invs if l not in inv0}
            head.pc.extend(defs)
            ok = True
            for lab in list(spec):
                f = invs.get(lab, False)
                if f is False:
                    spec.discard(lab)
                    continue
                if f is not True:
                    E.assume(head, f)
            for nm, fn in cands.items():
                f = fn(head, k)
                if isinstance(f, bool):
                    continue
                f = z3.simplify(f)
                if not z3.is_true(f):
                    E.assume(head, f)
            res = self.run(head)
            backs = [s for kd, s, _ in res if kd == 'back']
            drop = False
            for s in backs:
                m2 = self.diff(head, s)
                if m2:
                    raise Unsupported('loop modification set grew under the invariant')
                k1 = k + 1
                d1, i1 = self.eval_spec(s, k1, spec)
                s2 = s.fork()
                s2.pc.extend(d1)
                for nm, fn in list(cands.items()):
                    f = fn(s2, k1)
                    if f is True:
                        continue
                    if f is False or not E.valid(s2, z3.simplify(f)):
                        del cands[nm]
                        dropped.append(nm)
                        drop = True
                for lab in list(spec):
                    f = i1.get(lab, False)
                    if f is True:
                        continue
                    if f is False or not E.valid(s2, f, lem='comm' if '+' in lab.split('|')[0] else True):
                        spec.discard(lab)
                        dropped.append(lab)
                        drop = True
            if not drop:
                break
        else:
            raise Unsupported('invariant search did not converge')
        for m in self.mods.values():
            if m.needgrow and m.prefix and 'len%d+%d:grow' % (m.b, m.o) not in cands:
                del E.obs[nobs:]
                E.covers = cov
                self.nogrow, self.mods = True, {}
                return self.go()
        if E.o.get('verbose'):
            print('loop %s:%s  mods=%s' % (self.lp.f.name, self.lp.h, [(m.b, m.o, m.kind, m.stride, m.ns, m.ss, m.prefix) for m in self.mods.values()]))
            print('   inv auto', sorted(cands), 'spec', sorted(spec))
            print('   dropped', dropped, 'spec failed on entry', [l for l in inv0 if l not in spec and l not in dropped])
        E.stats['loops'].setdefault(self.lp.f.name + ':' + self.lp.h, dict(auto=sorted(cands), spec=sorted(l.split('|')[1] for l in spec)))
        self.termination(head, backs, k)
        out = []
        for kd, s, tgt in res:
            s.ghost['lastk'] = k
            if kd == 'exit':
                out.append(('goto', s, tgt))
            elif kd == 'ret':
                out.append(('run', s, None))
        return out

    def find_dead(self, head, res):
        """cells that every iteration overwrites before it reads them"""
        live = set()
        seen = set()
        n0 = len(head.pc)

        def visit(x):
            w = [x]
            while w:
                y = w.pop()
                i = y.get_id()
                if i in seen:
                    continue
                seen.add(i)
                if z3.is_const(y):
                    live.add(i)
                w.extend(y.children())

        own = {}
        for m in self.mods.values():
            if m.kind == 'int' and m.stride is None:
                c = self.cv(head, m)
                if isinstance(c, z3.ExprRef):
                    own[m.key()] = c.get_id()
        for kd, s, _ in res:
            for c in s.pc[n0:]:
                if isinstance(c, z3.ExprRef):
                    visit(c)
            if s.retval is not None and isinstance(s.retval, z3.ExprRef):
                visit(s.retval)
            for b, blk in s.mem.items():
                hb = head.mem.get(b)
                if hb is blk and not any(k[0] == b for k in own):
                    continue
                for o, (w, v) in blk.cells.items():
                    if kd != 'back' and own.get((b, o)) is not None and isinstance(v, z3.ExprRef) and v.get_id() == own[(b, o)]:
                        continue
                    for x in self.exprs(v):
                        visit(x)
        # variables that only the loop body mentions (declared in it)
        fr = self.st0.frames[-1]
        mine = {v.b: r for r, v in fr.regs.items() if isinstance(v, Ptr) and v.o == 0 and v.b in fr.allocas}
        used = set()
        for bl, l in fr.f.blocks.items():
            if bl not in self.lp.body:
                for ins in l:
                    if ins.op != 'alloca':
                        used |= set(re.findall(r'%([\w.]+)', repr(ins.args) + repr(ins.x)))
        local = {b for b, r in mine.items() if str(r) not in used}
        for m in self.mods.values():
            m.dead = m.b in local or own.get(m.key()) is not None and own[m.key()] not in live

    def exprs(self, v):
        if isinstance(v, z3.ExprRef):
            return [v]
        if isinstance(v, SeqVal):
            r = [x for x in (v.n, v.start) if isinstance(x, z3.ExprRef)]
            for a in v.arrs:
                r += arr_exprs(a)
            return r
        if isinstance(v, (SeqPtr,)):
            return [x for x in (v.i,) if isinstance(x, z3.ExprRef)]
        if isinstance(v, PtrIte):
            return [v.c] + self.exprs(v.a) + self.exprs(v.b)
        return []

    def guard(self, head, backs, k):
        """disjunction over back edges of the branch conditions that depend only on k and entry values"""
        if not backs:
            return None
        hv = {v.get_id() for v in self.havocked}
        hn = set()
        ds = []
        n0 = len(head.pc)
        allowed = self.free_consts(self.st0, k)
        for s in backs:
            cs = []
            for c in s.pc[n0:]:
                if self.only(c, allowed):
                    cs.append(c)
            if not cs:
                return None
            ds.append(AND(*cs))
        return OR(*ds) if len(ds) > 1 else ds[0]

    def free_consts(self, st, k):
        """names that may occur in terms over the entry state: everything created before the cut"""
        return int(str(k).split('!')[1])

    def only(self, c, lim):
        seen = set()
        w = [c]
        while w:
            x = w.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                d = x.decl()
                if d.kind() == z3.Z3_OP_UNINTERPRETED:
                    n = d.name()
                    if '!' in n:
                        try:
                            if int(n.rsplit('!', 1)[1]) > lim:
                                return False
                        except ValueError:
                            pass
                w.extend(x.children())
        return True

    def termination(self, head, backs, k):
        E = self.E
        if E.mute:
            return
        where = self.lp.f.name
        if not backs:
            return
        for m in self.mods.values():
            if m.kind == 'seq' and m.nmod:
                ok = True
                for s in backs:
                    a, b = bv(head.mem[m.b].cells[m.o][1].n, 64), bv(s.mem[m.b].cells[m.o][1].n, 64)
                    if not E.valid(s, z3.ULT(b, a), lem=False):
                        ok = False
                        break
                if ok:
                    return self.term_ok(head, 'container shrinks')
        cand = []
        n0 = len(head.pc)
        for s in backs[:4]:
            for c in s.pc[n0:]:
                for a in atoms(c):
                    if z3.is_bv(a[0]) and a[0].size() in (32, 64):
                        cand.append(a)
        seen = set()
        lim = self.free_consts(self.st0, k)
        for x, y in cand:
            for p, q in ((x, y), (y, x)):
                key = (p.get_id(), q.get_id())
                if key in seen or not (self.only(p, lim) and self.only(q, lim)):
                    continue
                seen.add(key)
                for ext in (z3.SignExt, z3.ZeroExt):
                    e = (lambda t: ext(64 - t.size(), t) if t.size() < 64 else t)
                    M = e(p) - e(q) + 1
                    M1 = z3.substitute(M, (k, k + 1))
                    if all(E.valid(s, z3.ULT(M1, M), lem=False) for s in backs):
                        return self.term_ok(head, 'counter bounded by the guard')
                    if p.size() == 64:
                        break
        from sym import Oblig
        E.obs.append(Oblig('TERM', 'loop terminates in ' + where, [where], list(head.pc), False, list(head.tape)))

    def term_ok(self, head, why):
        from sym import Oblig
        self.E.obs.append(Oblig('TERM', 'loop terminates in %s (%s)' % (self.lp.f.name, why), [self.lp.f.name], None, True, None))


def arr_exprs(a):
    out = []
    w = [a]
    while w:
        x = w.pop()
        if isinstance(x, z3.ExprRef):
            out.append(x)
        elif isinstance(x, (tuple, list)):
            w.extend(x)
        elif hasattr(x, '__dict__'):
            w.extend(x.__dict__.values())
        elif hasattr(x, '__slots__'):
            w.extend(getattr(x, k, None) for k in x.__slots__)
    return out


def atoms(c):
    out = []
    w = [c]
    n = 0
    while w and n < 200:
        x = w.pop()
        n += 1
        k = x.decl().kind() if z3.is_app(x) else None
        if k in (z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR):
            w.extend(x.children())
        elif k in (z3.Z3_OP_ULT, z3.Z3_OP_ULEQ, z3.Z3_OP_UGT, z3.Z3_OP_UGEQ, z3.Z3_OP_SLT, z3.Z3_OP_SLEQ, z3.Z3_OP_SGT, z3.Z3_OP_SGEQ):
            out.append((x.arg(0), x.arg(1)))
        elif k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and z3.is_bv(x.arg(0)):
            out.append((x.arg(0), x.arg(1)))
    return out


def cut(E, st0, lp):
    return Cutter(E, st0, lp).go()
