"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) that clang emits
for the unity translation unit.  Anything outside the subset raises
Unsupported, which the driver reports as "not decided", never as a result."""
import re
import struct


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "t", "elems", "packed", "name", "_size", "_align", "_leaves", "_offs")

    def __init__(self, k, n=0, t=None, elems=None, packed=False, name=None):
        self.k, self.n, self.t, self.elems, self.packed, self.name = k, n, t, elems, packed, name
        self._size = self._align = self._leaves = self._offs = None

    def __repr__(self):
        if self.k == 'i':
            return 'i%d' % self.n
        if self.k == 'f':
            return {32: 'float', 64: 'double'}[self.n]
        if self.k in ('a', 'vec'):
            return '[%d x %r]' % (self.n, self.t)
        if self.k == 's':
            return '%%%s' % self.name if self.name else '{%s}' % ','.join(map(repr, self.elems))
        return self.k


class Reg:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return '%' + self.n


class GRef:          # address of global / function plus byte offset
    __slots__ = ("n", "off")

    def __init__(self, n, off=0):
        self.n, self.off = n, off

    def __repr__(self):
        return '@%s+%d' % (self.n, self.off)


class ConstAgg:
    __slots__ = ("ty", "vals")

    def __init__(self, ty, vals):
        self.ty, self.vals = ty, vals


class _Undef:
    def __repr__(self):
        return 'undef'


UNDEF = _Undef()


class _Zero:
    def __repr__(self):
        return 'zeroinit'


ZERO = _Zero()
NULLC = GRef(None, 0)

TOK = re.compile(r'''\s*(?:
   (c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
  |([%@]"[^"]*"|[%@][-\w.$]+)
  |("[^"]*")
  |(0x[HKLMR]?[0-9A-Fa-f]+|[-+]?\d+\.\d*(?:e[-+]?\d+)?|-?\d+)
  |(\.\.\.|[-\w.$]+)
  |(!\d+|!"[^"]*"|![\w.]*|\#\d+)
  |(.)
)''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            break
        t = m.group(m.lastindex)
        if t == ';':
            break
        out.append(t)
        i = m.end()
    return [t for t in out if t.strip()]


class Instr:
    __slots__ = ("op", "res", "ty", "args", "x", "line")

    def __init__(self, op, res, ty, args, x=None, line=0):
        self.op, self.res, self.ty, self.args, self.x, self.line = op, res, ty, args, x, line

    def __repr__(self):
        return '%s = %s %r %r %r' % (self.res, self.op, self.ty, self.args, self.x)


class Func:
    def __init__(self, name, ret, params):
        self.name, self.ret, self.params = name, ret, params
        self.blocks = {}
        self.entry = None
        self.order = []
        self.loops = None
        self.has_branch = False


class Global:
    def __init__(self, name, ty, init, const, ext):
        self.name, self.ty, self.init, self.const, self.ext = name, ty, init, const, ext


PARAM_ATTR = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly', 'signext', 'zeroext',
              'returned', 'immarg', 'dead_on_unwind', 'writable', 'inreg', 'nofree', 'dso_local', 'noreturn',
              'nounwind', 'inrange', 'tail', 'fastcc', 'ccc', 'musttail', 'notail', 'allocsize'}


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.accept(x):
            raise Unsupported('IR parse: expected %s at %r' % (x, self.t[max(0, self.i - 4):self.i + 6]))

    # types
    def type(self):
        x = self.next()
        m = self.mod
        if x == 'void':
            return m.VOID
        if x == 'ptr':
            return m.PTR
        if x == 'float':
            return m.F32
        if x == 'double':
            return m.F64
        if x in ('label', 'metadata'):
            return Ty(x)
        if re.fullmatch(r'i\d+', x):
            return m.ity(int(x[1:]))
        if x == '[':
            n = int(self.next())
            self.expect('x')
            t = self.type()
            self.expect(']')
            return Ty('a', n, t)
        if x == '<':
            if self.peek() == '{':
                self.next()
                el = self._elems('}')
                self.expect('>')
                return Ty('s', elems=el, packed=True)
            n = int(self.next())
            self.expect('x')
            t = self.type()
            self.expect('>')
            return Ty('vec', n, t)
        if x == '{':
            return Ty('s', elems=self._elems('}'))
        if x[0] == '%':
            return m.named(x[1:].strip('"'))
        raise Unsupported('IR type %r' % x)

    def _elems(self, close):
        el = []
        if self.accept(close):
            return el
        while True:
            el.append(self.type())
            if self.accept(','):
                continue
            self.expect(close)
            return el

    def skip_attrs(self):
        """skips parameter attributes; returns dict of interesting ones"""
        a = {}
        while True:
            x = self.peek()
            if x in PARAM_ATTR:
                self.next()
            elif x in ('align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'captures', 'range', 'initializes', 'memory', 'nofpclass', 'elementtype'):
                self.next()
                if self.accept('('):
                    d = 1
                    if x in ('byval', 'sret'):
                        a[x] = self.type()
                    while d:
                        y = self.next()
                        if y == '(':
                            d += 1
                        elif y == ')':
                            d -= 1
                        elif x == 'dereferenceable' and y.isdigit():
                            a[x] = int(y)
                else:
                    self.next()
            else:
                return a

    # constants / operands of a known type
    def value(self, ty):
        x = self.next()
        if x[0] == '%' and len(x) > 1:
            return Reg(x[1:].strip('"'))
        if x[0] == '@':
            return GRef(x[1:].strip('"'))
        if x == 'null':
            return NULLC
        if x == 'true':
            return True
        if x == 'false':
            return False
        if x in ('undef', 'poison'):
            return UNDEF
        if x == 'zeroinitializer':
            return ZERO
        if x[0] == 'c' and x[1:2] == '"':
            raw = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), x[2:-1])
            return ConstAgg(ty, [ord(c) for c in raw])
        if x in ('getelementptr',):
            self.accept('inbounds')
            self.expect('(')
            bt = self.type()
            self.expect(',')
            self.type()
            base = self.value(self.mod.PTR)
            off, cur, first = 0, bt, True
            while self.accept(','):
                self.accept('inrange')
                it = self.type()
                iv = self.value(it)
                if not isinstance(iv, int):
                    raise Unsupported('constexpr gep')
                sv = iv if iv < (1 << (it.n - 1)) else iv - (1 << it.n)
                if first:
                    off += sv * self.mod.size(cur)
                    first = False
                elif cur.k == 's':
                    off += self.mod.offsets(cur)[sv]
                    cur = cur.elems[sv]
                else:
                    cur = cur.t
                    off += sv * self.mod.size(cur)
            self.expect(')')
            return GRef(base.n, base.off + off)
        if x in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast'):
            raise Unsupported('constexpr ' + x)
        if x in ('{', '[', '<'):
            packed = False
            close = {'{': '}', '[': ']', '<': '>'}[x]
            if x == '<' and self.peek() == '{':
                self.next()
                packed, close = True, '}'
            vals = []
            if not self.accept(close):
                while True:
                    t = self.type()
                    vals.append(self.value(t))
                    if self.accept(','):
                        continue
                    self.expect(close)
                    break
            if packed:
                self.expect('>')
            return ConstAgg(ty, vals)
        return self.mod.const(ty, x)

    def tvalue(self):
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)


class Module:
    def __init__(self, text):
        self.VOID, self.PTR = Ty('void'), Ty('p', 64)
        self.F32, self.F64 = Ty('f', 32), Ty('f', 64)
        self._ity = {}
        self.types, self.globals, self.funcs, self.decls = {}, {}, {}, {}
        self.ctors = []
        self.parse(text)

    def ity(self, n):
        if n not in self._ity:
            self._ity[n] = Ty('i', n)
        return self._ity[n]

    def named(self, n):
        if n not in self.types:
            self.types[n] = Ty('s', elems=None, name=n)
        return self.types[n]

    def const(self, ty, x):
        if ty.k == 'i':
            v = int(x)
            return v & ((1 << ty.n) - 1)
        if ty.k == 'f':
            if x.startswith('0x'):
                d = struct.pack('>Q', int(x[2:], 16))
            else:
                d = struct.pack('>d', float(x))
            if ty.n == 64:
                return int.from_bytes(d, 'big')
            return int.from_bytes(struct.pack('>f', struct.unpack('>d', d)[0]), 'big')
        raise Unsupported('const %r %r' % (ty, x))

    # layout (x86-64)
    def align(self, t):
        if t._align is None:
            if t.k == 'i':
                t._align = max(1, min(16 if t.n > 64 else 8, (t.n + 7) // 8))
            elif t.k == 'f':
                t._align = t.n // 8
            elif t.k == 'p':
                t._align = 8
            elif t.k == 'a':
                t._align = self.align(t.t)
            elif t.k == 'vec':
                t._align = self.size(t)
            elif t.k == 's':
                t._align = 1 if t.packed else max([self.align(e) for e in t.elems] or [1])
            else:
                raise Unsupported('align %r' % t)
        return t._align

    def size(self, t):
        if t._size is None:
            if t.k == 'i':
                b = (t.n + 7) // 8
                a = self.align(t)
                t._size = (b + a - 1) // a * a
            elif t.k == 'f':
                t._size = t.n // 8
            elif t.k == 'p':
                t._size = 8
            elif t.k in ('a', 'vec'):
                t._size = t.n * self.size(t.t)
            elif t.k == 's':
                if t.elems is None:
                    raise Unsupported('opaque type ' + str(t.name))
                o = self.offsets(t)
                end = o[-1] + self.size(t.elems[-1]) if t.elems else 0
                a = self.align(t)
                t._size = (end + a - 1) // a * a
            else:
                raise Unsupported('size %r' % t)
        return t._size

    def offsets(self, t):
        if t._offs is None:
            o, r = 0, []
            for e in t.elems:
                if not t.packed:
                    a = self.align(e)
                    o = (o + a - 1) // a * a
                r.append(o)
                o += self.size(e)
            t._offs = r
        return t._offs

    def leaves(self, t):
        """[(offset, Ty)] scalar leaves; arrays of i8 inside structs are padding."""
        if t._leaves is None:
            if t.k in ('i', 'f', 'p'):
                t._leaves = [(0, t)]
            elif t.k in ('a', 'vec'):
                if t.t.k == 'i' and t.t.n == 8:
                    t._leaves = []
                else:
                    s = self.size(t.t)
                    t._leaves = [(i * s + o, l) for i in range(t.n) for o, l in self.leaves(t.t)]
            elif t.k == 's':
                if t.name == 'struct.vc_seq_storage':
                    t._leaves = [(0, Ty('seq', 64))]
                else:
                    t._leaves = [(b + o, l) for b, e in zip(self.offsets(t), t.elems) for o, l in self.leaves(e)]
            else:
                raise Unsupported('leaves %r' % t)
        return t._leaves

    # parsing
    def parse(self, text):
        lines = text.split('\n')
        i, n = 0, len(lines)
        pend_globals = []
        while i < n:
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                p = P(tokenize(l), self)
                name = p.next()[1:].strip('"')
                p.expect('=')
                p.expect('type')
                ty = self.named(name)
                if p.accept('opaque'):
                    pass
                else:
                    b = p.type()
                    ty.elems, ty.packed = b.elems, b.packed
            elif l.startswith('@'):
                pend_globals.append(l)
            elif l.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.parse_func(lines, i, j)
                i = j
            elif l.startswith('declare'):
                p = P(tokenize(l), self)
                self.parse_header(p, self.decls)
            i += 1
        for l in pend_globals:
            self.parse_global(l)
        for f in self.funcs.values():
            self.find_loops(f)

    def parse_global(self, l):
        p = P(tokenize(l), self)
        name = p.next()[1:].strip('"')
        p.expect('=')
        ext = False
        const = False
        while True:
            x = p.next()
            if x in ('external', 'extern_weak'):
                ext = True
            elif x in ('global', 'constant'):
                const = x == 'constant'
                break
            elif x == 'alias':
                self.globals[name] = ('alias', p.t[-1][1:].strip('"'))
                return
            elif x in ('thread_local', 'addrspace'):
                raise Unsupported('global ' + x)
        ty = p.type()
        init = None
        if not ext:
            init = p.value(ty)
        g = Global(name, ty, init, const, ext)
        if name == 'llvm.global_ctors':
            for e in init.vals:
                self.ctors.append((e.vals[0], e.vals[1].n))
            return
        self.globals[name] = g

    def parse_header(self, p, into):
        p.next()
        while p.peek() and not (p.peek() in ('void', 'ptr', 'float', 'double', '{', '<', '[') or re.fullmatch(r'i\d+', p.peek()) or p.peek()[0] == '%'):
            x = p.next()
            if x in ('align', 'dereferenceable', 'dereferenceable_or_null'):
                if p.accept('('):
                    while p.next() != ')':
                        pass
                else:
                    p.next()
        ret = p.type()
        name = p.next()
        assert name[0] == '@', name
        name = name[1:].strip('"')
        p.expect('(')
        params = []
        k = 0
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    p.expect(')')
                    params.append((None, '...', {}))
                    break
                t = p.type()
                a = p.skip_attrs()
                nm = str(k)
                if p.peek() and p.peek()[0] == '%':
                    nm = p.next()[1:].strip('"')
                params.append((t, nm, a))
                k += 1
                if p.accept(','):
                    continue
                p.expect(')')
                break
        f = Func(name, ret, params)
        into[name] = f
        return f

    def parse_func(self, lines, i, j):
        p = P(tokenize(lines[i]), self)
        f = self.parse_header(p, self.funcs)
        np = sum(1 for t, _, _ in f.params if t is not None)
        cur = str(np)
        f.entry = cur
        f.blocks[cur] = []
        f.order.append(cur)
        k = i + 1
        while k < j:
            l = lines[k]
            k += 1
            if not l.strip():
                continue
            if l[0] != ' ':
                m = re.match(r'^("[^"]*"|[-\w.$]+):', l)
                lab = m.group(1).strip('"')
                if not f.blocks[cur] and cur == f.entry and len(f.order) == 1:
                    del f.blocks[cur]
                    f.order.pop()
                    f.entry = lab
                cur = lab
                f.blocks[cur] = []
                f.order.append(cur)
                continue
            s = l
            if re.match(r'\s+switch ', l):
                while ']' not in s:
                    s += ' ' + lines[k]
                    k += 1
            ins = self.parse_instr(P(tokenize(s), self), k)
            if ins is not None:
                f.blocks[cur].append(ins)
                if ins.op in ('br', 'switch') and len(ins.x if ins.op == 'br' else [0, 0]) > 1:
                    f.has_branch = True

    def parse_instr(self, p, line):
        res = None
        if p.peek()[0] == '%' and p.peek(1) == '=':
            res = p.next()[1:].strip('"')
            p.next()
        op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()

        def flags(*ok):
            s = set()
            while p.peek() in ok:
                s.add(p.next())
            return s
        if op == 'alloca':
            t = p.type()
            return Instr(op, res, t, [], None, line)
        if op == 'load':
            flags('volatile')
            t = p.type()
            p.expect(',')
            p.type()
            return Instr(op, res, t, [p.value(self.PTR)], None, line)
        if op == 'store':
            flags('volatile')
            t, v = p.tvalue()
            p.expect(',')
            p.type()
            return Instr(op, None, t, [v, p.value(self.PTR)], None, line)
        if op == 'getelementptr':
            flags('inbounds', 'nuw', 'nusw')
            t = p.type()
            p.expect(',')
            p.type()
            b = p.value(self.PTR)
            idx = []
            while p.accept(','):
                it = p.type()
                idx.append((it, p.value(it)))
            return Instr(op, res, t, [b], idx, line)
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            fl = flags('nsw', 'nuw', 'exact', 'disjoint')
            t = p.type()
            a = p.value(t)
            p.expect(',')
            return Instr(op, res, t, [a, p.value(t)], fl, line)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            t = p.type()
            a = p.value(t)
            p.expect(',')
            return Instr(op, res, t, [a, p.value(t)], None, line)
        if op == 'fneg':
            t = p.type()
            return Instr(op, res, t, [p.value(t)], None, line)
        if op in ('icmp', 'fcmp'):
            pred = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            return Instr(op, res, t, [a, p.value(t)], pred, line)
        if op in ('sext', 'zext', 'trunc', 'fptrunc', 'fpext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            flags('nneg', 'nuw', 'nsw')
            t = p.type()
            a = p.value(t)
            if op == 'freeze':
                return Instr(op, res, t, [a], t, line)
            p.expect('to')
            return Instr(op, res, p.type(), [a], t, line)
        if op == 'br':
            if p.accept('label'):
                return Instr(op, None, None, [], [p.next()[1:].strip('"')], line)
            t = p.type()
            c = p.value(t)
            p.expect(',')
            p.expect('label')
            a = p.next()[1:].strip('"')
            p.expect(',')
            p.expect('label')
            b = p.next()[1:].strip('"')
            return Instr(op, None, None, [c], [a, b], line)
        if op == 'switch':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.expect('label')
            d = p.next()[1:].strip('"')
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ct = p.type()
                cv = p.value(ct)
                p.expect(',')
                p.expect('label')
                cases.append((cv, p.next()[1:].strip('"')))
            return Instr(op, None, t, [v], (d, cases), line)
        if op == 'ret':
            t = p.type()
            if t.k == 'void':
                return Instr(op, None, t, [], None, line)
            return Instr(op, None, t, [p.value(t)], None, line)
        if op == 'unreachable':
            return Instr(op, None, None, [], None, line)
        if op == 'phi':
            t = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(t)
                p.expect(',')
                inc.append((v, p.next()[1:].strip('"')))
                p.expect(']')
                if not p.accept(','):
                    break
            return Instr(op, res, t, [], inc, line)
        if op == 'select':
            _, c = p.tvalue()
            p.expect(',')
            t, a = p.tvalue()
            p.expect(',')
            _, b = p.tvalue()
            return Instr(op, res, t, [c, a, b], None, line)
        if op in ('extractvalue',):
            t, v = p.tvalue()
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            return Instr(op, res, t, [v], idx, line)
        if op == 'insertvalue':
            t, v = p.tvalue()
            p.expect(',')
            t2, v2 = p.tvalue()
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            return Instr(op, res, t, [v, v2], idx, line)
        if op == 'extractelement':
            t, v = p.tvalue()
            p.expect(',')
            _, ix = p.tvalue()
            return Instr(op, res, t, [v, ix], None, line)
        if op == 'insertelement':
            t, v = p.tvalue()
            p.expect(',')
            _, v2 = p.tvalue()
            p.expect(',')
            _, ix = p.tvalue()
            return Instr(op, res, t, [v, v2, ix], None, line)
        if op == 'call':
            while p.peek() in PARAM_ATTR or p.peek() in ('align', 'dereferenceable', 'dereferenceable_or_null'):
                if p.peek() in PARAM_ATTR:
                    p.next()
                else:
                    p.next()
                    if p.accept('('):
                        while p.next() != ')':
                            pass
                    else:
                        p.next()
            t = p.type()
            if p.peek() == '(':          # vararg function type
                d = 0
                while True:
                    x = p.next()
                    d += (x == '(') - (x == ')')
                    if d == 0:
                        break
            if p.peek() == 'asm':
                raise Unsupported('inline asm')
            callee = p.value(self.PTR)
            p.expect('(')
            args = []
            if not p.accept(')'):
                while True:
                    at = p.type()
                    aa = p.skip_attrs()
                    args.append((at, p.value(at), aa))
                    if p.accept(','):
                        continue
                    p.expect(')')
                    break
            return Instr(op, res, t, args, callee, line)
        if op in ('invoke', 'landingpad', 'resume'):
            raise Unsupported('exceptions')
        raise Unsupported('IR instruction ' + op)

    # natural loops
    def find_loops(self, f):
        succ = {}
        for b, ins in f.blocks.items():
            t = ins[-1]
            if t.op == 'br':
                succ[b] = list(t.x)
            elif t.op == 'switch':
                succ[b] = [t.x[0]] + [c[1] for c in t.x[1]]
            else:
                succ[b] = []
        pred = {b: [] for b in f.blocks}
        for b, ss in succ.items():
            for s in ss:
                pred[s].append(b)
        # back edges by DFS
        color, back = {}, []
        st = [(f.entry, iter(succ[f.entry]))]
        color[f.entry] = 1
        while st:
            b, it = st[-1]
            for s in it:
                if color.get(s) == 1:
                    back.append((b, s))
                elif s not in color:
                    color[s] = 1
                    st.append((s, iter(succ[s])))
                    break
            else:
                color[b] = 2
                st.pop()
        loops = {}
        for b, h in back:
            body = loops.setdefault(h, {h})
            w = [b]
            while w:
                x = w.pop()
                if x not in body:
                    body.add(x)
                    w.extend(pred[x])
        f.loops = loops
