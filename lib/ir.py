"""Reader for textual LLVM 18 IR (opaque pointers) and its debug-info type metadata.

The checks analyse the program that clang produces from /repo's sources: this module turns the
`.ll` text into functions, blocks and instructions, and the DWARF-style metadata into struct
layouts (member name -> offset, size) and enumerator values, so that the rules can be stated
with the names the source uses.
"""
import re
import struct as _struct

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<cmt>;.*$)
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"(?:[^"])*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"(?:[^"])*"|[-a-zA-Z$._0-9]+))
 | (?P<md>!(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)?)
 | (?P<attr>\#[0-9]+)
 | (?P<num>-?(?:0x[KMLHR]?[0-9A-Fa-f]+|[0-9]+(?:\.[0-9]*(?:[eE][-+]?[0-9]+)?)?))
 | (?P<ell>\.\.\.)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
 | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    m = TOK.match
    while pos < n:
        r = m(s, pos)
        if not r:
            raise SyntaxError('cannot tokenize: ' + s[pos:pos + 60] + ' in ' + s[:200])
        pos = r.end()
        k = r.lastgroup
        if k == 'ws' or k == 'cmt':
            continue
        out.append((k, r.group()))
    return out


# ---------------------------------------------------------------- types
class T:
    __slots__ = ('k', 'w', 'n', 'el', 'size', 'align', 'offs', 'packed')

    def __init__(self, k):
        self.k = k
        self.w = 0
        self.n = 0
        self.el = None
        self.size = 0
        self.align = 1
        self.offs = None
        self.packed = False

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.w
        if self.k == 'array':
            return '[%d x %r]' % (self.n, self.el)
        if self.k == 'struct':
            return '{%s}' % ','.join(map(repr, self.el))
        return self.k


def _int(w):
    t = T('int')
    t.w = w
    t.size = max(1, (w + 7) // 8)
    p = 1
    while p < t.size:
        p *= 2
    t.size = p if w > 8 else 1
    t.align = min(t.size, 8) if w <= 64 else 16
    return t


INTS = {}


def int_t(w):
    if w not in INTS:
        INTS[w] = _int(w)
    return INTS[w]


PTR = T('ptr')
PTR.size = PTR.align = 8
PTR.w = 64
VOID = T('void')
DOUBLE = T('double')
DOUBLE.size = DOUBLE.align = 8
DOUBLE.w = 64
FLOAT = T('float')
FLOAT.size = FLOAT.align = 4
FLOAT.w = 32
LABEL = T('label')
METADATA = T('metadata')
X80 = T('x86_fp80')
X80.size = X80.align = 16
X80.w = 80
SIMPLE = {'ptr': PTR, 'void': VOID, 'double': DOUBLE, 'float': FLOAT, 'label': LABEL,
          'metadata': METADATA, 'x86_fp80': X80}


def layout(t):
    if t.k == 'struct':
        off = 0
        al = 1
        t.offs = []
        for e in t.el:
            a = 1 if t.packed else e.align
            off = (off + a - 1) // a * a
            t.offs.append(off)
            off += e.size
            al = max(al, a)
        t.align = al
        t.size = (off + al - 1) // al * al
    elif t.k == 'array':
        t.size = t.n * t.el.size
        t.align = t.el.align
    return t


class Undef:
    def __repr__(self):
        return 'undef'


class GRef:
    """address of a global (+ constant byte offset)"""
    __slots__ = ('name', 'off')

    def __init__(self, name, off=0):
        self.name = name
        self.off = off

    def __repr__(self):
        return '@%s+%d' % (self.name, self.off)


class Agg:
    __slots__ = ('vals', 'ty')

    def __init__(self, ty, vals):
        self.ty = ty
        self.vals = vals


class Bytes:
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b


class FConst:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'f%r' % self.v


UNDEF = Undef()
ZERO_AGG = 'zeroinitializer'

PARAM_ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone',
               'signext', 'zeroext', 'inreg', 'returned', 'immarg', 'noreturn', 'nounwind',
               'allocptr', 'nest', 'swiftself', 'nofree', 'allocalign', 'fast', 'nnan', 'ninf', 'nsz',
               'arcp', 'contract', 'afn', 'reassoc', 'dead_on_unwind', 'writable', 'dead_on_return', 'noext', 'swifterror', 'local_unnamed_addr', 'unnamed_addr', 'noinline'}
PARAM_ATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype',
                   'byref', 'preallocated', 'range'}


class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'dbg', 'x', 'text', 'idx', 'blk')

    def __init__(self, op, res):
        self.op = op
        self.res = res
        self.ty = None
        self.a = ()
        self.x = None
        self.dbg = None
        self.text = None
        self.idx = 0
        self.blk = None

    def __repr__(self):
        return self.text or self.op


class Block:
    __slots__ = ('name', 'phis', 'insts', 'fn', 'idx')

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn
        self.phis = []
        self.insts = []
        self.idx = 0

    def succs(self):
        t = self.insts[-1]
        if t.op == 'br':
            return [t.a[0]] if t.x is None else [t.a[0], t.a[1]]
        if t.op == 'switch':
            return [t.a[0]] + [b for _, b in t.a[1]]
        return []


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []
        self.ptypes = []
        self.ret = VOID
        self.blocks = {}
        self.order = []
        self.decl = False
        self.vararg = False
        self.dbg = None
        self.internal = False

    @property
    def entry(self):
        return self.order[0]

    def insts(self):
        for b in self.order:
            for i in b.phis:
                yield i
            for i in b.insts:
                yield i

    def calls(self):
        for b in self.order:
            for i in b.insts:
                if i.op == 'call':
                    yield i


class Global:
    def __init__(self, name, ty, init, const):
        self.name = name
        self.ty = ty
        self.init = init
        self.const = const


class P:
    """token cursor"""
    __slots__ = ('t', 'i', 'm')

    def __init__(self, m, toks):
        self.m = m
        self.t = toks
        self.i = 0

    def peek(self):
        return self.t[self.i][1] if self.i < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        r = self.t[self.i][1]
        self.i += 1
        return r

    def accept(self, s):
        if self.i < len(self.t) and self.t[self.i][1] == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        x = self.next()
        if x != s:
            raise SyntaxError('expected %s got %s in %s' % (s, x, ' '.join(y for _, y in self.t)))

    # -- types
    def type(self):
        k, s = self.t[self.i]
        self.i += 1
        if k == 'word':
            if s in SIMPLE:
                t = SIMPLE[s]
            elif s[0] == 'i' and s[1:].isdigit():
                t = int_t(int(s[1:]))
            elif s == 'opaque':
                t = T('opaque')
            else:
                raise SyntaxError('type? ' + s + ' in ' + ' '.join(y for _, y in self.t))
        elif k == 'loc':
            t = self.m.named(s[1:])
        elif s == '[':
            n = int(self.next())
            self.expect('x')
            el = self.type()
            self.expect(']')
            t = T('array')
            t.n = n
            t.el = el
            layout(t)
        elif s == '{':
            t = T('struct')
            t.el = []
            if not self.accept('}'):
                while True:
                    t.el.append(self.type())
                    if self.accept('}'):
                        break
                    self.expect(',')
            layout(t)
        elif s == '<':
            if self.accept('{'):
                t = T('struct')
                t.packed = True
                t.el = []
                if not self.accept('}'):
                    while True:
                        t.el.append(self.type())
                        if self.accept('}'):
                            break
                        self.expect(',')
                self.expect('>')
                layout(t)
            else:
                n = int(self.next())
                self.expect('x')
                el = self.type()
                self.expect('>')
                t = T('vector')
                t.n = n
                t.el = el
                t.size = n * el.size
                t.align = t.size
        else:
            raise SyntaxError('type? ' + s)
        # function type:  T (T, T, ...)
        if self.peek() == '(':
            save = self.i
            self.i += 1
            depth = 1
            while depth:
                x = self.next()
                if x == '(':
                    depth += 1
                elif x == ')':
                    depth -= 1
            # keep it only if it is the type of a call (followed by a callee)
            if self.peek() is None or self.kind() not in ('glob', 'loc'):
                self.i = save
        return t

    def attrs(self):
        while True:
            k = self.kind()
            s = self.peek()
            if k == 'word' and s in PARAM_ATTRS:
                self.i += 1
            elif k == 'word' and s in PARAM_ATTRS_ARG:
                self.i += 1
                if s == 'align' and self.kind() == 'num':
                    self.i += 1
                elif self.peek() == '(':
                    self.skip_paren()
            elif k == 'attr':
                self.i += 1
            else:
                return

    def skip_paren(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    # -- values. registers are returned as str, everything else as a python object
    def value(self, ty):
        k, s = self.t[self.i]
        self.i += 1
        if k == 'loc':
            return s[1:].strip('"')
        if k == 'num':
            if ty.k in ('double', 'float', 'x86_fp80'):
                return FConst(parse_float(s))
            v = int(s)
            return v
        if k == 'glob':
            return GRef(s[1:].strip('"'))
        if k == 'str':
            return Bytes(unescape(s[2:-1]))
        if s == 'null':
            return 0
        if s == 'true':
            return 1
        if s == 'false':
            return 0
        if s in ('undef', 'poison'):
            return UNDEF
        if s == 'zeroinitializer':
            return ZERO_AGG if ty.k in ('struct', 'array', 'vector') else 0
        if s == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw'):
                self.i += 1
            if self.peek() == 'inrange':
                self.i += 1
                self.skip_paren()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            self.type()
            base = self.value(PTR)
            idx = []
            while self.accept(','):
                it = self.type()
                idx.append(self.value(it))
            self.expect(')')
            off = const_gep(bt, idx)
            if isinstance(base, GRef):
                return GRef(base.name, base.off + off)
            return base + off
        if s in ('inttoptr', 'ptrtoint', 'bitcast'):
            self.expect('(')
            t2 = self.type()
            v = self.value(t2)
            self.expect('to')
            self.type()
            self.expect(')')
            return v
        if s in ('{', '[', '<'):
            close = {'{': '}', '[': ']', '<': '>'}[s]
            packed = False
            if s == '<' and self.peek() == '{':
                self.i += 1
                packed = True
                close = '}'
            vals = []
            if not self.accept(close):
                while True:
                    t2 = self.type()
                    vals.append((t2, self.value(t2)))
                    if self.accept(close):
                        break
                    self.expect(',')
            if packed:
                self.expect('>')
            return Agg(ty, vals)
        raise SyntaxError('value? ' + s + ' in ' + ' '.join(y for _, y in self.t))


def parse_float(s):
    if s.startswith('0x'):
        h = s[2:]
        if h[0] in 'KMLHR':
            return float('nan')
        return _struct.unpack('>d', _struct.pack('>Q', int(h, 16)))[0]
    return float(s)


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def const_gep(bt, idx):
    off = idx[0] * bt.size if idx else 0
    t = bt
    for i in idx[1:]:
        if t.k == 'struct':
            off += t.offs[i]
            t = t.el[i]
        else:
            off += i * t.el.size
            t = t.el
    return off


BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi',
        'fptoui', 'fpext', 'fptrunc', 'addrspacecast'}


class Module:
    def __init__(self, text):
        self.types = {}
        self._typelines = {}
        self.globals = {}
        self.funcs = {}
        self.mdtext = {}
        self._md = {}
        self._named_pending = {}
        self.aliases = {}
        self._parse(text)
        self._di_structs = None
        self.aliases = {}           # struct -> {member: the name the rules know it under}
        self.enum_alias = {}
        self._fn_meta = {}

    # -- named types are resolved lazily
    def named(self, n):
        n = n.strip('"')
        if n in self.types:
            t = self.types[n]
            if t.k == 'fwd':
                raise SyntaxError('recursive by-value type ' + n)
            return t
        line = self._typelines.get(n)
        fwd = T('fwd')
        self.types[n] = fwd
        if line is None or line.strip() == 'opaque':
            t = T('opaque')
        else:
            t = P(self, tokenize(line)).type()
        self.types[n] = t
        return t

    def _parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        fn_ranges = []
        globs = []
        while i < n:
            l = lines[i]
            if not l:
                i += 1
                continue
            c = l[0]
            if c == '!':
                eq = l.find(' = ')
                if eq > 0:
                    self.mdtext[l[1:eq]] = l[eq + 3:]
            elif c == '%':
                eq = l.find(' = type ')
                self._typelines[l[1:eq].strip('"')] = l[eq + 8:]
            elif c == '@':
                globs.append(l)
            elif l.startswith('define'):
                j = i
                while lines[j] != '}':
                    j += 1
                fn_ranges.append((i, j))
                i = j
            elif l.startswith('declare'):
                self._parse_header(l, True)
            i += 1
        for l in globs:
            self._parse_global(l)
        for a, b in fn_ranges:
            f = self._parse_header(lines[a], False)
            self._parse_body(f, lines[a + 1:b])

    def _parse_global(self, l):
        p = P(self, tokenize(l))
        name = p.next()[1:].strip('"')
        p.expect('=')
        const = False
        ext = False
        while True:
            s = p.peek()
            if s == 'constant':
                const = True
                p.i += 1
                break
            if s == 'global':
                p.i += 1
                break
            if s == 'alias':
                return
            if s == 'external':
                ext = True
            p.i += 1
        ty = p.type()
        init = None
        if not ext and p.peek() not in (None, ','):
            init = p.value(ty)
        self.globals[name] = Global(name, ty, init, const)

    def _parse_header(self, l, decl):
        body = l
        dbg = None
        m = re.search(r' !dbg !(\d+)', l)
        if m:
            dbg = m.group(1)
        m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
        name = m.group(1).strip('"')
        f = Func(name)
        f.decl = decl
        f.dbg = dbg
        pre = tokenize(l[:m.start()])
        p = P(self, pre)
        p.i = 1
        f.internal = any(t[1] == 'internal' for t in pre)
        while p.kind() == 'word' and p.peek() not in SIMPLE and not re.match(r'i\d+$', p.peek()):
            if p.peek() in PARAM_ATTRS_ARG:
                p.attrs()
            else:
                p.i += 1
        f.ret = p.type()
        q = P(self, tokenize(l[m.end() - 1:].split(' !dbg')[0].rstrip('{ ')))
        q.expect('(')
        k = 0
        if not q.accept(')'):
            while True:
                if q.accept('...'):
                    f.vararg = True
                    q.expect(')')
                    break
                t = q.type()
                q.attrs()
                nm = None
                if q.kind() == 'loc':
                    nm = q.next()[1:].strip('"')
                else:
                    nm = str(k)
                k += 1
                f.params.append(nm)
                f.ptypes.append(t)
                if q.accept(')'):
                    break
                q.expect(',')
        if name not in self.funcs or self.funcs[name].decl:
            self.funcs[name] = f
        return f

    def _parse_body(self, f, lines):
        cur = None
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            i += 1
            s = l.strip()
            if not s or s[0] == ';':
                continue
            if l[0] != ' ':
                m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', l)
                nm = m.group(1).strip('"')
                cur = Block(nm, f)
                f.blocks[nm] = cur
                f.order.append(cur)
                continue
            if 'call void @llvm.dbg.' in s or 'call void @llvm.lifetime' in s:
                continue
            if s.startswith('switch '):
                while not lines[i - 1].strip().startswith(']'):
                    s += ' ' + lines[i].strip()
                    i += 1
            if cur is None:
                cur = Block('entry', f)
                f.blocks['entry'] = cur
                f.order.append(cur)
            inst = self._parse_inst(s)
            inst.blk = cur
            if inst.op == 'phi':
                cur.phis.append(inst)
            else:
                inst.idx = len(cur.insts)
                cur.insts.append(inst)
        for k, b in enumerate(f.order):
            b.idx = k

    def _parse_inst(self, s):
        dbg = None
        k = s.find(', !dbg !')
        if k >= 0:
            m = re.match(r'\d+', s[k + 8:])
            dbg = m.group()
            core = s[:k]
        else:
            k = s.find(', !')
            core = s if k < 0 else s[:k]
        core = re.sub(r', !(llvm\.loop|srcloc|range|prof|nosanitize|tbaa) !\d+', '', core)
        p = P(self, tokenize(core))
        res = None
        if p.kind() == 'loc' and len(p.t) > 1 and p.t[1][1] == '=':
            res = p.next()[1:].strip('"')
            p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        it = Inst(op, res)
        it.dbg = dbg
        it.text = core
        if op == 'br':
            if p.accept('label'):
                it.a = (p.next()[1:].strip('"'),)
            else:
                p.type()
                it.x = (p.value(int_t(1)),)
                p.expect(',')
                p.expect('label')
                t = p.next()[1:].strip('"')
                p.expect(',')
                p.expect('label')
                e = p.next()[1:].strip('"')
                it.a = (t, e)
        elif op == 'switch':
            ty = p.type()
            v = p.value(ty)
            p.expect(',')
            p.expect('label')
            d = p.next()[1:].strip('"')
            p.expect('[')
            cases = []
            while not p.accept(']'):
                t2 = p.type()
                c = p.value(t2)
                p.expect(',')
                p.expect('label')
                cases.append((c, p.next()[1:].strip('"')))
            it.x = (v,)
            it.ty = ty
            it.a = (d, cases)
        elif op == 'ret':
            ty = p.type()
            it.ty = ty
            if ty.k != 'void':
                it.x = (p.value(ty),)
            else:
                it.x = ()
        elif op == 'unreachable':
            it.x = ()
        elif op == 'phi':
            while p.peek() in PARAM_ATTRS:
                p.i += 1
            ty = p.type()
            it.ty = ty
            inc = {}
            while True:
                p.expect('[')
                v = p.value(ty)
                p.expect(',')
                b = p.next()[1:].strip('"')
                p.expect(']')
                inc[b] = v
                if not p.accept(','):
                    break
            it.a = inc
        elif op in BIN:
            flags = []
            while p.kind() == 'word' and p.peek() in ('nsw', 'nuw', 'exact', 'fast', 'nnan', 'ninf', 'nsz',
                                                      'arcp', 'contract', 'afn', 'reassoc', 'disjoint'):
                flags.append(p.next())
            it.ty = p.type()
            a = p.value(it.ty)
            p.expect(',')
            b = p.value(it.ty)
            it.x = (a, b)
            it.a = flags
        elif op == 'fneg':
            p.attrs()
            it.ty = p.type()
            it.x = (p.value(it.ty),)
        elif op in ('icmp', 'fcmp'):
            while p.peek() in PARAM_ATTRS or p.peek() == 'samesign':
                p.i += 1
            pred = p.next()
            ty = p.type()
            a = p.value(ty)
            p.expect(',')
            b = p.value(ty)
            it.ty = ty
            it.x = (a, b)
            it.a = pred
        elif op in CAST:
            if p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            t1 = p.type()
            v = p.value(t1)
            p.expect('to')
            t2 = p.type()
            it.ty = t2
            it.x = (v,)
            it.a = t1
        elif op == 'load':
            p.accept('volatile')
            it.ty = p.type()
            p.expect(',')
            p.type()
            it.x = (p.value(PTR),)
        elif op == 'store':
            p.accept('volatile')
            it.ty = p.type()
            v = p.value(it.ty)
            p.expect(',')
            p.type()
            ptr = p.value(PTR)
            it.x = (v, ptr)
        elif op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.i += 1
            bt = p.type()
            p.expect(',')
            p.type()
            base = p.value(PTR)
            idx = []
            while p.accept(','):
                t2 = p.type()
                idx.append(p.value(t2))
            it.ty = PTR
            # split into constant offset and scaled dynamic parts
            off = 0
            dyn = []
            t = None
            for n, ix in enumerate(idx):
                if n == 0:
                    sc = bt.size
                    t = bt
                elif t.k == 'struct':
                    off += t.offs[ix]
                    t = t.el[ix]
                    continue
                else:
                    sc = t.el.size
                    t = t.el
                if isinstance(ix, int):
                    off += ix * sc
                else:
                    dyn.append((sc, ix))
            it.x = tuple([base] + [d for _, d in dyn])
            it.a = (off, [sc for sc, _ in dyn], bt)
        elif op == 'alloca':
            it.ty = p.type()
            n = 1
            if p.accept(',') and p.peek() != 'align':
                t2 = p.type()
                n = p.value(t2)
            it.x = (n,)
        elif op == 'select':
            p.attrs()
            p.type()
            c = p.value(int_t(1))
            p.expect(',')
            it.ty = p.type()
            a = p.value(it.ty)
            p.expect(',')
            p.type()
            b = p.value(it.ty)
            it.x = (c, a, b)
        elif op == 'extractvalue':
            t = p.type()
            v = p.value(t)
            ix = []
            while p.accept(','):
                ix.append(int(p.next()))
            it.x = (v,)
            it.a = ix
            for k2 in ix:
                t = t.el[k2] if t.k == 'struct' else t.el
            it.ty = t
        elif op == 'insertvalue':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            t2 = p.type()
            w = p.value(t2)
            ix = []
            while p.accept(','):
                ix.append(int(p.next()))
            it.ty = t
            it.x = (v, w)
            it.a = ix
        elif op == 'freeze':
            it.ty = p.type()
            it.x = (p.value(it.ty),)
        elif op == 'va_arg':
            p.type()
            it.x = (p.value(PTR),)
            p.expect(',')
            it.ty = p.type()
        elif op == 'call':
            while p.kind() == 'word' and (p.peek() in PARAM_ATTRS or p.peek() in PARAM_ATTRS_ARG or
                                          p.peek() in ('fastcc', 'ccc')):
                p.attrs() if p.peek() in PARAM_ATTRS or p.peek() in PARAM_ATTRS_ARG else p.next()
            it.ty = p.type()
            if p.peek() == '(':
                p.skip_paren()
            callee = p.value(PTR)
            p.expect('(')
            args = []
            tys = []
            if not p.accept(')'):
                while True:
                    t2 = p.type()
                    if t2.k == 'metadata':
                        # not interpreted
                        d = 0
                        while not (d == 0 and p.peek() in (',', ')')):
                            x = p.next()
                            d += (x in '([{') - (x in ')]}')
                        args.append(UNDEF)
                        tys.append(t2)
                    else:
                        p.attrs()
                        args.append(p.value(t2))
                        tys.append(t2)
                    if p.accept(')'):
                        break
                    p.expect(',')
            it.x = tuple([callee] + args)
            it.a = tys
        else:
            raise SyntaxError('instruction? ' + s)
        return it

    # ------------------------------------------------------------ metadata
    def md(self, ref):
        """parsed metadata node: dict of fields, or list for !{...}"""
        ref = ref.lstrip('!')
        if ref in self._md:
            return self._md[ref]
        t = self.mdtext.get(ref)
        if t is None:
            return None
        if t.startswith('distinct '):
            t = t[9:]
        if t.startswith('!{'):
            r = [x.strip() for x in t[2:-1].split(',')] if t != '!{}' else []
        else:
            m = re.match(r'!(DI\w+)\((.*)\)$', t)
            r = {'_': m.group(1)} if m else {'_': t}
            if m:
                for fm in re.finditer(r'(\w+): ("(?:[^"\\]|\\.)*"|!\d+|[^,()]+(?:\([^)]*\))?)', m.group(2)):
                    v = fm.group(2)
                    if v[0] == '"':
                        v = v[1:-1]
                    r[fm.group(1)] = v
        self._md[ref] = r
        return r

    def line(self, inst):
        if inst is None or inst.dbg is None:
            return None
        d = self.md(inst.dbg)
        return int(d.get('line', 0)) if d else None

    def fn_file(self, name):
        f = self.funcs.get(name)
        if not f or not f.dbg:
            return '?'
        d = self.md(f.dbg)
        fl = self.md(d['file']) if d and 'file' in d else None
        return (fl or {}).get('filename', '?')

    def fn_line(self, name):
        f = self.funcs.get(name)
        if not f or not f.dbg:
            return 0
        return int(self.md(f.dbg).get('line', 0))

    def _strip(self, ref):
        """follow typedefs / qualifiers to the composite or basic type"""
        while ref and ref != 'null':
            d = self.md(ref)
            if d['_'] == 'DIDerivedType' and d.get('tag') in ('DW_TAG_typedef', 'DW_TAG_const_type',
                                                              'DW_TAG_volatile_type', 'DW_TAG_restrict_type'):
                ref = d.get('baseType')
                continue
            return ref, d
        return None, None

    def _build_di(self):
        self._di_structs = {}
        self._di_names = {}         # every copy of a struct (one per source file may exist) -> its names
        self._enums = {}
        self._typedef_struct = {}
        for ref, t in self.mdtext.items():
            if 'DICompositeType' in t:
                d = self.md(ref)
                if d.get('tag') in ('DW_TAG_structure_type', 'DW_TAG_union_type') and 'elements' in d:
                    if 'name' in d:
                        self._di_structs.setdefault(d['name'], ref)
                        self._di_names.setdefault(ref, []).append(d['name'])
            elif 'DIEnumerator' in t:
                d = self.md(ref)
                self._enums[d['name']] = int(d['value'])
        for ref, t in self.mdtext.items():
            if 'DW_TAG_typedef' in t:
                d = self.md(ref)
                r2, d2 = self._strip(d.get('baseType'))
                if d2 and d2.get('tag') in ('DW_TAG_structure_type', 'DW_TAG_union_type') and 'elements' in d2:
                    self._di_structs.setdefault(d['name'], r2)
                    self._di_names.setdefault(r2, []).append(d['name'])

    def enum(self, name):
        if self._di_structs is None:
            self._build_di()
        return self._enums[name]

    def enums(self):
        if self._di_structs is None:
            self._build_di()
        return self._enums

    def enum_group(self, member):
        """{name: value} of the enumeration that contains `member`"""
        for ref, t in self.mdtext.items():
            if 'DW_TAG_enumeration_type' in t:
                d = self.md(ref)
                els = self.md(d['elements'])
                names = [self.md(e)['name'] for e in els]
                names = [self.enum_alias.get(n, n) for n in names]
                if member in names:
                    return dict(zip(names, (int(self.md(e)['value']) for e in els)))
        return {}

    def struct(self, name):
        """{'size':n, 'members': {dotted name: (offset, size, typeref)}} anonymous members flattened"""
        if self._di_structs is None:
            self._build_di()
        if name not in self._fn_meta:
            ref = self._di_structs.get(name)
            if ref is None:
                return None
            d = self.md(ref)
            mem = {}
            self._members(ref, 0, '', mem)
            al = self.aliases.get(name)
            if al:
                mem = {al.get(k, k): v for k, v in mem.items()}
            self._fn_meta[name] = {'size': int(d['size']) // 8, 'members': mem}
        return self._fn_meta[name]

    def _members(self, ref, base, prefix, out):
        d = self.md(ref)
        for e in self.md(d['elements']):
            m = self.md(e)
            if m.get('tag') != 'DW_TAG_member':
                continue
            off = base + int(m.get('offset', '0')) // 8
            r2, d2 = self._strip(m.get('baseType'))
            nm = m.get('name')
            if nm:
                out[prefix + nm] = (off, int(m.get('size', '0')) // 8, m.get('baseType'))
            if d2 and d2.get('tag') in ('DW_TAG_structure_type', 'DW_TAG_union_type') and 'elements' in d2:
                self._members(r2, off, prefix + (nm + '.' if nm else ''), out)

    def pointee(self, typeref):
        r, d = self._strip(typeref)
        if d and d.get('tag') == 'DW_TAG_pointer_type':
            return d.get('baseType')
        return None

    def type_name(self, typeref):
        """C-like spelling of a metadata type"""
        if typeref is None or typeref == 'null':
            return 'void'
        d = self.md(typeref)
        if d['_'] == 'DIBasicType':
            return d['name']
        if d['_'] == 'DISubroutineType':
            ts = self.md(d['types'])
            return '%s(%s)' % (self.type_name(None if ts[0] == 'null' else ts[0]),
                               ','.join(self.type_name(None if x == 'null' else x) for x in ts[1:]))
        tag = d.get('tag')
        if tag == 'DW_TAG_typedef':
            return d['name']
        if tag == 'DW_TAG_pointer_type':
            return self.type_name(d.get('baseType')) + '*'
        if tag == 'DW_TAG_const_type':
            return 'const ' + self.type_name(d.get('baseType'))
        if tag == 'DW_TAG_array_type':
            return self.type_name(d.get('baseType')) + '[]'
        return d.get('name', tag)

    def fn_sig(self, name):
        """[return type, param types...] by source spelling"""
        f = self.funcs.get(name)
        if not f or not f.dbg:
            return None
        d = self.md(f.dbg)
        t = self.md(d['type'])
        ts = self.md(t['types'])
        return [self.type_name(None if x == 'null' else x) for x in ts]
