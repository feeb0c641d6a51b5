"""What the compiler emits for one construct, and what the machine does with it.

A construct is a tree node whose sub-expressions / sub-statements are opaque: analysing the
compiler's emission function on it yields, per path, the bytes emitted between the (unknown) code
of the children.  The emitted bytes are then given to the machine's transfer function
(lib/vm.py) with arbitrary values for the children.
"""
from tiny import *
from vm import VM


class Gen:
    def __init__(self, T):
        self.T = T
        self.m = T.m
        self.vm = VM(T)
        T.fn('CompileExpr')
        T.fn('CompileStatement')
        self.EXP = {k[len('TINY_EXP_'):]: v for k, v in T.m.enums().items() if k.startswith('TINY_EXP_')}
        self.TOK = {k[len('TINY_TOK_'):]: v for k, v in T.m.enums().items() if k.startswith('TINY_TOK_')}
        self.SYM = {k[len('TINY_SYM_'):]: v for k, v in T.m.enums().items() if k.startswith('TINY_SYM_')}
        self.VT = {k[len('TINY_VAL_'):]: v for k, v in T.m.enums().items() if k.startswith('TINY_VAL_')}
        if not (self.EXP and self.TOK and self.SYM and self.VT):
            raise Missing('enumerations')
        self.prims = {}
        self.eng = None
        self.npaths = 0
        self.nins = 0
        self.reached = set()

    # --------------------------------------------------------- harness
    def prim(self, st, name):
        """the tag symbol of a primitive type"""
        if name not in self.prims:
            e = Engine(self.m)
            r = e.run(self.T.fn('GetPrimTag'), [self.SYM['TAG_' + name]], State())
            self.prims[name] = r[0].val
        return self.prims[name]

    def start(self, residue=0, globals_=()):
        T = self.T
        st = State()
        self.st = st
        self.residue = residue
        self.q = [fresh('q0', 64, 1, 1 << 20)]
        self.state = T.obj(st, 'Tiny_State', 'state')
        base = st.new_obj('code', 'undef')
        self.code = add(base, 16)
        st.store(self.code, 4, 1 << 30, -8)
        self.startpos = add(mul(self.q[0], 8), residue)
        st.store(self.code, 4, self.startpos, -4)
        T.set(st, self.state, 'Tiny_State', 'program', self.code)
        T.set(st, self.state, 'Tiny_State', 'functionPcs', st.new_obj('functionPcs', 'init'))
        T.set(st, self.state, 'Tiny_State', 'foreignFunctions', st.new_obj('foreignFunctions', 'init'))
        lines = T.stretchy(st, 'lines', [], T.size('Tiny_PCToFileLine'))
        T.set(st, self.state, 'Tiny_State', 'pcToFileLine', lines)
        T.set(st, self.state, 'Tiny_State', 'l.fileName', 0)
        self.nonnull_strings()
        T.set(st, self.state, 'Tiny_State', 'numStrings', fresh('numStrings', 32, 0, 1024))
        self.syms = []
        self.opaque = {}
        self.names = {}
        self.nonempty = False
        return st

    def nonnull_strings(self):
        """entries of the string table below its count are strings (an invariant of the table)"""
        o = self.T.off('Tiny_State', 'strings')
        n = self.T.fsize('Tiny_State', 'strings')
        self.strings_range = (o, o + n)

    def string_at(self, st, ix):
        p = add(add(self.state, self.strings_range[0]), ix, 8)
        v = st.load(p, 8)
        st.assume(Cond('eq', v), False)
        return v

    def seal(self):
        """publish the global symbol table"""
        g = self.T.stretchy(self.st, 'globalSymbols', [[(0, 8, s)] for s in self.syms], 8)
        self.T.set(self.st, self.state, 'Tiny_State', 'globalSymbols', g)

    def node(self, ty, name=None, **f):
        T = self.T
        p = T.obj(self.st, 'Tiny_Expr', name or ty.lower(), 'undef')
        self.st.store(p, 4, self.EXP[ty], T.off('Tiny_Expr', 'type'))
        T.set(self.st, p, 'Tiny_Expr', 'pos', 0)
        T.set(self.st, p, 'Tiny_Expr', 'lineNumber', fresh('line', 32, 1, 1 << 20))
        T.set(self.st, p, 'Tiny_Expr', 'next', 0)
        T.set(self.st, p, 'Tiny_Expr', 'tag', 0)
        for k, v in f.items():
            T.set(self.st, p, 'Tiny_Expr', k.replace('__', '.'), v)
        return p

    def child(self, name, kind='expr', **f):
        """opaque sub-expression or sub-statement"""
        T = self.T
        p = T.obj(self.st, 'Tiny_Expr', name, 'init')
        T.set(self.st, p, 'Tiny_Expr', 'next', 0)
        if 'type' not in f:
            if kind == 'stmt':
                f['type'] = self.EXP['CALL']
            else:
                f['type'] = fresh(name + '.type', 32, 0, max(self.EXP.values()))
        for k, v in f.items():
            if v is not None:
                T.set(self.st, p, 'Tiny_Expr', k.replace('__', '.'), v)
        self.opaque[p] = (name, kind)
        return p

    def chain(self, nodes):
        for a, b in zip(nodes, nodes[1:]):
            self.T.set(self.st, a, 'Tiny_Expr', 'next', b)
        return nodes[0] if nodes else 0

    def strnode(self, s, nxt=0):
        T = self.T
        p = T.obj(self.st, 'Tiny_StringNode', 'name_' + s, 'undef')
        T.set(self.st, p, 'Tiny_StringNode', 'value', T.cstr(self.st, s))
        T.set(self.st, p, 'Tiny_StringNode', 'next', nxt)
        return p

    def sym(self, ty, name, **f):
        T = self.T
        p = T.obj(self.st, 'Tiny_Symbol', 'sym_' + name, 'init')
        T.set(self.st, p, 'Tiny_Symbol', 'type', self.SYM[ty] if isinstance(ty, str) else ty)
        T.set(self.st, p, 'Tiny_Symbol', 'name', T.cstr(self.st, name))
        for k, v in f.items():
            T.set(self.st, p, 'Tiny_Symbol', k.replace('__', '.'), v)
        return p

    def symarray(self, name, items):
        return self.T.stretchy(self.st, name, [[(0, 8, s)] for s in items], 8)

    def struct(self, name, fields):
        s = self.sym('TAG_STRUCT', name, sstruct__defined=1)
        fs = [self.sym('FIELD', f, fieldTag=0) for f in fields]
        self.T.set(self.st, s, 'Tiny_Symbol', 'sstruct.fields', self.symarray(name + '.fields', fs))
        return s

    def function(self, name, nargs, foreign=False, varargs=0, index=None):
        idx = index if index is not None else fresh(name + '.index', 32, 0, 1 << 20)
        if foreign:
            s = self.sym('FOREIGN_FUNCTION', name, foreignFunc__index=idx, foreignFunc__varargs=varargs)
            tags = [self.prim(self.st, 'ANY')] * nargs
            self.T.set(self.st, s, 'Tiny_Symbol', 'foreignFunc.argTags',
                       self.symarray(name + '.tags', tags) if nargs else 0)
        else:
            s = self.sym('FUNCTION', name, func__index=idx, func__locals=0)
            args = [self.sym('LOCAL', '%s_a%d' % (name, k), var__index=k - nargs) for k in range(nargs)]
            self.T.set(self.st, s, 'Tiny_Symbol', 'func.args', self.symarray(name + '.args', args) if nargs else 0)
        s.t[0][0].meta['index'] = idx
        return s

    # --------------------------------------------------------- emission
    def emit_child(self, en, st, exp, kind):
        name, k = self.opaque[exp]
        pos = st.load(self.code, 4, -4)
        kids = st.x.get('kids', ())
        n = len(kids)
        while len(self.q) <= n + 1:
            self.q.append(fresh('q%d' % len(self.q), 64, 1, 1 << 20))
        end = add(mul(self.q[n + 1], 8), self.residue)
        if self.nonempty:
            end = add(self.startpos, 800 * (n + 1))
        st.store(self.code, 4, end, -4)
        st.x['kids'] = kids + ((pos, end, name, kind, exp),)
        # whatever the child emits, the byte before its end is not a known one
        return None

    def hooks(self):
        def ce(en, st, a, i):
            if a[1] in self.opaque:
                return self.emit_child(en, st, a[1], 'expr')
            return INLINE

        def cs(en, st, a, i):
            if a[1] in self.opaque:
                return self.emit_child(en, st, a[1], 'stmt')
            return INLINE

        def err(en, st, a, i):
            raise Raise('raise', 'compile error')
        return {'CompileExpr': ce, 'CompileStatement': cs, 'Tiny_FormatErrorV': err}

    def compile(self, fn, root, extra_hooks=None, args=None, visits=40000):
        T = self.T
        h = self.hooks()
        h.update(extra_hooks or {})
        en = Engine(self.m, hooks=h, max_visits=visits, max_steps=2000000)
        en.max_frames = 200

        def indirect(en, s, target, a, inst):
            return self.indirect(en, s, target, a, inst)
        en.indirect = indirect
        self.eng = en
        rs = en.run(fn, args if args is not None else [self.state, root], self.st)
        self.npaths += len(rs)
        self.reached |= en.reached
        return [Emitted(self, r) for r in rs]

    def indirect(self, en, s, target, a, inst):
        at = target.atom()
        if at is not None and at.kind == 'init':
            key, o = at.args
            if any(A(x) is self.state for x, k in key) and o == self.T.off('Tiny_State', 'ctx.alloc'):
                p = a[0] if type(a[0]) is Lin else s.new_obj('heap%d' % E.Atom.n, 'undef')
                s.log('alloc', a[0], a[1], p)
                return p
        s.log('indirect', target, tuple(a))
        return fresh('ret', inst.ty.w or 64)


class Emitted:
    """one path of the compiler over a construct"""

    def __init__(self, g, r):
        self.g = g
        self.r = r
        self.kind = r.kind
        self.st = r.st
        self.kids = r.st.x.get('kids', ())
        if r.kind == 'ret':
            self.end = r.st.load(g.code, 4, -4)

    def byte(self, pos):
        return self.st.load(add(self.g.code, pos), 1)

    def conds(self):
        return self.st.forks

    # ----------------------------------------------------- decoding (the code is well formed)
    def decode(self):
        """list of ('ins', pos, opcode, {(off,size): value}, length) / ('kid', ...) or a problem string"""
        g = self.g
        items = []
        pos = g.startpos
        kids = list(self.kids)
        code_key_base = g.code
        bounds = [k[0] for k in kids] + [self.end]
        for n, stop in enumerate(bounds):
            d = add(stop, pos, -1)
            if type(d) is not int:
                return items, 'code between children has no fixed length (%r..%r)' % (pos, stop)
            res = g.residue + 0
            # residue of pos modulo 8 is known from its constant part
            p = pos
            while True:
                d = add(stop, p, -1)
                if d == 0:
                    break
                if d < 0:
                    return items, 'an instruction overlaps what follows it at %r' % (p,)
                b = self.byte(p)
                if type(b) is not int:
                    return items, 'the byte at %r is not an opcode but %r' % (p, b)
                opc = b & 255
                rr = p.c % 8
                dec = g.vm.decode(opc, rr)
                if dec is None:
                    return items, 'the machine does not execute the emitted byte %d (%s)' % (
                        opc, g.vm.names.get(opc, '?'))
                ops = {}
                for o, sz in dec['operands']:
                    if add(stop, add(p, o + sz), -1) < 0:
                        return items, '%s needs an operand of %d bytes at +%d which is not emitted' % (
                            g.vm.names.get(opc, opc), sz, o)
                    v = self.st.load(add(g.code, add(p, o)), sz)
                    if is_undef(v):
                        return items, '%s reads operand bytes at +%d which were not emitted' % (
                            g.vm.names.get(opc, opc), o)
                    ops[(o, sz)] = v
                ln = None
                if dec['lens']:
                    if len(dec['lens']) != 1:
                        return items, 'the length of %s is ambiguous' % g.vm.names.get(opc, opc)
                    ln = next(iter(dec['lens']))
                else:
                    ln = dec['end']
                if ln <= 0:
                    return items, '%s does not lead past itself' % g.vm.names.get(opc, opc)
                items.append(('ins', p, opc, ops, ln, dec))
                g.nins += 1
                p = add(p, ln)
            if n < len(kids):
                items.append(('kid',) + kids[n])
                pos = kids[n][1]
        return items, None


def is_undef(v):
    if type(v) is int:
        return False
    if isinstance(v, Lin):
        for a, k in v.t:
            if a.kind == 'undef':
                return True
            if a.kind == 'op' and any(is_undef(x) for x in a.args[1:] if isinstance(x, Lin)):
                return True
            if a.kind == 'op' and a.args[0] == 'concat' and any(is_undef(p[0]) for p in a.args[1]):
                return True
    return False


def val_atoms(v, out=None):
    out = set() if out is None else out
    if isinstance(v, Lin):
        for a, k in v.t:
            out.add(a)
            if a.kind == 'op':
                for x in a.args[1:]:
                    val_atoms(x, out)
    elif isinstance(v, tuple):
        for x in v:
            val_atoms(x, out)
    return out


class Sim:
    """the machine over emitted code, children replaced by arbitrary effects"""

    def __init__(self, g, em):
        self.g = g
        self.em = em
        T = g.T
        st = em.st.clone()
        self.thread = T.obj(st, 'Tiny_StateThread', 'thread', 'init')
        th = self.thread
        self.sp = fresh('sp', 32, 20, 60)
        self.fp = fresh('fp', 32, 16, 19)
        self.fc = fresh('fc', 32, 1, 40)
        self.globals = st.new_obj('globals', 'init')
        for k, v in (('state', g.state), ('globalVars', self.globals), ('pc', g.startpos), ('sp', self.sp),
                     ('fp', self.fp), ('fc', self.fc), ('numObjects', 0), ('maxNumObjects', 8)):
            T.set(st, th, 'Tiny_StateThread', k, v)
        # stack bounds are a property of their own: assume room
        self.st0 = st
        self.starts = {}
        for pos, end, name, kind, exp in em.kids:
            self.starts.setdefault(pos, []).append((end, name, kind, exp))
        self.vsize = T.size('Tiny_Value')
        self.voff = T.off('Tiny_Value', 'i')
        self.toff = T.off('Tiny_Value', 'type')
        self.stack_off = T.off('Tiny_StateThread', 'stack')
        self.nsteps = 0

    def slot(self, idx):
        return add(add(self.thread, self.stack_off), idx, self.vsize)

    def read_val(self, st, idx):
        p = self.slot(idx)
        return st.load(p, 1, self.toff), st.load(p, 8, self.voff)

    def push(self, st, ty, payload):
        T = self.g.T
        sp = T.get(st, self.thread, 'Tiny_StateThread', 'sp')
        p = self.slot(sp)
        st.store(p, 8, payload, self.voff)
        st.store(p, 1, ty, self.toff)
        T.set(st, self.thread, 'Tiny_StateThread', 'sp', add(sp, 1))

    def run(self, values, max_events=8, hooks=None, on_foreign=None, on_pc=None, prepare=None, max_ins=60,
            on_eval=None):
        """values: name -> (type, payload) or callable(sim, st) for opaque expressions.
        Returns finished paths: (reason, state, trace)"""
        g, T = self.g, self.g.T
        out = []
        st = self.st0.clone()
        if prepare:
            prepare(self, st)
        work = [(st, ())]
        en = Engine(g.m, hooks=hooks)
        en.max_visits = 40

        def indirect(e, s, target, args, inst):
            a = target.atom()
            if a is not None and a.kind == 'init':
                key, o = a.args
                if any(A(x) is self.thread for x, k in key) and o == T.off('Tiny_StateThread', 'ctx.alloc'):
                    p = s.new_obj('heap%d' % E.Atom.n, 'undef')
                    p.t[0][0].meta['fresh'] = True
                    s.log('alloc', args[0], args[1], p)
                    return p
            s.log('foreign', target, tuple(args))
            s.x['trace'] = s.x.get('trace', ()) + (('foreign', target, tuple(args)),)
            if on_foreign:
                return on_foreign(self, s, target, args, inst)
            return AggV([fresh('ret.%d' % k, t.w or 64) for k, t in enumerate(inst.ty.el)]) \
                if inst.ty.k == 'struct' else fresh('ret', inst.ty.w or 64)
        en.indirect = indirect
        while work:
            st, seen = work.pop()
            pc = T.get(st, self.thread, 'Tiny_StateThread', 'pc')
            tr = st.x.get('trace', ())
            if pc is self.em.end or pc == self.em.end:
                out.append(('end', st, tr))
                continue
            if type(pc) is int and pc < 0:
                out.append(('halt', st, tr))
                continue
            if on_pc:
                r = on_pc(self, st, pc)
                if r:
                    out.append((r, st, tr))
                    continue
            if pc in self.starts:
                kids = self.starts[pc]
                end, name, kind, exp = kids[0]
                if len([t for t in tr if t[0] == 'eval']) >= max_events:
                    out.append(('more', st, tr))
                    continue
                st.x['trace'] = tr + (('eval', name),)
                if on_eval:
                    r = on_eval(self, st, name)
                    if r:
                        out.append(('wrong', st, st.x['trace'] + (('stop', r, pc),)))
                        continue
                if kind == 'expr':
                    v = values.get(name)
                    if callable(v):
                        v = v(self, st)
                    if v is None:
                        v = (fresh('t_' + name, 8, 0, 8), fresh('v_' + name, 64))
                    self.push(st, v[0], v[1])
                T.set(st, self.thread, 'Tiny_StateThread', 'pc', end)
                work.append((st, seen))
                continue
            # one machine cycle
            if len(seen) > max_ins:
                out.append(('long', st, tr))
                continue
            self.nsteps += 1
            try:
                s2 = st.clone()
                s2.frames = []
                s2.steps = 0
                en.call_state(s2, g.vm.cycle, [self.thread])
                rs = en.explore([s2])
            except E.Limit:
                out.append(('limit', st, tr))
                continue
            for r in rs:
                if r.kind == 'ret':
                    work.append((r.st, seen + (pc,)))
                else:
                    out.append((r.kind, r.st, r.st.x.get('trace', ()) + (('stop', r.val, pc),)))
        g.reached |= en.reached
        return out

    def info(self, st):
        T = self.g.T
        d = {f: T.get(st, self.thread, 'Tiny_StateThread', f) for f in ('pc', 'sp', 'fp', 'fc')}
        return d
