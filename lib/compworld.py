"""One call of the compiling entry point in an arbitrary state, with parsing and code generation as opaque phases."""
from gen import *
from heap import Heap

LEXER = ('ctx.alloc', 'ctx.userdata', 'fileName', 'src', 'lineNumber', 'pos', 'last', 'lexeme', 'lastTok', 'iValue', 'errorMsg')
ARENA = ('ctx.alloc', 'ctx.userdata', 'head')
BUFS = ('program', 'pcToFileLine', 'globalSymbols', 'functionPcs', 'foreignFunctions')
SCALARS = ('numGlobalVars', 'numFunctions', 'numForeignFunctions', 'currFunc', 'currScope', 'compileCallNestCount')


class World:
    """an arbitrary state with some contents; nest: number of compilations already under way; full: buffers exist"""

    def __init__(self, T, nest=0, full=True, lines=True, short=False, many=0):
        self.T = T
        self.many = many
        self.g = g = Gen(T)
        for f in ('ParseProgram', 'ResolveTypes', 'CompileStatement', 'Tiny_CompileString'):
            T.fn(f)
        st = self.st = State()
        g.st = st
        self.h = Heap(T)
        self.state = s = T.obj(st, 'Tiny_State', 'state')
        g.state = s
        self.h.context(st, s, 'Tiny_State')
        S = lambda f, v: T.set(st, s, 'Tiny_State', f, v)
        self.S = S
        self.nest = nest
        S('compileCallNestCount', nest)
        self.serial = fresh('serial', 32, 1, 1 << 20)
        S('compileSerial', self.serial)
        for f, hi in (('numGlobalVars', 1000), ('numFunctions', 200), ('numForeignFunctions', 200), ('currScope', 50)):
            S(f, fresh('old.' + f, 32, 1 if f != 'currScope' else 0, hi))
        for f in LEXER:
            if nest == 0 and f == 'lexeme':
                S('l.lexeme', 0)
            elif f in ('lexeme',):
                S('l.lexeme', self.h.stretchy(st, 'outer.lexeme', [[(0, 1, 65)]] * 4, 1))
            elif not f.startswith('ctx'):
                S('l.' + f, fresh('outer.' + f, 8 * T.fsize('Tiny_State', 'l.' + f)))
        self.h.context(st, s, 'Tiny_State', 'l.ctx')
        self.h.context(st, s, 'Tiny_State', 'parserArena.ctx')
        page = self.page(st, 'outer.page') if nest else 0
        S('parserArena.head', page)
        self.symbols(full)
        if full:
            self.code = [fresh("code%d" % k, 8) for k in range(4)] + [T.enum("TINY_OP_HALT")]
            if short:
                self.code = self.code[-1:]
            S('program', self.h.stretchy(st, 'program', [[(0, 1, b)] for b in self.code], 1, cap=64))
        else:
            S('program', 0)
        if full and lines:
            S('pcToFileLine', self.h.stretchy(st, 'lines', [self.record('r%d' % k) for k in range(1 if short else 3)],
                                              T.size('Tiny_PCToFileLine'), cap=16))
        else:
            S('pcToFileLine', 0)
        S('functionPcs', self.h.block(st, 'functionPcs') if full else 0)
        S('foreignFunctions', self.h.block(st, 'foreignFunctions') if full else 0)
        if not full:
            S('numFunctions', 0)
            S('numForeignFunctions', 0)
        S('currFunc', self.syms['f'] if nest and full else 0)
        self.before = st.clone()
        self.before_live = st.x.get('live', frozenset())

    def record(self, n):
        T = self.T
        return [(T.off('Tiny_PCToFileLine', f), 4, fresh(n + '.' + f, 32)) for f in ('pc', 'fileStrIndex', 'line')]

    def page(self, st, name, nxt=0):
        T = self.T
        p = self.h.block(st, name)
        T.set(st, p, 'Tiny_ArenaPage', 'next', nxt)
        T.set(st, p, 'Tiny_ArenaPage', 'data', add(p, T.size('Tiny_ArenaPage')))
        T.set(st, p, 'Tiny_ArenaPage', 'cap', 8192)
        T.set(st, p, 'Tiny_ArenaPage', 'used', 4096)
        return p

    def sym(self, st, ty, name, **f):
        T = self.T
        p = self.h.block(st, 'symbol ' + name, T.size('Tiny_Symbol'))
        T.set(st, p, 'Tiny_Symbol', 'type', self.g.SYM[ty])
        T.set(st, p, 'Tiny_Symbol', 'name', self.h.cstr(st, name, 'name of ' + name))
        for k, v in f.items():
            T.set(st, p, 'Tiny_Symbol', k.replace('__', '.'), v)
        return p

    def buf(self, st, name, items):
        return self.h.stretchy(st, name, [[(0, 8, s)] for s in items], 8, cap=len(items) + 40)

    def kinds(self, st, px):
        """one symbol of every kind"""
        d = {'ff': None}
        d['g'] = self.sym(st, 'GLOBAL', px + 'g', var__initialized=1, var__tag=0)
        d['f'] = self.sym(st, 'FUNCTION', px + 'f')
        for k in ('args', 'locals'):
            self.T.set(st, d['f'], 'Tiny_Symbol', 'func.' + k, self.buf(st, '%sf.%s' % (px, k), [
                self.sym(st, 'LOCAL', '%s%s%d' % (px, k, j), var__initialized=1) for j in range(2)]))
        d['f0'] = self.sym(st, 'FUNCTION', px + 'f0', func__args=0, func__locals=0)
        d['ff'] = self.sym(st, 'FOREIGN_FUNCTION', px + 'ff')
        self.T.set(st, d['ff'], 'Tiny_Symbol', 'foreignFunc.argTags', self.buf(st, px + 'ff.tags', [self.g.prim(st, 'INT')]))
        d['k'] = self.sym(st, 'CONST', px + 'k', constant__tag=self.g.prim(st, 'INT'))
        d['m'] = self.sym(st, 'MODULE', px + 'm')
        d['ft'] = self.sym(st, 'TAG_FOREIGN', px + 'ft', sstruct__fields=0, sstruct__definedSerial=0, sstruct__defined=0)
        d['ft2'] = self.sym(st, 'TAG_FOREIGN', px + 'ft2', sstruct__fields=0, sstruct__definedSerial=self.ser(px), sstruct__defined=0)
        d['nt'] = self.sym(st, 'TAG_NULLABLE', px + 'ft?', nullableTag=d['ft'])
        d['sd'] = self.sym(st, 'TAG_STRUCT', px + 'sd', sstruct__defined=1, sstruct__definedSerial=self.ser(px))
        self.T.set(st, d['sd'], 'Tiny_Symbol', 'sstruct.fields', self.buf(st, px + 'sd.fields', [
            self.sym(st, 'FIELD', px + 'x'), self.sym(st, 'FIELD', px + 'y')]))
        return d

    def ser(self, px):
        return self.serial_now if px == 'new_' else self.serial

    def symbols(self, full):
        st = self.st
        self.syms = {}
        self.order = []
        if full:
            self.syms = self.kinds(st, 'old_')
            for n in ('su', 'su2', 'su3'):
                self.syms[n] = self.sym(st, 'TAG_STRUCT', 'old_' + n, sstruct__defined=0, sstruct__fields=0,
                                        sstruct__definedSerial=0)
            self.order = self.fillers(self.many) + list(self.syms.values())
            self.S('globalSymbols', self.buf(st, 'globalSymbols', self.order))
        else:
            self.S('globalSymbols', 0)

    def fillers(self, n):
        """n groups of symbols of every kind, declared before the others"""
        out = []
        for k in range(n):
            for x, s in self.kinds(self.st, 'fill%d_' % k).items():
                out.append(s)
                if x == 'ff':
                    self.more_ff = getattr(self, 'more_ff', []) + [s]
        return out

    # ------------------------------------------------------------- what the phases may do
    def G(self, st, f):
        return self.T.get(st, self.state, 'Tiny_State', f)

    def put(self, st, f, v):
        self.T.set(st, self.state, 'Tiny_State', f, v)

    def grow(self, st, f, isize, items, move=True, drop=0):
        """append items to a buffer of the state (moving it to a new block)"""
        old = self.G(st, f)
        n = self.T.sbcount(st, old)
        if type(old) is int:
            new = self.h.stretchy(st, 'new ' + f, items, isize, cap=len(items) + 64)
            st.x['made'] = st.x.get('made', ()) + (new,)
            self.put(st, f, new)
            return
        n -= drop
        cap = st.load(old, 4, -8)
        if not move and (type(cap) is not int or n + len(items) <= cap):
            for k, it in enumerate(items):
                for o, s, v in it:
                    st.store(old, s, v, (n + k) * isize + o)
            st.store(old, 4, n + len(items), -4)
            return
        base = self.h.fresh(st, 8 + (n + len(items) + 8) * isize, 'alloc')
        new = add(base, 8)
        st.memcpy(new, old, n * isize)
        st.store(new, 4, n + len(items) + 8, -8)
        st.store(new, 4, n + len(items), -4)
        for k, it in enumerate(items):
            for o, s, v in it:
                st.store(new, s, v, (n + k) * isize + o)
        st.x['live'] = st.x['live'] - {self.h.owner(old)}
        st.log('realloc', old, 0, base)
        self.put(st, f, new)

    def parse_effects(self, st, move=True, grow=True):
        """everything parsing (and macros) can change"""
        T = self.T
        self.serial_now = self.G(st, 'compileSerial')
        for f, hi in (('lineNumber', 1 << 20), ('pos', 1 << 20), ('last', 255), ('lastTok', 60), ('iValue', None), ('errorMsg', None)):
            w = 8 * T.fsize('Tiny_State', 'l.' + f)
            self.put(st, 'l.' + f, fresh('inner.' + f, w, 0 if hi else None, hi))
        self.put(st, 'l.lexeme', self.h.stretchy(st, 'inner.lexeme', [[(0, 1, 66)]] * 3, 1))
        p2 = self.page(st, 'inner.page2')
        self.put(st, 'parserArena.head', self.page(st, 'inner.page', p2))
        if not grow:
            return {}
        d = self.kinds(st, 'new_')
        self.grow(st, 'globalSymbols', 8, [[(0, 8, s)] for s in d.values()], move)
        for f in ('numGlobalVars', 'numFunctions', 'numForeignFunctions', 'currScope'):
            self.put(st, f, add(self.G(st, f), fresh('more.' + f, 32, 1, 50)))
        self.put(st, 'currFunc', d['f'])
        if 'su' in self.syms:
            su, su2 = self.syms['su'], self.syms['su2']
            T.set(st, su, 'Tiny_Symbol', 'sstruct.defined', 1)
            T.set(st, su, 'Tiny_Symbol', 'sstruct.definedSerial', self.serial_now)
            T.set(st, su, 'Tiny_Symbol', 'sstruct.fields', self.buf(st, 'su.fields', [
                self.sym(st, 'FIELD', 'su.x'), self.sym(st, 'FIELD', 'su.y')]))
            # the host (from a macro) registers a type of that name
            T.set(st, su2, 'Tiny_Symbol', 'type', self.g.SYM['TAG_FOREIGN'])
            T.set(st, su2, 'Tiny_Symbol', 'sstruct.definedSerial', self.serial_now)
        return d

    def code_effects(self, st, move=True, drop=0):
        T = self.T
        n = T.sbcount(st, self.G(st, 'program'))
        drop = min(drop, n)
        self.grow(st, 'program', 1, [[(0, 1, fresh('emitted', 8))] for _ in range(4)], move, drop)
        nl = T.sbcount(st, self.G(st, 'pcToFileLine'))
        if nl:
            for o, s, v in self.record('updated'):
                st.store(self.G(st, 'pcToFileLine'), s, v, (nl - 1) * T.size('Tiny_PCToFileLine') + o)
        self.grow(st, 'pcToFileLine', T.size('Tiny_PCToFileLine'), [self.record('more')], move)

    def fail(self, en, st):
        """a phase ends with a compile error"""
        T = self.T
        self.put(st, 'compileErrorResult.type', self.T.m.enums()['TINY_COMPILE_ERROR'])
        nest = self.G(st, 'compileCallNestCount')
        bufs = add(self.state, T.off('Tiny_State', 'compileErrorJmpBufs'))
        saved = dict(st.x.get('jmpbufs', ()))
        if not saved:
            raise Raise('raise', 'no jump buffer has been set')
        isize = 200      # sizeof(jmp_buf)
        if type(nest) is int:
            p = add(bufs, (nest - 1) * isize)
            E.jump_back(en, st, p)
        raise Raise('raise', 'the jump buffer of this nesting level has not been set')

    # ------------------------------------------------------------- running it
    def stmt(self, st, nxt=0, name='stmt'):
        """an opaque statement"""
        g = self.g
        g.st = st
        n = g.node('CALL', name)
        self.T.set(st, n, 'Tiny_Expr', 'next', nxt)
        return n

    def run(self, parse, hooks=None, visits=60):
        """parse(en, st): what parsing does; hooks: what the per-node phases do"""
        T = self.T
        sret = self.st.new_obj('result', 'undef')
        self.sret = sret
        self.name = self.st.new_obj('name', 'init')
        self.string = self.st.new_obj('string', 'init')
        hk = {'ParseProgram': lambda en, st, a, i: parse(en, st)}
        hk['Tiny_FormatErrorV'] = self.format
        hk.update(hooks or {})
        en = Engine(T.m, hooks=hk, max_visits=visits)
        en.jumps = True
        en.indirect = self.indirect
        self.h.install(en)
        self.en = en
        rs = en.run('Tiny_CompileString', [sret, self.state, self.name, self.string], self.st)
        self.reached = en.reached
        return rs

    def indirect(self, en, st, target, args, inst):
        st.log('macro', target, tuple(args))
        f = st.x.get('macro')
        if f:
            return f(en, st, target, args, inst)
        return fresh('ret', 64)

    def format(self, en, st, a, i):
        st.log('error', tuple(a))
        return None
