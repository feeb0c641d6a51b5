"""Symbol tables with unknown contents, for the functions that search and extend them."""
from gen import *


class Table:
    def __init__(self, T, locals_=0, args=0, globals_=0, func=True, gkinds=None):
        """a state whose symbols have unknown names (opaque, so every pattern of equal names is
        covered), unknown scopes and unknown kinds"""
        self.T = T
        self.g = g = Gen(T)
        g.start(0)
        self.st = st = g.st
        self.state = g.state
        # inside a function at least its body's scope is open
        self.scope = fresh('scope', 32, 1 if func else 0, 50)
        T.set(st, self.state, 'Tiny_State', 'currScope', self.scope)
        T.set(st, self.state, 'Tiny_State', 'compileCallNestCount', 1)
        self.nf, self.nff, self.ng = fresh('nf', 32, 0, 1000), fresh('nff', 32, 0, 1000), fresh('ng', 32, 0, 1000)
        T.set(st, self.state, 'Tiny_State', 'numFunctions', self.nf)
        T.set(st, self.state, 'Tiny_State', 'numForeignFunctions', self.nff)
        T.set(st, self.state, 'Tiny_State', 'numGlobalVars', self.ng)
        self.query = st.new_obj('query', 'init')
        self.fn = 0
        self.locals = [self.sym('l%d' % k, 'LOCAL', k) for k in range(locals_)]
        self.args = [self.sym('a%d' % k, 'LOCAL', k - args) for k in range(args)]
        for s in self.args:  # as DeclareArgument makes them; C10 checks that nothing changes them
            T.set(st, s, 'Tiny_Symbol', 'var.scope', 0)
            T.set(st, s, 'Tiny_Symbol', 'var.scopeEnded', 0)
        if func:
            self.fn = self.sym('fn', 'FUNCTION', 0)
            T.set(st, self.fn, 'Tiny_Symbol', 'func.locals', self.buf('locals', self.locals))
            T.set(st, self.fn, 'Tiny_Symbol', 'func.args', self.buf('args', self.args))
        T.set(st, self.state, 'Tiny_State', 'currFunc', self.fn)
        lo, hi = g.SYM['GLOBAL'], g.SYM['TAG_NULLABLE']
        self.globals = []
        for k in range(globals_):
            s = self.sym('g%d' % k, fresh('g%d.type' % k, 32, lo, hi) if gkinds is None else gkinds[k], k)
            self.globals.append(s)
        T.set(st, self.state, 'Tiny_State', 'globalSymbols', self.buf('globalSymbols', self.globals))

    def buf(self, name, items):
        if not items:
            return 0
        return self.T.stretchy(self.st, name, [[(0, 8, s)] for s in items], 8, cap=len(items) + 64)

    def name(self, sym, text):
        """give the symbol a known name"""
        self.T.set(self.st, sym, 'Tiny_Symbol', 'name', self.T.cstr(self.st, text))

    def ask(self, text):
        self.query = self.T.cstr(self.st, text)
        return self

    def sym(self, name, kind, index):
        T, st = self.T, self.st
        p = T.obj(st, 'Tiny_Symbol', 'sym_' + name, 'init')
        T.set(st, p, 'Tiny_Symbol', 'type', self.g.SYM[kind] if isinstance(kind, str) else kind)
        T.set(st, p, 'Tiny_Symbol', 'name', st.new_obj('name_' + name, 'init'))
        if kind == 'LOCAL':
            T.set(st, p, 'Tiny_Symbol', 'var.index', index)
            T.set(st, p, 'Tiny_Symbol', 'var.scope', fresh(name + '.scope', 32, 0, 50))
            T.set(st, p, 'Tiny_Symbol', 'var.scopeEnded', fresh(name + '.ended', 8, 0, 1))
        return p

    def run(self, fn, args, extra=None, visits=40000):
        def err(en, st, a, i):
            raise Raise('raise', 'compile error')
        h = {'Tiny_FormatErrorV': err, 'fprintf': lambda en, st, a, i: 0, 'CloneString': self._clone}
        h.update(extra or {})
        h = {k: v for k, v in h.items() if v}
        en = Engine(self.T.m, hooks=h, max_visits=visits, max_steps=2000000)

        def indirect(en, s, target, a, inst):
            at = target.atom()
            if at is not None and at.kind == 'init':
                p = a[0] if type(a[0]) is Lin else s.new_obj('heap%d' % E.Atom.n, 'undef')
                s.log('alloc', a[0], a[1], p)
                return p
            s.log('indirect', target, tuple(a))
            return fresh('ret', inst.ty.w or 64)
        en.indirect = indirect
        rs = en.run(self.T.fn(fn), args, self.st.clone())
        self.reached = en.reached
        return rs

    def _clone(self, en, st, a, i):
        p = st.new_obj('clone%d' % E.Atom.n, 'init')
        st.x['clones'] = st.x.get('clones', ()) + ((p, a[1]),)
        return p

    # ---------------------------------------------------------- what a path knows
    def G(self, st, s, f):
        return self.T.get(st, s, 'Tiny_Symbol', f)

    def named(self, st, s, q=None):
        """does the symbol have the queried name?  True / False / None (the path did not ask)"""
        v = E.BUILTINS['strcmp'](None, st, [self.G(st, s, 'name'), self.query if q is None else q], None)
        return st.decide(E.mk_eq(v)) if type(v) is not int else v == 0

    def is_kind(self, st, s, *kinds):
        v = self.G(st, s, 'type')
        r = [st.decide(E.mk_eq(add(v, -self.g.SYM[k]))) if type(v) is not int else v == self.g.SYM[k] for k in kinds]
        if True in r:
            return True
        if all(x is False for x in r):
            return False
        lo, hi = st.interval(v)
        return None

    def visible(self, st, s):
        v = self.G(self.st, s, 'var.scopeEnded')
        r = st.decide(E.mk_eq(v)) if type(v) is not int else v == 0
        return r

    def grown(self, st, p, n):
        """pointers in a stretchy buffer after the call, or None"""
        if type(p) is int:
            return []
        c = self.T.sbcount(st, p)
        return [st.load(p, 8, 8 * k) for k in range(c)] if type(c) is int else None


def conj(*x):
    if False in x:
        return False
    return None if None in x else True
