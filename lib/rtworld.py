"""A thread with a small heap of its own: objects of every kind, linked into its collection list, referenced from its stack,
global variables, return value, struct fields and library containers."""
from gen import *
from heap import Heap


class Rt:
    def __init__(self, T, nglobals=2, code=(), foreign=1, **kw):
        self.T = T
        self.m = T.m
        e = T.m.enums()
        self.VT = {k[len('TINY_VAL_'):]: v for k, v in e.items() if k.startswith('TINY_VAL_')}
        self.VN = {v: k for k, v in self.VT.items()}
        self.OP = {k[len('TINY_OP_'):]: v for k, v in e.items() if k.startswith('TINY_OP_')}
        self.vsize = T.size('Tiny_Value')
        self.voff = T.off('Tiny_Value', 'i')
        self.toff = T.off('Tiny_Value', 'type')
        self.st = st = State()
        self.h = Heap(T, **kw)
        self.h.stop = True
        self.objs = {}                     # name -> pointer
        self.kind = {}                     # pointer -> kind
        self.thread = T.obj(st, 'Tiny_StateThread', 'thread', 'init')
        self.state = T.obj(st, 'Tiny_State', 'state', 'init')
        self.h.context(st, self.thread, 'Tiny_StateThread')
        self.code = st.new_obj('code', 'init')
        for k, b in enumerate(code):
            st.store(self.code, 1, E.signed(b, 8), k)
        self.fpcs = st.new_obj('functionPcs', 'init')
        self.ffs = st.new_obj('foreignFunctions', 'init')
        for k, v in (('program', self.code), ('functionPcs', self.fpcs), ('foreignFunctions', self.ffs),
                     ('numGlobalVars', nglobals), ('numFunctions', 4), ('numForeignFunctions', 4)):
            T.set(st, self.state, 'Tiny_State', k, v)
        self.globals = self.h.block(st, 'globals', nglobals * self.vsize, 'undef')
        self.nglobals = nglobals
        S = self.S
        S('state', self.state)
        S('globalVars', self.globals if nglobals else 0)
        S('pc', 0)
        S('sp', 0)
        S('fp', 0)
        S('fc', 1)
        S('gcHead', 0)
        S('numObjects', 0)
        S('maxNumObjects', 1 << 20)
        S('userdata', fresh('userdata', 64))
        self.value(self.addr('retVal'), None)
        for k in range(nglobals):
            self.value(self.gslot(k), None)
        self.stack_off = T.off('Tiny_StateThread', 'stack')
        self.protects = fresh('host_protect', 64, 4096, 1 << 46)
        self.finalizes = fresh('host_finalize', 64, 4096, 1 << 46)
        self.undefined = None
        self.children = {}                 # native address -> objects it refers to
        self.owned = {}                    # name -> blocks which belong to the object

    def S(self, f, v, st=None):
        self.T.set(st or self.st, self.thread, 'Tiny_StateThread', f, v)

    def G(self, f, st=None):
        return self.T.get(st or self.st, self.thread, 'Tiny_StateThread', f)

    def addr(self, f):
        return add(self.thread, self.T.off('Tiny_StateThread', f))

    def slot(self, k):
        return add(add(self.thread, self.stack_off), k * self.vsize)

    def gslot(self, k):
        return add(self.globals, k * self.vsize)

    # ------------------------------------------------------------ values
    def value(self, p, v, st=None):
        """store a value: None is null, ('INT', x), or the name of an object"""
        st = st or self.st
        t, x = self.val(v)
        st.store(p, 8, x, self.voff)
        st.store(p, 1, t, self.toff)

    def val(self, v):
        if v is None:
            return self.VT['NULL'], 0
        if isinstance(v, tuple):
            return self.VT[v[0]], v[1]
        p = self.objs[v]
        k = self.kind[p]
        return self.VT['STRUCT' if k == 'struct' else 'STRING' if k in ('string', 'embedded') else 'NATIVE'], p

    def read(self, st, p):
        return st.load(p, 1, self.toff), st.load(p, 8, self.voff)

    def push(self, v):
        sp = self.G('sp')
        self.value(self.slot(sp), v)
        self.S('sp', sp + 1)

    # ------------------------------------------------------------ objects
    def new(self, name, kind, n=0):
        T, st = self.T, self.st
        o = T.size('Tiny_Object')
        ty = {'struct': 'STRUCT', 'string': 'STRING', 'embedded': 'STRING'}.get(kind, 'NATIVE')
        size = {'struct': T.off('Tiny_Object', 'ostruct.fields') + n * self.vsize, 'embedded': o + 4}.get(kind, o)
        p = self.h.block(st, name, size, 'undef')
        self.objs[name] = p
        self.kind[p] = kind
        Q = lambda f, v: T.set(st, p, 'Tiny_Object', f, v)
        Q('marked', 0)
        Q('type', self.VT[ty])
        if kind == 'struct':
            Q('ostruct.n', n)
            for k in range(n):
                self.value(add(p, T.off('Tiny_Object', 'ostruct.fields') + k * self.vsize), None)
        elif kind in ('string', 'embedded'):
            if kind == 'string':
                q = self.h.cstr(st, 'abc', name + '.text')
            else:
                q = add(p, o)
                for k, c in enumerate(b'abc\0'):
                    st.store(p, 1, c, o + k)
            Q('string.len', 3)
            Q('string.ptr', q)
        else:
            addr = fresh(name + '.addr', 64)
            prop = 0
            if kind in ('native', 'plain', 'bare'):
                if kind != 'bare':
                    prop = T.obj(st, 'Tiny_NativeProp', name + '.prop', 'undef')
                    T.set(st, prop, 'Tiny_NativeProp', 'name', 0)
                    T.set(st, prop, 'Tiny_NativeProp', 'protectFromGC', self.protects if kind == 'native' else 0)
                    T.set(st, prop, 'Tiny_NativeProp', 'finalize', self.finalizes if kind == 'native' else 0)
                Q('nat.prop', prop)
                Q('nat.addr', addr)
        Q('next', self.G('gcHead'))
        self.S('gcHead', p)
        self.S('numObjects', self.G('numObjects') + 1)
        return p

    def field(self, name, k, v):
        self.value(add(self.objs[name], self.T.off('Tiny_Object', 'ostruct.fields') + k * self.vsize), v)

    # ------------------------------------------------------------ after a run
    def install(self, en, foreign=None):
        def indirect(e, st, target, args, inst):
            if target is self.protects:
                st.log('protect', args[0])
                for c in self.children.get(args[0], ()):
                    # the host's callback protects what it keeps
                    if self.kind[c] not in ('struct', 'native'):
                        self.T.set(st, c, 'Tiny_Object', 'marked', 1)
                return None
            if target is self.finalizes:
                st.log('finalize', args[0], args[1])
                return None
            a = target.atom() if isinstance(target, Lin) else None
            if foreign and a is not None and a.kind == 'init':
                return foreign(e, st, target, args, inst)
            st.log('indirect', target, tuple(args))
            if inst.ty.k == 'struct':
                return AggV([fresh('ret.%d' % k, t.w or 64) for k, t in enumerate(inst.ty.el)])
            return fresh('ret', inst.ty.w or 64)
        en.indirect = indirect
        self.h.install(en)

    def is_obj(self, t):
        return t in (self.VT['STRUCT'], self.VT['STRING'], self.VT['NATIVE'])

    def roots(self, st):
        """addresses of the values a thread can still use"""
        sp = self.G('sp', st)
        out = [self.addr('retVal')]
        if type(sp) is int and 0 <= sp < 1 << 14:
            out += [self.slot(k) for k in range(sp)]
        elif type(sp) is not int:
            return None
        g = self.G('globalVars', st)
        if type(g) is Lin:
            out += [add(g, k * self.vsize) for k in range(self.nglobals)]
        return out

    def reach(self, st):
        """objects reachable from the roots, or None when that cannot be told"""
        T = self.T
        rs = self.roots(st)
        if rs is None:
            return None
        seen, work = [], [('value', x) for x in rs]
        while work:
            what, x = work.pop()
            if what == 'value':
                t, x = self.read(st, x)
                if type(t) is not int:
                    c = st.const_of(t)
                    if c is None:
                        if type(x) is Lin and self.h.base(x) is None and \
                                st.decide(E.mk_eq(add(t, -self.VT['STRUCT']))) is False:
                            continue
                        return None
                    t = c
                if not self.is_obj(t):
                    continue
                if type(x) is int or self.h.base(x) is None:
                    return None
            if any(x is y for y in seen):
                continue
            seen.append(x)
            t = T.get(st, x, 'Tiny_Object', 'type')
            if t == self.VT['STRUCT']:
                n = T.get(st, x, 'Tiny_Object', 'ostruct.n')
                if type(n) is not int:
                    if is_undef(n):
                        self.undefined = 'the number of fields of a struct is not initialised'
                    return None
                work += [('value', add(x, T.off('Tiny_Object', 'ostruct.fields') + k * self.vsize)) for k in range(n)]
            elif t == self.VT['NATIVE']:
                ad = T.get(st, x, 'Tiny_Object', 'nat.addr')
                work += [('object', c) for c in self.children.get(ad, ())]
        return seen

    def listed(self, st):
        T = self.T
        out, p = [], self.G('gcHead', st)
        while type(p) is Lin and len(out) < 5000:
            out.append(p)
            p = T.get(st, p, 'Tiny_Object', 'next')
        return out if p == 0 or type(p) is int and p == 0 else None
