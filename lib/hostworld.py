"""A state as the host builds it: created, bound to and deleted through the interface, over an allocator that records ownership."""
from lexref import *
from heap import Heap
from gen import *
from clib import strtol, strtod, wrap


class Stopped(Exception):
    pass


class Host:
    """one state; every interface call is interpreted on it"""

    def __init__(self, T, ctx=True):
        self.T = T
        lx = Lexer(T)
        self.lx = lx
        self.st = lx.base.clone()
        self.h = Heap(T)
        self.h.stop = True
        e = T.m.enums()
        self.SYM = {k[len('TINY_SYM_'):]: v for k, v in e.items() if k.startswith('TINY_SYM_')}
        self.SYN = {v: k for k, v in self.SYM.items()}
        self.reached = set()
        self.extra = {}
        self.callees = {}
        self.state = None
        self.bad = []

    def engine(self):
        hooks = dict(self.lx.hooks)

        def number(fn, isint):
            def f(en, st, a, i):
                t = E.cstring(None, st, a[0])
                if t is None:
                    return fresh('number', 64)
                v, used = (strtol(t, a[2] if len(a) > 2 and type(a[2]) is int else 10)) if isint else strtod(t)
                if len(a) > 1 and isinstance(a[1], Lin):
                    st.store(a[1], 8, add(a[0], used))
                return v if isint else E.fconst(v)
            return f
        for n in ('strtoll', '__isoc23_strtoll', 'strtol', '__isoc23_strtol'):
            hooks[n] = number(None, True)
        for n in ('strtod', 'atof'):
            hooks[n] = number(None, False)
        for n in ('fprintf', 'fputs', 'fputc', 'puts', 'printf', 'putchar', 'fwrite'):
            hooks[n] = self.message
        def vsn(en, st, a, i):
            return self.formatted(en, st, a[0], a[1], a[2], E.va_values(st, a[3]), 'vsnprintf')
        hooks['vsnprintf'] = vsn
        hooks['snprintf'] = lambda en, st, a, i: self.formatted(en, st, a[0], a[1], a[2], a[3:], 'snprintf')
        hooks.update(self.extra)
        en = Engine(self.T.m, hooks=hooks, max_visits=8000)
        en.max_steps = max(en.max_steps, 3000000)
        self.h.install(en)
        return en

    def formatted(self, en, st, dst, size, fmt, vs, name):
        t = E.format_text(en, st, fmt, vs) if vs is not None else None
        if t is None or type(size) is not int:
            st.log('vague', name)
            return fresh(name + '()', 32)
        room = None
        if isinstance(dst, Lin):
            at = [x for x, k in dst.t if x.kind == 'obj' and k == 1]
            if len(dst.t) == 1 and at and at[0].meta:
                n = self.h.size(st, at[0])
                room = n - dst.c if type(n) is int else None
        if size > 0:
            b = t[:size - 1] + b'\0'
            if room is not None and (len(b) > room):
                self.h.bad(st, '%s writes %d bytes where there is room for %d' % (name, len(b), room))
            for k, c in enumerate(b):
                st.store(dst, 1, E.signed(c, 8), k)
        return len(t)

    @staticmethod
    def message(en, st, a, i):
        st.log('message', i.x[0].name)
        return 0

    def run(self, fn, args):
        """-> results; the state is advanced when exactly one path returns"""
        en = self.engine()
        st = self.st.clone()
        st.frames = []
        st.steps = 0
        rs = en.run(self.T.fn(fn), list(args), st)
        self.reached |= en.reached
        return rs

    def call(self, fn, *args):
        """-> ('value', v) | ('stop', result) | ('vague', text)"""
        n0 = len(self.st.events())
        try:
            rs = self.run(fn, args)
        except E.Limit as x:
            return ('vague', str(x))
        if len(rs) > 1 and {r.kind for r in rs} == {'exit'}:
            rs = rs[:1]
        if len(rs) != 1:
            return ('vague', '%s has %d outcomes' % (fn, len(rs)))
        r = rs[0]
        self.events = r.st.events()[n0:]
        if r.kind == 'bad':
            return ('bad', r.val, r)
        if r.kind == 'cut' and r.val == 'steps':
            return ('vague', '%s is too long to follow' % fn)
        if r.kind != 'ret':
            return ('stop', r)
        self.st = r.st
        return ('value', r.val)

    def create(self):
        v = self.call('Tiny_CreateStateWithContext', self.h.alloc, self.h.userdata)
        if v[0] == 'value':
            self.state = v[1]
        return v

    def text(self, s):
        return self.T.cstr(self.st, s, 'text %r' % s)

    def callee(self, n):
        if n not in self.callees:
            self.callees[n] = self.st.new_obj('callee_%s' % n, 'init')
        return self.callees[n]

    # ------------------------------------------------ what the state contains
    def cstr(self, p, st=None):
        if type(p) is int:
            return None
        b = E.cstring(None, st or self.st, p, 1000)
        return b.decode('latin1') if b is not None else None

    def arr(self, p, st=None):
        st = st or self.st
        if type(p) is int:
            return []
        n = st.load(p, 4, -4)
        return [st.load(p, 8, 8 * k) for k in range(n)] if type(n) is int else None

    def G(self, f, st=None):
        return self.T.get(st or self.st, self.state, 'Tiny_State', f)

    def symbols(self):
        return self.arr(self.G('globalSymbols')) or []

    def sym(self, p, deep=True):
        """a symbol as a tuple"""
        T, st = self.T, self.st
        g = lambda f: T.get(st, p, 'Tiny_Symbol', f)
        if type(p) is int:
            return None
        ty = self.SYN.get(g('type'), g('type'))
        nm = self.cstr(g('name'))
        if not deep or ty in ('TAG_VOID', 'TAG_BOOL', 'TAG_INT', 'TAG_FLOAT', 'TAG_STR', 'TAG_ANY'):
            return (ty, nm)
        if ty == 'TAG_NULLABLE':
            return (ty, self.sym(g('nullableTag'), False) if self.SYN.get(T.get(st, g('nullableTag'), 'Tiny_Symbol', 'type')) != 'TAG_NULLABLE' else '?')
        if ty == 'TAG_FOREIGN':
            return (ty, nm)
        if ty == 'TAG_STRUCT':
            d = g('sstruct.defined')
            return (ty, nm, d & 1 if type(d) is int else d, len(self.arr(g('sstruct.fields')) or ()))
        if ty == 'FOREIGN_FUNCTION':
            v = g('foreignFunc.varargs')
            return (ty, nm, g('foreignFunc.index'), tuple(self.sym(t) for t in self.arr(g('foreignFunc.argTags'))),
                    bool(v & 1) if type(v) is int else v, self.sym(g('foreignFunc.returnTag')), g('foreignFunc.callee'))
        if ty == 'FUNCTION':
            return (ty, nm, g('func.index'))
        if ty == 'CONST':
            t = self.sym(g('constant.tag'))
            k = t[0] if t else None
            v = g({'TAG_BOOL': 'constant.bValue', 'TAG_INT': 'constant.iValue', 'TAG_FLOAT': 'constant.fValue'}.get(k, 'constant.sIndex'))
            if k == 'TAG_STR' and type(v) is int and 0 <= v < self.G('numStrings'):
                v = self.string(v)
            if k == 'TAG_FLOAT':
                v = E.float_bits(v)
            return (ty, nm, k, v)
        if ty == 'MODULE':
            return (ty, nm, g('modFunc'))
        return (ty, nm)

    def string(self, k):
        return self.cstr(self.st.load(self.state, 8, self.T.off('Tiny_State', 'strings') + 8 * k))

    def snapshot(self):
        return [self.sym(p) for p in self.symbols()]

    # ------------------------------------------------ ownership
    def owned(self):
        """heap blocks reachable from the state"""
        st = self.st
        out = set()
        a = self.h.owner(self.state)
        work = [a] if a is not None else []
        while work:
            x = work.pop()
            if x in out:
                continue
            out.add(x)
            n = self.h.size(st, x)
            for k in range(0, (n if type(n) is int else 0) - 7, 8):
                v = st.mem_word(x, k) if hasattr(st, 'mem_word') else peek(st, x, k)
                o = self.h.owner(v) if type(v) is Lin else None
                if o is not None and o not in out:
                    work.append(o)
        return out

    def lost(self):
        return set(self.st.x.get('live', frozenset())) - self.owned()


def peek(st, atom, k):
    try:
        return st.load(A(atom), 8, k)
    except Exception:
        return None
