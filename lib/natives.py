"""The library's own native functions: which function is bound under which script signature, and calling one on a thread
of rtworld."""
import re
from rtworld import *

SIG = re.compile(r'^\s*([A-Za-z_]\w*)\s*(?:\(([^)]*)\)\s*(?::\s*([\w?]+)\s*)?)?$')


class Lib:
    def __init__(self, T):
        self.T = T
        self.reached = set()
        self.sigs = []                     # (script name, argument types or None, varargs, return type, C function)
        self.macros = {}                   # macro name -> C function
        self.types = []
        self.consts = {}
        self.by = {}
        T.fn('Tiny_BindFunction')
        for n, f in sorted(T.funcs.items()):
            if len(f.params) != 1 or not n.startswith('Tiny_Bind') or n in ('Tiny_BindFunction', 'Tiny_BindMacro'):
                continue
            self.collect(n, [fresh('state', 64, 4096, 1 << 46)])

    def hooks(self, st):
        def bind(e, s, a, i):
            s.log('bind', E.cstring(e, s, a[1]), a[2])

        def macro(e, s, a, i):
            s.log('macro', E.cstring(e, s, a[1]), a[2])

        def typ(e, s, a, i):
            s.log('type', E.cstring(e, s, a[1]))

        def cint(e, s, a, i):
            s.log('const', E.cstring(e, s, a[1]), a[2])
        return {'Tiny_BindFunction': bind, 'Tiny_BindMacro': macro, 'Tiny_RegisterType': typ, 'Tiny_BindConstInt': cint}

    def collect(self, fn, args, st=None, extra=None):
        st = st or State()
        en = Engine(self.T.m, hooks=dict(self.hooks(st), **(extra or {})), max_visits=200)
        rs = en.run(fn, args, st)
        self.reached |= en.reached
        out = []
        for r in rs:
            if r.kind == 'ret':
                for e in r.st.events():
                    if e[0] == 'bind':
                        out.append(self.sig(e[1], e[2]))
                    elif e[0] == 'macro' and e[1] is not None:
                        self.macros[e[1].decode()] = self.name(e[2])
                    elif e[0] == 'type' and e[1] is not None:
                        self.types.append(e[1].decode())
                    elif e[0] == 'const' and e[1] is not None:
                        self.consts[e[1].decode()] = e[2]
        out = [x for x in out if x]
        self.sigs += out
        for x in out:
            self.by[x[0]] = x
        return out, rs

    def name(self, v):
        a = v.atom() if isinstance(v, Lin) else None
        return a.args[0] if a is not None and a.kind == 'fn' else None

    def sig(self, text, fn):
        m = SIG.match(text.decode()) if text is not None else None
        if not m:
            return None
        va, args = False, None
        if m.group(2) is not None:
            args = [x.strip() for x in m.group(2).split(',') if x.strip()]
            va = '...' in args
            args = [x for x in args if x != '...']
        else:
            va = True
        return m.group(1), args, va, m.group(3), self.name(fn)

    def fn(self, script):
        """the C function bound under a script name"""
        x = self.by.get(script)
        if x is None or x[4] is None or x[4] not in self.T.funcs:
            raise Missing('the native function ' + script)
        return x[4]

    def arrays(self, elem, alias):
        """the signatures bound by `use array(elem) as alias`"""
        T = self.T
        e = T.m.enums()
        f = self.macros.get('array')
        if f is None or f not in T.funcs:
            raise Missing('the array macro')
        st = State()
        tags = {'int': 'INT', 'float': 'FLOAT', 'bool': 'BOOL', 'str': 'STR', 'any': 'ANY'}
        sym = T.obj(st, 'Tiny_Symbol', elem, 'init', type=e['TINY_SYM_TAG_' + tags.get(elem, 'STRUCT')])
        T.set(st, sym, 'Tiny_Symbol', 'name', T.cstr(st, elem))
        args = st.new_obj('args', 'init')
        st.store(args, 8, T.cstr(st, elem))

        def find(en, s, a, i):
            q = E.cstring(en, s, a[1])
            return sym if q == elem.encode() else 0
        g = T.funcs[f]
        vals = {'state': fresh('state', 64, 4096, 1 << 46), 'args': args, 'nargs': 1, 'asName': T.cstr(st, alias)}
        res = None
        av = []
        if len(g.params) == 5:
            res = st.new_obj('result', 'init')
            av.append(res)
        av += [vals['state'], args, 1, vals['asName']]
        out, rs = self.collect(f, av, st, {'Tiny_FindTypeSymbol': find})
        return out, rs


def call(rt, fn, args, foreign=None, visits=200, hooks=None, max_paths=4000):
    """call a native function of the library with the given values (as for Rt.value; a pair of abstract values is used as is)"""
    st = rt.st
    av = rt.h.block(st, 'arguments', max(len(args), 0) * rt.vsize, 'undef') if args else 0
    for k, x in enumerate(args):
        rt.value(add(av, k * rt.vsize), x)
    en = Engine(rt.m, max_visits=visits, hooks=hooks or {}, max_paths=max_paths, max_steps=3000000)
    st.steps = 0
    rt.install(en, foreign)
    rs = en.run(fn, [rt.thread, av, len(args)], st)
    for r in rs:
        if av:
            r.st.x['live'] = r.st.x.get('live', frozenset()) - {av.t[0][0]}
    return rs, en.reached


def result(r):
    """(type, payload) of a returned Tiny_Value"""
    v = r.val
    return (v.v[1], v.v[0]) if isinstance(v, AggV) else (None, None)


def owned_blocks(rt, st):
    """heap blocks which belong to the objects of the thread"""
    T = rt.T
    out = set()
    for o in rt.listed(st) or []:
        out.add(o.t[0][0])
        ty = T.get(st, o, 'Tiny_Object', 'type')
        if ty == rt.VT['STRING']:
            p = T.get(st, o, 'Tiny_Object', 'string.ptr')
            a = rt.h.owner(p)
            if a is not None:
                out.add(a)
        elif ty == rt.VT['NATIVE']:
            ad = T.get(st, o, 'Tiny_Object', 'nat.addr')
            work = [ad]
            while work:
                x = work.pop()
                a = rt.h.owner(x)
                if a is None or a in out:
                    continue
                out.add(a)
                n = rt.h.size(st, a)
                if type(n) is int and n <= 256:
                    for k in range(0, n - 7, 8):
                        try:
                            v = st.load(A(a), 8, k)
                        except Exception:
                            continue
                        if type(v) is Lin and rt.h.owner(v) is not None:
                            work.append(v)
    return out


def lost(rt, st):
    """blocks nothing owns any more"""
    return {a for a in set(st.x.get('live', frozenset())) - owned_blocks(rt, st) if a.name not in ('arguments', 'globals')}
