"""Histories of calls to the library's containers, observed only through their own functions."""
from natives import *

NULL = ('null',)


class Play:
    """one history on one thread; stops when a path ends otherwise than by returning"""

    def __init__(self, T, L, visits=600, hooks=None, **kw):
        self.T, self.L = T, L
        self.rt = Rt(T, 0, **kw)
        self.visits = visits
        self.hooks = hooks
        self.reached = set()
        self.bad = []
        self.vague = None

    def call(self, script, *args):
        """-> ('value', (type name, payload)) | ('stop', how) | None when undecided"""
        rt = self.rt
        ev0 = rt.st.ev
        try:
            rs, reached = call(rt, self.L.fn(script), list(args), visits=self.visits, hooks=self.hooks, max_paths=200)
        except E.Limit as e:
            self.vague = '%s: %s' % (script, e)
            return None
        self.reached |= reached
        if len(rs) != 1:
            kinds = {(r.kind, r.val) for r in rs if r.kind != 'ret'}
            if len([1 for r in rs if r.kind == 'ret']) == 0 and len(kinds) == 1:
                return ('stop', rs[0])
            self.several = [(r, result(r)) for r in rs]
            self.vague = '%s has %d outcomes (%s)' % (script, len(rs), ', '.join(
                '%s' % (r.kind if r.kind == 'ret' else r.val) for r in rs[:4]))
            return None
        r = rs[0]
        if r.kind != 'ret':
            return ('stop', r)
        rt.st = r.st
        for e in r.st.events(ev0):
            if e[0] == 'bad':
                self.bad.append(e[1])
        t, p = result(r)
        c = r.st.const_of(t) if not isinstance(t, int) else t
        n = rt.VN.get(c)
        if n is None:
            return ('value', ('?', t, p))
        if n == 'BOOL':
            p = E.extract(p, 0, 8, 1)
        return ('value', NULL if n == 'NULL' else (n, p))

    def leaks(self):
        x = lost(self.rt, self.rt.st)
        return ['memory is left behind (%s)' % ', '.join(sorted(a.name for a in x))] if x else []

    def make(self, script, *args, name='obj'):
        v = self.call(script, *args)
        if v is None or v[0] != 'value' or v[1][0] != 'NATIVE' or self.rt.h.base(v[1][1]) is None:
            return v
        self.rt.objs[name] = v[1][1]
        self.rt.kind[v[1][1]] = 'container'
        return v

    def meaning(self, x):
        """what passing x means: (type name, payload)"""
        if x is None:
            return NULL
        if isinstance(x, str):
            t, p = self.rt.val(x)
            return (self.rt.VN[t], p)
        return x


def stopped(v):
    """did the program stop by an assertion or exit?"""
    return v is not None and v[0] == 'stop' and v[1].kind == 'exit'


def same(a, b):
    if len(a) != len(b) or a[0] != b[0]:
        return False
    if len(a) == 1:
        return True
    x, y = a[1], b[1]
    if a[0] == 'BOOL' and type(x) is int and type(y) is int:
        return x & 1 == y & 1
    return x is y or type(x) is int and type(y) is int and x == y


def show(x):
    if x is None:
        return 'null'
    if isinstance(x, str):
        return x
    if len(x) == 1:
        return x[0]
    return '%s %s' % (x[0].lower(), x[1])
