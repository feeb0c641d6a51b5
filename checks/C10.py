"""Names denote the right entity."""
import functools
import itertools
from symtab import *

LEVEL = 'other'
FLOOR = 300
RULE = ('The functions that look up and declare names are interpreted abstractly over symbol tables whose entries have '
        'unknown names (string equality is an uninterpreted predicate, so every pattern of equal and different names is '
        'a path), unknown kinds, scopes and ended-flags, for all table sizes up to 3 entries per table. On every path '
        'the result must be an entry that the path has established to match, all entries of tables with precedence '
        '(visible locals, then parameters, then globals and constants) must have been established not to match, and a '
        'declaration must be refused exactly when a conflicting entry is established, and otherwise append one entry '
        'with the right kind, index, scope and name. Closing a scope must end exactly the locals of that scope.')


class Run:
    def __init__(self, T, C):
        self.T, self.C = T, C

    def ob(self, ok, key, what, where):
        if ok is None:
            self.C.fail(key, what, where)
        elif ok:
            self.C.ok(n=1)
        else:
            self.C.fail(key, what, where)

    def table(self, **kw):
        return Table(self.T, **kw)

    def bad(self, r, key, what, fn):
        """a path which neither returns nor reports"""
        if r.kind == 'cut':
            self.C.undecide('%s: analysis bound' % key)
        else:
            self.C.fail(key, '%s ends with %s (%s)' % (what, r.kind, r.val), self.T.loc(r.where))

    # -------------------------------------------------------------- lookups
    def lookup(self, fn, tab, args, classes, none, key, what, value=lambda tab, st, s: s):
        """classes: list of lists of (symbol, match(st)) in order of precedence"""
        for r in tab.run(fn, args):
            w = self.T.where(fn)
            if r.kind != 'ret':
                self.bad(r, key, what, fn)
                continue
            st = r.st
            done = False
            for cl in classes:
                hits = [s for s, m in cl if eqv(value(tab, st, s), r.val)]
                if hits:
                    s = hits[0]
                    m = [mm for x, mm in cl if x is s][0](st)
                    if m is True or (m is None and False):
                        self.C.ok('%s: %r' % (key, s))
                    else:
                        self.C.fail(key, '%s yields %r, which %s' % (what, s, 'does not match' if m is False else
                                                                    'is not known to match'), w, self.path(r))
                    done = True
                    break
                miss = [s for s, m in cl if m(st) is not False]
                if miss:
                    self.C.fail(key, '%s passes over %r, which may match' % (what, miss[0]), w, self.path(r))
                    done = True
                    break
            if not done:
                if none is not None and eqv(r.val, none):
                    self.C.ok()
                else:
                    self.C.fail(key, '%s yields %r when nothing matches' % (what, r.val), w, self.path(r))
        self.C.analysed |= tab.reached

    def path(self, r):
        return 'on the path %r' % (list(getattr(r.st, 'forks', ()) or ())[-8:],)

    def variables(self, key, mk):
        for nl, na, ng, func in ((0, 0, 0, False), (0, 0, 3, False), (2, 0, 0, True), (0, 2, 0, True), (2, 2, 1, True),
                                 (3, 1, 1, True), (1, 1, 2, True)):
            mk(nl, na, ng, func)

    def reference_variable(self):
        def mk(nl, na, ng, func):
            t = self.table(locals_=nl, args=na, globals_=ng, func=func)
            self.lookup('ReferenceVariable', t, [t.state, t.query], var_classes(t), 0,
                        'C10/variable', 'looking up a variable among %d locals, %d parameters and %d globals' % (nl, na, ng))
        self.variables('variable', mk)

    def functions(self):
        for n in range(4):
            t = self.table(globals_=n, func=False)
            cl = ordered(t, lambda s: (lambda st: conj(t.is_kind(st, s, 'FUNCTION', 'FOREIGN_FUNCTION'), t.named(st, s))))
            self.lookup('ReferenceFunction', t, [t.state, t.query], cl, 0, 'C10/function', 'looking up a function')
            cl = ordered(t, lambda s: (lambda st: conj(t.is_kind(st, s, 'GLOBAL'), t.named(st, s))))
            self.lookup('Tiny_GetGlobalIndex', t, [t.state, t.query], cl, -1, 'C10/global index', 'the index of a global',
                        value=lambda tab, st, s: tab.G(st, s, 'var.index'))
            cl = ordered(t, lambda s: (lambda st: conj(t.is_kind(st, s, 'FUNCTION'), t.named(st, s))))
            self.lookup('Tiny_GetFunctionIndex', t, [t.state, t.query], cl, -1, 'C10/function index',
                        'the index of a function', value=lambda tab, st, s: tab.G(st, s, 'func.index'))
            cl = ordered(t, lambda s: (lambda st: conj(t.is_kind(st, s, 'CONST'), t.named(st, s))))
            self.lookup('Tiny_FindConstSymbol', t, [t.state, t.query], cl, 0, 'C10/constant', 'looking up a constant')
            cl = ordered(t, lambda s: (lambda st: conj(t.is_kind(st, s, 'TAG_STRUCT'), t.named(st, s))))
            self.lookup('GetStructTag', t, [t.state, t.query], cl, 0, 'C10/struct', 'looking up a struct')

    def fields(self):
        T = self.T
        for n in range(4):
            t = self.table(globals_=0, func=False)
            fs = [t.sym('f%d' % k, 'FIELD', k) for k in range(n)]
            tags = [t.st.new_obj('tag%d' % k, 'undef') for k in range(n)]
            for f, tg in zip(fs, tags):
                T.set(t.st, f, 'Tiny_Symbol', 'fieldTag', tg)
            s = t.sym('S', 'TAG_STRUCT', 0)
            T.set(t.st, s, 'Tiny_Symbol', 'sstruct.defined', 1)
            T.set(t.st, s, 'Tiny_Symbol', 'sstruct.fields', t.buf('fields', fs))
            out = t.st.new_obj('index', 'undef')
            key, what, w = 'C10/field', 'looking up a field of a struct with %d' % n, T.where(T.fn('GetFieldTag'))
            for r in t.run('GetFieldTag', [s, t.query, out]):
                if r.kind != 'ret':
                    self.bad(r, key, what, 'GetFieldTag')
                    continue
                ix = r.st.load(out, 4)
                hit = [k for k in range(n) if eqv(tags[k], r.val)]
                if hit:
                    k = hit[0]
                    self.ob(t.named(r.st, fs[k]) is True and ix == k, key, '%s gives field %d with index %r' % (what, k, ix), w)
                else:
                    self.ob(eqv(r.val, 0) and ix in (-1, 0xffffffff) and
                            all(t.named(r.st, f) is False for f in fs), key, '%s gives %r with index %r' % (what, r.val, ix), w)
            C = self.C
            C.analysed |= t.reached

    def types(self):
        """type names: the primitive ones first, then registered and declared types, else declared as a struct"""
        T = self.T
        prims = ('void', 'bool', 'int', 'float', 'str', 'any')
        for p in prims:
            t = self.table(globals_=2, func=False)
            q = T.cstr(t.st, p)
            want = t.g.prim(t.st, p.upper())
            for r in t.run('GetTagFromName', [t.state, q, 1]):
                self.ob(r.kind == 'ret' and eqv(r.val, want), 'C10/type %s' % p,
                        "the type name '%s' yields %r" % (p, r.val), T.where('GetTagFromName'))
        for declare in (0, 1):
            for n in range(4):
                t = self.table(globals_=n, func=False)
                key, what, w = 'C10/type name', 'looking up a type name among %d symbols' % n, T.where('GetTagFromName')
                tags = [t.g.prim(t.st, p.upper()) for p in prims]

                def match(s):
                    return lambda st: conj(t.is_kind(st, s, 'TAG_STRUCT', 'TAG_FOREIGN'), t.named(st, s))
                for r in t.run('GetTagFromName', [t.state, t.query, declare]):
                    if r.kind != 'ret':
                        self.bad(r, key, what, 'GetTagFromName')
                        continue
                    pn = [E.BUILTINS['strcmp'](None, r.st, [t.query, T.cstr(r.st, p)], None) for p in prims]
                    isp = [r.st.decide(E.mk_eq(v)) for v in pn]
                    if True in isp:
                        self.ob(eqv(r.val, tags[isp.index(True)]), key, what + ' ignores the primitive types', w)
                        continue
                    if None in isp:
                        self.C.fail(key, what + ' does not look at the primitive types first', w)
                        continue
                    hit = [s for s in t.globals if eqv(s, r.val)]
                    if hit:
                        self.ob(match(hit[0])(r.st) is True, key, what + ' yields %r, which does not match' % hit[0], w)
                        continue
                    if [s for s in t.globals if match(s)(r.st) is not False]:
                        self.C.fail(key, what + ' passes over an entry which may match', w)
                        continue
                    gs = t.grown(r.st, T.get(r.st, t.state, 'Tiny_State', 'globalSymbols'), n)
                    if not declare:
                        self.ob(eqv(r.val, 0) and len(gs) == n, key, what + ' invents a type', w)
                    else:
                        ok = len(gs) == n + 1 and gs[-1] == r.val and t.G(r.st, gs[-1], 'type') == t.g.SYM['TAG_STRUCT'] and \
                            t.G(r.st, gs[-1], 'sstruct.defined') == 0 and t.G(r.st, gs[-1], 'sstruct.fields') == 0 and \
                            self.copied(t, r.st, gs[-1], t.query)
                        self.ob(ok, key, what + ' does not declare the struct for later definition', w)
                self.C.analysed |= t.reached
        # nullable types are unique per type
        for n in range(4):
            t = self.table(globals_=n, func=False)
            inner = t.sym('inner', 'TAG_STRUCT', 0)
            key, what, w = 'C10/nullable type', 'the nullable form of a type', T.where(T.fn('GetOrCreateNullable'))

            def match(s):
                def f(st):
                    v = add(t.G(st, s, 'nullableTag'), inner, -1)
                    return conj(t.is_kind(st, s, 'TAG_NULLABLE'), st.decide(E.mk_eq(v)) if type(v) is not int else v == 0)
                return f
            for r in t.run('GetOrCreateNullable', [t.state, inner], extra={'snprintf': lambda en, st, a, i: 1}):
                if r.kind != 'ret':
                    self.bad(r, key, what, '')
                    continue
                hit = [s for s in t.globals if eqv(s, r.val)]
                if hit:
                    self.ob(match(hit[0])(r.st) is True, key, what + ' is the nullable form of another type', w)
                    continue
                gs = t.grown(r.st, T.get(r.st, t.state, 'Tiny_State', 'globalSymbols'), n)
                ok = all(match(s)(r.st) is False for s in t.globals) and len(gs) == n + 1 and gs[-1] == r.val and \
                    t.G(r.st, gs[-1], 'type') == t.g.SYM['TAG_NULLABLE'] and eqv(t.G(r.st, gs[-1], 'nullableTag'), inner)
                self.ob(ok, key, what + ' is created twice or refers to another type', w)
            self.C.analysed |= t.reached

    def copied(self, t, st, s, q):
        nm = t.G(st, s, 'name')
        for p, src in st.x.get('clones', ()):
            if p == nm:
                return src == q
        return nm == q

    # -------------------------------------------------------------- long tables of known names
    def long_table(self, n=300, depth=40, **kw):
        """names l0.. of nested scopes (every third one ended), a0.., g0.. of all kinds"""
        t = self.table(locals_=kw.get('locals_', n), args=kw.get('args', n), globals_=n, func=kw.get('func', True))
        T = self.T
        T.set(t.st, t.state, 'Tiny_State', 'currScope', depth)
        t.scope = depth
        for k, s in enumerate(t.locals):
            t.name(s, 'l%d' % k)
            T.set(t.st, s, 'Tiny_Symbol', 'var.scope', 1 + k % (depth + 1))
            T.set(t.st, s, 'Tiny_Symbol', 'var.scopeEnded', int(k % 3 == 2 or k % (depth + 1) == depth))
        for k, s in enumerate(t.args):
            t.name(s, 'a%d' % k)
        kinds = ('GLOBAL', 'CONST', 'FUNCTION', 'FOREIGN_FUNCTION', 'TAG_STRUCT', 'TAG_FOREIGN', 'MODULE')
        for k, s in enumerate(t.globals):
            t.name(s, 'g%d' % k)
            T.set(t.st, s, 'Tiny_Symbol', 'type', t.g.SYM[kinds[k % 7]])
            if kinds[k % 7] == 'TAG_STRUCT':
                T.set(t.st, s, 'Tiny_Symbol', 'sstruct.defined', 1)
        return t

    def long_names(self, part=None):
        n = 300
        for i, (pre, at) in enumerate([(p, k) for p in 'lag' for k in (0, 1, 15, 16, 31, 32, 33, 63, 64, 127, 128, 129, 254, 255, 256, 257, n - 2, n - 1, n)]):
            if i % 7 != part:
                continue
            t = self.long_table(n).ask('%s%d' % (pre, at))
            what = "looking up '%s%d' among %d locals, parameters and globals" % (pre, at, n)
            self.lookup('ReferenceVariable', t, [t.state, t.query], var_classes(t), 0, 'C10/long variable', what)
            if pre != 'g':
                continue
            t = self.long_table(n, func=False, locals_=0, args=0).ask('%s%d' % (pre, at))
            for fn, kinds, none, val in (('ReferenceFunction', ('FUNCTION', 'FOREIGN_FUNCTION'), 0, None),
                                         ('Tiny_GetGlobalIndex', ('GLOBAL',), -1, 'var.index'),
                                         ('Tiny_GetFunctionIndex', ('FUNCTION',), -1, 'func.index'),
                                         ('Tiny_FindConstSymbol', ('CONST',), 0, None), ('GetStructTag', ('TAG_STRUCT',), 0, None),
                                         ('Tiny_FindFuncSymbol', ('FUNCTION', 'FOREIGN_FUNCTION'), 0, None), ('Tiny_FindTypeSymbol', ('TAG_STRUCT', 'TAG_FOREIGN'), 0, None)):
                cl = ordered(t, lambda s, kinds=kinds: (lambda st: conj(t.is_kind(st, s, *kinds), t.named(st, s))))
                kw = {'value': lambda tab, st, s, val=val: tab.G(st, s, val)} if val else {}
                self.lookup(fn, t, [t.state, t.query], cl, none, 'C10/long table', what + ' with ' + fn, **kw)
        if part:
            return
        # names that agree in all but the last character
        for width in (31, 62, 63, 64, 127, 255, 300):
            for q in ('', '1', '2', '3'):
                for where in ('locals', 'args', 'globals'):
                    t = self.table(locals_=3, args=3, globals_=3)
                    for tab in (t.locals, t.args, t.globals):
                        for k, s in enumerate(tab):
                            t.name(s, '%s%d' % ('n' * width, k + 1) if tab is getattr(t, where) and k < 2 else 'other%d' % k)
                    t.ask('n' * width + q)
                    self.lookup('ReferenceVariable', t, [t.state, t.query], var_classes(t), 0, 'C10/long names',
                                'looking up a name of %d characters among others of that length' % (width + len(q)))
        # a field of a long struct
        T = self.T
        for n in (60, 255):
            for k in sorted({0, 15, 16, 23, 24, 31, 32, 63, 64, 127, 128, n - 1, n}):
                if k > n:
                    continue
                t = self.table(globals_=0, func=False)
                fs = [t.sym('f%d' % j, 'FIELD', j) for j in range(n)]
                tags = [t.st.new_obj('tag%d' % j, 'undef') for j in range(n)]
                for j, f in enumerate(fs):
                    T.set(t.st, f, 'Tiny_Symbol', 'fieldTag', tags[j])
                    t.name(f, 'f%d' % j)
                s = t.sym('S', 'TAG_STRUCT', 0)
                T.set(t.st, s, 'Tiny_Symbol', 'sstruct.defined', 1)
                T.set(t.st, s, 'Tiny_Symbol', 'sstruct.fields', t.buf('fields', fs))
                out = t.st.new_obj('index', 'undef')
                t.ask('f%d' % k)
                for r in t.run('GetFieldTag', [s, t.query, out]):
                    ix = r.st.load(out, 4) if r.kind == 'ret' else None
                    self.ob(r.kind == 'ret' and (eqv(r.val, tags[k]) and ix == k if k < n else eqv(r.val, 0) and ix in (-1, 0xffffffff)),
                            'C10/long struct', 'looking up field %d of %d gives %r with index %r' % (k, n, r.val, ix), T.where('GetFieldTag'))
                self.C.analysed |= t.reached

    def long_declarations(self):
        T = self.T
        n = 300
        gp = lambda t: (lambda st: T.get(st, t.state, 'Tiny_State', 'globalSymbols'))
        for at in (0, 9, 10, 16, 32, 64, 127, 128, 129, 255, 256, n - 2, n - 1, n):
            t = self.long_table(n).ask('l%d' % at)
            self.declare('DeclareLocal', t, [t.state, t.query],
                         lambda st: disj(*[conj(t.visible(st, s), t.named(st, s)) for s in t.locals]),
                         lambda st: T.get(st, t.fn, 'Tiny_Symbol', 'func.locals'), n,
                         lambda st, s: self.sym_is(t, st, s, t.query, type=t.g.SYM['LOCAL'], var__index=n, var__scope=t.scope,
                                                   var__scopeEnded=0, var__initialized=0, var__tag=0),
                         'C10/declare late local', 'declaring l%d beside %d locals' % (at, n))
            m = 200
            t2 = self.long_table(n, args=m).ask('a%d' % at)
            tag = t2.st.new_obj('tag', 'undef')
            self.declare('DeclareArgument', t2, [t2.state, t2.query, tag, m + 1],
                         lambda st: disj(*[t2.named(st, s) for s in t2.args]),
                         lambda st: T.get(st, t2.fn, 'Tiny_Symbol', 'func.args'), m,
                         lambda st, s: self.sym_is(t2, st, s, t2.query, type=t2.g.SYM['LOCAL'], var__index=-1, var__scopeEnded=0, var__tag=tag),
                         'C10/declare late parameter', 'declaring parameter a%d beside %d' % (at, m))
            t3 = self.long_table(n, func=False, locals_=0, args=0).ask('g%d' % at)
            self.declare('DeclareGlobalVar', t3, [t3.state, t3.query],
                         lambda st: disj(*[conj(t3.is_kind(st, s, 'GLOBAL', 'CONST'), t3.named(st, s)) for s in t3.globals]),
                         gp(t3), n, lambda st, s: self.sym_is(t3, st, s, t3.query, type=t3.g.SYM['GLOBAL'], var__index=t3.ng),
                         'C10/declare late global', 'declaring global g%d beside %d symbols' % (at, n))
            t4 = self.long_table(n, func=False, locals_=0, args=0).ask('g%d' % at)
            tag4 = t4.st.new_obj('tag', 'undef')
            self.declare('DeclareConst', t4, [t4.state, t4.query, tag4],
                         lambda st: disj(*[conj(t4.is_kind(st, s, 'GLOBAL', 'CONST'), t4.named(st, s)) for s in t4.globals]),
                         gp(t4), n, lambda st, s: self.sym_is(t4, st, s, t4.query, type=t4.g.SYM['CONST'], constant__tag=tag4),
                         'C10/declare late constant', 'declaring constant g%d beside %d symbols' % (at, n))
        # scopes: deep nesting and many locals
        w = T.where(T.fn('CloseScope'))
        for depth in (2, 11, 12, 13, 31, 32, 40):
            t = self.long_table(n, depth=depth)
            for r in t.run('CloseScope', [t.state]):
                if r.kind != 'ret':
                    self.bad(r, 'C10/close deep scope', 'closing scope %d' % depth, '')
                    continue
                bad = None
                for s in t.locals:
                    old, sc, new = t.G(t.st, s, 'var.scopeEnded'), t.G(t.st, s, 'var.scope'), t.G(r.st, s, 'var.scopeEnded')
                    new = new if type(new) is int else r.st.const_of(new)
                    if new != int(old or sc == depth) or t.G(r.st, s, 'var.scope') != sc:
                        bad = 'of %d locals one of scope %d (%s) is %s afterwards' % (n, sc, 'ended' if old else 'visible',
                                                                                    'ended' if new else 'visible')
                if T.get(r.st, t.state, 'Tiny_State', 'currScope') != depth - 1:
                    bad = 'the depth is not one less'
                self.ob(not bad, 'C10/close deep scope', 'closing scope %d: %s' % (depth, bad), w)
            self.C.analysed |= t.reached

    # -------------------------------------------------------------- declarations
    def declare(self, fn, tab, args, conflict, buf, n, check, key, what, must_refuse=None):
        T = self.T
        for r in tab.run(fn, args):
            w = T.where(fn)
            st = r.st
            c = conflict(st)
            if r.kind in ('raise', 'exit'):
                self.ob(c is True, key, what + ' is refused without a conflict', w)
                continue
            if r.kind != 'ret':
                self.bad(r, key, what, fn)
                continue
            if c is not False:
                self.C.fail(key, what + (' is accepted although the name is taken' if c else
                                         ' is accepted without looking at a possible conflict'), w, self.path(r))
                continue
            b = buf(st)
            gs = tab.grown(st, b, n)
            if gs is None or len(gs) != n + 1 or not (type(r.val) is not int and gs[-1] == r.val):
                self.C.fail(key, what + ' does not add exactly its symbol', w)
                continue
            bad = check(st, gs[-1])
            self.ob(not bad, key, '%s: %s' % (what, bad), w)
        self.C.analysed |= tab.reached

    def sym_is(self, t, st, s, q, **want):
        for k, v in want.items():
            f = k.replace('__', '.')
            x = t.G(st, s, f)
            if not eqv(x, v):
                return 'the new symbol has %s %r instead of %r' % (f, x, v)
        if not self.copied(t, st, s, q):
            return 'the new symbol has another name'
        return None

    def declarations(self):
        T = self.T
        for n in range(4):
            # locals
            t = self.table(locals_=n, args=1, globals_=1)
            lp = lambda st: T.get(st, t.fn, 'Tiny_Symbol', 'func.locals')
            self.declare('DeclareLocal', t, [t.state, t.query],
                         lambda st: disj(*[conj(t.visible(st, s), t.named(st, s)) for s in t.locals]), lp, n,
                         lambda st, s: self.sym_is(t, st, s, t.query, type=t.g.SYM['LOCAL'], var__index=n, var__scope=t.scope,
                                                   var__scopeEnded=0, var__initialized=0, var__tag=0),
                         'C10/declare local', 'declaring a local beside %d others' % n)
            # parameters: n declared already, of nargs
            t2 = self.table(locals_=1, args=n, globals_=1)
            nargs = fresh('nargs', 32, n + 1, 100)
            tag = t2.st.new_obj('tag', 'undef')
            ap = lambda st: T.get(st, t2.fn, 'Tiny_Symbol', 'func.args')
            self.declare('DeclareArgument', t2, [t2.state, t2.query, tag, nargs],
                         lambda st: disj(*[t2.named(st, s) for s in t2.args]), ap, n,
                         lambda st, s: self.sym_is(t2, st, s, t2.query, type=t2.g.SYM['LOCAL'], var__index=add(mul(nargs, -1), n),
                                                   var__scopeEnded=0, var__tag=tag),
                         'C10/declare parameter', 'declaring parameter %d' % n)
            gp = lambda t: (lambda st: T.get(st, t.state, 'Tiny_State', 'globalSymbols'))
            t3 = self.table(globals_=n, func=False)
            self.declare('DeclareGlobalVar', t3, [t3.state, t3.query],
                         lambda st: disj(*[conj(t3.is_kind(st, s, 'GLOBAL', 'CONST'), t3.named(st, s)) for s in t3.globals]),
                         gp(t3), n,
                         lambda st, s: self.sym_is(t3, st, s, t3.query, type=t3.g.SYM['GLOBAL'], var__index=t3.ng,
                                                   var__initialized=0, var__tag=0) or
                         (None if eqv(T.get(st, t3.state, 'Tiny_State', 'numGlobalVars'), add(t3.ng, 1)) else
                          'the number of globals does not grow by one'),
                         'C10/declare global', 'declaring a global beside %d symbols' % n)
            t4 = self.table(globals_=n, func=False)
            tag = t4.st.new_obj('tag', 'undef')
            self.declare('DeclareConst', t4, [t4.state, t4.query, tag],
                         lambda st: disj(*[conj(t4.is_kind(st, s, 'GLOBAL', 'CONST'), t4.named(st, s)) for s in t4.globals]),
                         gp(t4), n,
                         lambda st, s: self.sym_is(t4, st, s, t4.query, type=t4.g.SYM['CONST'], constant__tag=tag),
                         'C10/declare constant', 'declaring a constant beside %d symbols' % n)
            t5 = self.table(globals_=n, func=False)
            self.declare('DeclareFunction', t5, [t5.state, t5.query], lambda st: False, gp(t5), n,
                         lambda st, s: self.sym_is(t5, st, s, t5.query, type=t5.g.SYM['FUNCTION'], func__index=t5.nf,
                                                   func__args=0, func__locals=0) or
                         (None if eqv(T.get(st, t5.state, 'Tiny_State', 'numFunctions'), add(t5.nf, 1)) else
                          'the number of functions does not grow by one'),
                         'C10/declare function', 'declaring a function beside %d symbols' % n)
            t6 = self.table(globals_=n, func=False)
            tags, ret, cal = (t6.st.new_obj(x, 'undef') for x in ('tags', 'ret', 'callee'))
            va = fresh('varargs', 8, 0, 1)
            for r in t6.run('BindFunction', [t6.state, t6.query, tags, va, ret, cal]):
                key, what, w = 'C10/bind function', 'binding a foreign function beside %d symbols' % n, T.where('BindFunction')
                c = disj(*[conj(t6.is_kind(r.st, s, 'FOREIGN_FUNCTION'), t6.named(r.st, s)) for s in t6.globals])
                if r.kind in ('raise', 'exit'):
                    self.ob(c is True, key, what + ' is refused without a conflict', w)
                elif r.kind != 'ret':
                    self.bad(r, key, what, '')
                else:
                    gs = t6.grown(r.st, gp(t6)(r.st), n)
                    bad = 'accepted although the name is taken' if c is not False else \
                        'does not add exactly one symbol' if gs is None or len(gs) != n + 1 else \
                        self.sym_is(t6, r.st, gs[-1], t6.query, type=t6.g.SYM['FOREIGN_FUNCTION'], foreignFunc__index=t6.nff,
                                    foreignFunc__argTags=tags, foreignFunc__returnTag=ret,
                                    foreignFunc__callee=cal) or \
                        (None if same_flag(t6.G(r.st, gs[-1], 'foreignFunc.varargs'), va) else 'the varargs flag is lost') or \
                        (None if eqv(T.get(r.st, t6.state, 'Tiny_State', 'numForeignFunctions'), add(t6.nff, 1)) else
                         'the number of foreign functions does not grow by one')
                    self.ob(not bad, key, '%s: %s' % (what, bad), w)
            self.C.analysed |= t6.reached

    def constants_in_functions(self):
        """inside a function a constant conflicts with visible locals and parameters as well"""
        T = self.T
        for nl, na, ng in ((2, 0, 1), (0, 2, 1), (1, 1, 1)):
            t = self.table(locals_=nl, args=na, globals_=ng)
            tag = t.st.new_obj('tag', 'undef')

            def conflict(st):
                return disj(*([conj(t.visible(st, s), t.named(st, s)) for s in t.locals] + [t.named(st, s) for s in t.args] +
                              [conj(t.is_kind(st, s, 'GLOBAL', 'CONST'), t.named(st, s)) for s in t.globals]))
            self.declare('DeclareConst', t, [t.state, t.query, tag], conflict,
                         lambda st: T.get(st, t.state, 'Tiny_State', 'globalSymbols'), ng,
                         lambda st, s: self.sym_is(t, st, s, t.query, type=t.g.SYM['CONST'], constant__tag=tag),
                         'C10/declare constant in a function', 'declaring a constant in a function')

    def scopes(self):
        T = self.T
        w = T.where(T.fn('CloseScope'))
        kinds = [(1, 0), (2, 0), (3, 0), (1, 1), (3, 1), (4, 1)]
        for n in range(4):
            key, what = 'C10/close scope', 'closing a scope with %d locals' % n
            for combo in itertools.product(kinds, repeat=n):
                t = self.table(locals_=n, args=1, globals_=1)
                T.set(t.st, t.state, 'Tiny_State', 'currScope', 3)
                for s, (sc, ended) in zip(t.locals, combo):
                    T.set(t.st, s, 'Tiny_Symbol', 'var.scope', sc)
                    T.set(t.st, s, 'Tiny_Symbol', 'var.scopeEnded', ended)
                for r in t.run('CloseScope', [t.state]):
                    if r.kind != 'ret':
                        self.bad(r, key, what, '')
                        continue
                    bad = None
                    for s, (sc, ended) in zip(t.locals, combo):
                        new = t.G(r.st, s, 'var.scopeEnded')
                        new = new if type(new) is int else r.st.const_of(new)
                        if new not in (0, 1):
                            bad = 'whether a local is visible depends on something else'
                        elif sc == 3 and not new:
                            bad = 'a local of the closed scope stays visible'
                        elif ended and not new:
                            bad = 'a local becomes visible again'
                        elif new and not ended and sc != 3:
                            bad = 'a local of another scope is ended'
                        if t.G(r.st, s, 'var.scope') != sc:
                            bad = 'the scope of a local changes'
                    for s in t.args:
                        if t.G(r.st, s, 'var.scopeEnded') != 0:
                            bad = 'a parameter is ended'
                    if T.get(r.st, t.state, 'Tiny_State', 'currScope') != 2:
                        bad = 'the depth does not decrease by one'
                    self.ob(not bad, key, '%s: %s' % (what, bad), w)
                self.C.analysed |= t.reached
            t = self.table(locals_=n, args=1, globals_=1)
            for r in t.run('OpenScope', [t.state]):
                self.ob(r.kind == 'ret' and eqv(T.get(r.st, t.state, 'Tiny_State', 'currScope'), add(t.scope, 1)),
                        'C10/open scope', 'opening a scope does not increase the depth by one', T.where('OpenScope'))
            self.C.analysed |= t.reached


def eqv(a, b):
    return a == b if type(a) is type(b) else False


def same_flag(v, va):
    if eqv(v, va):
        return True
    return isinstance(v, Lin) and val_atoms(v) >= val_atoms(va) and len(val_atoms(v)) <= 4


def disj(*x):
    if True in x:
        return True
    return None if None in x else False


def ordered(t, m):
    """every entry is a class of its own: the first match counts"""
    return [[(s, m(s))] for s in t.globals]


def var_classes(t):
    return [[(s, (lambda s: lambda st: conj(t.visible(st, s), t.named(st, s)))(s)) for s in t.locals],
            [(s, (lambda s: lambda st: t.named(st, s))(s)) for s in t.args],
            [(s, (lambda s: lambda st: conj(t.is_kind(st, s, 'GLOBAL', 'CONST'), t.named(st, s)))(s)) for s in t.globals]]


def run(T, C):
    R = Run(T, C)

    def job(step):
        def go(C2):
            R.C = C2
            try:
                step()
            except Missing as e:
                C2.undecide('%s: %s is not in the program' % (getattr(step, '__name__', 'long tables'), e))
        return go
    C.together([job(functools.partial(R.long_names, k)) for k in range(7)] + [job(s) for s in (R.long_declarations, R.reference_variable, R.functions, R.fields, R.types, R.declarations,
                                 R.constants_in_functions, R.scopes)])
    from C11 import undeclared
    from typer import run_cases
    run_cases(T, C, undeclared(), T.where('ReferenceVariable'), 'C10')
