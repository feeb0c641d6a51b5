"""What the host binds is exactly what it declared."""
from hostworld import *

LEVEL = 'other'
FLOOR = 200
RULE = ('Every binding and lookup function of the host interface is interpreted on states which contain symbols of every kind, with '
        'signatures of every shape (no parentheses, up to four and up to a hundred parameters, long names, nullable, registered, defined and unknown types, variadic, result '
        'types, spacing) and with malformed ones. The symbol table afterwards is compared with the declaration: the older symbols '
        'unchanged and in place, exactly the new ones added, with the declared name, types, number, value or callback. Malformed or repeated '
        'declarations must stop the program. Lookups must find exactly the symbol of that kind and name.')

PRIM = {'void': 'TAG_VOID', 'bool': 'TAG_BOOL', 'int': 'TAG_INT', 'float': 'TAG_FLOAT', 'str': 'TAG_STR', 'any': 'TAG_ANY'}


class W(Host):
    """a created state with some symbols of every kind"""

    def __init__(self, T):
        Host.__init__(self, T)
        v = self.create()
        if v[0] != 'value':
            raise Missing('a state to bind to: %r' % (v,))
        st = self.st
        n = lambda f, x: self.T.set(st, x, 'Tiny_Symbol', f[0], f[1])
        self.pre = {}
        tag = self.tagp('int')
        for ty, nm in (('TAG_FOREIGN', 'handle'), ('TAG_STRUCT', 'Point'), ('TAG_STRUCT', 'Later'), ('GLOBAL', 'counter'), ('FUNCTION', 'script'),
                       ('CONST', 'LIMIT'), ('MODULE', 'mod'), ('TAG_NULLABLE', 'handle?')):
            p = self.h.block(st, 'symbol ' + nm, T.size('Tiny_Symbol'), 'undef')
            self.pre[nm] = p
            S = lambda f, v: T.set(st, p, 'Tiny_Symbol', f, v)
            S('type', self.SYM[ty])
            S('name', self.h.cstr(st, nm, 'name ' + nm))
            S('pos', 3)
            if ty == 'TAG_STRUCT':
                S('sstruct.defined', int(nm == 'Point'))
                S('sstruct.fields', 0)
                S('sstruct.definedSerial', 1)
            elif ty == 'TAG_FOREIGN':
                S('sstruct.defined', 0)
                S('sstruct.fields', 0)
            elif ty == 'GLOBAL':
                S('var.index', 0)
                S('var.tag', tag)
                S('var.initialized', 1)
                S('var.scopeEnded', 0)
                S('var.scope', 0)
            elif ty == 'FUNCTION':
                S('func.index', 0)
                S('func.args', 0)
                S('func.locals', 0)
                S('func.returnTag', tag)
            elif ty == 'CONST':
                S('constant.tag', tag)
                S('constant.iValue', 99)
            elif ty == 'MODULE':
                S('modFunc', self.callee('mod'))
            elif ty == 'TAG_NULLABLE':
                S('nullableTag', self.pre['handle'])
        old = self.symbols()
        st.x['live'] = st.x['live'] - {self.h.owner(self.G('globalSymbols'))}
        self.set('globalSymbols', self.h.stretchy(st, 'globalSymbols', [[(0, 8, x)] for x in old + list(self.pre.values())], 8))
        self.set('numGlobalVars', 1)
        self.set('numFunctions', 1)
        # texts
        for k, s in enumerate(('first', '')):
            st.store(self.state, 8, self.h.cstr(st, s, 'string %d' % k), T.off('Tiny_State', 'strings') + 8 * k)
        self.set('numStrings', 2)

    def set(self, f, v):
        self.T.set(self.st, self.state, 'Tiny_State', f, v)

    def tagp(self, name):
        """the tag of a primitive type, as the first bound functions show it"""
        for p in self.symbols():
            for q in self.arr(self.T.get(self.st, p, 'Tiny_Symbol', 'foreignFunc.argTags')) or []:
                if self.sym(q)[1] == name:
                    return q
        raise Missing('the tag of ' + name)

    def scalars(self):
        return tuple(self.G(f) for f in ('numGlobalVars', 'numFunctions', 'numForeignFunctions', 'numStrings', 'program', 'pcToFileLine', 'currFunc', 'currScope',
                                         'compileCallNestCount', 'functionPcs', 'foreignFunctions'))


def ref_type(text, table):
    """the tag a type name means; unknown names declare a struct"""
    q = text.endswith('?')
    n = text.rstrip('?')
    base = (PRIM[n], n) if n in PRIM else table.setdefault(n, ('TAG_STRUCT', n, 0, 0))
    return ('TAG_NULLABLE', base[:2]) if q else base


def table_of(w):
    t = {}
    for s in w.snapshot():
        if s[0] in ('TAG_FOREIGN', 'TAG_STRUCT'):
            t.setdefault(s[1], s)
    return t


def bind_function(T, C):
    f = T.fn('Tiny_BindFunction')
    types = ['int', 'str?', 'handle', 'handle?', 'Point', 'Point?', 'Later', 'unknown', 'unknown?', 'any', 'float', 'bool', 'other?']
    sigs = [('plain', None, True, 'any')]
    for n in range(4):
        for k in range(len(types) if n else 1):
            ps = [types[(k + 3 * j) % len(types)] for j in range(n)]
            for var in (False, True):
                for r in (None, 'int', types[(k + 5) % len(types)]) if n < 2 else (types[(k + 7) % len(types)],):
                    sigs.append(('fn', ps, var, r))
    sigs += [('fn', ['any'], False, 'void'), ('fn', [], False, 'void'), ('fn', ['int'] * 8, False, 'int'), ('a_rather_long_name_for_a_function_0123456789_ABC', ['int'], True, None)]
    styles = [lambda n, ps, r: n + (('(' + ', '.join(ps) + ')') if ps is not None else '') + (': ' + r if r else ''),
              lambda n, ps, r: ' ' + n + ' ' + (('( ' + ' ,\t'.join(ps) + ' ) ') if ps is not None else '') + (' :  ' + r + ' ' if r else ''),
              lambda n, ps, r: n + (('(' + ','.join(ps) + ')') if ps is not None else '') + (':' + r if r else '')]
    for j, (nm, ps, var, r) in enumerate(sigs):
        for style in (styles[:1] if j % 4 else styles):
            if ps is None:
                sig = style(nm, None, None)
            else:
                sig = style(nm, ps + (['...'] if var else []), r)
            w = W(T)
            old, before = w.symbols(), w.snapshot()
            sc = w.scalars()
            cb = w.callee('cb')
            v = w.call(f, w.state, w.text(sig), cb)
            C.analysed |= w.reached
            if not returned(T, C, f, v, 'binding ' + repr(sig), 'C29/bind'):
                continue
            tab = table_of_before(before)
            if ps is None:
                want = ('FOREIGN_FUNCTION', nm, sc[2], (), True, (PRIM['any'], 'any'), cb)
            else:
                want = ('FOREIGN_FUNCTION', nm, sc[2], tuple(ref_type(p, tab) for p in ps), var, ref_type(r or 'any', tab), cb)
            names = {s[1] for s in before if s[0] in ('TAG_FOREIGN', 'TAG_STRUCT')}
            fresh_ = [s for n, s in tab.items() if n not in names]
            nulls = {ref_type(t, dict(tab)) for t in (ps or []) + [r or 'any'] if t.endswith('?')}
            nulls -= {s for s in before if s[0] == 'TAG_NULLABLE'}
            compare(T, C, f, w, old, before, sc, [want] + fresh_ + sorted(nulls), {2: 1}, 'binding ' + repr(sig), 'C29/bind')
    for sig in ('', '(int)', 'f(', 'f(int', 'f(5)', 'f(int,', 'f(int):', 'f(void?)', 'f(int):5', '"f"(int)', '5(int)', 'f(int', 'f(..)', 'f(if)', 'f(int;)', 'f(int): void?', 'f(@)'):
        w = W(T)
        v = w.call(f, w.state, w.text(sig), w.callee('cb'))
        C.analysed |= w.reached
        stops(T, C, f, v, 'binding the malformed ' + repr(sig), 'C29/bind')
    # the same name twice
    w = W(T)
    for sig in ('dup(int)', 'dup', 'dup(): str'):
        v = w.call(f, w.state, w.text(sig), w.callee('cb ' + sig))
        if sig == 'dup(int)':
            returned(T, C, f, v, 'binding ' + sig, 'C29/bind')
        else:
            stops(T, C, f, v, 'binding %s after dup(int)' % sig, 'C29/bind')
    # numbers are given in order, and types are shared
    w = W(T)
    for k in range(6):
        v = w.call(f, w.state, w.text('g%d(unknown, unknown?, str?)' % k), w.callee('g%d' % k))
        if not returned(T, C, f, v, 'binding the function %d' % k, 'C29/bind'):
            break
    else:
        snap = w.snapshot()
        idx = [s[2] for s in snap if s[0] == 'FOREIGN_FUNCTION']
        bad = []
        if idx != list(range(len(idx))) or w.G('numForeignFunctions') != len(idx):
            bad.append('functions are numbered %s of %s' % (idx, w.G('numForeignFunctions')))
        for s, want in ((('TAG_STRUCT', 'unknown', 0, 0), 1), (('TAG_NULLABLE', ('TAG_STR', 'str')), 1)):
            if snap.count(s) != want:
                bad.append('%d symbols for %s' % (snap.count(s), s[1]))
        if bad:
            C.fail('C29/bind', 'after six bindings: %s' % '; '.join(bad), T.where(f))
        else:
            C.ok('six bindings')


def table_of_before(before):
    t = {}
    for s in before:
        if s[0] in ('TAG_FOREIGN', 'TAG_STRUCT'):
            t.setdefault(s[1], s)
    return t


def returned(T, C, f, v, what, key):
    if v[0] == 'vague':
        C.undecide('%s: %s' % (what, v[1]))
        return False
    if v[0] != 'value':
        C.fail(key, '%s ends with %s' % (what, v[-1].val), T.loc(v[-1].where) or T.where(f))
        return False
    return True


def stops(T, C, f, v, what, key):
    if v[0] == 'vague':
        C.undecide('%s: %s' % (what, v[1]))
    elif v[0] == 'stop' and v[1].kind == 'exit':
        C.ok(what)
    else:
        C.fail(key, '%s %s instead of stopping the program' % (what, 'is accepted' if v[0] == 'value' else 'ends with %s' % v[-1].val), T.where(f))


def compare(T, C, f, w, old, before, sc, added, counts, what, key, changed=None):
    """the older symbols are unchanged (but for changed: index -> symbol), exactly these are new, the scalars differ by counts"""
    now = w.symbols()
    bad = [e[1] for e in w.events if e[0] == 'bad']
    if now[:len(old)] != old:
        bad.append('the older symbols move')
    snap = w.snapshot()
    expect = [(changed or {}).get(k, s) for k, s in enumerate(before)]
    for a, b in zip(snap, expect):
        if a != b:
            bad.append('the symbol %s becomes %s' % (b, a))
    got = snap[len(old):]
    if sorted(map(repr, got)) != sorted(map(repr, added)):
        bad.append('adds %s instead of %s' % (got, added))
    s2 = w.scalars()
    for k, (x, y) in enumerate(zip(sc, s2)):
        d = counts.get(k, 0)
        if (x + d if d else x) != y and not (x is y):
            bad.append('a counter goes from %r to %r' % (x, y))
    if w.lost():
        bad.append('memory is lost')
    if bad:
        C.fail(key, '%s: %s' % (what, '; '.join(bad[:3])), T.where(f))
    else:
        C.ok(what)


def types(T, C):
    f = T.fn('Tiny_RegisterType')
    for nm in ('fresh', 'int', 'any', 'void', 'handle', 'Point', 'Later', 'counter', 'script', 'LIMIT', 'mod', 'Handle', 'handl', 'handles'):
        w = W(T)
        old, before, sc = w.symbols(), w.snapshot(), w.scalars()
        v = w.call(f, w.state, w.text(nm))
        C.analysed |= w.reached
        what = 'registering the type ' + nm
        if not returned(T, C, f, v, what, 'C29/type'):
            continue
        k = next((j for j, s in enumerate(before) if s[:2] == ('TAG_STRUCT', 'Later')), None)
        compare(T, C, f, w, old, before, sc, [('TAG_FOREIGN', nm)] if nm in ('fresh', 'counter', 'script', 'LIMIT', 'mod', 'Handle', 'handl', 'handles') else [], {}, what,
                'C29/type', {k: ('TAG_FOREIGN', nm)} if nm == 'Later' else None)
        # a function bound afterwards uses it
        v = w.call('Tiny_BindFunction', w.state, w.text('user(%s): any' % nm), w.callee('u'))
        if returned(T, C, f, v, 'using the type ' + nm, 'C29/type'):
            s = w.snapshot()[-1]
            t = next((x for x in w.snapshot() if x[0] == 'FOREIGN_FUNCTION' and x[1] == 'user'), None)
            arg = t[3][0] if t and t[3] else None
            ok = arg == ((PRIM[nm], nm) if nm in PRIM else ('TAG_STRUCT', nm, 1, 0) if nm == 'Point' else ('TAG_FOREIGN', nm))
            if ok:
                C.ok()
            else:
                C.fail('C29/type', 'a function declared with the registered type %s has %s' % (nm, arg), T.where(f))


CONSTS = (('Tiny_BindConstBool', 'TAG_BOOL', (0, 1)), ('Tiny_BindConstInt', 'TAG_INT', (0, -1, (1 << 63) - 1, -(1 << 63), 1 << 32)),
          ('Tiny_BindConstFloat', 'TAG_FLOAT', (0.0, -2.5, 1e300)), ('Tiny_BindConstString', 'TAG_STR', ('', 'first', 'new text', 'x' * 100, 'a "quoted" \\ text')))


def consts(T, C):
    for f, tag, vals in CONSTS:
        T.fn(f)
        for x in vals:
            for nm in ('K', 'LIMITS', 'int', 'script', 'handle', 'mod'):
                w = W(T)
                old, before, sc = w.symbols(), w.snapshot(), w.scalars()
                arg = w.text(x) if isinstance(x, str) else E.fconst(x) if isinstance(x, float) else x
                v = w.call(f, w.state, w.text(nm), arg)
                C.analysed |= w.reached
                what = '%s(%s, %r)' % (f, nm, x if not isinstance(x, str) else x[:20])
                if not returned(T, C, f, v, what, 'C29/const'):
                    continue
                new = isinstance(x, str) and x not in ('first', '')
                want = E.float_bits(E.fconst(x)) if isinstance(x, float) else x
                compare(T, C, f, w, old, before, sc, [('CONST', nm, tag, want)], {3: 1} if new else {}, what, 'C29/const')
                if isinstance(x, str):
                    ks = [w.string(k) for k in range(w.G('numStrings'))]
                    if len(set(ks)) != len(ks) or ks[:2] != ['first', '']:
                        C.fail('C29/const', '%s: the texts are %s' % (what, ks), T.where(f))
                    else:
                        C.ok()
        for nm in ('LIMIT', 'counter'):
            w = W(T)
            arg = w.text(vals[0]) if isinstance(vals[0], str) else E.fconst(vals[0]) if isinstance(vals[0], float) else vals[0]
            v = w.call(f, w.state, w.text(nm), arg)
            stops(T, C, f, v, '%s with the name %s, which is taken' % (f, nm), 'C29/const')


def macros(T, C):
    f = T.fn('Tiny_BindMacro')
    for nm in ('m', 'modu', 'mo', 'script', 'counter', 'int'):
        w = W(T)
        old, before, sc = w.symbols(), w.snapshot(), w.scalars()
        v = w.call(f, w.state, w.text(nm), w.callee('m'))
        C.analysed |= w.reached
        if returned(T, C, f, v, 'binding the macro ' + nm, 'C29/macro'):
            compare(T, C, f, w, old, before, sc, [('MODULE', nm, w.callee('m'))], {}, 'binding the macro ' + nm, 'C29/macro')
    w = W(T)
    v = w.call(f, w.state, w.text('mod'), w.callee('m'))
    stops(T, C, f, v, 'binding a macro with a name that is taken', 'C29/macro')


def lookups(T, C):
    names = ['handle', 'Point', 'Later', 'counter', 'script', 'LIMIT', 'mod', 'handle?', 'int', 'float', 'str', 'any', 'void', 'bool', 'nothing', '', 'script2', 'scrip', 'LIMI', 'k']
    for f, kinds in (('Tiny_FindTypeSymbol', None), ('Tiny_FindFuncSymbol', ('FUNCTION', 'FOREIGN_FUNCTION')), ('Tiny_FindConstSymbol', ('CONST',))):
        T.fn(f)
        w = W(T)
        for sig in ('k', 'z(int)'):
            w.call('Tiny_BindFunction', w.state, w.text(sig), w.callee(sig))
        w.call('Tiny_BindConstInt', w.state, w.text('z'), 5)
        w.call('Tiny_BindConstInt', w.state, w.text('script'), 6)
        for nm in names + ['z']:
            syms = w.symbols()
            before = w.snapshot()
            v = w.call(f, w.state, w.text(nm))
            C.analysed |= w.reached
            what = '%s(%r)' % (f, nm)
            if not returned(T, C, f, v, what, 'C29/find'):
                continue
            got = v[1]
            if kinds is None:
                if nm in PRIM:
                    ok = type(got) is not int and w.sym(got) == (PRIM[nm], nm)
                else:
                    m = [p for p, s in zip(syms, before) if s[1] == nm and (s[0] == 'TAG_FOREIGN' or s[0] == 'TAG_STRUCT' and s[2])]
                    ok = got == (m[0] if m else 0)
            else:
                m = [p for p, s in zip(syms, before) if s[1] == nm and s[0] in kinds]
                ok = got == (m[0] if m else 0)
            if ok and w.symbols() == syms and w.snapshot() == before:
                C.ok(what)
            else:
                C.fail('C29/find', '%s gives %s' % (what, w.sym(got) if type(got) is not int else got) + ('' if w.snapshot() == before else ' and changes the table'), T.where(f))
    f = T.fn('Tiny_GetStringFromConstIndex')
    w = W(T)
    for k in (-1, 0, 1, 2, 3, 1 << 20, -(1 << 31)):
        v = w.call(f, w.state, k)
        C.analysed |= w.reached
        if 0 <= k < 2:
            if v[0] == 'value' and w.cstr(v[1]) == ('first', '')[k]:
                C.ok('text %d' % k)
            else:
                C.fail('C29/text', 'the text of index %d is %s' % (k, v), T.where(f))
        else:
            stops(T, C, f, v, 'the text of index %d of 2' % k, 'C29/text')
    f = T.fn('Tiny_SymbolArrayCount')
    for n in (None, 0, 1, 5):
        w = W(T)
        p = 0 if n is None else w.h.stretchy(w.st, 'array', [[(0, 8, w.pre['handle'])]] * n, 8)
        v = w.call(f, p)
        if v[0] == 'value' and v[1] == (n or 0):
            C.ok('an array of %s' % n)
        else:
            C.fail('C29/count', 'the count of an array of %s symbols is %s' % (n, v[1]), T.where(f))


def creation(T, C):
    """a new state has the two conversions and nothing else"""
    f = T.fn('Tiny_CreateStateWithContext')
    w = Host(T)
    v = w.create()
    C.analysed |= w.reached
    if not returned(T, C, f, v, 'creating a state', 'C29/create'):
        return
    s = w.snapshot()
    want = {('int', (('TAG_FLOAT', 'float'),), ('TAG_INT', 'int')), ('float', (('TAG_INT', 'int'),), ('TAG_FLOAT', 'float'))}
    if {(x[1], x[3], x[5]) for x in s if x[0] == 'FOREIGN_FUNCTION' and not x[4]} == want and len(s) == 2:
        C.ok('a new state')
    else:
        C.fail('C29/create', 'a new state contains %s' % s, T.where(f))
    z = {g: w.G(g) for g in ('numStrings', 'numGlobalVars', 'numFunctions', 'program', 'functionPcs', 'foreignFunctions', 'pcToFileLine', 'currFunc', 'currScope', 'compileCallNestCount')}
    if all(v == 0 for v in z.values()) and w.G('ctx.alloc') == w.h.alloc and w.G('ctx.userdata') == w.h.userdata:
        C.ok('a new state is empty')
    else:
        C.fail('C29/create', 'a new state has %s' % {k: v for k, v in z.items() if v != 0}, T.where(f))


def late(n, fill='q'):
    """names of n characters of which only the last differs"""
    return [fill * (n - 1) + c for c in 'ab']


def long_names(T, C):
    """a name is the whole name, however long"""
    for n in (15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 200, 300):
        x, y = late(n)
        w = W(T)
        plan = [('Tiny_RegisterType', [x + 'T'], ('TAG_FOREIGN', x + 'T')), ('Tiny_RegisterType', [y + 'T'], ('TAG_FOREIGN', y + 'T')),
                ('Tiny_RegisterType', [(x + 'T')[:-2]], ('TAG_FOREIGN', (x + 'T')[:-2])),
                ('Tiny_BindConstInt', [x, 7], ('CONST', x, 'TAG_INT', 7)), ('Tiny_BindConstInt', [y, 8], ('CONST', y, 'TAG_INT', 8)),
                ('Tiny_BindMacro', [x, w.callee('mx')], ('MODULE', x, w.callee('mx'))), ('Tiny_BindMacro', [y, w.callee('my')], ('MODULE', y, w.callee('my'))),
                ('Tiny_BindMacro', [x[:-1], w.callee('mz')], ('MODULE', x[:-1], w.callee('mz')))]
        k = w.G('numForeignFunctions')
        for j, (nm, t) in enumerate(((x, x + 'T'), (y, y + 'T'), (x[:-1], x[:-1]))):
            if t == x[:-1]:
                t = (x + 'T')[:-2]
            plan.append(('Tiny_BindFunction', ['%s(%s, int): %s' % (nm, t, t), w.callee(nm)],
                         ('FOREIGN_FUNCTION', nm, k + j, (('TAG_FOREIGN', t), ('TAG_INT', 'int')), False, ('TAG_FOREIGN', t), w.callee(nm))))
        done = []
        for f, a, want in plan:
            old, before, sc = w.symbols(), w.snapshot(), w.scalars()
            v = w.call(f, w.state, w.text(a[0]), *a[1:])
            C.analysed |= w.reached
            what = '%s of %r after %s' % (f, brief(a[0]), [brief(z[1]) for z in done[-3:]])
            if not returned(T, C, T.fn(f), v, what, 'C29/long'):
                break
            compare(T, C, T.fn(f), w, old, before, sc, [want], {2: 1} if f == 'Tiny_BindFunction' else {}, what, 'C29/long')
            done.append(want)
        syms, snap = w.symbols(), w.snapshot()
        for f, kinds in (('Tiny_FindTypeSymbol', ('TAG_FOREIGN',)), ('Tiny_FindFuncSymbol', ('FOREIGN_FUNCTION', 'FUNCTION')), ('Tiny_FindConstSymbol', ('CONST',))):
            for nm in (x, y, x + 'T', y + 'T', x[:-1], x[:-2], x + 'a', (x + 'T')[:-2]):
                v = w.call(f, w.state, w.text(nm))
                m = [p for p, s in zip(syms, snap) if s[0] in kinds and s[1] == nm]
                what = '%s(%r)' % (f, brief(nm))
                if not returned(T, C, T.fn(f), v, what, 'C29/long'):
                    continue
                if v[1] == (m[0] if m else 0):
                    C.ok(what)
                else:
                    C.fail('C29/long', '%s gives %s' % (what, 'nothing' if v[1] == 0 else 'another symbol' if m else 'a symbol although there is none'), T.where(T.fn(f)))
        for f, a in (('Tiny_BindConstInt', [x, 1]), ('Tiny_BindMacro', [y, w.callee('m')]), ('Tiny_BindFunction', [y + '(int)', w.callee('m')])):
            w2 = w
            v = w2.call(f, w2.state, w2.text(a[0]), *a[1:])
            stops(T, C, T.fn(f), v, '%s with the %d character name which is taken' % (f, n), 'C29/long')


def brief(s):
    return s if len(s) < 60 else '%s..%d..%s' % (s[:15], len(s), s[-12:])


def many_parameters(T, C):
    f = T.fn('Tiny_BindFunction')
    types = ['int', 'str?', 'handle', 'handle?', 'Point', 'Point?', 'Later', 'unknown', 'unknown?', 'any', 'float', 'bool', 'other?']
    for n in (8, 15, 16, 17, 20, 32, 33, 40, 64, 65, 100, 128, 255):
        for shift in (0, 5):
            ps = [types[(k * 7 + shift) % len(types)] for k in range(n)]
            r = types[(n + shift) % len(types)]
            for var in (False, True):
                if n > 40 and var == (shift == 0):
                    continue
                sig = 'fn(%s): %s' % (', '.join(ps + ['...'] * var), r)
                w = W(T)
                old, before, sc = w.symbols(), w.snapshot(), w.scalars()
                cb = w.callee('cb')
                v = w.call(f, w.state, w.text(sig), cb)
                C.analysed |= w.reached
                what = 'binding a function with %d parameters' % n
                if not returned(T, C, f, v, what, 'C29/bind'):
                    continue
                tab = table_of_before(before)
                want = ('FOREIGN_FUNCTION', 'fn', sc[2], tuple(ref_type(p, tab) for p in ps), var, ref_type(r, tab), cb)
                names = {s[1] for s in before if s[0] in ('TAG_FOREIGN', 'TAG_STRUCT')}
                fresh_ = [s for n_, s in tab.items() if n_ not in names]
                nulls = {ref_type(t, dict(tab)) for t in ps + [r] if t.endswith('?')}
                nulls -= {s for s in before if s[0] == 'TAG_NULLABLE'}
                compare(T, C, f, w, old, before, sc, [want] + fresh_ + sorted(nulls), {2: 1}, what, 'C29/bind')
        for bad in ('5', '"s"', '(', 'void?'):
            w = W(T)
            v = w.call(f, w.state, w.text('fn(%s, %s)' % (', '.join(['int'] * (n - 1)), bad)), w.callee('cb'))
            stops(T, C, f, v, 'binding a function whose parameter %d is %s' % (n, bad), 'C29/bind')


def many_symbols(T, C):
    """the last of many declarations is as good as the first"""
    w = W(T)
    n = 130
    for j in range(n):
        k = w.G('numForeignFunctions')
        plan = [('Tiny_RegisterType', ['T%d' % j], ('TAG_FOREIGN', 'T%d' % j), {}),
                ('Tiny_BindFunction', ['f%d(T%d, int): T%d' % (j, j, j // 2), w.callee('f%d' % j)],
                 ('FOREIGN_FUNCTION', 'f%d' % j, k, (('TAG_FOREIGN', 'T%d' % j), ('TAG_INT', 'int')), False, ('TAG_FOREIGN', 'T%d' % (j // 2)), w.callee('f%d' % j)), {2: 1}),
                ('Tiny_BindConstString', ['c%d' % j, w.text('text %d' % j)], ('CONST', 'c%d' % j, 'TAG_STR', 'text %d' % j), {3: 1}),
                ('Tiny_BindMacro', ['m%d' % j, w.callee('m%d' % j)], ('MODULE', 'm%d' % j, w.callee('m%d' % j)), {})]
        for f, a, want, counts in plan:
            full = j in (0, 1, n - 1) or j % 16 == 15
            if full:
                old, before, sc = w.symbols(), w.snapshot(), w.scalars()
            v = w.call(f, w.state, w.text(a[0]), *a[1:])
            what = '%s number %d' % (f, j + 1)
            if not returned(T, C, T.fn(f), v, what, 'C29/many'):
                return
            if full:
                compare(T, C, T.fn(f), w, old, before, sc, [want], counts, what, 'C29/many')
    C.analysed |= w.reached
    syms, snap = w.symbols(), w.snapshot()
    for f, kinds, pre in (('Tiny_FindTypeSymbol', ('TAG_FOREIGN',), 'T'), ('Tiny_FindFuncSymbol', ('FOREIGN_FUNCTION',), 'f'), ('Tiny_FindConstSymbol', ('CONST',), 'c')):
        for j in (0, 1, 15, 16, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, n - 1, n):
            nm = '%s%d' % (pre, j)
            v = w.call(f, w.state, w.text(nm))
            m = [p for p, s in zip(syms, snap) if s[0] in kinds and s[1] == nm]
            what = '%s(%r) among %d symbols' % (f, nm, len(snap))
            if not returned(T, C, T.fn(f), v, what, 'C29/many'):
                continue
            if v[1] == (m[0] if m else 0):
                C.ok(what)
            else:
                C.fail('C29/many', '%s gives %s' % (what, v[1]), T.where(T.fn(f)))
    f = T.fn('Tiny_GetStringFromConstIndex')
    for k in (0, 1, 2, 64, 100, n + 1, n + 2, 1023):
        v = w.call(f, w.state, k)
        if k < n + 2:
            want = ('first', '')[k] if k < 2 else 'text %d' % (k - 2)
            if v[0] == 'value' and w.cstr(v[1]) == want:
                C.ok('text %d' % k)
            else:
                C.fail('C29/text', 'the text of index %d is %s' % (k, v), T.where(f))
        else:
            stops(T, C, f, v, 'the text of index %d of %d' % (k, n + 2), 'C29/text')
    for f, pre, tail in (('Tiny_BindFunction', 'f', '(int)'), ('Tiny_BindConstInt', 'c', ''), ('Tiny_BindMacro', 'm', '')):
        for j in (0, 64, n - 1):
            st = w.st
            w.st = st.clone()
            v = w.call(f, w.state, w.text('%s%d%s' % (pre, j, tail)), w.callee('again') if f != 'Tiny_BindConstInt' else 1)
            stops(T, C, T.fn(f), v, '%s with the name of number %d of %d' % (f, j + 1, n), 'C29/many')
            w.st = st


def run(T, C):
    C.together([lambda c, f=f: f(T, c) for f in (bind_function, lookups, long_names, many_parameters, many_symbols, creation, types, consts, macros)])
