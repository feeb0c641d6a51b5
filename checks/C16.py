"""A successful compilation extends the program and applies the macros it uses."""
from compworld import *

LEVEL = 'other'
FLOOR = 100
RULE = ('The compiling entry point is interpreted abstractly on programs of opaque statements and `use` statements in '
        'states with and without earlier contents (code, symbols of every kind, line records). On every path the earlier '
        'code must be unchanged up to its final HALT, the new code must follow in statement order with one HALT at the '
        'end, every macro must have been called once, in program order, before any type resolution, with exactly its '
        'arguments and alias, types of all statements must be resolved before any is compiled, every foreign function '
        'must be in the callee table at its index and the tables must be large enough, and the parse tree and the '
        'lexer must be released; unknown or failing macros, too many macro arguments, undefined structs and '
        'uninitialised variables of this compilation (and only those) must end in a compile error.')


class Case:
    def __init__(self, name, nodes, ok=True, setup=None, macro=0):
        self.name, self.nodes, self.ok, self.setup, self.macro = name, nodes, ok, setup, macro


# names that a comparison of a part of them, or one that ignores case, takes for one another
TWINS = [L + c for L in ('q' * 15, 'q' * 63, 'q' * 300) for c in 'ab'] + ['q', 'qq', 'Q', 'q_', '_q', 'xq', 'qx', 'q' * 255, 'q' * 256]


def cases():
    S = 'stmt'
    out = [Case('empty program', ()), Case('one statement', (S,)), Case('three statements', (S, S, S)),
           Case('macro without arguments', (('m', 0, None),)), Case('macro with alias', (('m', 1, 'q'), S)),
           Case('macros in order', (S, ('m', 2, None), S, ('m2', 3, 'q'), ('m', 0, 'r'), S)),
           Case('new macro', (('new_m', 1, None),)), Case('127 arguments', (('m', 127, None),)),
           Case('128 arguments', (('m', 128, 'q'),)), Case('129 arguments', (('m', 129, 'q'),), False),
           Case('200 arguments', (S, ('m', 200, None)), False),
           Case('unknown macro', (('nosuch', 0, None), S), False), Case('second macro unknown', (('m', 0, None), ('nosuch', 1, 'q')), False),
           Case('name of something else', (('old_g', 0, None),), False), Case('name of a type', (('old_sd', 0, None),), False),
           Case('macro fails', (S, ('m', 1, 'q'), S), False, None, 1), Case('second macro fails', (('m', 0, None), ('m2', 1, 'q')), False, None, 2),
           Case('module behind a function of its name', (('both', 1, None),)),
           Case('macro bound by a macro', (('m', 0, None), ('late1', 1, 'q'), S)),
           Case('macro bound by a later macro', (('late1', 0, None), ('m', 0, None)), False),
           Case('undefined struct', (S,), False, 'undefined'), Case('undefined struct among others', (S,), False, 'undefined first'),
           Case('uninitialized global', (S,), False, 'global'), Case('uninitialized local', (S,), False, 'local'),
           Case('second local uninitialized', (S,), False, 'local2'),
           Case('earlier undefined struct', (S,), True, 'old undefined'), Case('uninitialized argument', (S,), True, 'argument'),
           Case('earlier uninitialized global', (S,), True, 'old global'),
           Case('many symbols', (S, ('m', 1, 'q'), ('late1', 0, None), S), True, 'many'), Case('many statements', (S,) * 200),
           Case('late uninitialized local', (S,), False, 'late local'), Case('late uninitialized global', (S,), False, 'late global'),
           Case('late undefined struct', (S,), False, 'late undefined'), Case('many macros', (('m', 1, None), ('m2', 2, 'q')) * 30),
           Case('macros with similar names', tuple((n, 1, None) for n in TWINS), True, 'twins'),
           Case('unknown macro with a similar name', (('q' * 64, 1, None),), False, 'twins'),
           Case('unknown macro with a shorter name', (('qqq', 1, None),), False, 'twins')]
    return out


def world(T, nest, full, sc, short):
    class W(World):
        def symbols(self, full):
            st = self.st
            self.syms = {}
            if full:
                self.syms = self.kinds(st, 'old_')
                self.syms['su3'] = self.sym(st, 'TAG_STRUCT', 'old_su3', sstruct__defined=0 if sc.setup == 'old undefined' else 1,
                                            sstruct__fields=0, sstruct__definedSerial=0)
                self.syms['u'] = self.sym(st, 'GLOBAL', 'old_u', var__initialized=0 if sc.setup == 'old global' else 1, var__tag=0)
            self.syms['m'] = self.module(st, 'm')
            self.syms['bothf'] = self.sym(st, 'FUNCTION', 'both', func__args=0, func__locals=0)
            self.syms['both'] = self.module(st, 'both')
            self.syms['m2'] = self.module(st, 'm2')
            for k, n in enumerate(TWINS if sc.setup == 'twins' else ()):
                self.syms['twin%d' % k] = self.module(st, n)
            fill = self.fillers(20 if sc.setup in ('many', 'late undefined') else 0)
            self.order = fill + list(self.syms.values())
            for k, s in list(self.syms.items()) + [('ff', s) for s in getattr(self, 'more_ff', [])]:
                if k == 'ff':
                    self.foreign(st, s)
            self.S('globalSymbols', self.buf(st, 'globalSymbols', self.order))

        def foreign(self, st, s):
            n = fresh('index', 32, 0, 1000)
            c = fresh('callee', 64, 1)
            self.T.set(st, s, 'Tiny_Symbol', 'foreignFunc.index', n)
            self.T.set(st, s, 'Tiny_Symbol', 'foreignFunc.callee', c)
            st.x['foreign'] = st.x.get('foreign', ()) + ((n, c),)

        def module(self, st, name):
            fn = fresh('macro ' + name, 64, 1)
            st.x['modules'] = st.x.get('modules', ()) + ((fn, name),)
            return self.sym(st, 'MODULE', name, modFunc=fn)

        def kinds(self, st, px):
            d = World.kinds(self, st, px)
            if px == 'new_':
                fn = fresh('macro new_m', 64, 1)
                st.x['modules'] = st.x.get('modules', ()) + ((fn, 'new_m'),)
                self.T.set(st, d['m'], 'Tiny_Symbol', 'modFunc', fn)
                self.foreign(st, d['ff'])
            return d
    return W(T, nest, full, True, short)


def one(T, C, nest, full, sc, move, short=False):
    w = world(T, nest, full, sc, short)
    g = w.g
    key = 'C16/%s/%s%s' % (sc.name, 'nested' if nest else 'outer', '' if full else '/empty') + ('/short' if short else '')
    what = '%s, %scompilation in a %s state' % (sc.name, 'nested ' if nest else '', 'used' if full else 'new')
    info = {}

    def parse(en, st):
        if w.h.owner(w.G(st, 'l.lexeme')) or w.G(st, 'l.src') is not w.string or w.G(st, 'l.fileName') is not w.name or \
                w.G(st, 'l.pos') != 0 or w.G(st, 'l.lineNumber') != 1 or w.G(st, 'parserArena.head') != 0:
            st.log('wrong', 'parsing starts with a lexer that is not at the start of the given source')
        w.parse_effects(st, move)
        extra = None
        if sc.setup in ('undefined', 'undefined first'):
            extra = w.sym(st, 'TAG_STRUCT', 'new_su', sstruct__defined=0, sstruct__fields=0, sstruct__definedSerial=0)
        elif sc.setup == 'late undefined':
            extra = w.sym(st, 'TAG_STRUCT', 'new_su', sstruct__defined=0, sstruct__fields=0, sstruct__definedSerial=0)
        elif sc.setup in ('late global', 'late local'):
            for k in range(40):
                w.grow(st, 'globalSymbols', 8, [[(0, 8, w.sym(st, 'GLOBAL', 'new_i%d' % k, var__initialized=1, var__tag=0))]], move)
            extra = w.sym(st, 'GLOBAL', 'new_u', var__initialized=0, var__tag=0)
            if sc.setup == 'late local':
                extra = w.sym(st, 'FUNCTION', 'new_uf', func__args=0)
                T.set(st, extra, 'Tiny_Symbol', 'func.locals', w.buf(st, 'uf.locals', [
                    w.sym(st, 'LOCAL', 'v%d' % k, var__initialized=int(k < 254)) for k in range(255)]))
        elif sc.setup == 'global':
            extra = w.sym(st, 'GLOBAL', 'new_u', var__initialized=0, var__tag=0)
        elif sc.setup in ('local', 'local2', 'argument'):
            extra = w.sym(st, 'FUNCTION', 'new_uf')
            for m, inits in (('args', (0, 0) if sc.setup == 'argument' else (1, 1)),
                             ('locals', (0, 1) if sc.setup == 'local' else (1, 0) if sc.setup == 'local2' else (1, 1))):
                T.set(st, extra, 'Tiny_Symbol', 'func.' + m, w.buf(st, 'uf.' + m, [
                    w.sym(st, 'LOCAL', 'v%d' % k, var__initialized=b) for k, b in enumerate(inits)]))
        if extra is not None:
            w.grow(st, 'globalSymbols', 8, [[(0, 8, extra)]], move)
            if sc.setup == 'undefined first':
                w.grow(st, 'globalSymbols', 8, [[(0, 8, w.sym(st, 'TAG_STRUCT', 'new_sz', sstruct__defined=1, sstruct__fields=0,
                                                              sstruct__definedSerial=0))]], move)
        g.st = st
        nodes = []
        uses = []
        for k, n in enumerate(sc.nodes):
            if n == 'stmt':
                nodes.append(g.node('CALL', 'stmt%d' % k))
            else:
                args = [g.strnode('a%d_%d' % (k, j)) for j in range(n[1])]
                for a, b in zip(args, args[1:]):
                    T.set(st, a, 'Tiny_StringNode', 'next', b)
                al = g.strnode(n[2]) if n[2] else 0
                nodes.append(g.node('USE', 'use%d' % k, use__moduleName=g.strnode(n[0]), use__argsHead=args[0] if args else 0,
                                    use__asName=al))
                uses.append((n[0], [T.get(st, a, 'Tiny_StringNode', 'value') for a in args],
                             T.get(st, al, 'Tiny_StringNode', 'value') if al else 0))
        info['nodes'], info['uses'] = nodes, uses
        st.x['macro'] = macro
        info['after'] = st.clone()
        return g.chain(nodes)

    def macro(en, st, target, args, inst):
        k = st.x.get('nmacro', 0) + 1
        st.x['nmacro'] = k
        T.set(st, args[0], 'Tiny_MacroResult', 'type', 1 if sc.macro == k else 0)
        argv = []
        if type(args[3]) is int:
            argv = [st.load(args[2], 8, 8 * j) for j in range(args[3])]
        st.log('called', target, args[1], tuple(argv), args[3], args[4])
        ff = w.sym(st, 'FOREIGN_FUNCTION', 'macro_ff%d' % k)
        T.set(st, ff, 'Tiny_Symbol', 'foreignFunc.argTags', 0)
        w.foreign(st, ff)
        # macros may leave types to be defined and variables to be assigned by later compilations
        w.grow(st, 'globalSymbols', 8, [[(0, 8, ff)], [(0, 8, w.module(st, 'late%d' % k))]], move)
        w.put(st, 'numForeignFunctions', add(w.G(st, 'numForeignFunctions'), 1))
        return None

    def resolve(en, st, a, i):
        st.log('resolve', a[1])

    def state(en, st, a, i):
        k = len([e for e in st.events() if e[0] == 'compile'])
        b = [fresh('emit%d.%d' % (k, j), 8) for j in range(2)]
        st.log('compile', a[1], tuple(b))
        w.grow(st, 'program', 1, [[(0, 1, x)] for x in b], move)

    rs = w.run(parse, {'ResolveTypes': resolve, 'CompileStatement': state}, visits=8000)
    C.analysed |= w.reached
    C.count('paths', len(rs))
    for r in rs:
        if r.kind == 'cut':
            C.undecide(what + ': loop bound')
            continue
        judge(T, C, w, r, key, what, sc, info)


def judge(T, C, w, r, key, what, sc, info):
    st = r.st
    where = T.loc(r.where) if r.where else T.where('Tiny_CompileString')
    if r.kind != 'ret':
        C.fail(key, '%s: the call ends with %s (%s)' % (what, r.kind, r.val), where)
        return
    res = st.load(w.sret, 4)
    en = T.m.enums()
    want = en['TINY_COMPILE_SUCCESS'] if sc.ok else en['TINY_COMPILE_ERROR']
    bad = []
    if res != want:
        C.fail(key, '%s: %s' % (what, 'is accepted' if not sc.ok else 'ends with result %r' % (res,)), where)
        return
    for e in st.events():
        if e[0] == 'bad':
            bad.append('%s (%s)' % (e[1], T.loc(e[2][-2:])))
        elif e[0] == 'wrong':
            bad.append(e[1])
    calls = [e for e in st.events() if e[0] == 'called']
    mods = dict(st.x.get('modules', ()))
    uses = info['uses']
    if not sc.ok:
        stop = {'macro fails': 1, 'second macro fails': 2, 'second macro unknown': 1}.get(sc.name)
        if stop is None:
            stop = 0 if sc.nodes and any(n != 'stmt' for n in sc.nodes) else 0
        uses = uses[:stop]
        if not [e for e in st.events() if e[0] == 'error'] and not bad:
            bad.append('no error is reported')
        if sc.name.startswith('unknown') or sc.macro or '9 arg' in sc.name or '200' in sc.name or sc.setup in ('undefined', 'undefined first', 'late undefined'):
            if [e for e in st.events() if e[0] in ('resolve', 'compile')]:
                bad.append('code is compiled although the program is refused')
    got = []
    for e in calls:
        got.append((mods.get(e[1]), list(e[3]), e[4], e[5], e[2]))
    exp = [(n, a, len(a), al, w.state) for n, a, al in uses]
    if got != exp:
        bad.append('macros are called as %s, the program says %s' % (
            [(x[0], len(x[1]), x[3]) for x in got], [(x[0], len(x[1]), x[3]) for x in exp]))
    if sc.ok:
        # order of the phases
        ev = [(e[0], e[1]) for e in st.events() if e[0] in ('called', 'resolve', 'compile')]
        order = [k for k, _ in ev]
        if order != ['called'] * len(calls) + ['resolve'] * order.count('resolve') + ['compile'] * order.count('compile'):
            bad.append('macros, type resolution and code generation are interleaved: %s' % ' '.join(order))
        for k in ('resolve', 'compile'):
            if [x for kk, x in ev if kk == k] != info['nodes']:
                bad.append('%s happens for %s' % ({'resolve': 'type resolution', 'compile': 'code generation'}[k],
                                                 [x for kk, x in ev if kk == k]))
        # the program
        old, new = w.before, st
        po, pn = w.G(old, 'program'), w.G(new, 'program')
        codeo = [old.load(po, 1, k) for k in range(T.sbcount(old, po))]
        codep = list(codeo)
        emitted = [b for e in st.events() if e[0] == 'compile' for b in e[2]]
        n = T.sbcount(new, pn)
        code = [new.load(pn, 1, k) for k in range(n)] if type(n) is int else None
        halt = [k for k, v in T.m.enums().items() if k == 'TINY_OP_HALT']
        h = T.m.enums()['TINY_OP_HALT']
        islast = codeo and st.decide(E.mk_eq(add(codeo[-1], -h)))
        if islast is None or islast is False:
            exps = [codeo + emitted + [h]]
        else:
            exps = [codeo[:-1] + emitted + [h]]
        if islast is None:
            bad.append('whether the earlier program ended with HALT is not looked at')
        if code not in exps:
            bad.append('the program is %s after the compilation, expected %s' % (code, exps[0]))
        for f in ('numGlobalVars', 'numFunctions', 'currFunc', 'currScope'):
            if w.G(st, f) is not w.G(info['after'], f) and w.G(st, f) != w.G(info['after'], f):
                bad.append('%s changes after parsing' % f)
        # symbols
        so = w.G(old, 'globalSymbols')
        sn = w.G(new, 'globalSymbols')
        live = st.x.get('live', frozenset())
        for k in range(T.sbcount(old, so)):
            if old.load(so, 8, 8 * k) is not new.load(sn, 8, 8 * k):
                bad.append('symbol %d is not where it was' % k)
                break
        m = T.sbcount(info['after'], w.G(info['after'], 'globalSymbols')) + 2 * len(calls)
        if T.sbcount(new, sn) != m:
            bad.append('%r symbols after the compilation, %d declared' % (T.sbcount(new, sn), m))
        # the tables
        ffs = w.G(st, 'foreignFunctions')
        base = w.h.base(ffs)
        need = mul(w.G(st, 'numForeignFunctions'), 8)
        if base is None or base not in live:
            bad.append('the table of foreign functions is not a live block')
        elif st.decide(E.mk_le(add(need, w.h.size(st, base), -1))) is not True:
            bad.append('the table of foreign functions has %r bytes for %r functions' % (
                w.h.size(st, base), w.G(st, 'numForeignFunctions')))
        base = w.h.base(w.G(st, 'functionPcs'))
        need = mul(w.G(st, 'numFunctions'), 4)
        if base is None or base not in live or st.decide(E.mk_le(add(need, w.h.size(st, base), -1))) is not True:
            bad.append('the table of functions is too small')
        seen = {}
        for e in st.events():
            if e[0] == 'tablewrite':
                seen[e[1]] = e[2]
        for n_, c in st.x.get('foreign', ()):
            p = add(ffs, n_, 8)
            if st.load(p, 8) is not c:
                bad.append('the callee of foreign function %r is not in the table' % (n_,))
                break
    # the compilation is over
    for f in ('compileCallNestCount',):
        if w.G(st, f) != w.nest:
            bad.append('%r compilations are under way afterwards' % (w.G(st, f),))
    for pre, fs in (('l.', LEXER), ('parserArena.', ARENA)):
        for f in fs:
            if w.G(st, pre + f) is not w.G(w.before, pre + f) and w.G(st, pre + f) != w.G(w.before, pre + f):
                bad.append('%s%s is not what it was before' % (pre, f))
    live, old = st.x.get('live', frozenset()), w.before_live
    names = {a.name for a in live - old if a.name and a.name.startswith('inner')}
    if names:
        bad.append('%s is not released' % ', '.join(sorted(names)))
    gone = {a.name for a in old - live} - {w.h.owner(w.G(w.before, f)).name for f in BUFS if w.h.owner(w.G(w.before, f))}
    if gone:
        bad.append('%s is released' % ', '.join(sorted(gone)))
    if bad:
        C.fail(key, '%s: %s' % (what, '; '.join(bad[:4])), where)
    else:
        C.ok(what)


def run(T, C):
    for nest in (0, 2):
        for full in (True, False):
            for sc in cases():
                if not full and (sc.setup or '').startswith('old'):
                    continue
                if not full and sc.name.startswith('name of'):
                    continue
                for move in (True, False):
                    if sc.name.endswith('arguments') and not sc.name.startswith('macro') and (nest or not full or not move):
                        continue
                    one(T, C, nest, full, sc, move)
                    if full and move and sc.setup is None:
                        one(T, C, nest, full, sc, move, True)
