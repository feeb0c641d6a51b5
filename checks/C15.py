"""A failed compilation leaves the state as it was."""
from compworld import *
from effects import Effects

LEVEL = 'other'
FLOOR = 120
RULE = ('The compiling entry point is interpreted abstractly with parsing and code generation replaced by their whole '
        'effect (every field of the state they can write gets an unknown value, buffers grow and move, symbols of every '
        'kind are added, earlier undefined types become defined; the set of fields is checked against the stores '
        'reachable from those phases) and with each way a compilation can fail: during parsing, an unknown or failing '
        'macro, an undefined struct, code generation and an uninitialised variable. setjmp/longjmp are followed. On '
        'every path the state must be cell by cell what it was, with every block allocated meanwhile released once and '
        'no earlier one released, and the reported error must be returned.')

# members of the state the phases may change without anyone noticing after a failure
FREE = {'numStrings', 'strings', 'compileSerial', 'compileErrorResult', 'compileErrorJmpBufs', 'functionPcs', 'foreignFunctions'}
RESTORED = {'program', 'globalSymbols', 'pcToFileLine', 'numGlobalVars', 'numFunctions', 'numForeignFunctions', 'currFunc',
            'currScope', 'l', 'parserArena', 'compileCallNestCount'}


def symfields(T):
    return [(n, o, s) for n, (o, s, t) in T.m.struct('Tiny_Symbol')['members'].items()]


def judge(T, C, w, r, key, what, leaks=True):
    st, b = r.st, w.before
    where = T.loc(r.where) if r.where else T.where('Tiny_CompileString')
    bad = []
    for e in st.events():
        if e[0] == 'bad':
            bad.append('%s (%s)' % (e[1], T.loc(e[2][-2:])))
    if r.kind != 'ret':
        C.fail(key, '%s: the call ends with %s (%s)' % (what, r.kind, r.val), where)
        return
    same = lambda x, y: x is y or (type(x) is int and type(y) is int and x == y) or st.decide(E.mk_eq(add(x, y, -1))) is True
    for f in SCALARS:
        x, y = w.G(st, f), w.G(b, f)
        if not same(x, y):
            bad.append('%s is %r after the failure and %r before' % (f, x, y))
    for pre, fs in (('l.', LEXER), ('parserArena.', ARENA)):
        for f in fs:
            x, y = w.G(st, pre + f), w.G(b, pre + f)
            if not same(x, y):
                bad.append('%s%s is %r after the failure and %r before' % (pre, f, x, y))
    for f, isize in (('program', 1), ('pcToFileLine', T.size('Tiny_PCToFileLine')), ('globalSymbols', 8)):
        x, y = w.G(st, f), w.G(b, f)
        n, m = T.sbcount(st, x), T.sbcount(b, y)
        if n != m:
            bad.append('%s has %r entries after the failure and %r before' % (f, n, m))
            continue
        step = 4 if isize not in (1, 8) else isize
        for o in range(0, m * isize, step):
            u, v = st.load(x, step, o), b.load(y, step, o)
            if not same(u, v):
                bad.append('%s[%d] is %r after the failure and %r before' % (f, o // isize, u, v))
                break
    for s in w.order:
        kind = ([k for k, v in w.syms.items() if v is s] + ['an older symbol'])[0]
        for n in ('type', 'name', 'pos'):
            if not same(T.get(st, s, 'Tiny_Symbol', n), T.get(b, s, 'Tiny_Symbol', n)):
                bad.append('member %s of the earlier symbol %s changed' % (n, kind))
        if kind in ('sd', 'su', 'su2', 'su3'):
            d, d0 = T.get(st, s, 'Tiny_Symbol', 'sstruct.defined'), T.get(b, s, 'Tiny_Symbol', 'sstruct.defined')
            if not same(d, d0):
                bad.append('the struct %s is %s after the failure' % (kind, 'still defined' if d else 'undefined'))
            x, y = T.get(st, s, 'Tiny_Symbol', 'sstruct.fields'), T.get(b, s, 'Tiny_Symbol', 'sstruct.fields')
            if T.sbcount(b, y) == 0:
                if type(x) is not int and T.sbcount(st, x) != 0:
                    bad.append('the struct %s keeps its fields' % kind)
            elif x is not y or T.sbcount(st, x) != T.sbcount(b, y):
                bad.append('the fields of the earlier struct %s changed' % kind)
        else:
            for n, o, sz in symfields(T):
                if sz in (1, 2, 4, 8):
                    u, v = st.load(s, sz, o), b.load(s, sz, o)
                    if not same(u, v):
                        bad.append('the earlier symbol %s changed at %s' % (kind, n))
                        break
    live, old = st.x.get('live', frozenset()), w.before_live
    roots = {w.h.owner(w.G(st, f)) for f in BUFS}
    roots0 = {w.h.owner(w.G(b, f)) for f in BUFS}
    for a in sorted(old - live - roots0, key=lambda a: a.id):
        bad.append('%s, which existed before, is released' % a.name)
    for a in sorted(live - old - roots, key=lambda a: a.id):
        bad.append('%s, allocated by the failed compilation, is never released' % a.name)
    for f in BUFS:
        o = w.h.owner(w.G(st, f))
        if o is not None and o not in live:
            bad.append('%s points to a released block' % f)
    for o, sz in ((0, 4), (8, 1), (9, 1), (500, 1), (1031, 1)):
        u = st.load(w.sret, sz, o)
        v = st.load(w.state, sz, T.off('Tiny_State', 'compileErrorResult') + o)
        if not same(u, v):
            bad.append('the returned result differs from the reported error at byte %d' % o)
            break
    if st.load(w.sret, 4) != T.m.enums()['TINY_COMPILE_ERROR']:
        bad.append('the result is not an error')
    if bad:
        C.fail(key, '%s: %s' % (what, '; '.join(bad[:4])), where)
    else:
        C.ok(what)


def use(w, st, name, args=(), nxt=0):
    """a `use` statement (its nodes live in the parser's arena)"""
    g = w.g
    g.st = st
    n = g.node('USE', use__moduleName=g.strnode(name), use__argsHead=0, use__asName=0)
    w.T.set(st, n, 'Tiny_Expr', 'next', w.stmt(st) if nxt == 0 else nxt)
    return n


def scenarios():
    """(name, failing phase)"""
    return ('parse', 'parse without effects', 'macro unknown', 'macro fails', 'macro compiles', 'undefined struct', 'types', 'codegen early',
            'codegen late', 'uninitialized', 'uninitialized local')


def one(T, C, nest, full, lines, sc, move, short=False, many=0):
    w = World(T, nest, full, lines, short, many)
    key = 'C15/%s/%s%s%s' % (sc, 'nested' if nest else 'outer', '' if full else '/empty', '' if lines else '/nolines') + ('/short' if short else '') + ('/many' if many else '')
    what = 'failure of a %scompilation in a %s state: %s' % ('nested ' if nest else '', 'used' if full else 'new', sc)

    def parse(en, st):
        d = w.parse_effects(st, move, sc != 'parse without effects')
        if sc.startswith('parse'):
            w.fail(en, st)
        if sc == 'macro unknown':
            return use(w, st, 'nosuch')
        if sc in ('macro fails', 'macro compiles'):
            def macro(en, st, target, args, inst):
                # sret pointer first
                w.T.set(st, args[0], 'Tiny_MacroResult', 'type', 1 if sc == 'macro fails' else 0)
                for f in ('numGlobalVars', 'numForeignFunctions'):
                    w.put(st, f, add(w.G(st, f), fresh('macro.' + f, 32, 1, 50)))
                return None
            st.x['macro'] = macro
            return use(w, st, 'new_m')
        if sc == 'undefined struct':
            w.grow(st, 'globalSymbols', 8, [[(0, 8, w.sym(st, 'TAG_STRUCT', 'new_su', sstruct__defined=0, sstruct__fields=0,
                                                          sstruct__definedSerial=0))]], move)
        if sc == 'uninitialized':
            w.grow(st, 'globalSymbols', 8, [[(0, 8, w.sym(st, 'GLOBAL', 'new_u', var__initialized=0, var__tag=0))]], move)
        if sc == 'uninitialized local':
            f = w.sym(st, 'FUNCTION', 'new_uf', func__args=0)
            T.set(st, f, 'Tiny_Symbol', 'func.locals', w.buf(st, 'new_uf.locals', [
                w.sym(st, 'LOCAL', 'i', var__initialized=1), w.sym(st, 'LOCAL', 'u', var__initialized=0)]))
            w.grow(st, 'globalSymbols', 8, [[(0, 8, f)]], move)
        return w.stmt(st)

    def resolve(en, st, a, i):
        if sc == 'types':
            w.fail(en, st)

    def state(en, st, a, i):
        if sc == 'codegen early':
            w.fail(en, st)
        w.code_effects(st, move)
        if sc in ('codegen late', 'macro compiles'):
            w.fail(en, st)
    try:
        rs = w.run(parse, {'ResolveTypes': resolve, 'CompileStatement': state}, visits=4000)
    except E.Limit as e:
        C.undecide('%s: %s' % (what, e))
        return
    C.analysed |= w.reached
    C.count('paths', len(rs))
    for r in rs:
        if r.kind == 'cut':
            C.undecide(what + ': loop bound')
        else:
            judge(T, C, w, r, key, what)


def run(T, C):
    for nest in (0, 1, 3):
        for full, lines in ((True, True), (False, False), (True, False)):
            for sc in scenarios():
                for move in (True, False):
                    one(T, C, nest, full, lines, sc, move)
                    if full and lines and not nest:
                        one(T, C, nest, full, lines, sc, move, True)
                    if full and lines and nest != 1 and sc in ('parse', 'macro compiles', 'codegen late', 'uninitialized local'):
                        one(T, C, nest, full, lines, sc, move, False, 20)
    frame(T, C)
    marks(T, C)


def mark(T, C, st, p, serial, now, what, f):
    """what the failure of a later compilation goes by: things defined since its start bear its number or a later one"""
    m = T.get(st, p, 'Tiny_Symbol', 'sstruct.definedSerial')
    le = lambda a, b: a is b or st.decide(E.mk_le(add(a, b, -1))) is True
    if not le(m, serial):
        C.fail('C15/mark', '%s: it would be undone by the failure of a later compilation (mark %r, compilation %r)' % (what, m, serial), T.where(f))
    elif now and not le(serial, m):
        C.fail('C15/mark', '%s: it would stay when the compilation under way fails (mark %r, compilation %r)' % (what, m, serial), T.where(f))
    else:
        C.ok(what)


def marks(T, C):
    import C29
    f = T.fn('Tiny_RegisterType')
    for nm, now in (('fresh', False), ('Later', True), ('counter', False)):
        w = C29.W(T)
        serial = fresh('serial', 32, 0, 1 << 20)
        T.set(w.st, w.state, 'Tiny_State', 'compileSerial', serial)
        v = w.call(f, w.state, w.text(nm))
        C.analysed |= w.reached
        if v[0] != 'value':
            C.fail('C15/mark', 'registering the type %s ends with %s' % (nm, v[0]), T.where(f))
            continue
        k = next((k for k, s in enumerate(w.snapshot()) if s[:2] == ('TAG_FOREIGN', nm)), None)
        if k is None:
            C.fail('C15/mark', 'registering the type %s does not make it one' % nm, T.where(f))
            continue
        mark(T, C, w.st, w.symbols()[k], serial, now, 'registering the type ' + nm, f)
    from parse import Parser, toks
    P = Parser(T)
    f = T.fn('ParseStruct')
    for src, older in ((('struct', 'P', '{', 'x', ':', 'int', '}'), False), (('struct', 'P', '{', 'x', ':', 'int', '}'), True),
                       (('struct', 'P', '{', 'x', ':', 'Q', '}'), False), (('struct', 'P', '{', 'x', ':', 'P', '?', '}'), True)):
        items = toks(*src)
        P.start(items)
        syms = []
        if older:
            syms = [P.g.sym('TAG_STRUCT', 'P', sstruct__defined=0, sstruct__fields=0, sstruct__definedSerial=0)]
        P.seal(syms)
        what = 'parsing %s%s' % (' '.join(src), ' of a type used before' if older else '')
        for r in P.run('ParseProgram', first=1):
            if r.kind != 'ret':
                C.fail('C15/mark', '%s ends with %s' % (what, r.kind), T.where(f))
                continue
            tab = T.get(r.st, P.state, 'Tiny_State', 'globalSymbols')
            for k in range(T.sbcount(r.st, tab)):
                s = r.st.load(tab, 8, 8 * k)
                if T.get(r.st, s, 'Tiny_Symbol', 'type') == P.g.SYM['TAG_STRUCT']:
                    mark(T, C, r.st, s, P.serial, T.get(r.st, s, 'Tiny_Symbol', 'sstruct.defined') == 1, what, f)
    C.analysed |= P.reached


def frame(T, C):
    """the effect used above is all the effect there is: members of the state written by anything the phases reach"""
    ef = Effects(T)
    roots = [f for f in ('ParseProgram', 'CompileState', 'Tiny_BindFunction', 'Tiny_RegisterType', 'Tiny_BindMacro',
                         'Tiny_BindConstInt') if f in T.funcs]
    fns = sorted(f for f in T.reach(roots) if f in T.funcs and f != 'Tiny_CompileString')
    n = 0
    for f in fns:
        for i, place in ef.stores(f):
            if not place or not place.startswith('Tiny_State.'):
                continue
            m = place.split('.')[1]
            n += 1
            if m not in FREE and m not in RESTORED:
                C.fail('C15/frame/%s' % m, '%s writes %s of the state, which a failed compilation does not restore' % (f, place),
                       T.where(f, i))
    C.count('stores_to_state', n)
    C.ok('every member of the state written by parsing and code generation is restored or irrelevant', 1 if n else 0)
