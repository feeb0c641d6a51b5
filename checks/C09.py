"""Every sentence is parsed to the tree the grammar gives it, everything else is refused."""
import multiprocessing
import os
import traceback
from parse import *
from typer import run_cases, no_assignment
from grammar import Ref, Bad, Skip, PREC, ASSIGN

LEVEL = 'other'
FLOOR = 5000
RULE = ('Each production of the parser (statements, expressions, factors, struct declarations, programs) is interpreted '
        'abstractly with its sub-sentences opaque on every input template of the grammar and on every one-token '
        'replacement, deletion, insertion and truncation of it; the resulting tree, declared symbols, scope depth and '
        'enclosing function of each sub-sentence, and the number of tokens consumed must be those of the reference '
        'grammar, and the inputs the grammar refuses must end in a compile error (never in a tree, a loop or a crash). '
        'Binary operators are covered in all pairs and, one per precedence class, in all triples.')


def templates():
    """(root, items, context)"""
    out = []

    def st(*items, **ctx):
        out.append(('ParseStatement', toks(*items), ctx))

    def fa(*items, **ctx):
        out.append(('ParseFactor', toks(*items), ctx))

    def ex(*items, **ctx):
        out.append(('ParseExpr', toks(*items), ctx))

    def pr(*items, **ctx):
        out.append(('ParseProgram', toks(*items), ctx))
    st('{', '}')
    st('{', S('a'), '}')
    st('{', S('a'), S('b'), S('c'), '}')
    st('{', S('a'), S('b'), '}', func='int', scope=1)
    st('if', X('c'), S('a'))
    st('if', X('c'), S('a'), 'else', S('b'))
    st('if', X('c', 'OPENPAREN'), '{', S('a'), '}', 'else', 'if', X('d'), S('b'), 'else', S('e'))
    st('while', X('c'), S('a'))
    st('while', X('c'), '{', S('a'), '}', func='void', scope=1)
    st('for', S('i'), ';', X('c'), ';', S('s'), S('b'))
    st('for', S('i'), ';', X('c'), ';', S('s'), '{', S('b'), '}', func='void', scope=1)
    for f in ('void', 'int'):
        st('return', ';', func=f, scope=1)
        st('return', X('v'), func=f, scope=1)
        st('return', X('v', 'MINUS'), func=f, scope=2)
    st('return', ';')
    st('break')
    st('continue')
    st('func', 'f', '(', ')', S('b'))
    st('func', 'f', '(', 'a', ':', 'int', ')', S('b'))
    st('func', 'f', '(', 'a', ':', 'int', ',', 'b', ':', 'foo', '?', ',', 'c', ':', 'any', ')', ':', 'str', S('b'))
    st('func', 'f', '(', 'a', ':', 'int', ',', 'a', ':', 'int', ')', S('b'))
    st('func', 'f', '(', ')', ':', 'bar', '?', '{', S('b'), '}')
    st('func', 'f', '(', ')', S('b'), func='void', scope=1)
    st('func', 'f', '(', 'p', ':', 'int', ')', '{', F('x'), ':=', X('1'), '{', F('y'), ':', 'str', '=', X('2'), '}',
       F('y'), ':=', X('3'), 'while', X('c'), '{', F('z'), ':=', X('4'), '}', F('z'), ':=', X('5'), '}')
    st('func', 'f', '(', ')', '{', F('x'), ':=', X('1'), '{', F('x'), ':=', X('2'), '}', '}')
    st('func', 'f', '(', ')', '{', 'for', F('i'), ':=', X('1'), ';', X('c'), ';', S('s'), S('b'), F('i'), ':=', X('2'), '}')
    st('use', 'm', '(', ')')
    st('use', 'm', '(', "'a'", ',', "'b'", ')')
    st('use', 'm', '(', "'a'", ')', 'as', 'q')
    st('use', 'm', '(', ')', func='void', scope=1)
    st('use', 'm', '(', ')', scope=1)
    for op in ASSIGN + ('DECLARE', 'DECLARECONST') + tuple(PREC):
        for k in ('ID', 'DOT', 'INDEX', 'PAREN', 'INT'):
            st(F('x', k), Tok(op), X('v'))
            if op in ('DECLARE', 'EQUAL'):
                st(F('x', k), Tok(op), X('v'), func='void', scope=1)
    for v in (('INT', 77), ('CHAR', 65), ('FLOAT', 5), ('BOOL', 1)):
        st(F('x'), Tok('DECLARECONST'), ('E', 'v', 'IDENT') + v)
    st(F('x'), '::', "'text'")
    st(F('x'), '::', ('E', 'v', 'IDENT', 'ID'))
    st(F('x'), ':', 'int', '=', X('v'))
    st(F('x'), ':', 'foo', '?', '=', X('v'), func='void', scope=2)
    st(F('x', 'DOT'), ':', 'int', '=', X('v'))
    st(F('x', 'CALL'))
    st('x', '(', X('a'), ')')
    st('x', '=', X('v'))
    st('x', '.', 'y', '+=', X('v'))
    st('x', '[', X('i'), ']', '=', X('v'))
    st('x', '.', 'y', '->', 'z', '(', ')')
    st('foreach', S('a'))
    st('else', S('a'))
    for f in (('null',), (12,), ("'s'",), ('x',), (Tok('BOOL', 'true', 1),), (Tok('BOOL', 'false', 0),),
              (Tok('CHAR', None, 65),), (Tok('FLOAT', None, 9),), ('x', '(', ')'), ('x', '(', X('a'), ')'),
              ('x', '(', X('a'), ',', X('b'), ',', X('c'), ')'), ('-', F('a')), ('!', F('a')), ('-', '!', F('a')),
              ('(', X('a'), ')'), ('new', 'P', '{', '}'), ('new', 'P', '{', X('a'), ',', X('b'), '}'),
              ('new', 'P', '{', '.', 'x', '=', X('a'), ',', '.', 'y', '=', X('b'), '}'),
              ('cast', '(', X('a'), ',', 'int', ')'), ('cast', '(', X('a'), ',', 'foo', '?', ')', '.', 'y', '[', X('b'), ']'),
              ('if', X('a'), X('b'), 'else', X('c')),
              ('x', '.', 'y'), ('x', '.', 'y', '.', 'z'), ('x', '[', X('a'), ']'), ('x', '[', X('a'), ']', '[', X('b'), ']', '.', 'c'),
              ('x', '->', 'f', '(', ')'), ('x', '.', 'y', '->', 'f', '(', X('a'), ',', X('b'), ')', '->', 'g', '(', X('c'), ')'),
              ('x', '(', X('a'), ')', '.', 'y', '[', X('b'), ']'), ('-', F('a'), '.', 'x'),
              (Tok('LEXER_ERROR'),), ('struct',), ('func',), (',',)):
        fa(*f)
    ex(F('a'))
    for o in PREC:
        for p in PREC:
            ex(F('a'), Tok(o), F('b'), Tok(p), F('c'))
    reps = ('STAR', 'MINUS', 'LT', 'LOG_AND')
    for a in reps:
        for b in reps:
            for c in reps:
                ex(F('a'), Tok(a), F('b'), Tok(b), F('c'), Tok(c), F('d'))
                for d in reps:
                    ex(F('a'), Tok(a), F('b'), Tok(b), F('c'), Tok(c), F('d'), Tok(d), F('e'))
    ex('-', F('a'), '+', '-', F('b'), '*', '!', F('c'))
    ex('(', X('a'), ')', '*', '(', X('b'), ')')
    pr()
    pr(S('a'))
    pr(S('a'), S('b'), S('c'))
    pr('struct', 'P', '{', 'x', ':', 'int', '}')
    pr('struct', 'P', '{', 'x', ':', 'int', 'y', ':', 'P', '?', 'z', ':', 'Q', '}', S('a'), 'struct', 'Q', '{', 'w', ':', 'P', '}')
    pr('struct', 'P', '{', 'x', ':', 'int', 'x', ':', 'int', '}')
    pr('struct', 'P', '{', '}')
    pr('struct', 'P', '{', 'x', ':', 'int', '}', 'struct', 'P', '{', 'x', ':', 'int', '}')
    pr(S('a'), 'func', 'f', '(', ')', S('b'), S('c'))
    pr(F('x'), ':=', X('1'), F('x'), ':=', X('2'))
    pr(F('x'), ':=', X('1'), F('x'), '::', ('E', 'v', 'IDENT', 'INT', 3))
    pr(F('x'), '::', ('E', 'v', 'IDENT', 'INT', 3), F('x'), '::', ('E', 'v', 'IDENT', 'INT', 4))
    pr(F('x'), ':=', X('1'), F('y'), ':', 'int', '=', X('2'), '{', F('z'), ':=', X('3'), '}')
    pr('func', 'f', '(', 'a', ':', 'int', ')', S('b'), 'func', 'g', '(', 'a', ':', 'int', ')', S('b'))
    pr('struct', 'P', '{', *sum([['f%d' % i, ':', 'int'] for i in range(255)], []), '}')
    for n in (256,):
        pr('struct', 'P', '{', *sum([['f%d' % i, ':', 'int'] for i in range(n)], []), '}')
    for w in ('a', 'ass', 'asx', 'As', 'AS', '_as', 'sa'):
        st('use', 'm', '(', "'a'", ')', w, 'q', raw=1)
        st('use', 'm', '(', ')', w, 'q', func='void', scope=1, raw=1)
    return out + [(r, t, dict(c, raw=1)) for r, t, c in long_templates()]


def long_templates():
    """long lists, long names, deep nesting"""
    out = []

    def st(*items, **ctx):
        out.append(('ParseStatement', toks(*items), ctx))

    def fa(*items, **ctx):
        out.append(('ParseFactor', toks(*items), ctx))

    def ex(*items, **ctx):
        out.append(('ParseExpr', toks(*items), ctx))

    def pr(*items, **ctx):
        out.append(('ParseProgram', toks(*items), ctx))

    def lst(n, f, sep=','):
        r = []
        for k in range(n):
            r += ([sep] if k and sep else []) + list(f(k))
        return r
    ms = ('STAR', 'MINUS', 'LT', 'LOG_AND', 'PLUS', 'LOG_OR', 'EQUALS', 'SLASH')
    for n in (10, 40, 100):
        fa('f', '(', *lst(n, lambda k: [X('a%d' % k)]), ')')
        fa('f', '(', *lst(n, lambda k: [X('a%d' % k)]))
        fa('new', 'P', '{', *lst(n, lambda k: [X('a%d' % k)]), '}')
        fa('new', 'P', '{', *lst(n, lambda k: ['.', 'x%d' % k, '=', X('a%d' % k)]), '}')
        fa('x', *lst(n, lambda k: ['.', 'y%d' % k], ''))
        fa('x', *lst(n, lambda k: ['[', X('i%d' % k), ']'], ''))
        fa('x', *lst(n, lambda k: ['->', 'f%d' % k, '(', X('i%d' % k), ')'], ''))
        fa(*(['-', '!'] * (n // 2)), F('a'))
        st('{', *lst(n, lambda k: [S('a%d' % k)], ''), '}')
        st('{', *lst(n, lambda k: [S('a%d' % k)], ''))
        pr(*lst(n, lambda k: [S('a%d' % k)], ''))
        st('use', 'm', '(', *lst(n, lambda k: ["'a%d'" % k]), ')', 'as', 'q')
        ps = lambda names: lst(len(names), lambda k: [names[k], ':', ('int', 'foo', 'str')[k % 3]])
        names = ['p%d' % k for k in range(n)]
        st('func', 'f', '(', *ps(names), ')', ':', 'int', S('b'))
        fs = lambda names: lst(len(names), lambda k: [names[k], ':', ('int', 'foo', 'str')[k % 3]], '')
        pr('struct', 'P', '{', *fs(names), '}')
        for i, j in ((0, n - 1), (n - 2, n - 1), (n // 2, n - 1), (0, n // 2)):
            twice = list(names)
            twice[j] = twice[i]
            st('func', 'f', '(', *ps(twice), ')', S('b'))
            pr('struct', 'P', '{', *fs(twice), '}')
            pr(*lst(n, lambda k: [F(twice[k]), ':=', X('1')], ''))
            st('func', 'f', '(', ')', '{', *lst(n, lambda k: [F(twice[k]), ':=', X('1')], ''), '}')
        pr(*lst(n, lambda k: ['func', 'f%d' % k, '(', 'a', ':', 'int', ')', S('b')], ''))
        pr(*lst(n, lambda k: ['struct', 'P%d' % k, '{', 'x', ':', 'P%d' % (n - 1 - k), '}'], ''))
        pr(*lst(n, lambda k: [F('v%d' % k), ':=', X('1')], ''))
        chain = []
        for k in range(n):
            chain += [F('a%d' % k), Tok(ms[(k * k + k // 3) % len(ms)])]
        ex(*chain, F('z'))
        ex(*sum([[F('a%d' % k), Tok('MINUS')] for k in range(n)], []), F('z'))
    for n in (8, 12, 13, 20, 40):
        st(*['{'] * n, S('a'), *['}'] * n)
        st(*['{'] * n, S('a'), *['}'] * (n - 1))
        st(*sum([['if', X('c%d' % k), S('a%d' % k), 'else'] for k in range(n)], []), S('z'))
        st(*sum([['if', X('c%d' % k)] for k in range(n)], []), S('a'), *sum([['else', S('e%d' % k)] for k in range(n)], []))
        st(*sum([['while', X('c%d' % k), '{'] for k in range(n)], []), S('a'), *['}'] * n)
        st(*sum([['for', S('i'), ';', X('c'), ';', S('s')] for k in range(n)], []), S('a'))
        # a variable per scope, and names used again once their scopes have ended
        body = []
        for k in range(n):
            body += [F('x%d' % k), ':=', X('1'), '{']
        body += [F('y'), ':=', X('2')] + ['}'] * n
        st('func', 'f', '(', ')', '{', *body, F('y'), ':=', X('3'), F('x%d' % (n - 1)), ':=', X('4'), '}')
        st('func', 'f', '(', ')', '{', *body, F('x0'), ':=', X('4'), '}')
        inner = sum([['{', F('x%d' % k), ':=', X('1')] for k in range(n)], []) + [F('x0'), ':=', X('2')] + ['}'] * n
        st('func', 'f', '(', ')', '{', *inner, '}')
        inner = sum([['{', F('x%d' % k), ':=', X('1')] for k in range(n)], []) + [F('x%d' % (n - 1)), ':=', X('2')] + ['}'] * n
        st('func', 'f', '(', ')', '{', *inner, '}')
        fa(*['('] * 1, X('a'), ')')
    # names that are beginnings or twins of each other
    for w in (1, 31, 62, 63, 64, 127, 255, 300):
        a = 'n' * w
        for x, y in ((a, a + '1'), (a + '1', a), (a + '1', a + '2'), (a + '1', a + '1'), (a, a.upper()), (a, a[:-1] + 'N')):
            if x == y and w == 1:
                continue
            pr('struct', 'P', '{', x, ':', 'int', y, ':', 'int', '}')
            st('func', 'f', '(', x, ':', 'int', ',', y, ':', 'int', ')', S('b'))
            pr(F(x), ':=', X('1'), F(y), ':=', X('2'))
            st('func', 'f', '(', ')', '{', F(x), ':=', X('1'), F(y), ':=', X('2'), '}')
            pr('struct', x, '{', 'a', ':', 'int', '}', 'struct', y, '{', 'b', ':', 'int', '}')
    return out


ALL = list(LEX) + ['BOOL', 'CHAR', 'INT', 'FLOAT', 'STRING', 'IDENT', 'EOF', 'LEXER_ERROR']


def mk(k):
    return Tok(k, {'IDENT': 'other', 'STRING': 'text'}.get(k), {'INT': 5, 'CHAR': 66, 'FLOAT': 3, 'BOOL': 1}.get(k))


def inputs(tier):
    for root, items, ctx in templates():
        yield root, items, ctx
        if len(items) > 40 or ctx.get('raw'):
            continue
        for k in range(len(items)):
            yield root, items[:k], ctx
            if isinstance(items[k], tuple):
                continue
            yield root, items[:k] + items[k + 1:], ctx
            if root == 'ParseExpr':
                kinds = ('SEMI', 'BANG', 'QUESTION', 'IDENT') if len(items) > 3 else ALL
            elif items[k].kind in PREC and len(items) < 4:
                kinds = ()
            else:
                kinds = ALL
            for kd in kinds:
                if kd != items[k].kind:
                    yield root, items[:k] + [mk(kd)] + items[k + 1:], ctx
                if kd in ('COMMA', 'SEMI', 'IDENT', 'CLOSEPAREN', 'OPENCURLY', 'CLOSECURLY') and root != 'ParseExpr':
                    yield root, items[:k] + [mk(kd)] + items[k:], ctx


def text(items):
    return ' '.join('<%s>' % i[1] if isinstance(i, tuple) else (i.lex or LEX.get(i.kind) or i.kind) for i in items[:30])


def one(P, root, items, ctx):
    """None, or what is wrong; 'skip' when the reference leaves it open"""
    T = P.T
    func = ctx.get('func')
    ref = Ref(items, func=func, scope=ctx.get('scope', 0))
    want = None
    if items and isinstance(items[0], tuple) and (items[0][0], root) in (
            ('S', 'ParseStatement'), ('E', 'ParseExpr'), ('F', 'ParseFactor'), ('E', 'ParseStatement'), ('E', 'ParseFactor')):
        return 'skip'
    try:
        want = {'ParseStatement': ref.stmt, 'ParseFactor': ref.factor, 'ParseExpr': ref.expr, 'ParseProgram': ref.program}[root]()
    except Bad:
        want = Bad
    except Skip:
        return 'skip'
    P.start(items, scope=ctx.get('scope', 0))
    syms = []
    if func is not None:
        fs = P.g.sym('FUNCTION', 'fn', func__index=3, func__args=0, func__locals=0,
                     func__returnTag=P.g.prim(P.st, 'VOID' if func == 'void' else 'INT'))
        T.set(P.st, P.state, 'Tiny_State', 'currFunc', fs)
        syms = [fs]
    P.seal(syms)
    rs = P.run(root, first=1 if root == 'ParseProgram' else 0)
    for r in rs:
        if r.kind == 'cut':
            return 'undecided', '%s: %s (%s, %s)' % (text(items), 'the analysis bound is reached', r.kind, r.val)
        if r.kind == 'mismatch':
            return 'reads %s wrongly: %s' % (text(items), r.val)
        if r.kind != 'ret':
            if want is not Bad or r.kind not in ('raise', 'noeof', 'exit', 'crash'):
                return 'the input %s is refused (%s) although it is a sentence' % (text(items), r.val)
            if r.kind == 'noeof':
                return 'does not stop at the end of the input after %s' % text(items)
            if r.kind in ('crash', 'exit'):
                return 'ends with %s (%s) on %s' % (r.kind, r.val, text(items))
            continue
        if want is Bad:
            return 'accepts %s, which is not a sentence' % text(items)
        got = tuple(P.list(r.st, r.val)) if root == 'ParseProgram' else P.show(r.st, r.val)
        if got != want:
            return 'reads %s as %r where the grammar says %r' % (text(items), got, want)
        if r.st.x['ti'] != min(ref.i, len(items)):
            return 'leaves the input at item %d instead of %d after %s' % (r.st.x['ti'], ref.i, text(items))
        tr = tuple((n, s, 0 if type(f) is int else 1) for n, s, f in r.st.x.get('trace', ()))
        wt = tuple((n, s, int(f)) for n, s, f in ref.trace)
        if tr != wt:
            return 'reads the parts of %s in scopes %r instead of %r' % (text(items), tr, wt)
        sc = T.get(r.st, P.state, 'Tiny_State', 'currScope')
        if sc != ref.scope:
            return 'leaves scope depth %r instead of %d after %s' % (sc, ref.scope, text(items))
        cf = T.get(r.st, P.state, 'Tiny_State', 'currFunc')
        if (type(cf) is not int) != (func is not None):
            return 'leaves the enclosing function wrong after %s' % text(items)
        gs = [s for s in P.globals(r.st)[len(syms):] if s[0] in ('GLOBAL', 'CONST', 'FUNCTION', 'TAG_STRUCT')]
        ws = ref.symbols()
        gs = [fix(s) for s in gs]
        ws = [fix(s) for s in ws]
        if gs != ws:
            return 'declares %r instead of %r for %s' % (gs, ws, text(items))
        if (T.get(r.st, P.state, 'Tiny_State', 'numFunctions'), T.get(r.st, P.state, 'Tiny_State', 'numGlobalVars')) != (
                ref.nf, ref.ng):
            return 'counts functions or globals wrongly for %s' % text(items)
        if func is not None:
            ls = [fix(x) for x in P.symbol(r.st, syms[0])[5]]
            if ls != [fix(tuple(x)) for x in ref.locals]:
                return 'declares locals %r instead of %r for %s' % (ls, ref.locals, text(items))
    return None


def literals(T, C):
    """string literals and strings tables that are small, long and full"""
    P = Parser(T)
    o = T.off('Tiny_State', 'strings')
    f = T.where(T.fn('ParseFactor'))
    long_ = 'w' * 300
    twins = ['a', 'A', 'ab', 'abc', 'abd', '', long_, long_ + '1', long_ + '2', 'w' * 63, 'w' * 64, 'w' * 255, 'w' * 256]
    mx = 1024
    for n in (0, 1, 13, 99, 100, 101, 255, 256, 257, 700, 1022, 1023, 1024):
        base = (twins + ['t%d' % k for k in range(mx)])[:n]
        asked = {'fresh', long_ + '3', 'w' * 65, 'w' * 257, 'abcd', 't', 'b', 'A' * 2} | {base[k] for k in (0, 1, 5, 6, 7, 8, 99, 100, 127, 128, 254, 255, 256, 500, n - 2, n - 1)
                                                                                    if 0 <= k < n}
        for q in sorted(asked):
            P.start([Tok('STRING', q)])
            st = P.st
            ptrs = [T.cstr(st, b, 'string%d' % k) for k, b in enumerate(base)]
            for k, p in enumerate(ptrs):
                st.store(P.state, 8, p, o + 8 * k)
            T.set(st, P.state, 'Tiny_State', 'numStrings', n)
            P.seal([])
            what = "the literal '%s' with %d strings before" % (q if len(q) < 20 else q[:5] + '...%d...' % len(q) + q[-2:], n)
            for r in P.run('ParseFactor', long=True):
                if r.kind == 'cut':
                    C.undecide(what + ': analysis bound')
                    continue
                full = n == mx and q not in base
                if r.kind != 'ret':
                    if full and r.kind == 'raise':
                        C.ok(what)
                    else:
                        C.fail('C09/literal', '%s ends with %s (%s)' % (what, r.kind, r.val), f)
                    continue
                m = T.get(r.st, P.state, 'Tiny_State', 'numStrings')
                got = P.show(r.st, r.val)
                bad = None
                if full:
                    bad = 'is accepted although the table is full'
                elif got != ('STRING', q):
                    bad = 'is read as %s' % (repr(got)[:100],)
                elif type(m) is not int or m != n + (q not in base):
                    bad = 'makes %r strings of %d' % (m, n)
                elif any(r.st.load(P.state, 8, o + 8 * k) != p for k, p in enumerate(ptrs)):
                    bad = 'moves an earlier string'
                if bad:
                    C.fail('C09/literal', '%s %s' % (what, bad), f)
                else:
                    C.ok(what)
    C.analysed |= P.reached


def fix(s):
    if s[0] in ('GLOBAL', 'LOCAL'):
        return tuple(s[:4]) + ((s[5],) if s[0] == 'LOCAL' else ())
    if s[0] == 'FUNCTION':
        return s[:4] + (tuple(fix(x) for x in s[4]), tuple(fix(x) for x in s[5]))
    return tuple(s)


_T = None


def job(a):
    part, n, tier = a
    try:
        P = Parser(_T)
        out, cnt, skip, und = [], 0, 0, []
        for k, (root, items, ctx) in enumerate(inputs(tier)):
            if k % n != part:
                continue
            r = one(P, root, items, ctx)
            if r == 'skip':
                skip += 1
            elif isinstance(r, tuple):
                und.append(r[1])
            elif r:
                out.append((root, text(items), r))
            else:
                cnt += 1
        return out, cnt, skip, und, sorted(P.reached), P.npaths
    except Missing as ex:
        return ('missing', str(ex))
    except Exception:
        return ('error', traceback.format_exc())


def run(T, C):
    global _T
    _T = T
    T.fn('ParseProgram')
    literals(T, C)
    # statements the parser leaves to the later phases to refuse
    run_cases(T, C, no_assignment(), T.where('ParseStatement'), 'C09')
    with multiprocessing.get_context('fork').Pool(int(os.environ.get('TINY_JOBS') or 8)) as p:
        rs = p.map(job, [(k, 32, C.tier) for k in range(32)], 1)
    for r in rs:
        if r[0] == 'missing':
            raise Missing(r[1])
        if r[0] == 'error':
            raise RuntimeError(r[1])
        out, cnt, skip, und, reached, paths = r
        for root, tx, msg in out:
            C.fail('%s/%s/%s' % (C.pid, root, tx), msg, T.where(root))
        C.ok(n=cnt)
        for u in und:
            C.undecide(u)
        C.count('inputs_left_open_by_the_grammar', skip)
        C.count('paths', paths)
        C.analysed |= set(reached)
