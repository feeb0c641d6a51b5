"""Operators and constructs accept exactly the operand types the type rules admit."""
from typer import *

LEVEL = 'other'
FLOOR = 2500
RULE = ('For every operator and typed construct and every combination of operand types (primitives, two structs, two '
        'foreign types, nullables) the type resolution and code generation functions are interpreted abstractly on the tree '
        'of the program; they must end in a compile error exactly when the reference type system refuses the program and '
        'otherwise give the declared variable the type it gives; an ill-typed expression is placed in every position of '
        'every statement and expression form and must be refused there.')

TYPES = ('void', 'bool', 'int', 'float', 'str', 'any', 'A', 'B', 'X', 'Y', '?A', '?int', '?X')
STRUCTS = {'A': (('n', 'int'), ('s', 'str'), ('b', 'B')), 'B': (('f', 'float'),), 'U': None, 'E': ()}
WORLD = {'structs': STRUCTS, 'funcs': {
    'F': ('script', ('int',), 'void'), 'G': ('script', (), 'int'),
    'sink': ('foreign', ('any',), 'void'), 'take': ('foreign', ('int',), 'int'),
    'X_get_index': ('foreign', ('X', 'int'), 'str'), 'X_set_index': ('foreign', ('X', 'int', 'str'), 'void'),
    'Y_get_index': ('script', ('Y', 'str'), 'int'), 'A_get_index': ('script', ('A', 'any'), 'any')}}


def v(t):
    return ('val', t)


def cases(tier):
    out = []

    def add_(key, prog, world=WORLD):
        out.append((key, world, prog))
    for opn in ARITH + INTS + ORDER + EQ + LOG:
        for a in TYPES:
            for b in TYPES:
                add_('binary ' + opn, (('decl', 'r', ('bin', opn, v(a), v(b))),))
    for opn in ('MINUS', 'BANG'):
        for a in TYPES:
            add_('unary ' + opn, (('decl', 'r', ('un', opn, v(a))),))
    for a in TYPES:
        add_('initializer', (('decl', 'r', v(a)),))
        add_('parenthesis', (('decl', 'r', ('paren', v(a))),))
        add_('if', (('if', v(a), ('expr', ('call', 'G', ())), None),))
        add_('if else', (('if', v(a), ('expr', ('call', 'G', ())), ('expr', ('call', 'G', ()))),))
        add_('while', (('while', v(a), ('expr', ('call', 'G', ()))),))
        add_('for', (('for', ('decl', 'i', ('lit', 'int')), v(a), ('expr', ('call', 'G', ())), ('expr', ('call', 'G', ()))),))
        add_('conditional', (('decl', 'r', ('tern', v(a), v('int'), v('int'))),))
        for b in TYPES:
            add_('conditional branches', (('decl', 'r', ('tern', v('bool'), v(a), v(b))),))
            add_('cast', (('decl', 'r', ('cast', v(a), b)),))
            if a != 'void':
                add_('assign then use', (('assign', 'EQUAL', v(a), v(b)),))
        for f in ('n', 's', 'b', 'f', 'zz'):
            add_('field', (('decl', 'r', ('dot', v(a), f)),))
        for i in ('int', 'str', 'float', 'any', 'void'):
            if a != 'void':
                add_('index', (('decl', 'r', ('index', v(a), v(i))),))
                for t in ('int', 'str', 'any', 'void'):
                    add_('index assignment', (('assign', 'EQUAL', ('index', v(a), v(i)), v(t)),))
        for opn in COMPOUND:
            for b in TYPES:
                if a != 'void':
                    add_('compound ' + opn, (('assign', opn, v(a), v(b)),))
        add_('undefined struct field', (('decl', 'r', ('dot', ('cast', v('any'), 'U'), 'n')),))
    add_('empty struct field', (('decl', 'r', ('dot', ('cast', v('any'), 'E'), 'n')),))
    for t in ('bool', 'int', 'float', 'str'):
        add_('literal', (('decl', 'r', ('lit', t)),))
    add_('null', (('decl', 'r', ('null',)),))
    add_('nested field', (('decl', 'r', ('dot', ('dot', v('A'), 'b'), 'f')),))
    add_('untyped variable', (('assign', 'EQUAL', v('int'), ('var', 'later')), ('decl', 'later', ('lit', 'int'))))
    add_('self reference', (('decl', 'x', ('bin', 'PLUS', ('var', 'x'), ('lit', 'int'))),))
    add_('typed by declaration', (('decl', 'x', ('lit', 'float')), ('decl', 'y', ('bin', 'PLUS', ('var', 'x'), ('lit', 'int'))),
                                  ('decl', 'z', ('bin', 'EQUALS', ('var', 'y'), ('var', 'x')))))
    out += everywhere('ill', ('bin', 'PLUS', v('str'), v('int')), ('bin', 'AND', v('bool'), v('bool')))
    out += everywhere('well', ('bin', 'PLUS', v('int'), v('int')), ('bin', 'LOG_AND', v('bool'), v('bool')))
    out += undeclared()
    out += places()
    out += large()
    return out


def large():
    """long structs, chains and nestings"""
    out = []
    for n in (20, 70, 255):
        tys = (('int', 'str', 'float', 'A') * 64)[:n]
        names = tuple('f%d' % k for k in range(n))
        w = {'structs': dict(STRUCTS, S=tuple(zip(names, tys)))}
        for k in sorted({0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, n // 2, n - 2, n - 1} & set(range(n))):
            out.append(('field %d of %d' % (k, n), w, (('decl', 'r', ('dot', v('S'), names[k])),)))
            out.append(('sum with field %d of %d' % (k, n), w, (('decl', 'r', ('bin', 'PLUS', ('dot', v('S'), names[k]), v('int'))),)))
        out.append(('field after the last of %d' % n, w, (('decl', 'r', ('dot', v('S'), 'f%d' % n)),)))
    for n in (10, 40):
        for last in ('int', 'str'):
            e = v(last)
            for k in range(n):
                e = ('bin', 'PLUS', e, v('int'))
            out.append(('sum of %d' % n, WORLD, (('decl', 'r', e),)))
            e = v(last)
            for k in range(n):
                e = ('bin', 'STAR', v('int'), e)
            out.append(('product of %d' % n, WORLD, (('decl', 'r', e),)))
            e = v(last)
            for k in range(n):
                e = (('paren', e), ('un', 'MINUS', e))[k % 2]
            out.append(('%d parentheses' % n, WORLD, (('decl', 'r', e),)))
        e = v('bool')
        for k in range(n):
            e = (('bin', 'LOG_AND', e, v('bool')), ('un', 'BANG', e), ('bin', 'LOG_OR', v('bool'), e))[k % 3]
        out.append(('logic of %d' % n, WORLD, (('decl', 'r', e),)))
        for t in ('bool', 'int'):
            s = ('if', v(t), ('expr', ('call', 'G', ())), None)
            for k in range(n):
                s = (('block', s), ('if', v('bool'), s, None), ('while', v('bool'), s), ('if', v('bool'), ('block',), s),
                     ('for', ('decl', 'i', ('lit', 'int')), v('bool'), ('expr', ('call', 'G', ())), s))[k % 5]
            out.append(('condition %d statements deep' % n, WORLD, (s,)))
            many = [('decl', 'd%d' % k, ('lit', 'int')) for k in range(n)]
            out.append(('condition after %d statements' % n, WORLD, tuple(many) + (('if', v(t), ('expr', ('call', 'G', ())), None),)))
            out.append(('condition in a block of %d' % n, WORLD, (('block',) + tuple(many) + (('while', v(t), ('expr', ('call', 'G', ()))),),)))
    for width in (62, 63, 64, 127, 128, 255, 256):
        a, b, c = (('n' * width) + x for x in ('', '1', '2'))
        w = {'structs': {'S': ((b, 'int'), (c, 'str'))}}
        for x in (a, b, c):
            out.append(('field with a name of %d characters' % width, w, (('decl', 'r', ('dot', v('S'), x)),)))
    return out


def places():
    """only variables, fields and elements can be assigned to; constants have the type of their value"""
    out = []
    w = dict(WORLD)
    w['funcs'] = dict(WORLD['funcs'], give_int=('foreign', (), 'int'), give_float=('script', (), 'float'), give_str=('foreign', (), 'str'),
                      give_bool=('foreign', (), 'bool'))
    for t in ('int', 'float', 'bool', 'str'):
        forms = [('literal', ('lit', t)), ('parenthesised variable', ('paren', v(t))), ('parenthesised literal', ('paren', ('lit', t))),
                 ('constant', ('const', t)), ('parenthesised constant', ('paren', ('const', t))), ('cast', ('cast', v('any'), t)),
                 ('call', ('call', 'give_' + t, ())), ('parenthesised element', ('paren', ('index', v('X'), v('int')))),
                 ('conditional', ('tern', v('bool'), v(t), v(t)))]
        if t in ('int', 'float'):
            forms += [('negation', ('un', 'MINUS', v(t))), ('sum', ('bin', 'PLUS', v(t), v(t)))]
        if t == 'bool':
            forms += [('negation', ('un', 'BANG', v(t))), ('comparison', ('bin', 'EQUALS', v(t), v(t)))]
        for n, e in forms:
            for opn in ('EQUAL',) + COMPOUND:
                out.append(('assignment to a %s' % n, w, (('assign', opn, e, v(t)),)))
            out.append((n, w, (('decl', 'r', e), ('assign', 'EQUAL', ('var', 'r'), v(t)))))
            out.append((n + ' in a function', w, (('func', 'G', ('decl', 'r', e), ('ret', v('int'))),)))
    out += no_assignment()
    out.append(('assignment to null', w, (('assign', 'EQUAL', ('null',), ('null',)),)))
    out.append(('assignment to a new object', w, (('assign', 'EQUAL', ('new', 'E', (), None), v('any')),)))
    return out


def undeclared():
    u = ('undeclared', 'nope')
    out = everywhere('un', u, u)
    out.append(('assignment to an undeclared name', WORLD, (('assign', 'EQUAL', u, v('int')),)))
    out.append(('compound assignment to an undeclared name', WORLD, (('assign', 'PLUSEQUAL', u, v('int')),)))
    out.append(('field of an undeclared name', WORLD, (('decl', 'r', ('dot', u, 'n')),)))
    out.append(('element of an undeclared name', WORLD, (('decl', 'r', ('index', u, v('int'))),)))
    out.append(('cast of an undeclared name', WORLD, (('decl', 'r', ('cast', u, 'any')),)))
    return out


def everywhere(word, e, b):
    """an expression (a non-bool and a bool one) in every position of every form"""
    out = []

    def add_(key, prog, world=WORLD):
        out.append((key, world, prog))
    if True:
        ok = ('expr', ('call', 'G', ()))
        bad = ('decl', 'r', e)
        exprs = [
            ('left operand', ('bin', 'PLUS', e, v('int'))), ('right operand', ('bin', 'PLUS', v('int'), e)),
            ('left of ==', ('bin', 'EQUALS', e, v('int'))), ('right of ==', ('bin', 'EQUALS', v('int'), e)),
            ('left of !=', ('bin', 'NOTEQUALS', e, v('int'))),
            ('left of <', ('bin', 'LT', e, v('int'))), ('right of <', ('bin', 'LT', v('int'), e)),
            ('left of %', ('bin', 'PERCENT', e, v('int'))), ('right of %', ('bin', 'PERCENT', v('int'), e)),
            ('left of &&', ('bin', 'LOG_AND', b, v('bool'))), ('right of &&', ('bin', 'LOG_AND', v('bool'), b)),
            ('left of ||', ('bin', 'LOG_OR', b, v('bool'))), ('right of ||', ('bin', 'LOG_OR', v('bool'), b)),
            ('operand of -', ('un', 'MINUS', e)), ('operand of !', ('un', 'BANG', b)), ('parenthesis', ('paren', e)),
            ('condition of ?', ('tern', b, v('int'), v('int'))), ('first branch', ('tern', v('bool'), e, v('int'))),
            ('second branch', ('tern', v('bool'), v('int'), e)), ('argument', ('call', 'take', (e,))),
            ('constructor argument', ('new', 'A', (e, v('str'), v('B')), None)),
            ('named constructor argument', ('new', 'A', (v('str'), e, v('B')), ('s', 'n', 'b'))),
            ('cast', ('cast', ('paren', ('call', 'sink2', (e,))), 'any')),
            ('index', ('index', v('X'), e)), ('indexed', ('index', ('call', 'getX', (e,)), v('int'))),
            ('object', ('dot', ('call', 'getA', (e,)), 'n')), ('nested', ('paren', ('un', 'MINUS', ('paren', e))))]
        w = dict(WORLD)
        w['funcs'] = dict(WORLD['funcs'], getX=('foreign', ('int',), 'X'), getA=('foreign', ('int',), 'A'),
                          sink2=('foreign', ('int',), 'any'), pair=('foreign', ('any', 'any'), 'int'), vr=('varargs', ('int',), 'int'))
        exprs += [('second argument', ('call', 'pair', (v('int'), e))), ('variadic argument', ('call', 'vr', (v('int'), v('str'), e))),
                  ('first variadic argument', ('call', 'vr', (e, v('str'))))]
        stmts = [
            ('top level', bad), ('block', ('block', bad)), ('second in block', ('block', ok, bad, ok)), ('if body', ('if', v('bool'), bad, None)),
            ('else', ('if', v('bool'), ok, bad)), ('body before else', ('if', v('bool'), bad, ok)), ('while body', ('while', v('bool'), bad)),
            ('for init', ('for', bad, v('bool'), ok, ok)), ('for step', ('for', ok, v('bool'), bad, ok)),
            ('for body', ('for', ok, v('bool'), ok, bad)), ('if condition', ('if', b, ok, None)), ('while condition', ('while', b, ok)),
            ('for condition', ('for', ok, b, ok, ok)), ('function body', ('func', 'G', bad, ('ret', v('int')))),
            ('returned value', ('func', 'G', ('ret', e))), ('assigned value', ('assign', 'EQUAL', v('int'), e)),
            ('value of a compound assignment', ('assign', 'PLUSEQUAL', v('int'), e)),
            ('object assigned to', ('assign', 'EQUAL', ('dot', ('call', 'getA', (e,)), 'n'), v('int'))),
            ('index assigned to', ('assign', 'EQUAL', ('index', v('X'), e), v('str'))),
            ('object indexed in an assignment', ('assign', 'EQUAL', ('index', ('call', 'getX', (e,)), v('int')), v('str'))),
            ('element value', ('assign', 'EQUAL', ('index', v('Z'), v('int')), e)),
            ('deep', ('block', ('if', v('bool'), ('while', v('bool'), ('block', ('for', ok, v('bool'), ok, ('block', ok, bad)))), None))),
            ('function after function', ('block', ok, bad))]
        w['funcs'].update(Z_get_index=('foreign', ('Z', 'int'), 'int'), Z_set_index=('foreign', ('Z', 'int', 'int'), 'void'))
        for n, x in exprs:
            add_('%s-typed %s' % (word, n), (('decl', 'r', x),), w)
        for n, s in stmts:
            add_('%s-typed %s' % (word, n), (s,), w)
            add_('%s-typed %s after another statement' % (word, n), (ok, s, ok), w)
        w2 = dict(w, funcs=dict(w['funcs'], H=('script', ('int', 'str'), 'int')))
        add_(word + '-typed second function', (('func', 'G', ('ret', v('int'))), ('func', 'H', bad, ('ret', v('int'))), ok), w2)
        add_(word + '-typed first function', (('func', 'G', bad, ('ret', v('int'))), ('func', 'H', ('ret', v('int'))), ok), w2)
    return out


def run(T, C):
    T.fn('ResolveTypes')
    run_cases(T, C, cases(C.tier), T.where('ResolveTypes'), 'C11')
