"""Values only flow to places whose type accepts them."""
from typer import *

LEVEL = 'other'
FLOOR = 2500
RULE = ('For every pair of source and destination type and every position in which a value flows to a typed place '
        '(assignment to a variable, parameter, struct field and element; argument of a foreign, variadic and script function '
        'at each position; returned value; positional and named constructor argument; index and element of an accessor), the '
        'compiler\'s back half is interpreted abstractly on the program: it must accept exactly when the reference '
        'assignability relation holds (same type; anything but void to any; a type or its nullable to the nullable; any to '
        'nothing but any).')

# names that a comparison of less than the whole name takes for each other
LONG = 'B' * 90
TYPES = ('void', 'bool', 'int', 'float', 'str', 'any', 'A', 'B', 'X', 'Y', '?A', '?B', '?int', '?str', '?X',
         'AA', 'a', LONG + '1', LONG + '2', 'XX', 'x', '?AA', '?any', '?float', '?bool')
STRUCTS = {t: (('n', 'int'),) for t in ('A', 'B', 'AA', 'a', LONG + '1', LONG + '2')}
# pairs of types the extra names are tried with (the others are tried with every type)
EXTRA = TYPES[15:]
KIN = ('A', 'B', 'X', 'any', '?A', 'int') + EXTRA


def v(t):
    return ('val', t)


def cases(tier):
    out = []
    for dst in TYPES:
        for src in TYPES:
            if dst == '?any' and src[0] != '?' and src not in ('void', 'any'):
                continue        # whether a plain value goes to a nullable any is not stated
            if (dst in EXTRA and src not in KIN) or (src in EXTRA and dst not in KIN):
                continue
            if dst == 'void':
                w = {'structs': STRUCTS, 'funcs': {'f': ('script', (), 'void'), 'g': ('script', ('int',), 'void')}}
                out.append(('returning from a void function', w, (('func', 'f', ('ret', v(src))),)))
                out.append(('returning from a void function with parameters', w, (('func', 'g', ('ret', v(src))),)))
                continue
            w = {'structs': dict(STRUCTS, S=(('p', dst),), S3=(('a', 'int'), ('p', dst), ('z', 'str'))),
                 'funcs': {'getS': ('foreign', (), 'S'), 'getS3': ('foreign', (), 'S3'),
                           'f1': ('foreign', (dst,), 'int'), 'f3': ('foreign', ('int', 'str', dst), 'int'), 'f3m': ('foreign', ('int', dst, 'str'), 'int'),
                           'v1': ('varargs', (dst,), 'int'), 'v2': ('varargs', ('int', dst), 'int'),
                           's1': ('script', (dst,), 'int'), 's3': ('script', ('int', dst, 'str'), 'void'), 's3l': ('script', ('int', 'str', dst), 'void'),
                           'r0': ('script', (), dst), 'r2': ('script', ('int', 'str'), dst),
                           'I_get_index': ('foreign', ('I', dst), 'int'), 'I_set_index': ('foreign', ('I', dst, 'int'), 'void'),
                           'J_get_index': ('foreign', ('J', 'int'), dst), 'J_set_index': ('foreign', ('J', 'int', dst), 'void'),
                           'M_get_index': ('foreign', ('M', 'any'), 'int'), 'M_set_index': ('foreign', ('M', dst, 'int'), 'void'),
                           'N_get_index': ('foreign', ('N', 'int'), 'any'), 'N_set_index': ('script', ('N', 'int', dst), 'void'),
                           'O_get_index': ('foreign', ('O', 'int'), dst), 'O_set_index': ('foreign', ('N', 'int', dst), 'void'),
                           'K_get_index': ('script', ('K', dst), 'int'), 'K_set_index': ('script', ('K', dst, 'int'), 'void'),
                           'L_get_index': ('script', ('L', 'int'), dst), 'L_set_index': ('script', ('L', 'int', dst), 'void')}}

            def add_(key, *prog):
                out.append((key, w, prog))
            e = v(src)
            add_('assignment to a global', ('assign', 'EQUAL', ('val', dst), e))
            add_('assignment after declaration', ('decl', 'x', v(dst)), ('assign', 'EQUAL', ('var', 'x'), e))
            add_('assignment to a local', ('func', 'r0', ('decl', 'x', v(dst)), ('assign', 'EQUAL', ('var', 'x'), e)))
            add_('assignment to a field', ('assign', 'EQUAL', ('dot', v('S'), 'p'), e))
            add_('assignment to a middle field', ('assign', 'EQUAL', ('dot', ('call', 'getS3', ()), 'p'), e))
            add_('element', ('assign', 'EQUAL', ('index', v('J'), v('int')), e))
            add_('element through a script accessor', ('assign', 'EQUAL', ('index', v('L'), v('int')), e))
            add_('index read', ('decl', 'x', ('index', v('I'), e)))
            add_('index written', ('assign', 'EQUAL', ('index', v('I'), e), v('int')))
            add_('index written where any is read', ('assign', 'EQUAL', ('index', v('M'), e), v('int')))
            add_('element written where any is read', ('assign', 'EQUAL', ('index', v('N'), v('int')), e))
            add_('element of one written through another', ('assign', 'EQUAL', ('index', v('O'), v('int')), v(dst)))
            add_('index read through a script accessor', ('decl', 'x', ('index', v('K'), e)))
            add_('index written through a script accessor', ('assign', 'EQUAL', ('index', v('K'), e), v('int')))
            for f, args in (('f1', (e,)), ('f3', (v('int'), v('str'), e)), ('f3m', (v('int'), e, v('str'))), ('v1', (e,)),
                            ('v1', (e, v('B'))), ('v2', (v('int'), e)), ('v2', (v('int'), e, v('int'))), ('s1', (e,)),
                            ('s3', (v('int'), e, v('str'))), ('s3l', (v('int'), v('str'), e))):
                add_('argument of %s' % f, ('expr', ('call', f, args)))
                if f in ('f1', 'v1', 's1'):
                    add_('argument of %s as a value' % f, ('decl', 'x', ('call', f, args)))
            add_('returned', ('func', 'r0', ('ret', e)))
            add_('returned deep inside', ('func', 'r2', ('if', v('bool'), ('while', v('bool'), ('block', ('ret', e))), None)))
            add_('returned in the second function', ('func', 's1', ('ret', v('int'))), ('func', 'r0', ('ret', e)))
            add_('returned after another function', ('func', 'r0', ('ret', v(dst))), ('func', 'r2', ('ret', e)))
            add_('constructor', ('decl', 'x', ('new', 'S', (e,), None)))
            add_('constructor middle', ('decl', 'x', ('new', 'S3', (v('int'), e, v('str')), None)))
            add_('named constructor', ('decl', 'x', ('new', 'S', (e,), ('p',))))
            add_('named constructor reordered', ('decl', 'x', ('new', 'S3', (v('str'), e, v('int')), ('z', 'p', 'a'))))
            add_('named constructor first', ('decl', 'x', ('new', 'S3', (e, v('str'), v('int')), ('p', 'z', 'a'))))
        w = {'funcs': {'f': ('script', (), dst)}}
        out.append(('returning nothing', w, (('func', 'f', ('ret', None)),)))
        if dst != 'void':
            w = {'structs': dict(STRUCTS, S=(('p', dst),)), 'funcs': {'f': ('foreign', (dst,), 'int'), 'g': ('script', (dst,), 'int'), 'r': ('script', (), dst)}}
            out.append(('null assigned', w, (('assign', 'EQUAL', v(dst), ('null',)),)))
            out.append(('null argument', w, (('expr', ('call', 'f', (('null',),))),)))
            out.append(('null argument of a script function', w, (('expr', ('call', 'g', (('null',),))),)))
            out.append(('null constructor argument', w, (('decl', 'x', ('new', 'S', (('null',),), None)),)))
            out.append(('null returned', w, (('func', 'r', ('ret', ('null',))),)))
            out.append(('null cast to the type', w, (('assign', 'EQUAL', v(dst), ('cast', ('null',), dst)),)))
            for lit in ('bool', 'int', 'float', 'str') if dst != '?any' else ():
                out.append(('literal assigned', w, (('assign', 'EQUAL', v(dst), ('lit', lit)),)))
    out += large()
    return out


def large():
    """one value of the wrong type at each of many places of a long list"""
    out = []
    for n in (20, 70, 255):
        tys = (('int', 'str', 'float', 'A') * 64)[:n]
        names = tuple('f%d' % k for k in range(n))
        w = {'structs': dict(STRUCTS, S=tuple(zip(names, tys))),
             'funcs': {'f': ('foreign', tys, 'int'), 'v': ('varargs', tys, 'int'), 's': ('script', tys, 'int')}}
        at = sorted({0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, n // 2, n - 2, n - 1} & set(range(n)))
        for k in [None] + at:
            for bad in ('any', 'B') if k is not None else ('int',):
                args = [v(t) for t in tys]
                if k is not None:
                    args[k] = v(bad)
                args = tuple(args)
                for f in 'fvs':
                    out.append(('argument %s of %d of a %s function' % (k, n, w['funcs'][f][0]), w, (('expr', ('call', f, args)),)))
                out.append(('constructor argument %s of %d' % (k, n), w, (('decl', 'x', ('new', 'S', args, None)),)))
                if n < 100:
                    out.append(('named constructor argument %s of %d' % (k, n), w, (('decl', 'x', ('new', 'S', args[::-1], names[::-1])),)))
            if k is not None:
                for t in ('A', 'int', 'str'):
                    out.append(('assignment to field %d of %d' % (k, n), w, (('assign', 'EQUAL', ('dot', v('S'), names[k]), v(t)),)))
    # many functions, each with a result of its own
    for n in (40, 200):
        tys = (('int', 'str', 'float', 'A', 'B') * 64)[:n]
        w = {'structs': STRUCTS, 'funcs': {'r%d' % k: ('script', (), t) for k, t in enumerate(tys)}}
        for k in (0, n // 2, n - 1):
            for t in ('int', 'str', 'float', 'A', 'B'):
                out.append(('result of function %d of %d' % (k, n), w, (('assign', 'EQUAL', v(t), ('call', 'r%d' % k, ())),)))
                out.append(('returned from function %d of %d' % (k, n), w, (('func', 'r%d' % k, ('ret', v(t))),)))
    # deep inside of statements
    for depth in (10, 40):
        for t in ('int', 'str'):
            s = ('ret', v(t))
            for k in range(depth):
                s = (('block', s), ('if', v('bool'), s, None), ('while', v('bool'), s), ('if', v('bool'), ('block',), s))[k % 4]
            w = {'structs': STRUCTS, 'funcs': {'r': ('script', (), 'int')}}
            out.append(('returned %d statements deep' % depth, w, (('func', 'r', s),)))
    return out


def run(T, C):
    T.fn('ResolveTypes')
    run_cases(T, C, cases(C.tier), T.where('ResolveTypes'), 'C12')
