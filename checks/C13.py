"""Calls and constructors take exactly the arguments of their signature."""
import itertools
from typer import *

LEVEL = 'other'
FLOOR = 400
RULE = ('For every combination of kind of function (foreign, variadic, script, index accessor), number of parameters (0-4) and '
        'number of arguments (0-6), in statement and value position, and every constructor with 0-4 fields and every '
        'sequence of 0-5 positional arguments or of argument names (fields, repetitions and unknown names), the compiler\'s back half '
        'is interpreted abstractly: it must end in a compile error exactly when the count or the set of names differs from '
        'the signature; calls of unknown functions and constructions of undefined structs are refused.')


def v(t):
    return ('val', t)


TY = ('int', 'str', 'A', 'float')


def cases(tier):
    out = []
    for kind in ('foreign', 'varargs', 'script'):
        for n in range(5):
            w = {'structs': {'A': ()}, 'funcs': {'f': (kind, TY[:n], 'int'), 'f_other': ('foreign', ('any',), 'int'), 'k': ('script', (), 'void')}}
            for m in range(7 if n < 4 else 6):
                args = tuple(v(t) for t in (TY + ('str', 'str'))[:m])
                for key, s in (('statement', ('expr', ('call', 'f', args))), ('value', ('decl', 'x', ('call', 'f', args))),
                               ('argument', ('expr', ('call', 'f_other', (('call', 'f', args),)))),
                               ('in a function', ('func', 'k', ('expr', ('call', 'f', args))))):
                    out.append(('%s function with %d parameters and %d arguments as %s' % (kind, n, m, key), w, (s,)))
    for kind in ('foreign', 'varargs', 'script'):
        for n in range(5):
            tys = ('P', 'int', 'str', 'float')
            w = {'funcs': {'P_get_index': (kind, tys[:n], 'str'), 'P_set_index': ('foreign', ('P', 'int', 'str'), 'void')}}
            out.append(('%s reader with %d parameters' % (kind, n), w, (('decl', 'x', ('index', v('P'), v('int'))),)))
            w = {'funcs': {'P_get_index': ('foreign', ('P', 'int'), 'str'), 'P_set_index': (kind, tys[:n], 'void')}}
            out.append(('%s writer with %d parameters' % (kind, n), w, (('assign', 'EQUAL', ('index', v('P'), v('int')), v('str')),)))
            if n == 2:
                w = {'funcs': {'P_get_index': ('foreign', ('P', 'int'), 'str')}}
                out.append(('no writer', w, (('assign', 'EQUAL', ('index', v('P'), v('int')), v('str')),)))
                w = {'funcs': {'P_set_index': ('foreign', ('P', 'int', 'str'), 'void')}}
                out.append(('no reader', w, (('decl', 'x', ('index', v('P'), v('int'))),)))
                out.append(('no reader, only writing', w, (('assign', 'EQUAL', ('index', v('P'), v('int')), v('str')),)))
    names = ('a', 'b', 'c', 'd')
    for n in range(5):
        fs = tuple(zip(names, ('int',) * 4))[:n]
        w = {'structs': {'S': fs}}
        for m in range(6):
            out.append(('constructor with %d fields and %d arguments' % (n, m), w, (('decl', 'x', ('new', 'S', (v('int'),) * m, None)),)))
        pool = names[:n] + ('zz',)
        for m in range(1, min(n, 3) + 2):
            for ns in itertools.product(pool, repeat=m):
                out.append(('named constructor with %d fields' % n, w, (('decl', 'x', ('new', 'S', (v('int'),) * m, ns)),)))
        if n == 4:
            for ns in itertools.permutations(names):
                out.append(('named constructor permuted', w, (('decl', 'x', ('new', 'S', (v('int'),) * 4, ns)),)))
            for k in range(4):
                for j in range(4):
                    ns = list(names)
                    ns[k] = names[j]
                    out.append(('named constructor repeated', w, (('decl', 'x', ('new', 'S', (v('int'),) * 4, tuple(ns))),)))
    w = {'structs': {'U': None}, 'funcs': {'f': ('script', (), 'void')}}
    out.append(('undefined struct', w, (('decl', 'x', ('new', 'U', (), None)),)))
    out.append(('undefined struct with arguments', w, (('decl', 'x', ('new', 'U', (v('int'),), None)),)))
    out.append(('undefined struct by name', w, (('decl', 'x', ('new', 'U', (v('int'),), ('a',))),)))
    for args in ((), (v('int'),)):
        out.append(('unknown function', w, (('expr', ('call', 'nope', args)),)))
        out.append(('unknown function as a value', w, (('decl', 'x', ('call', 'nope', args)),)))
        out.append(('unknown function in a function', w, (('func', 'f', ('expr', ('call', 'nope', args))),)))
        out.append(('prefix of a function name', dict(w, funcs={'nopes': ('foreign', ('int',) * len(args), 'int'), 'f': ('script', (), 'void')}),
                    (('expr', ('call', 'nope', args)),)))
    # many parameters, checked one by one
    for n in (5, 6, 8):
        tys = (TY * 3)[:n]
        for kind in ('foreign', 'varargs', 'script'):
            w = {'structs': {'A': ()}, 'funcs': {'f': (kind, tys, 'int')}}
            for m in (n - 1, n, n + 1):
                out.append(('%s function with %d parameters and %d arguments' % (kind, n, m), w,
                            (('expr', ('call', 'f', tuple(v(t) for t in (TY * 3)[:m]))),)))
    out += large()
    return out


def large():
    """signatures of up to 255 parameters and structs of up to 255 fields"""
    out = []
    for n in (17, 40, 100, 255):
        tys = (TY * 64)[:n]
        for kind in ('foreign', 'varargs', 'script'):
            w = {'structs': {'A': ()}, 'funcs': {'f': (kind, tys, 'int')}}
            for m in (0, 1, n // 2, n - 1, n, n + 1):
                if m <= 255:
                    out.append(('%s function with %d parameters and %d arguments' % (kind, n, m), w,
                                (('expr', ('call', 'f', tuple(v(t) for t in (TY * 65)[:m]))),)))
        fs = tuple(('f%d' % k, 'int') for k in range(n))
        w = {'structs': {'S': fs}}
        for m in (0, 1, n // 2, n - 1, n, n + 1):
            if m <= 255:
                out.append(('constructor with %d fields and %d arguments' % (n, m), w, (('decl', 'x', ('new', 'S', (v('int'),) * m, None)),)))
        if n > 100:
            continue
        base = [x for x, t in fs]

        def named(ns):
            out.append(('named constructor of %d fields' % n, w, (('decl', 'x', ('new', 'S', (v('int'),) * len(ns), tuple(ns))),)))
        named(base)
        named(base[::-1])
        named(base[1:] + base[:1])
        named(base[:-1])
        named(base[1:])
        named(base + ['zz'])
        named(base[:-1] + ['zz'])
        for a, b in ((0, n - 1), (n - 2, n - 1), (n // 2, n - 1), (n // 2, n // 2 + 1), (0, n // 2)):
            ns = list(base)
            ns[b] = ns[a]
            named(ns)
            ns = list(base)
            ns[a] = ns[b]
            named(ns)
    # names that agree in all but the end
    for width in (62, 63, 64, 127, 128, 255, 256):
        a, b, c = (('n' * width) + x for x in ('', '1', '2'))
        w = {'structs': {'S': ((b, 'int'),)}, 'funcs': {b: ('foreign', (), 'int')}}
        for x in (a, b, c):
            out.append(('named constructor with a name of %d characters' % width, w, (('decl', 'x', ('new', 'S', (v('int'),), (x,))),)))
            out.append(('call of a name of %d characters' % width, w, (('expr', ('call', x, ())),)))
        w = {'structs': {'S': ((b, 'int'), (c, 'int'))}}
        for ns in ((b, c), (c, b), (b, b), (c, c), (a, c), (b, a)):
            out.append(('named constructor with names of %d characters' % width, w, (('decl', 'x', ('new', 'S', (v('int'),) * 2, ns)),)))
    return out


def run(T, C):
    T.fn('ResolveTypes')
    run_cases(T, C, cases(C.tier), T.where('ResolveTypes'), 'C13')
