from codegen import *

LEVEL = 'other'
FLOOR = 300
RULE = ('For every control-structure shape (blocks, if/else chains, while, for, break/continue/return at each kind of '
        'position, nestings of two loops; and long shapes: hundreds of statements and branches, 40 to 60 levels, 150 jumps of one loop) '
        'and every sequence of condition outcomes up to the event bound, the sequence '
        'of sub-statements and conditions the emitted code reaches is the one given by the structural semantics of '
        'the language; break and continue outside a loop are refused.')


def outside(T, C):
    """break / continue which no loop encloses are compile errors"""
    g = Gen(T)
    shapes = {}
    for k in ('break', 'continue'):
        shapes[k] = (k,)
        shapes[k + ' in if'] = ('if', 'c', (k,))
        shapes[k + ' in else'] = ('if', 'c', ('s', 'a'), (k,))
        shapes[k + ' in block'] = ('block', ('s', 'a'), ('block', (k,)))
        shapes[k + ' after return'] = ('block', ('s', 'a'), ('return',), (k,))
        shapes[k + ' after break in a loop before'] = ('block', ('while', 'c', ('block', ('break',), ('s', 'a'))), ('if', 'd', (k,)))
        shapes[k + ' in else of else'] = ('if', 'c', ('s', 'a'), ('if', 'd', ('s', 'b'), ('block', ('s', 'e'), (k,), ('s', 'f'))))
        shapes[k + ' behind 40 statements'] = ('block',) + tuple(('s', 'a%d' % j) for j in range(40)) + ((k,), ('s', 'z'))
        shapes[k + ' under 30 ifs'] = fold(lambda j, x: ('if', 'd%d' % j, ('block', x)), 30, (k,))
        shapes[k + ' after loop'] = ('block', ('while', 'c', ('s', 'a')), (k,))
    for name, ast in shapes.items():
        for where in ('at top level', 'in a function')[' after return' in name:]:
            g.start(0)
            g.callinfo = None
            g.nonempty = ' 30 ' in name or ' 40 ' in name
            body = build_ctl(g, ast)
            if where == 'in a function':
                fn = g.sym('FUNCTION', 'fn', func__index=0)
                T.set(g.st, fn, 'Tiny_Symbol', 'func.locals', 0)
                T.set(g.st, fn, 'Tiny_Symbol', 'func.args', 0)
                body = g.node('PROC', proc__decl=fn, proc__body=body)
            g.seal()
            ems = g.compile(T.fn('CompileProgram'), body)
            bad = [e for e in ems if e.kind == 'ret']
            cut = [e for e in ems if e.kind not in ('ret', 'raise', 'exit')]
            if bad:
                C.fail('C03/outside/%s %s' % (name, where), 'a %s %s compiles without an error' % (name, where),
                       T.where('CompileProgram'))
            elif cut:
                C.undecide('%s %s' % (name, where))
            else:
                C.ok('%s %s is refused' % (name, where))
    C.analysed |= g.reached


def run(T, C):
    out, stats, reached = run_all(T, groups={'control'})
    report(C, out, stats, reached, {'meaning', 'encode', 'balance', 'reject'})
    outside(T, C)
