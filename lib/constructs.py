"""The constructs of the language, each as an opaque-children tree together with the meaning the
language gives it (independent of opcodes): what it evaluates, in which order, and what it leaves."""
from gen import *

BINOPS = {'PLUS': 'add', 'MINUS': 'sub', 'STAR': 'mul', 'SLASH': 'sdiv', 'PERCENT': 'srem', 'OR': 'or', 'AND': 'and',
          'SHIFT_LEFT': 'shl', 'SHIFT_RIGHT': 'ashr', 'LT': 'lt', 'GT': 'gt', 'LTE': 'le', 'GTE': 'ge',
          'EQUALS': 'eq', 'NOTEQUALS': 'ne'}
ARITH = ('PLUS', 'MINUS', 'STAR', 'SLASH')
# names a comparison of less than the whole name takes for each other
KIN = {'nested': ('f', 'fo', 'foo'), 'nesting': ('foo', 'fo', 'f'), 'case': ('n', 'N', 'nN'),
       'long': ('q' * 150 + 'a', 'q' * 150 + 'b', 'q' * 150)}
INTONLY = ('PERCENT', 'OR', 'AND', 'SHIFT_LEFT', 'SHIFT_RIGHT')
REL = ('LT', 'GT', 'LTE', 'GTE')
COMPOUND = {'PLUSEQUAL': 'PLUS', 'MINUSEQUAL': 'MINUS', 'STAREQUAL': 'STAR', 'SLASHEQUAL': 'SLASH',
            'PERCENTEQUAL': 'PERCENT', 'ANDEQUAL': 'AND', 'OREQUAL': 'OR'}
_BIN = Engine.__new__(Engine)
FNAME = {'add': 'fadd', 'sub': 'fsub', 'mul': 'fmul', 'sdiv': 'fdiv'}


def tofloat(v):
    if v[0] == 'F':
        return v[1]
    if type(v[1]) is int:
        return E.fconst(float(v[1]))
    return op('sitofp', 64, v[1])


def apply_binop(st, o, a, b):
    """meaning of `a o b`; a, b = ('I'|'F', payload). -> (kind, payload)"""
    n = BINOPS[o]
    if n in ('add', 'sub', 'mul', 'sdiv'):
        if a[0] == 'I' and b[0] == 'I':
            return 'I', Engine.binop(_BIN, st, n, a[1], b[1], 64)
        return 'F', op(FNAME[n], 64, tofloat(a), tofloat(b))
    if n in ('srem', 'or', 'and', 'shl', 'ashr'):
        return 'I', Engine.binop(_BIN, st, n, a[1], b[1], 64)
    if n in ('lt', 'gt', 'le', 'ge'):
        if a[0] == 'I' and b[0] == 'I':
            return 'B', Engine.icmp(_BIN, st, 's' + n, a[1], b[1], 64)
        x, y = tofloat(a), tofloat(b)
        if n in ('gt', 'ge'):
            x, y = y, x
        k = {'lt': 'olt', 'gt': 'olt', 'le': 'ole', 'ge': 'ole'}[n]
        return 'B', Cond('atom', op('f' + k, 1, x, y, lo=0, hi=1).t[0][0])
    if n in ('eq', 'ne'):
        if a[0] == b[0] == 'I':
            c = E.mk_eq(add(a[1], b[1], -1), n == 'ne')
            return 'B', c
        if a[0] == b[0] == 'F':
            x, y = a[1], b[1]
            if x.t[0][0].id > y.t[0][0].id:
                x, y = y, x
            return 'B', Cond('atom', op('foeq', 1, x, y, lo=0, hi=1).t[0][0], n == 'ne')
        return 'B', int(n == 'ne')
    raise KeyError(o)


def same_bool(st, v, cond):
    """stored byte v is 1 exactly when cond holds (decided in both refinements of the path)"""
    if isinstance(cond, int):
        return type(v) is int and (v & 255) == cond
    for val in (True, False):
        s = st.clone()
        for s2 in s.assume(cond, val):
            if not bool_is(s2, v, val):
                return False
    return True


def bool_is(st, v, val):
    if type(v) is int:
        return (v & 255) == int(val)
    if isinstance(v, Lin):
        a = v.atom()
        if a is not None and a.kind == 'op' and a.lo == 0 and a.hi == 1:
            if st.decide(E.mk_eq(v, True)) is val:
                return True
        lo, hi = st.interval(v)
        if lo == hi:
            return lo == int(val)
        if a is not None:
            d = st.decide(Cond('atom', a))
            if d is not None:
                return d is val
        if a is not None and a.kind == 'op' and a.args[0] in ('ext', 'trunc', 'zext'):
            return bool_is(st, a.args[1], val)
    return False


def truth(st, v):
    """truth of an opaque boolean along the path, None when it was never asked for"""
    if type(v) is int:
        return bool(v)
    a = v.atom()
    d = st.decide(Cond('atom', a))
    if d is not None:
        return d
    lo, hi = st.interval(v)
    if lo == hi:
        return bool(lo)
    return None


# ------------------------------------------------------------------ control flow reference
class Ref(Exception):
    pass


def ref_trace(ast, truths, limit):
    """trace of evaluated leaf names of a control structure; truths: iterator of branch decisions.
    -> (trace, how) with how in end/break/continue/return/more"""
    tr = []
    it = iter(truths)

    def ev(x):
        if len(tr) >= limit:
            raise Ref()
        tr.append(x)

    def cond(x):
        ev(x)
        try:
            return next(it)
        except StopIteration:
            raise Ref()

    def run(n):
        k = n[0]
        if k == 's':
            ev(n[1])
            return 'end'
        if k == 'block':
            for x in n[1:]:
                r = run(x)
                if r != 'end':
                    return r
            return 'end'
        if k == 'if':
            if cond(n[1]):
                return run(n[2])
            if len(n) > 3 and n[3]:
                return run(n[3])
            return 'end'
        if k == 'while':
            while True:
                if not cond(n[1]):
                    return 'end'
                r = run(n[2])
                if r == 'break':
                    return 'end'
                if r == 'return':
                    return r
        if k == 'for':
            run(n[1])
            while True:
                if not cond(n[2]):
                    return 'end'
                r = run(n[4])
                if r == 'break':
                    return 'end'
                if r == 'return':
                    return r
                run(n[3])
        if k in ('break', 'continue', 'return'):
            return k
        if k == 'return_value':
            ev(n[1])
            return 'return'
        if k == 'use' or k == 'const':
            return 'end'
        raise KeyError(k)
    try:
        return tr, run(ast)
    except Ref:
        return tr, 'more'


def build_ctl(g, ast):
    """tree of a control structure with opaque leaves"""
    k = ast[0]
    if k == 's':
        return g.child(ast[1], 'stmt')
    if k == 'block':
        return g.node('BLOCK', blockHead=g.chain([build_ctl(g, x) for x in ast[1:]]))
    if k == 'if':
        return g.node('IF', ifx__cond=g.child(ast[1]), ifx__body=build_ctl(g, ast[2]),
                      ifx__alt=build_ctl(g, ast[3]) if len(ast) > 3 and ast[3] else 0)
    if k == 'while':
        return g.node('WHILE', whilex__cond=g.child(ast[1]), whilex__body=build_ctl(g, ast[2]))
    if k == 'for':
        return g.node('FOR', forx__init=build_ctl(g, ast[1]), forx__cond=g.child(ast[2]),
                      forx__step=build_ctl(g, ast[3]), forx__body=build_ctl(g, ast[4]))
    if k == 'break':
        return g.node('BREAK')
    if k == 'continue':
        return g.node('CONTINUE')
    if k == 'return':
        return g.node('RETURN', retExpr=0)
    if k == 'return_value':
        return g.node('RETURN', retExpr=g.child(ast[1]))
    if k == 'use':
        return g.node('USE')
    raise KeyError(k)


S = lambda n: ('s', n)
IFB = ('if', 'd', ('break',))
IFC = ('if', 'd', ('continue',))
CONTROL = {
    'block of 0': ('block',),
    'block of 1': ('block', S('a')),
    'block of 3': ('block', S('a'), S('b'), S('e')),
    'if': ('if', 'c', S('a')),
    'if-else': ('if', 'c', S('a'), S('b')),
    'if with empty block': ('if', 'c', ('block',)),
    'if-else if-else': ('if', 'c', S('a'), ('if', 'd', S('b'), S('e'))),
    'if in if-else': ('if', 'c', ('if', 'd', S('a')), S('b')),
    'statement after if': ('block', ('if', 'c', S('a')), S('b')),
    'statement after if-else': ('block', ('if', 'c', S('a'), S('b')), S('e')),
    'while': ('while', 'c', S('a')),
    'while with empty block': ('while', 'c', ('block',)),
    'while block': ('while', 'c', ('block', S('a'), S('b'))),
    'statement after while': ('block', ('while', 'c', S('a')), S('b')),
    'while break': ('block', ('while', 'c', ('block', S('a'), ('break',), S('b'))), S('z')),
    'while bare break': ('block', ('while', 'c', ('break',)), S('z')),
    'while bare continue': ('block', ('while', 'c', ('continue',)), S('z')),
    'while if break': ('block', ('while', 'c', ('block', S('a'), IFB, S('b'))), S('z')),
    'while if continue': ('block', ('while', 'c', ('block', S('a'), IFC, S('b'))), S('z')),
    'while if-else break': ('block', ('while', 'c', ('block', ('if', 'd', S('a'), ('break',)), S('b'))), S('z')),
    'while if-else continue': ('block', ('while', 'c', ('block', ('if', 'd', S('a'), ('continue',)), S('b'))), S('z')),
    'while if break else continue': ('block', ('while', 'c', ('block', ('if', 'd', ('break',), ('continue',)), S('b'))),
                                     S('z')),
    'while nested block break': ('block', ('while', 'c', ('block', ('block', ('if', 'd', ('block', S('a'), ('break',)))),
                                                          S('b'))), S('z')),
    'while two breaks': ('block', ('while', 'c', ('block', IFB, S('a'), ('if', 'e', ('break',)), S('b'))), S('z')),
    'while break and continue': ('block', ('while', 'c', ('block', IFC, S('a'), ('if', 'e', ('break',)), S('b'))),
                                 S('z')),
    'for': ('for', S('i'), 'c', S('p'), S('a')),
    'for with empty block': ('for', S('i'), 'c', S('p'), ('block',)),
    'statement after for': ('block', ('for', S('i'), 'c', S('p'), S('a')), S('z')),
    'for break': ('block', ('for', S('i'), 'c', S('p'), ('block', S('a'), IFB, S('b'))), S('z')),
    'for continue': ('block', ('for', S('i'), 'c', S('p'), ('block', S('a'), IFC, S('b'))), S('z')),
    'for bare continue': ('block', ('for', S('i'), 'c', S('p'), ('continue',)), S('z')),
    'for else break': ('block', ('for', S('i'), 'c', S('p'), ('block', ('if', 'd', S('a'), ('break',)), S('b'))), S('z')),
    'for else-if continue': ('block', ('for', S('i'), 'c', S('p'),
                                       ('block', ('if', 'd', S('a'), ('if', 'e', ('continue',))), S('b'))), S('z')),
    'while in while, inner break': ('block', ('while', 'c', ('block', ('while', 'd', ('block', S('a'), ('break',))),
                                                             S('b'))), S('z')),
    'while in while, outer break': ('block', ('while', 'c', ('block', ('while', 'd', S('a')), ('if', 'e', ('break',)),
                                                             S('b'))), S('z')),
    'while in while, break in both': ('block', ('while', 'c', ('block', ('while', 'd', ('block', ('if', 'e', ('break',)),
                                                                                        S('a'))),
                                                               ('if', 'f', ('break',)), S('b'))), S('z')),
    'for in while, inner continue': ('block', ('while', 'c', ('block', ('for', S('i'), 'd', S('p'),
                                                                        ('block', ('if', 'e', ('continue',)), S('a'))),
                                                              S('b'))), S('z')),
    'while in for, outer continue': ('block', ('for', S('i'), 'c', S('p'),
                                               ('block', ('while', 'd', S('a')), ('if', 'e', ('continue',)), S('b'))),
                                     S('z')),
    'return in while': ('block', ('while', 'c', ('block', ('if', 'd', ('return',)), S('a'))), S('z')),
    'return value in if': ('block', ('if', 'c', ('return_value', 'v')), S('z')),
    'return value in else': ('block', ('if', 'c', S('a'), ('return_value', 'v')), S('z')),
    'return in for': ('block', ('for', S('i'), 'c', S('p'), ('block', ('if', 'd', ('return_value', 'v')), S('a'))), S('z')),
    'use between statements': ('block', S('a'), ('use',), S('b')),
}


def fold(f, n, x):
    for k in reversed(range(n)):
        x = f(k, x)
    return x


def cat(*parts):
    return ('block',) + tuple(x for p in parts for x in p)


# the same at sizes no table or limit of the compiler is meant to notice; a condition named ..once.. is
# true the first time it is evaluated and false the next, so that the paths stay few
MANY = {
    'else-if chain of 150': fold(lambda k, x: ('if', 'c%d' % k, S('a%d' % k), x), 150, S('z')),
    'if nested 60 deep': ('block', fold(lambda k, x: ('if', 'c%d' % k, ('block', x, S('b%d' % k))), 60, S('a')), S('z')),
    'if-else nested in the else 20 deep': fold(lambda k, x: ('if', 'c%d' % k, ('block', S('a%d' % k)), ('block', S('b%d' % k), x)),
                                               20, S('z')),
    'block of 300': cat([S('a%d' % k) for k in range(300)]),
    '30 blocks in each other': fold(lambda k, x: ('block', S('a%d' % k), x, S('b%d' % k)), 30, S('m')),
    '200 ifs in a row': cat([('if', 'konce%d' % k, S('a%d' % k)) for k in range(200)], [S('z')]),
    '200 whiles in a row': cat([('while', 'konce%d' % k, S('a%d' % k)) for k in range(200)], [S('z')]),
    'while with 150 breaks': cat([('while', 'konce', cat(*[[('if', 'd%d' % k, ('break',)), S('a%d' % k)] for k in range(150)]))],
                                [S('z')]),
    'while with 150 continues': cat([('while', 'konce', cat(*[[('if', 'd%d' % k, ('continue',)), S('a%d' % k)]
                                                            for k in range(150)]))], [S('z')]),
    'for with 150 breaks and continues': cat([('for', S('i'), 'konce', S('p'),
                                              cat(*[[('if', 'd%d' % k, ('continue',) if k % 2 else ('break',)), S('a%d' % k)]
                                                    for k in range(150)]))], [S('z')]),
    'while nested 40 deep, break in each': cat([fold(lambda k, x: ('while', 'konce%d' % k, ('block', ('if', 'd%d' % k, ('break',)), x,
                                                                                          S('a%d' % k))), 40, S('m'))], [S('z')]),
    'while nested 40 deep, continue in each': cat([fold(lambda k, x: ('while', 'konce%d' % k,
                                                                     ('block', ('if', 'd%d' % k, ('continue',)), x,
                                                                      S('a%d' % k))), 40, S('m'))], [S('z')]),
    'for nested 40 deep, break in each': cat([fold(lambda k, x: ('for', S('i%d' % k), 'konce%d' % k, S('p%d' % k),
                                                                ('block', ('if', 'd%d' % k, ('break',)), x, S('a%d' % k))),
                                                  40, S('m'))], [S('z')]),
    'break after 20 loops in the loop': cat([('while', 'konce', cat([('while', 'lonce%d' % k, ('block', S('a%d' % k), ('break',)))
                                                                    for k in range(20)], [('if', 'd', ('break',)), S('b')]))],
                                            [S('z')]),
    'continue after 20 loops in the loop': cat([('for', S('i'), 'konce', S('p'),
                                                 cat([('while', 'lonce%d' % k, ('block', S('a%d' % k), ('continue',)))
                                                      for k in range(20)], [('if', 'd', ('continue',)), S('b')]))], [S('z')]),
    'break under 60 ifs': cat([('while', 'konce', ('block', fold(lambda k, x: ('if', 'd%d' % k, ('block', x)), 60, ('break',)), S('b')))],
                              [S('z')]),
    'break at the end of an else-if chain of 20': cat([('while', 'konce', ('block', fold(
        lambda k, x: ('if', 'd%d' % k, S('a%d' % k), x), 20, ('break',)), S('b')))], [S('z')]),
    'return under 10 loops': cat([fold(lambda k, x: ('while', 'konce%d' % k, ('block', x, S('a%d' % k))), 10,
                                       ('if', 'd', ('return_value', 'v')))], [S('z')]),
}


# ------------------------------------------------------------------ expressions
class Ex:
    """one scenario: build(g) -> root, fn, check(g, sim paths)"""

    def __init__(self, name, build, kind='expr'):
        self.name = name
        self.build = build
        self.kind = kind


def tv(g, k):
    return {'I': g.VT['INT'], 'F': g.VT['FLOAT'], 'B': g.VT['BOOL'], 'N': g.VT['NULL'], 'S': g.VT['STRUCT'],
            'C': g.VT['CONST_STRING']}[k]


TAGNAME = {'I': 'INT', 'F': 'FLOAT', 'B': 'BOOL'}


def opaque(g, name, k, tag=True):
    """opaque expression of static type k which is not a literal"""
    return g.child(name, tag=g.prim(g.st, TAGNAME[k]) if k in TAGNAME and tag else None, type=g.EXP['ID'])


def expressions(g):
    """all scenarios: (name, setup) where setup() builds the tree in a fresh g and returns
    (root, values for the sim, expectation, evaluated names in order or None)

    expectation(sim, st) -> None if right else text"""
    out = []

    def scen(name):
        def deco(f):
            out.append((name, f))
            return f
        return deco

    @scen('null')
    def _():
        return g.node('NULL'), {}, exp_type(g, 'N'), []

    @scen('bool literal')
    def _():
        b = fresh('b', 8, 0, 1)
        return g.node('BOOL', boolean=b), {}, exp_bool(g, b), []

    for lit in ('INT', 'CHAR'):
        @scen('%s literal' % lit.lower())
        def _(lit=lit):
            v = fresh('iv', 64)
            return g.node(lit, iValue=v), {}, exp_val(g, 'I', lambda s, st: v), []

    @scen('float literal')
    def _():
        v = fresh('fv', 64)
        return g.node('FLOAT', fValue=v), {}, exp_val(g, 'F', lambda s, st: v), []

    @scen('string literal')
    def _():
        ix = fresh('sIndex', 32, 0, 1023)
        g.string_at(g.st, ix)
        return g.node('STRING', sIndex=ix), {}, exp_val(g, 'C', lambda s, st: st.load(
            add(add(g.state, g.T.off('Tiny_State', 'strings')), ix, 8), 8)), []

    @scen('global variable')
    def _():
        ix = fresh('gIndex', 32, 0, 100000)
        s = g.sym('GLOBAL', 'v', var__index=ix)
        return (g.node('ID', id__sym=s, id__name=g.strnode('v')), {}, exp_mem(g, lambda sim: add(sim.globals, ix, 16)), [])

    @scen('local variable')
    def _():
        ix = fresh('lIndex', 32, 0, 254)
        s = g.sym('LOCAL', 'v', var__index=ix)
        return (g.node('ID', id__sym=s, id__name=g.strnode('v')), {},
                exp_mem(g, lambda sim: sim.slot(add(sim.fp, ix))), [])

    @scen('parameter')
    def _():
        ix = fresh('aIndex', 32, -16, -1)
        s = g.sym('LOCAL', 'v', var__index=ix)
        return (g.node('ID', id__sym=s, id__name=g.strnode('v')), {},
                exp_mem(g, lambda sim: sim.slot(add(sim.fp, ix))), [])

    for k, tag, f in (('I', 'INT', 'constant.iValue'), ('F', 'FLOAT', 'constant.fValue'), ('B', 'BOOL', 'constant.bValue')):
        @scen('%s constant' % tag.lower())
        def _(k=k, tag=tag, f=f):
            v = fresh('cv', 8, 0, 1) if k == 'B' else fresh('cv', 64)
            s = g.sym('CONST', 'K', constant__tag=g.prim(g.st, tag))
            g.T.set(g.st, s, 'Tiny_Symbol', f, v)
            return (g.node('ID', id__sym=s, id__name=g.strnode('K')), {},
                    exp_bool(g, v) if k == 'B' else exp_val(g, k, lambda sm, st: v), [])

    @scen('string constant')
    def _():
        ix = fresh('csIndex', 32, 0, 1023)
        g.string_at(g.st, ix)
        s = g.sym('CONST', 'K', constant__tag=g.prim(g.st, 'STR'), constant__sIndex=ix)
        return (g.node('ID', id__sym=s, id__name=g.strnode('K')), {}, exp_val(g, 'C', lambda sm, st: st.load(
            add(add(g.state, g.T.off('Tiny_State', 'strings')), ix, 8), 8)), [])

    for w in ('PAREN', 'CAST'):
        @scen('%s' % w.lower())
        def _(w=w):
            c = g.child('X')
            n = g.node('PAREN', paren=c) if w == 'PAREN' else g.node('CAST', cast__value=c, cast__tag=g.prim(g.st, 'INT'),
                                                                     tag=g.prim(g.st, 'INT'))
            v = fresh('x', 64)
            t = fresh('xt', 8, 0, 8)
            return n, {'X': (t, v)}, exp_pair(g, lambda sm, st: (t, v)), ['X']

    for nf, kin in ((1, 'plain'), (3, 'plain'), (17, 'plain'), (70, 'plain'), (255, 'plain')) + tuple((3, x) for x in KIN):
        for k in range(nf) if nf < 20 else (0, 1, nf // 2, nf - 2, nf - 1):
            @scen('field %d of %d%s' % (k, nf, '' if kin == 'plain' else ', %s names' % kin))
            def _(nf=nf, k=k, kin=kin):
                names = KIN.get(kin) or ['f%d' % j for j in range(nf)]
                sn = g.struct('P', names)
                c = g.child('X', tag=sn)
                o = heap_struct(g, 'object', nf)
                fp = add(add(o, g.T.off('Tiny_Object', 'ostruct.fields')), 16 * k)
                return (g.node('DOT', dot__lhs=c, dot__field=g.strnode(names[k])), {'X': (tv(g, 'S'), o)},
                        exp_mem(g, lambda sm: fp), ['X'])

    ORDERS = ((0, 1, 2), (2, 0, 1), (1, 2, 0), (0, 2, 1), (1, 0, 2), (2, 1, 0))
    LONG = tuple((False, None, n) for n in (1, 10, 33, 60)) + tuple(
        (True, o, n) for n in (10, 33, 60) for o in (tuple(reversed(range(n))), tuple(range(1, n)) + (0,),
                                                     tuple(range(0, n, 2)) + tuple(range(1, n, 2))))
    for named, order, kin in ((False, None, 'plain'),) + tuple((True, o, 'plain') for o in ORDERS) + tuple(
            (True, o, x) for x in KIN for o in ORDERS) + LONG:
        @scen('constructor %s' % ('positional%s' % ('' if kin == 'plain' else ' of %s' % kin) if not named else 'named %s%s' % (
            str(order)[:30], '' if kin == 'plain' else ', %s fields' % kin if type(kin) is int else ', %s names' % kin)))
        def _(named=named, order=order, kin=kin):
            fields = KIN.get(kin) or ['fa', 'fb', 'fc']
            if type(kin) is int:
                fields = ['f%d' % j for j in range(kin)]
                g.nonempty = True
            nf = len(fields)
            sn = g.struct('P', fields)
            order = order or tuple(range(nf))
            kids = [g.child('A%d' % j) for j in order]
            names = 0
            if named:
                for j in reversed(order):
                    names = g.strnode(fields[j], names)
            n = g.node('CONSTRUCTOR', constructor__structTag=sn, constructor__argNamesHead=names,
                       constructor__argsHead=g.chain(kids))
            vals = {'A%d' % j: (fresh('t%d' % j, 8, 0, 8), fresh('v%d' % j, 64)) for j in range(nf)}

            def check(sm, st):
                t, p = top(sm, st)
                if t != tv(g, 'S'):
                    return 'does not leave a struct'
                if type(p) is not Lin:
                    return 'does not leave an object'
                T = g.T
                if T.get(st, p, 'Tiny_Object', 'ostruct.n') != nf:
                    return 'records %r fields instead of %d' % (T.get(st, p, 'Tiny_Object', 'ostruct.n'), nf)
                for j in range(nf):
                    q = add(p, T.off('Tiny_Object', 'ostruct.fields') + 16 * j)
                    got = (st.load(q, 1, sm.toff), st.load(q, 8, sm.voff))
                    if got != vals['A%d' % j]:
                        return 'field %d holds %r instead of the argument given for it' % (j, got)
                return None
            return n, vals, check, None

    FORMS = {'opaque': 'IF', 'INT': 'I', 'CHAR': 'I', 'FLOAT': 'F'}
    for o in BINOPS:
        for fl in FORMS:
            for fr in FORMS:
                if fl == 'CHAR' and fr != 'opaque' or fr == 'CHAR' and fl != 'opaque':
                    continue
                for ka in FORMS[fl]:
                    for kb in FORMS[fr]:
                        if o in INTONLY and (ka, kb) != ('I', 'I'):
                            continue
                        if o in ('EQUALS', 'NOTEQUALS') and ka != kb:
                            continue

                        @scen('%s on %s%s%s%s' % (o, ka, kb, '' if fl == 'opaque' else ', left %s literal' % fl.lower(),
                                                  '' if fr == 'opaque' else ', right %s literal' % fr.lower()))
                        def _(o=o, ka=ka, kb=kb, fl=fl, fr=fr):
                            vals, order, kid, val = {}, [], {}, {}
                            for nm, k, f in (('L', ka, fl), ('R', kb, fr)):
                                v = val[nm] = fresh(nm.lower(), 64)
                                if f == 'opaque':
                                    kid[nm] = opaque(g, nm, k)
                                    vals[nm] = (tv(g, k), v)
                                    order.append(nm)
                                elif f == 'FLOAT':
                                    kid[nm] = g.node(f, fValue=v, tag=g.prim(g.st, 'FLOAT'))
                                else:
                                    kid[nm] = g.node(f, iValue=v, tag=g.prim(g.st, 'INT'))
                            n = g.node('BINARY', binary__lhs=kid['L'], binary__rhs=kid['R'], binary__op=g.TOK[o],
                                       tag=g.prim(g.st, 'BOOL' if BINOPS[o] in ('lt', 'gt', 'le', 'ge', 'eq', 'ne') else
                                                  'FLOAT' if 'F' in (ka, kb) else 'INT'))
                            return n, vals, exp_binop(g, o, (ka, val['L']), (kb, val['R'])), order

    for o in ('LOG_AND', 'LOG_OR'):
        for fl in ('opaque', 'BOOL'):
            for fr in ('opaque', 'BOOL'):
                @scen('%s%s%s' % (o, '' if fl == 'opaque' else ', left literal', '' if fr == 'opaque' else ', right literal'))
                def _(o=o, fl=fl, fr=fr):
                    vals, kid, val = {}, {}, {}
                    for nm, f in (('L', fl), ('R', fr)):
                        v = val[nm] = fresh(nm.lower(), 8, 0, 1)
                        if f == 'opaque':
                            kid[nm] = opaque(g, nm, 'B')
                            vals[nm] = (tv(g, 'B'), v)
                        else:
                            kid[nm] = g.node('BOOL', boolean=v, tag=g.prim(g.st, 'BOOL'))
                    n = g.node('BINARY', binary__lhs=kid['L'], binary__rhs=kid['R'], binary__op=g.TOK[o],
                               tag=g.prim(g.st, 'BOOL'))
                    stop = o == 'LOG_OR'      # the left value which decides the result

                    def check(sm, st):
                        ev = [t[1] for t in st.x.get('trace', ()) if t[0] == 'eval']
                        l, r = (st.decide(E.Cond('eq', val[x], True)) for x in 'LR')
                        t, _ = top(sm, st)
                        if t != tv(g, 'B'):
                            return 'does not leave a bool'
                        got = topbyte(sm, st)
                        if l is None and fl == 'opaque':
                            return 'does not look at its left operand'
                        if l is stop:
                            want, order = int(stop), ['L'] if fl == 'opaque' else []
                        else:
                            want, order = val['R'], ([x for x, f in (('L', fl), ('R', fr)) if f == 'opaque'])
                        if ev != order:
                            return 'evaluates %s when its left operand is %s' % (ev, l)
                        if type(want) is int:
                            good = bool_is(st, got, bool(want))
                        else:
                            good = got == want or (r is not None and bool_is(st, got, r))
                        if not good:
                            return 'leaves %r instead of %r when its left operand is %s' % (got, want, l)
                        return None
                    return n, vals, check, None

    for fc in ('opaque', 'BOOL'):
        @scen('conditional expression%s' % ('' if fc == 'opaque' else ' on a literal'))
        def _(fc=fc):
            c = fresh('c', 8, 0, 1)
            kid = opaque(g, 'C', 'B') if fc == 'opaque' else g.node('BOOL', boolean=c, tag=g.prim(g.st, 'BOOL'))
            x, y = [(fresh('t' + n, 8, 0, 8), fresh('v' + n, 64)) for n in 'XY']
            n = g.node('IF_TERNARY', ifx__cond=kid, ifx__body=g.child('X'), ifx__alt=g.child('Y'))
            vals = {'X': x, 'Y': y}
            if fc == 'opaque':
                vals['C'] = (tv(g, 'B'), c)

            def check(sm, st):
                ev = [t[1] for t in st.x.get('trace', ()) if t[0] == 'eval']
                b = st.decide(E.Cond('eq', c, True))
                if b is None:
                    return 'does not look at its condition'
                want = (['C'] if fc == 'opaque' else []) + (['X'] if b else ['Y'])
                if ev != want:
                    return 'evaluates %s when its condition is %s' % (ev, b)
                if top(sm, st) != (x if b else y):
                    return 'leaves %r when its condition is %s' % (top(sm, st), b)
                return None
            return n, vals, check, None

    for o in ('EQUALS', 'NOTEQUALS'):
        @scen('%s on BB' % o)
        def _(o=o):
            a, b = fresh('a', 8, 0, 1), fresh('b', 8, 0, 1)
            n = g.node('BINARY', binary__lhs=opaque(g, 'L', 'B'), binary__rhs=opaque(g, 'R', 'B'), binary__op=g.TOK[o])

            def check(sm, st):
                t, p = top(sm, st)
                if t != tv(g, 'B'):
                    return 'does not leave a bool'
                if not same_bool(st, topbyte(sm, st), E.mk_eq(add(a, b, -1), o == 'NOTEQUALS')):
                    return 'leaves %r' % (topbyte(sm, st),)
                return None
            return n, {'L': (tv(g, 'B'), a), 'R': (tv(g, 'B'), b)}, check, ['L', 'R']

    for k in ('I', 'F'):
        @scen('negation of %s' % k)
        def _(k=k):
            a = fresh('a', 64)
            n = g.node('UNARY', unary__op=g.TOK['MINUS'], unary__exp=opaque(g, 'X', k))

            def check(sm, st):
                t, p = top(sm, st)
                if k == 'I':
                    if t != tv(g, 'I') or p != mul(a, -1):
                        return 'leaves (%r, %r) instead of -a' % (t, p)
                else:
                    okv = [op('fmul', 64, a, E.fconst(-1.0)), op('fmul', 64, E.fconst(-1.0), a), op('fneg', 64, a)]
                    if t != tv(g, 'F') or p not in okv:
                        return 'leaves (%r, %r) instead of -a' % (t, p)
                return None
            return n, {'X': (tv(g, k), a)}, check, ['X']

    @scen('negation of int literal')
    def _():
        a = fresh('a', 64)
        n = g.node('UNARY', unary__op=g.TOK['MINUS'], unary__exp=g.node('INT', iValue=a, tag=g.prim(g.st, 'INT')))
        return n, {}, exp_val(g, 'I', lambda sm, st: mul(a, -1)), []

    for k, lit in (('I', 'CHAR'), ('F', 'FLOAT')):
        @scen('negation of %s literal' % lit.lower())
        def _(k=k, lit=lit):
            a = fresh('a', 64)
            x = g.node(lit, tag=g.prim(g.st, TAGNAME[k]), **{'fValue' if k == 'F' else 'iValue': a})
            n = g.node('UNARY', unary__op=g.TOK['MINUS'], unary__exp=x)

            def check(sm, st):
                t, p = top(sm, st)
                c = st.const_of(a)
                okv = [mul(a, -1), -c if c is not None else None] if k == 'I' else \
                    [op('fmul', 64, a, E.fconst(-1.0)), op('fmul', 64, E.fconst(-1.0), a), op('fneg', 64, a)]
                if t != tv(g, k) or p not in okv:
                    return 'leaves (%r, %r) instead of -a' % (t, p)
                return None
            return n, {}, check, []

    @scen('logical not')
    def _():
        a = fresh('a', 8, 0, 1)
        n = g.node('UNARY', unary__op=g.TOK['BANG'], unary__exp=opaque(g, 'X', 'B'))

        def check(sm, st):
            t, p = top(sm, st)
            if t != tv(g, 'B') or not same_bool(st, topbyte(sm, st), Cond('eq', a)):
                return 'leaves (%r, %r)' % (t, p)
            return None
        return n, {'X': (tv(g, 'B'), a)}, check, ['X']

    for foreign in (True, False):
        for idx in ('get',):
            @scen('index expression (%s accessor)' % ('foreign' if foreign else 'script'))
            def _(foreign=foreign):
                fn = g.function('arr_get_index', 2, foreign)
                n = g.node('INDEX', index__arr=g.child('X'), index__elem=g.child('Y'), index__getIndexFunc=fn,
                           index__setIndexFunc=0)
                vals, check = call_expect(g, fn, foreign, ['X', 'Y'], True)
                return n, vals, check, ['X', 'Y']
        for na in (0, 1, 2, 3, 9, 17, 33, 60):
            @scen('call of a %s function with %d arguments' % ('foreign' if foreign else 'script', na))
            def _(foreign=foreign, na=na):
                g.nonempty = na > 4
                fn = g.function('fn', na, foreign)
                g.syms.append(fn)
                names = ['A%d' % j for j in range(na)]
                n = g.node('CALL', call__calleeName=g.strnode('fn'), call__argsHead=g.chain([g.child(x) for x in names]))
                vals, check = call_expect(g, fn, foreign, names, True)
                return n, vals, check, names

    for na in (3, 17, 33, 60):
        @scen('call of a variadic function' + (' with %d arguments' % na if na > 3 else ''))
        def _(na=na):
            g.nonempty = na > 4
            fn = g.function('fn', 1, True, varargs=1)
            g.syms.append(fn)
            names = ['A%d' % j for j in range(na)]
            n = g.node('CALL', call__calleeName=g.strnode('fn'), call__argsHead=g.chain([g.child(x) for x in names]))
            vals, check = call_expect(g, fn, True, names, True)
            return n, vals, check, names
    return out


def heap_struct(g, name, n):
    o = g.T.obj(g.st, 'Tiny_Object', name, 'init')
    g.T.set(g.st, o, 'Tiny_Object', 'type', g.VT['STRUCT'])
    g.T.set(g.st, o, 'Tiny_Object', 'ostruct.n', n)
    return o


def top(sm, st):
    sp = sm.g.T.get(st, sm.thread, 'Tiny_StateThread', 'sp')
    return sm.read_val(st, add(sp, -1))


def topbyte(sm, st):
    sp = sm.g.T.get(st, sm.thread, 'Tiny_StateThread', 'sp')
    return st.load(sm.slot(add(sp, -1)), 1, sm.voff)


def exp_type(g, k):
    def f(sm, st):
        t, p = top(sm, st)
        return None if t == tv(g, k) else 'leaves a value of type %r' % (t,)
    return f


def exp_bool(g, b):
    def f(sm, st):
        t, _ = top(sm, st)
        v = topbyte(sm, st)
        if t != tv(g, 'B'):
            return 'leaves a value of type %r' % (t,)
        if v == b:
            return None
        k = st.const_of(b)
        if k is not None and type(v) is int and (v & 255) == k:
            return None
        return 'leaves %r instead of %r' % (v, b)
    return f


def exp_val(g, k, val):
    def f(sm, st):
        t, p = top(sm, st)
        v = val(sm, st)
        if t != tv(g, k):
            return 'leaves a value of type %r instead of %r' % (t, tv(g, k))
        if p == v:
            return None
        c = st.const_of(v)
        if c is not None and p == c:
            return None
        return 'leaves %r instead of %r' % (p, v)
    return f


def exp_pair(g, val):
    def f(sm, st):
        got = top(sm, st)
        want = val(sm, st)
        return None if got == want else 'leaves %r instead of %r' % (got, want)
    return f


def exp_mem(g, ptr):
    """the value read is the one stored at ptr when the construct began"""
    def f(sm, st):
        p = ptr(sm)
        want = (sm.st0.load(p, 1, sm.toff), sm.st0.load(p, 8, sm.voff))
        got = top(sm, st)
        return None if got == want else 'leaves %r instead of %r' % (got, want)
    return f


def val_ok(g, st, t, p, pb, k, v):
    """does (t, p) hold value v of kind k"""
    if k == 'B':
        return t == tv(g, 'B') and same_bool(st, pb, v)
    if t != tv(g, k):
        return False
    if p == v:
        return True
    return st.const_of(v) is not None and st.const_of(v) == st.const_of(p)


def known(st, v):
    """the ways to write a value: as it is, and as the constant it is known to be on this path"""
    c = st.const_of(v)
    return [v] if c is None or c is v else [v, c]


def exp_binop(g, o, a, b):
    def f(sm, st):
        # a literal operand may be known on this path
        wants = [apply_binop(st, o, (a[0], x), (b[0], y)) for x in known(st, a[1]) for y in known(st, b[1])]
        t, p = top(sm, st)
        pb = topbyte(sm, st)
        for k, v in wants:
            if val_ok(g, st, t, p, pb, k, v):
                return None
        return 'leaves (type %r) %r instead of %r' % (t, pb if wants[0][0] == 'B' else p, wants[0][1])
    return f


def call_expect(g, fn, foreign, names, push):
    vals = {n: (fresh('t_' + n, 8, 0, 8), fresh('v_' + n, 64)) for n in names}

    def check(sm, st):
        calls = [t for t in st.x.get('trace', ()) if t[0] == 'call']
        if len(calls) != 1:
            return 'makes %d calls' % len(calls)
        r = call_is(sm, calls[0], fn, [vals[n] for n in names])
        if r:
            return r
        if push:
            got = top(sm, st)
            want = calls[0][4]
            if got[0] != want[0] or got[1] != want[1]:
                return 'leaves %r instead of the result of the call %r' % (got, want)
        return None
    return vals, check


def call_is(sm, c, fn, args):
    """is trace event c a call of the function symbol fn with these values?"""
    g = sm.g
    foreign = g.T.get(sm.st0, fn, 'Tiny_Symbol', 'type') == g.SYM['FOREIGN_FUNCTION']
    ix = fn.t[0][0].meta['index']
    if c[5]:
        return c[5]
    if foreign:
        want = sm.st0.load(add(g.T.get(sm.st0, g.state, 'Tiny_State', 'foreignFunctions'), ix, 8), 8)
        if c[1] != 'foreign' or c[2] != want:
            return 'calls %r instead of %r' % (c[2], want)
    elif c[1] != 'script' or c[2] != ix:
        return 'calls function %r instead of %r' % (c[2], ix)
    if len(c[3]) != len(args):
        return 'passes %d arguments instead of %d' % (len(c[3]), len(args))
    for j, (x, y) in enumerate(zip(c[3], args)):
        if x != y:
            return 'argument %d is %r instead of %r' % (j, x, y)
    return None


def script_index(sm, st, pc):
    """index of the function whose entry point pc is, if it was read from the function table"""
    g = sm.g
    fpcs = g.T.get(sm.st0, g.state, 'Tiny_State', 'functionPcs')
    a = pc.atom() if isinstance(pc, Lin) else None
    if a is not None and a.kind == 'op' and a.args[0] in ('zext',):
        a = a.args[1].atom()
    if a is None or a.kind != 'init':
        return None
    key, o = a.args
    rest = add(E.lin(key, o), fpcs, -1)
    if any(x.kind == 'obj' and A(x) is fpcs.t[0][0].lin for x, k in key):
        return E.Engine.binop(_BIN, st, 'sdiv', rest, 4, 64)
    return None


def run_sim(g, em, vals, max_events=8, prepare=None, on_pc=None, max_ins=60, rettype=None, on_eval=None):
    """simulate emitted code; script functions are replaced by an arbitrary result.  A call is
    the trace event ('call', 'foreign'|'script', target, args, result, problem)"""
    T = g.T
    sm = Sim(g, em)

    def on_foreign(s, st, target, args, inst):
        t, p = rettype if rettype is not None else fresh('rt', 8, 0, 8), fresh('rv', 64)
        problem = None
        snap = []
        args = list(args)
        if s.thread not in args:
            problem = 'does not pass its thread'
        else:
            k = args.index(s.thread)
            argp, cnt = args[k + 1], args[k + 2]
            if type(cnt) is not int:
                problem = 'passes an unknown number of arguments (%r)' % (cnt,)
            else:
                snap = [(st.load(argp, 1, 16 * j + s.toff), st.load(argp, 8, 16 * j + s.voff)) for j in range(cnt)]
        tr = st.x.get('trace', ())
        if tr and tr[-1][0] == 'foreign':
            tr = tr[:-1]
        st.x['trace'] = tr + (('call', 'foreign', target, snap, (t, p), problem),)
        if inst.ty.k == 'struct':
            return AggV([p, t])
        return p

    def enter(s, st, pc):
        if on_pc:
            r = on_pc(s, st, pc)
            if r:
                return r
        idx = script_index(s, st, pc)
        if idx is None:
            return None
        problem = None
        fp = T.get(st, s.thread, 'Tiny_StateThread', 'fp')
        sp = T.get(st, s.thread, 'Tiny_StateThread', 'sp')
        if fp != sp:
            problem = 'the frame of the callee does not start at the top of the stack'
        base = [t for t in st.x.get('trace', ())]
        # everything pushed since the construct began and not consumed is visible as parameters;
        # how many belong to the call is what the frame records
        fc = T.get(st, s.thread, 'Tiny_StateThread', 'fc')
        fr = add(add(s.thread, T.off('Tiny_StateThread', 'frames')), add(fc, -1), T.size('Tiny_Frame'))
        n = T.get(st, fr, 'Tiny_Frame', 'nargs')
        snap = []
        if type(n) is int:
            n &= 255
            snap = [s.read_val(st, add(fp, j - n)) for j in range(n)]
        else:
            problem = 'passes an unknown number of arguments (%r)' % (n,)
        t, p = rettype if rettype is not None else fresh('rt', 8, 0, 8), fresh('rv', 64)
        st.x['trace'] = tuple(base) + (('call', 'script', idx, snap, (t, p), problem),)
        # locals of the callee, then its result
        T.set(st, s.thread, 'Tiny_StateThread', 'sp', add(sp, fresh('calleeDepth', 32, 0, 3)))
        s.push(st, t, p)
        scratch = mul(fresh('qret', 64, 1 << 21, 1 << 22), 8)
        st.store(add(g.code, scratch), 1, E.signed(g.vm.ops['RETURN_VALUE'], 8))
        T.set(st, s.thread, 'Tiny_StateThread', 'pc', scratch)
        return None
    return sm, sm.run(vals, max_events=max_events, on_foreign=on_foreign, on_pc=enter, prepare=prepare,
                      max_ins=max_ins, on_eval=on_eval)


SCALARS = ('pc', 'fp', 'sp', 'fc', 'retVal', 'gcHead', 'numObjects', 'maxNumObjects')


def changed(sm, st):
    """places that existed before the construct ran and hold something else afterwards:
    list of (key, offset, size, old, new).  The machine's own registers, stack slots above the
    old top and unused frames do not count."""
    g, T = sm.g, sm.g.T
    free = set()
    for f in SCALARS:
        o = T.off('Tiny_StateThread', f)
        free.update(range(o, o + T.fsize('Tiny_StateThread', f)))
    spk = sm.slot(sm.sp)
    frk = add(add(sm.thread, T.off('Tiny_StateThread', 'frames')), sm.fc, T.size('Tiny_Frame'))
    code_atom = [a for a, k in g.code.t if a.kind == 'obj'][0]
    st0 = sm.st0.clone()
    out = []
    for key, r in st.mem.items():
        objs = [a for a, k in key if a.kind == 'obj' and k == 1]
        if code_atom in objs:
            continue
        if objs and objs[0].meta and (objs[0].meta.get('fresh') or objs[0].meta.get('global')):
            continue
        r0 = sm.st0.mem.get(key)
        if r0 is r:
            continue
        for o, (size, v) in r.e.items():
            if key == sm.thread.t and o in free:
                continue
            if o >= spk.c and (key == spk.t or set(spk.t) < set(key) and
                               all(k > 0 and a.lo >= 0 for a, k in set(key) - set(spk.t))):
                continue
            if key == frk.t and o >= frk.c:
                continue
            old = st0.load(E.lin(key, o), size)
            if old != v:
                c = st.const_of(old) if isinstance(old, Lin) else old
                if c is not None and c == v:
                    continue
                out.append((key, o, size, old, v))
    return out


def balance(sm, st, delta, allow=()):
    """problem with the machine's registers and memory after the construct; allow: pointers to
    values it may change"""
    T = sm.g.T
    d = sm.info(st)
    n = add(d['sp'], sm.sp, -1)
    if n != delta:
        return 'leaves the stack %s higher instead of %d' % (n, delta)
    if d['fp'] != sm.fp or d['fc'] != sm.fc:
        return 'leaves another frame current'
    ok = {(p.t, p.c + k) for p in allow for k in range(16)}
    for key, o, size, old, v in changed(sm, st):
        if all((key, o + k) in ok for k in range(size)):
            continue
        return 'changes %r from %r to %r' % (E.lin(key, o), old, v)
    return None


class Scn:
    """a construct, the values of its opaque children, and what it must do"""

    def __init__(self, name, root, vals, check, order=None, allow=None, fn='CompileStatement', delta=0, prepare=None,
                 on_eval=None):
        self.__dict__.update(locals())


def store_targets(g):
    """assignable places: name -> (build lhs -> (node, address(sim), names evaluated by the lhs))"""
    def var(kind, lo, hi):
        def f(tag):
            ix = fresh('ix', 32, lo, hi)
            s = g.sym('GLOBAL' if kind == 'global' else 'LOCAL', 'v', var__index=ix, var__tag=tag, var__initialized=0)
            n = g.node('ID', id__sym=s, id__name=g.strnode('v'), tag=tag)
            if kind == 'global':
                return n, (lambda sm: add(sm.globals, ix, 16)), [], {}, ('sym', s)
            return n, (lambda sm: sm.slot(add(sm.fp, ix))), [], {}, ('sym', s)
        return f

    def field(k, nf=3):
        def f(tag):
            sn = g.struct('P', ['f%d' % j for j in range(nf)])
            o = heap_struct(g, 'O', nf)
            x = g.child('X', tag=sn, type=g.EXP['ID'])
            p = add(o, g.T.off('Tiny_Object', 'ostruct.fields') + 16 * k)
            n = g.node('DOT', dot__lhs=x, dot__field=g.strnode('f%d' % k), tag=tag)
            return n, (lambda sm: p), ['X'], {'X': (tv(g, 'S'), o)}, ('field', o)
        return f
    return {'a global': var('global', 0, 100000), 'a local': var('local', 0, 254), 'a parameter': var('local', -16, -1),
            'the first field': field(0), 'the last field': field(2), 'field 128 of 255': field(128, 255),
            'field 254 of 255': field(254, 255)}


def statements(g):
    out = []

    def scen(name):
        def deco(f):
            out.append((name, f))
            return f
        return deco

    def assign_scn(name, target, opn, ka, kb, form):
        def f():
            g_tag = g.prim(g.st, TAGNAME[ka])
            lhs, addr, lnames, lvals, info = store_targets(g)[target](g_tag)
            b = fresh('b', 64)
            vals = dict(lvals)
            if form == 'literal':
                rhs = g.node('INT', iValue=b, tag=g.prim(g.st, 'INT'))
            else:
                rhs = opaque(g, 'R', kb)
                vals['R'] = (tv(g, kb), b)
            n = g.node('BINARY', binary__lhs=lhs, binary__rhs=rhs, binary__op=g.TOK[opn])
            old = fresh('old', 64)

            def prepare(sm, st):
                p = addr(sm)
                for s in (sm.st0, st):
                    s.store(p, 8, old, sm.voff)
                    s.store(p, 1, tv(g, ka), sm.toff)

            def check(sm, st):
                p = addr(sm)
                got = (st.load(p, 1, sm.toff), st.load(p, 8, sm.voff))
                ys = [b] + ([st.const_of(b)] if st.const_of(b) is not None else [])
                for y in ys:
                    if opn in COMPOUND:
                        k, v = apply_binop(st, COMPOUND[opn], (ka, old), (kb, y))
                    else:
                        k, v = kb, y
                    if got[0] == tv(g, k) and (got[1] == v or st.const_of(v) is not None and
                                               st.const_of(v) == st.const_of(got[1])):
                        break
                else:
                    return 'stores (type %r) %r instead of %r' % (got[0], got[1], v)
                ev = [t[1] for t in st.x.get('trace', ()) if t[0] == 'eval']
                if form != 'literal' and ev.count('R') != 1:
                    return 'evaluates the right operand %d times' % ev.count('R')
                if opn not in COMPOUND:
                    for x in lnames:
                        if ev.count(x) != 1:
                            return 'evaluates the target %d times' % ev.count(x)
                return None
            return Scn(name, n, vals, check, None, lambda sm: [addr(sm)], prepare=prepare)
        return f

    for target in ('a global', 'a local', 'a parameter', 'the first field', 'the last field', 'field 128 of 255',
                   'field 254 of 255'):
        for opn in ('EQUAL', 'DECLARE') + tuple(COMPOUND):
            if opn == 'DECLARE' and target not in ('a global', 'a local'):
                continue
            base = COMPOUND.get(opn)
            for ka, kb in (('I', 'I'), ('F', 'F')):
                if base in INTONLY and ka != 'I':
                    continue
                for form in ('', 'literal'):
                    if form and kb != 'I':
                        continue
                    nm = '%s to %s (%s%s)' % (opn, target, ka, ' literal' if form else '')
                    out.append((nm, assign_scn(nm, target, opn, ka, kb, form)))

    for foreign in (True, False):
        for opn in ('EQUAL',) + tuple(COMPOUND):
            def f(foreign=foreign, opn=opn):
                getf = g.function('arr_get_index', 2, foreign)
                setf = g.function('arr_set_index', 3, foreign)
                lhs = g.node('INDEX', index__arr=g.child('X'), index__elem=g.child('Y'), index__getIndexFunc=getf,
                             index__setIndexFunc=setf, tag=g.prim(g.st, 'INT'))
                b = fresh('b', 64)
                x, y = (fresh('tx', 8, 0, 8), fresh('vx', 64)), (fresh('ty', 8, 0, 8), fresh('vy', 64))
                n = g.node('BINARY', binary__lhs=lhs, binary__rhs=opaque(g, 'R', 'I'), binary__op=g.TOK[opn])

                def check(sm, st):
                    calls = [t for t in st.x.get('trace', ()) if t[0] == 'call']
                    if len(calls) != (2 if opn in COMPOUND else 1):
                        return 'makes %d calls' % len(calls)
                    v = (tv(g, 'I'), b)
                    if opn in COMPOUND:
                        r = call_is(sm, calls[0], getf, [x, y])
                        if r:
                            return 'getter: ' + r
                        k, v2 = apply_binop(st, COMPOUND[opn], ('I', calls[0][4][1]), ('I', b))
                        v = (tv(g, k), v2)
                    r = call_is(sm, calls[-1], setf, [x, y, v])
                    return 'setter: ' + r if r else None
                sc = Scn('', n, {'X': x, 'Y': y, 'R': (tv(g, 'I'), b)}, check)
                # an element of an int array is an int
                sc.rettype = tv(g, 'I')
                return sc
            out.append(('%s to an element (%s accessors)' % (opn, 'foreign' if foreign else 'script'), f))

        for na in (0, 1, 2, 3, 9, 17, 33, 60):
            def f(foreign=foreign, na=na):
                g.nonempty = na > 4
                fn = g.function('fn', na, foreign)
                g.syms.append(fn)
                names = ['A%d' % j for j in range(na)]
                n = g.node('CALL', call__calleeName=g.strnode('fn'), call__argsHead=g.chain([g.child(x) for x in names]))
                vals, check = call_expect(g, fn, foreign, names, False)
                return Scn('', n, vals, check, names)
            out.append(('call statement of a %s function with %d arguments' % ('foreign' if foreign else 'script', na), f))

    for nl, nas in ((0, (0, 1, 3, 17, 33)), (1, (0, 1, 3)), (2, (0, 1, 3)), (30, (0, 1, 3, 33)), (50, (0, 10))):
        for na in nas:
            for ret in ('falls off', 'returns', 'returns a value'):
                def f(nl=nl, na=na, ret=ret):
                    return proc_scn(g, nl, na, ret)
                out.append(('function with %d locals and %d parameters which %s' % (nl, na, ret), f))
    return out


def proc_scn(g, nl, na, ret):
    T = g.T
    fi = fresh('fIndex', 32, 0, 1 << 20)
    loc = [g.sym('LOCAL', 'l%d' % j, var__index=j) for j in range(nl)]
    arg = [g.sym('LOCAL', 'a%d' % j, var__index=j - na) for j in range(na)]
    fn = g.sym('FUNCTION', 'fn', func__index=fi)
    T.set(g.st, fn, 'Tiny_Symbol', 'func.locals', g.symarray('locals', loc) if nl else 0)
    T.set(g.st, fn, 'Tiny_Symbol', 'func.args', g.symarray('args', arg) if na else 0)
    body = [g.child('S', 'stmt')]
    rv = (fresh('tr', 8, 0, 8), fresh('vr', 64))
    if ret == 'returns':
        body += [g.node('RETURN', retExpr=0), g.child('dead', 'stmt')]
    elif ret == 'returns a value':
        body += [g.node('RETURN', retExpr=g.child('V')), g.child('dead', 'stmt')]
    n = g.node('PROC', proc__decl=fn, proc__body=g.node('BLOCK', blockHead=g.chain(body)))
    avals = [(fresh('ta%d' % j, 8, 0, 8), fresh('va%d' % j, 64)) for j in range(na)]
    sc = Scn('', n, {'V': rv}, None, ['S', 'V'] if ret == 'returns a value' else ['S'])

    def prepare(sm, st):
        # a call of the function, written at some other place in the code
        sc.ret = add(mul(fresh('qcall', 64, 1 << 21, 1 << 22), 8), 0)
        dec = g.vm.decode(g.vm.ops['CALL'], 0)
        ops = dec['operands']
        cnt = [o for o, s in ops if s == 1]
        idx = [o for o, s in ops if s == 4]
        if len(cnt) != 1 or len(idx) != 1:
            raise Missing('operands of CALL')
        p = add(g.code, sc.ret)
        st.store(p, 1, E.signed(g.vm.ops['CALL'], 8))
        st.store(p, 1, na, cnt[0])
        st.store(p, 4, fi, idx[0])
        sc.after = add(sc.ret, dec['end'])
        for t, v in avals:
            sm.push(st, t, v)
        sm.thread_pc = sc.ret
        T.set(st, sm.thread, 'Tiny_StateThread', 'pc', sc.ret)
        st.x['skipped'] = False

    def on_pc(sm, st, pc):
        if pc == sc.after:
            return 'returned'
        return None

    def on_eval(sm, st, name):
        if name != 'S':
            return None
        T = g.T
        d = sm.info(st)
        fp, sp = d['fp'], d['sp']
        if add(sp, fp, -1) != nl:
            return 'runs its body with %r slots of locals instead of %d' % (add(sp, fp, -1), nl)
        if add(fp, sm.sp, -1) != na:
            return 'runs its body in a frame which is not above its arguments'
        for j in range(nl):
            if sm.read_val(st, add(fp, j))[0] != tv(g, 'N'):
                return 'local %d is not null on entry' % j
        for j in range(na):
            if sm.read_val(st, add(fp, j - na)) != avals[j]:
                return 'parameter %d is not its argument' % j
        return None

    def check(sm, st):
        r = (T.get(st, sm.thread, 'Tiny_StateThread', 'retVal.type'),
             st.load(sm.thread, 8, T.off('Tiny_StateThread', 'retVal.i')))
        if ret == 'returns a value':
            if r != rv:
                return 'returns %r instead of its value %r' % (r, rv)
        elif r[0] != tv(g, 'N'):
            return 'returns a value of type %r without having one' % (r[0],)
        return None
    sc.prepare, sc.on_pc, sc.on_eval, sc.check = prepare, on_pc, on_eval, check
    sc.final = 'returned'
    return sc
