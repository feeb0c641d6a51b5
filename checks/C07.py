"""Operands too wide for their encoding are refused, the others arrive unchanged."""
from codegen import *

LEVEL = 'other'
FLOOR = 60
RULE = ('For operand counts at and around every power-of-two encoding boundary (0,1,126..129,200,254,255 must be encoded; '
        '256,257,300,511,512,513 must be refused) and for symbolic variable, string, function and constant operands '
        'over their whole width, the bytes the compiler emits are decoded with the operand table of the execution '
        'function and the operand the machine reads must equal the compile-time quantity; every path on which they '
        'differ must end in a compile error.')

FITS = (0, 1, 2, 126, 127, 128, 129, 200, 254, 255)
OVER = (256, 257, 258, 300, 384, 511, 512, 513)


def operands(em):
    items, prob = em.decode()
    return [i for i in items if i[0] == 'ins'], prob


def signed_eq(v, n, sz):
    return type(v) is int and (v - n) % (1 << (8 * sz)) == 0


def count_of(g, em, opname, n, C, key, what, where):
    ins, prob = operands(em)
    if prob:
        C.fail(key, '%s: %s' % (what, prob), where)
        return
    mine = [i for i in ins if g.vm.names.get(i[2]) == opname]
    if len(mine) != 1:
        C.fail(key, '%s: %d %s instructions' % (what, len(mine), opname), where)
        return
    cnt = [(v, sz) for (o, sz), v in mine[0][3].items() if sz == 1]
    if len(cnt) != 1 or not signed_eq(cnt[0][0], n, 1):
        C.fail(key, '%s: the machine reads %r as the count' % (what, cnt), where)
        return
    C.ok(what)


def calls(T, C, g, residue):
    for kind in ('foreign', 'script', 'variadic', 'constructor'):
        for n in FITS + OVER:
            if kind == 'constructor' and n not in FITS:
                continue
            if kind == 'constructor' and n == 0:
                continue
            g.start(residue)
            kids = [g.child('A%d' % j) for j in range(n)]
            where = T.where('CompileExpr')
            if kind == 'constructor':
                sn = g.struct('P', ['f%d' % j for j in range(n)])
                root = g.node('CONSTRUCTOR', constructor__structTag=sn, constructor__argNamesHead=0,
                              constructor__argsHead=g.chain(kids))
                opn = 'PUSH_STRUCT'
            else:
                fn = g.function('fn', 1 if kind == 'variadic' and n else 0 if kind == 'variadic' else n,
                                foreign=kind != 'script', varargs=1 if kind == 'variadic' else 0)
                g.syms.append(fn)
                root = g.node('CALL', call__calleeName=g.strnode('fn'), call__argsHead=g.chain(kids))
                opn = 'CALL' if kind == 'script' else 'CALLF'
            g.seal()
            key = 'C07/%s/%d' % (kind, n)
            what = '%s with %d %s' % ({'constructor': 'construction'}.get(kind, 'call of a %s function' % kind), n,
                                     'fields' if kind == 'constructor' else 'arguments')
            ems = g.compile('CompileExpr', root, visits=1400)
            if n in OVER:
                if [e for e in ems if e.kind == 'ret']:
                    C.fail(key, what + ' is not refused although the count is one byte', where)
                elif any(e.kind == 'cut' for e in ems):
                    C.undecide(what)
                else:
                    C.ok(what + ' is refused')
                continue
            for e in ems:
                if e.kind == 'cut':
                    C.undecide(what)
                elif e.kind != 'ret':
                    C.fail(key, what + ' ends with %s (%s)' % (e.kind, e.r.val), T.loc(e.r.where))
                else:
                    count_of(g, e, opn, n, C, key, what, where)
        C.analysed |= g.reached


def locals_(T, C, g, residue):
    """a function with n locals reserves exactly n slots, or is refused"""
    for n in FITS + OVER:
        g.start(residue)
        fn = g.sym('FUNCTION', 'fn', func__index=3)
        T.set(g.st, fn, 'Tiny_Symbol', 'func.args', 0)
        loc = [g.sym('LOCAL', 'l%d' % j, var__index=j) for j in range(n)]
        T.set(g.st, fn, 'Tiny_Symbol', 'func.locals', g.symarray('locals', loc) if n else 0)
        root = g.node('PROC', proc__decl=fn, proc__body=g.child('B', 'stmt'))
        g.seal()
        ems = g.compile('CompileStatement', root, visits=1400)
        key, what, where = 'C07/locals/%d' % n, 'function with %d locals' % n, T.where('CompileStatement')
        if n in OVER:
            if [e for e in ems if e.kind == 'ret']:
                C.fail(key, what + ' is not refused although the machine reserves a one-byte count of slots', where)
            else:
                C.ok(what + ' is refused')
            continue
        for e in ems:
            if e.kind != 'ret':
                C.fail(key, what + ' ends with %s (%s)' % (e.kind, e.r.val), T.loc(e.r.where))
                continue
            ins, prob = operands(e)
            if prob:
                C.fail(key, '%s: %s' % (what, prob), where)
                continue
            got = 0
            pushed = True
            for i in ins:
                nm = g.vm.names.get(i[2])
                if nm == 'PUSH_NULL_N':
                    v = list(i[3].values())[0]
                    got = None if type(v) is not int else got + (v & 255)
                elif nm == 'PUSH_NULL':
                    got += 1
                if i[1] is not None and e.kids and i[1] == e.kids[0][1]:
                    break
            if got != n:
                C.fail(key, '%s: the emitted code reserves %r slots' % (what, got), where)
            else:
                C.ok(what)
    C.analysed |= g.reached


def run(T, C):
    g = Gen(T)
    g.start(0)
    # the symbolic operands: full-width terms must reach the machine unchanged
    out, stats, reached = run_all(T, groups={'literal', 'variable'})
    report(C, out, stats, reached, {'meaning', 'encode'})
    struct_decl(T, C)
    for residue in (0, 3):
        calls(T, C, g, residue)
        locals_(T, C, g, residue)


def struct_decl(T, C):
    """a struct whose field indices do not fit is refused by the parser"""
    import C09
    from parse import Parser, toks
    P = Parser(T)
    for n in (1, 127, 128, 129, 255, 256, 257):
        items = toks('struct', 'P', '{', *sum([['f%d' % i, ':', 'int'] for i in range(n)], []), '}')
        r = C09.one(P, 'ParseProgram', items, {})
        if isinstance(r, tuple):
            C.undecide(r[1])
        elif r:
            C.fail('C07/struct/%d' % n, 'a struct of %d fields: %s' % (n, r[:300]), T.where('ParseStruct'))
        else:
            C.ok('a struct of %d fields is %s' % (n, 'accepted' if n in FITS else 'refused'))
    C.analysed |= P.reached
