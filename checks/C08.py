"""The disassembler shows what the machine would execute."""
from gen import *

LEVEL = 'other'
FLOOR = 250
RULE = ('For every opcode the execution function has a transfer function for, at each of the 8 alignments of the code '
        'position, with arbitrary operand bytes: the path-sensitive analysis of the disassembler must advance the '
        'position by exactly the length the machine advances (or report the end exactly when the code ends there), '
        'print the name of that opcode, and every operand the machine reads must reach the printed text with the value '
        'the machine uses (for foreign calls the name of the function bound to that index).')


def run(T, C):
    vm = VM(T)
    T.fn('Tiny_DisasmOne')
    where = T.where('Tiny_DisasmOne')
    g = Gen(T)
    for name, opc in sorted(vm.ops.items(), key=lambda x: x[1]):
        for res in range(8):
            dec = vm.decode(opc, res)
            if dec is None:
                continue
            one(T, C, g, vm, name, opc, res, dec, where)


def flat(v, out):
    """the loads a printed value is made of"""
    if isinstance(v, Lin):
        for a, k in v.t:
            if a.kind == 'op':
                for x in a.args[1:]:
                    flat(x, out)
            else:
                out.append(a)
    elif isinstance(v, tuple):
        for x in v:
            flat(x, out)
    return out


def one(T, C, g, vm, name, opc, res, dec, where):
    g.start(res)
    st = g.st
    # a program whose bytes are arbitrary except for the opcode
    base = st.new_obj('program', 'init')
    code = add(base, 16)
    size = fresh('codesize', 32, 1, 1 << 24)
    st.store(code, 4, size, -4)
    st.store(code, 4, 1 << 30, -8)
    T.set(st, g.state, 'Tiny_State', 'program', code)
    q = fresh('q', 64, 0, 1 << 20)
    pc = add(mul(q, 8), res)
    st.store(add(code, pc), 1, E.signed(opc, 8))
    st.assume(E.mk_le(add(add(pc, 1), size, -1)), True)     # pc < size
    fs = []
    for k in range(2):
        s = g.sym(fresh('k%d' % k, 32, 0, 6), 's%d' % k, foreignFunc__index=fresh('ix%d' % k, 32, 0, 1 << 20))
        T.set(st, s, 'Tiny_Symbol', 'name', st.new_obj('name%d' % k, 'init'))
        g.syms.append(s)
        fs.append(s)
    g.seal()
    T.set(st, g.state, 'Tiny_State', 'functionPcs', st.new_obj('functionPcs', 'init'))
    ppc = st.new_obj('ppc', 'undef')
    st.store(ppc, 4, pc)
    buf = st.new_obj('buf', 'undef')
    maxlen = fresh('maxlen', 64, 4096, 1 << 30)
    prints = []

    def pr(en, s, a, i):
        s.x['out'] = s.x.get('out', ()) + (tuple(a),)
        return fresh('used', 32, 1, 200)

    def line(en, s, a, i):
        return None
    en = Engine(T.m, hooks={'snprintf': pr, 'GetFileLineForPC': line})
    en.indirect = lambda e, s, t, a, i: fresh('r', 64)
    rs = en.run('Tiny_DisasmOne', [g.state, ppc, buf, maxlen], st)
    C.analysed |= en.reached
    key = 'C08/%s/%d' % (name, res)
    what = 'disassembling %s at alignment %d' % (name, res)
    ln = next(iter(dec['lens'])) if len(dec['lens']) == 1 else dec['end']
    nok = 0
    for r in rs:
        if r.kind != 'ret':
            if r.kind == 'cut':
                C.undecide(what)
            elif 'assert' in str(r.val) and name == 'PUSH_STRUCT' and any(
                    r.st.interval(en.zext(r.st, r.st.load(add(code, add(pc, o)), sz), 8 * sz)) == (0, 0) for o, sz in dec['operands']):
                continue        # no struct has zero fields: the compiler never emits this
            else:
                C.fail(key, '%s ends with %s (%s)' % (what, r.kind, r.val), T.loc(r.where))
            continue
        s = r.st
        if r.val == 0:
            C.fail(key, what + ' gives up on an instruction the machine executes', where)
            continue
        npc = s.load(ppc, 4)
        after = add(pc, ln)
        if npc == -1 or npc == 0xffffffff:
            if s.decide(E.mk_le(add(size, after, -1))) is not True:
                C.fail(key, what + ' reports the end of the code before its end', where)
                continue
        elif npc != after:
            C.fail(key, '%s moves to %r where the machine moves to %r' % (what, npc, after), where)
            continue
        elif s.decide(E.mk_le(add(size, after, -1))) is not False:
            C.fail(key, what + ' does not report the end of the code', where)
            continue
        out = s.x.get('out', ())
        if len(out) < 2:
            C.fail(key, what + ' prints nothing', where)
            continue
        last = out[-1]
        if not any(x == pc for x in out[0][3:]):
            C.fail(key, what + ' does not print its position', where)
            continue
        over = [o for o in out if add(add(o[0], o[1]), add(buf, maxlen), -1) != 0]
        if over:
            C.fail(key, what + ' gives a size which does not end with the buffer', where)
            continue
        fmt = E.cstring(en, s, last[2])
        word = (fmt or b'').decode('latin1').split('(')[0].split(' ')[0]
        if word != name:
            C.fail(key, '%s prints %r' % (what, fmt), where)
            continue
        atoms = []
        for v in last[3:]:
            flat(v, atoms)
        bad = None
        nspec = (fmt.decode('latin1').replace('%%', '')).count('%')
        if nspec != len(last) - 3:
            bad = 'prints %d values with the format %r' % (len(last) - 3, fmt)
        for o, sz in dec['operands']:
            v = s.load(add(code, add(pc, o)), sz)
            if name == 'CALLF' and sz == 4:
                nm = last[3]
                hit = [x for x in fs if T.get(s, x, 'Tiny_Symbol', 'name') == nm]

                def isit(x):
                    k = s.decide(E.mk_eq(add(T.get(s, x, 'Tiny_Symbol', 'type'), -g.SYM['FOREIGN_FUNCTION'])))
                    e = s.decide(E.mk_eq(add(T.get(s, x, 'Tiny_Symbol', 'foreignFunc.index'), v, -1)))
                    if False in (k, e):
                        return False
                    return None if None in (k, e) else True
                if hit:
                    if isit(hit[0]) is not True:
                        bad = 'prints the name of a function with another index'
                elif nm == 0:
                    if [x for x in fs if isit(x) is not False]:
                        bad = 'does not find the name of the function'
                else:
                    bad = 'prints %r as the name of the function' % (nm,)
                continue
            want = flat(v, [])
            if not any(E.Engine.trunc(en, s, x, 8 * sz) == v if sz < 8 else x == v for x in last[3:] if not isinstance(x, bytes)):
                bad = 'prints %r, which is not the operand %r of the machine' % (last[3:], v)
        if bad:
            C.fail(key, '%s %s' % (what, bad), where)
        else:
            C.ok('%s: %s' % (what, fmt.decode('latin1')))
            nok += 1
    if not nok and not any(r.kind == 'cut' for r in rs) and not any(v['key'] == key for v in C.violations):
        C.fail(key, what + ' has no path that succeeds', where)
