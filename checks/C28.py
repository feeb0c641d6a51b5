"""Programs that run out of stack or use a value of the wrong kind are stopped before anything else is touched."""
from rtworld import *
from asm import Asm
from vm import VM

LEVEL = 'other'
FLOOR = 2500
RULE = ('The function that executes one instruction is interpreted for every opcode with the value stack at every height around '
        'empty and around full and the frames around full: an instruction whose result does not fit must end the program (failed '
        'assertion) and one that fits must not; in both cases nothing of the thread outside the value stack, the program counter '
        'and the registers the instruction is defined to change may differ afterwards. Every instruction that needs a boolean, a '
        'struct or an existing field is interpreted over every kind of value and index, every opcode number without a meaning must '
        'end the program, and every other instruction is interpreted over every pair of kinds of values and must touch nothing '
        'outside its operands. Host calls that do not fit are ended the same way.')

# opcode: (operands in order, values needed, change of the height), n is the first operand
SIMPLE = {
    'PUSH_NULL': (1, 0), 'PUSH_TRUE': (1, 0), 'PUSH_FALSE': (1, 0), 'PUSH_INT': (1, 0), 'PUSH_0': (1, 0), 'PUSH_1': (1, 0),
    'PUSH_CHAR': (1, 0), 'PUSH_FLOAT': (1, 0), 'PUSH_STRING': (1, 0), 'PUSH_STRING_FF': (1, 0), 'GET': (1, 0), 'GETLOCAL': (1, 0),
    'GETLOCAL_W': (1, 0), 'GET_RETVAL': (1, 0), 'ADD1': (0, 1), 'SUB1': (0, 1), 'SET': (-1, 1), 'SETLOCAL': (-1, 1), 'GOTO': (0, 0),
    'EQU': (-1, 2), 'HALT': (0, 0)}
for o in 'ADD SUB MUL DIV MOD OR AND SHIFT_LEFT SHIFT_RIGHT LT LTE GT GTE'.split():
    SIMPLE[o] = (-1, 2)
BOOLEAN = {'LOG_NOT': (0, 1), 'GOTOZ': (-1, 1)}
OTHER = {'PUSH_NULL_N', 'PUSH_STRUCT', 'STRUCT_GET', 'STRUCT_SET', 'CALL', 'CALLF', 'RETURN', 'RETURN_VALUE', 'MISALIGNED_INSTRUCTION'}


class World:
    def __init__(self, T, vm):
        self.T, self.vm = T, vm
        self.vsize = T.size('Tiny_Value')
        self.nstack = T.fsize('Tiny_StateThread', 'stack') // self.vsize
        self.nframes = T.fsize('Tiny_StateThread', 'frames') // T.size('Tiny_Frame')

    def setup(self, op, operands, sp, fc=1, fp=0, values=()):
        """a thread about to execute op with the given height; values are the topmost ones, last on top"""
        T, vm = self.T, self.vm
        rt = Rt(T, 2)
        self.fill(rt)
        a = Asm(vm)
        if op in vm.ops:
            a.op(op, *operands)
        else:
            a.data.append((0, 1, E.signed(op, 8)))
            a.pc = 1
        a.op('HALT')
        for k in range(a.pc, a.pc + 24):
            rt.st.store(rt.code, 1, vm.ops['HALT'], k)
        a.put(rt.st, rt.code)
        if T.fsize('Tiny_State', 'strings') > 8:       # a table inside the state
            strs = add(rt.state, T.off('Tiny_State', 'strings'))
        else:
            strs = rt.st.new_obj('strings', 'init')
            T.set(rt.st, rt.state, 'Tiny_State', 'strings', strs)
        for k in range(2):
            rt.st.store(strs, 8, rt.h.cstr(rt.st, 'text%d' % k, 'constant %d' % k), 8 * k)
        T.set(rt.st, rt.state, 'Tiny_State', 'numFunctions', 2)
        for k in range(2):
            rt.st.store(rt.fpcs, 4, a.pc, 4 * k)
            rt.st.store(rt.ffs, 8, fresh('host_function', 64, 4096, 1 << 46), 8 * k)
        rt.S('sp', sp)
        rt.S('fp', fp)
        rt.S('fc', fc)
        for k in range(self.nstack):
            rt.value(rt.slot(k), ('INT', 1000 + k))
        for k in range(min(sp, 2)):
            rt.value(rt.slot(sp - 1 - k), ('INT', 7 + k))
        for k, v in enumerate(values):
            rt.value(rt.slot(sp - len(values) + k), v)
        o, fs = T.off('Tiny_StateThread', 'frames'), T.size('Tiny_Frame')
        for k in range(self.nframes):
            for i, (m, v) in enumerate((('pc', 1), ('fp', 0), ('nargs', 0))):
                T.set(rt.st, add(rt.thread, o + k * fs), 'Tiny_Frame', m, v if k else (a.pc if m == 'pc' else 0))
        rt.before = rt.st.clone()
        rt.vm, rt.end = vm, a.pc
        return rt

    def fill(self, rt):
        rt.new('S2', 'struct', 2)
        rt.new('S0', 'struct', 1)
        rt.field('S2', 0, ('INT', 5))
        rt.field('S2', 1, ('INT', 6))
        rt.new('text', 'string')
        rt.new('short', 'embedded')
        rt.new('nat', 'native')
        rt.new('bare', 'bare')

    def kinds(self, rt=None):
        return [None, ('BOOL', 1), ('BOOL', 0), ('INT', 3), ('INT', -1), ('FLOAT', fresh('f', 64)), ('CONST_STRING', 'constant'), 'text', 'short',
                'nat', 'bare', ('LIGHT_NATIVE', fresh('light', 64)), 'S2', 'S0']

    def value(self, rt, v):
        if isinstance(v, tuple) and v[1] == 'constant':
            return (v[0], rt.h.cstr(rt.st, 'const', 'constant text'))
        return v

    def run(self, rt, fn='Tiny_ExecuteCycle', args=None, visits=60, foreign=True):
        en = Engine(rt.m, max_visits=visits, max_paths=60)
        rt.install(en)
        self.en = en
        rs = en.run(fn, args or [rt.thread], rt.st)
        return rs, en.reached

    def touched(self, rt, st, lo, hi, but=()):
        """what differs from before: registers not in but, stack slots outside lo..hi, frames, heap, globals"""
        T = self.T
        out = []
        eq = lambda x, y: x is y or type(x) is int and type(y) is int and x == y
        for f in ('ctx.alloc', 'ctx.userdata', 'state', 'globalVars', 'pc', 'fp', 'sp', 'fc', 'userdata'):
            if f not in but:
                x, y = rt.G(f, rt.before), rt.G(f, st)
                if not eq(x, y):
                    out.append('%s was %r and is %r' % (f, x, y))
        for k in range(self.nstack):
            if not lo <= k < hi:
                x, y = rt.read(rt.before, rt.slot(k)), rt.read(st, rt.slot(k))
                if not (eq(x[0], y[0]) and eq(x[1], y[1])):
                    out.append('stack slot %d has changed' % k)
        if 'retVal' not in but:
            x, y = rt.read(rt.before, rt.addr('retVal')), rt.read(st, rt.addr('retVal'))
            if not (eq(x[0], y[0]) and (eq(x[1], y[1]) or x[0] == rt.VT['NULL'])):
                out.append('the return value has changed')
        if 'globals' not in but:
            for k in range(rt.nglobals):
                x, y = rt.read(rt.before, rt.gslot(k)), rt.read(st, rt.gslot(k))
                if not (eq(x[0], y[0]) and (eq(x[1], y[1]) or x[0] == rt.VT['NULL'])):
                    out.append('global variable %d has changed' % k)
        o, fs = T.off('Tiny_StateThread', 'frames'), T.size('Tiny_Frame')
        keep = but['frames'] if isinstance(but, dict) and 'frames' in but else self.nframes
        for k in range(min(keep, self.nframes)):
            for m in ('pc', 'fp', 'nargs'):
                x = T.get(rt.before, add(rt.thread, o + k * fs), 'Tiny_Frame', m)
                y = T.get(st, add(rt.thread, o + k * fs), 'Tiny_Frame', m)
                if not eq(x, y):
                    out.append('frame %d has changed' % k)
        if 'heap' not in but:
            for n in ('S2', 'S0'):
                for k in range(2 if n == 'S2' else 1):
                    p = add(rt.objs[n], T.off('Tiny_Object', 'ostruct.fields') + k * rt.vsize)
                    x, y = rt.read(rt.before, p), rt.read(st, p)
                    if not (eq(x[0], y[0]) and (eq(x[1], y[1]) or x[0] == rt.VT['NULL'])):
                        out.append('field %d of a struct has changed' % k)
        for e in st.events():
            if e[0] == 'bad':
                out.append(str(e[1]))
        return out


def judge(C, W, rt, rs, key, what, fits, lo, sp2, but=None, where='', fc2=None, slots=None):
    """the instruction must have ended the program (fits is False) or left the height sp2"""
    T = W.T
    but = dict(but or {})
    for f in ('pc', 'sp'):
        but.setdefault(f, True)
    bad = []
    if not rs:
        bad.append('no outcome')
    for r in rs:
        if r.kind == 'cut':
            C.undecide('%s: %s' % (what, r.val))
            return
        if not fits:
            if r.kind != 'exit':
                bad.append('the program goes on (%s)' % (r.kind,) if r.kind == 'ret' else 'it %s: %s' % (r.kind, r.val))
            bad += W.touched(rt, r.st, lo, W.nstack if slots is None else slots, dict(but, fp=True, fc=True, heap=but.get('heap')) if but.get('heap') else dict(but, fc=True, fp=True))
        else:
            if r.kind != 'ret':
                bad.append('the program is stopped (%s %s)' % (r.kind, r.val))
                continue
            sp = rt.G('sp', r.st)
            if sp != sp2:
                bad.append('the height of the stack is %r instead of %r' % (sp, sp2))
            if fc2 is not None and rt.G('fc', r.st) != fc2:
                bad.append('the number of frames is %r instead of %r' % (rt.G('fc', r.st), fc2))
            bad += W.touched(rt, r.st, lo, max(sp2, rt.G('sp', rt.before)), but)
    if bad:
        C.fail(key, '%s: %s' % (what, '; '.join(dict.fromkeys(bad[:3]))), where)
    else:
        C.ok(what)


def operands(vm, op):
    d = vm.decode(vm.ops[op], 0)
    return None if d is None else len(d['operands'])


def heights(T, C, vm, W):
    where = T.where('Tiny_ExecuteCycle')
    n, nf = W.nstack, W.nframes
    for op in vm.ops:
        if op not in SIMPLE and op not in BOOLEAN and op not in OTHER:
            C.undecide('instruction %s has no entry in the table of effects' % op)
    for op, (delta, needs) in sorted(list(SIMPLE.items()) + list(BOOLEAN.items())):
        if op not in vm.ops:
            continue
        k = operands(vm, op)
        if k is None:
            C.fail('C28/height/' + op, '%s does not execute' % op, where)
            continue
        for sp in sorted({needs, needs + 1, 3, n - 2, n - 1, n} - {0 if needs else -1}):
            if sp < needs:
                continue
            vals = [('BOOL', 1)] if op in BOOLEAN else []
            base = 'GETLOCAL' in op
            if 'LOCAL' in op and sp < 1 + (op == 'SETLOCAL'):
                continue
            rt = W.setup(op, [(0 if op in ('GOTO', 'GOTOZ') else 1 if 'LOCAL' not in op else 0)] * k, sp, values=vals)
            rs, reached = W.run(rt)
            C.analysed |= reached
            sp2 = sp + delta
            but = {'globals': True} if op == 'SET' else {}
            lo = sp - needs
            if op == 'SETLOCAL':
                lo = 0
                for r in rs:
                    if r.kind == 'ret':
                        for j in range(1, sp - 1):
                            if rt.read(r.st, rt.slot(j)) != rt.read(rt.before, rt.slot(j)):
                                C.fail('C28/height/SETLOCAL', 'assigning local 0 changes slot %d' % j, where)
            judge(C, W, rt, rs, 'C28/height/' + op, '%s with %d values on the stack' % (op, sp), sp2 <= n, lo, sp2, but, where, 1)
    # a number of nulls
    for c in (0, 1, 2, 3, 100, 127, 128, 129, 255):
        for sp in sorted({0, 1, 27, 28, 29, n - 128 + 1, n - 3, n - 2, n - 1, n}):
            rt = W.setup('PUSH_NULL_N', [c], sp)
            rs, reached = W.run(rt, visits=400)
            C.analysed |= reached
            judge(C, W, rt, rs, 'C28/height/PUSH_NULL_N', 'pushing %d nulls onto %d values' % (c, sp), sp + c <= n, sp, sp + c, {}, where, 1)
            for r in rs:
                if r.kind == 'ret' and sp + c <= n and any(rt.read(r.st, rt.slot(j))[0] != rt.VT['NULL'] for j in range(sp, sp + c)):
                    C.fail('C28/height/PUSH_NULL_N', 'pushing %d nulls onto %d values: a slot is not null' % (c, sp), where)
    # structs
    for c in (1, 2, 5):
        for sp in sorted({c, c + 1, n - 1, n}):
            rt = W.setup('PUSH_STRUCT', [c], sp)
            rs, reached = W.run(rt)
            judge(C, W, rt, rs, 'C28/height/PUSH_STRUCT', 'a struct of %d fields from %d values' % (c, sp), True, sp - c, sp - c + 1, {'heap': True}, where, 1)
    # calls
    for c in (0, 1, 3):
        for sp in sorted({c, c + 2, n - 1, n}):
            for fc in (0, 1, nf - 2, nf - 1, nf):
                rt = W.setup('CALL', [c, 1], sp, fc)
                rs, reached = W.run(rt)
                C.analysed |= reached
                judge(C, W, rt, rs, 'C28/frames', 'a call with %d arguments, %d values and %d frames' % (c, sp, fc), fc < nf, sp, sp,
                      {'fp': True, 'fc': True, 'frames': fc}, where, fc + 1)
    for c in (0, 1, 3):
        for sp in sorted({c, c + 2, n - 1, n}):
            rt = W.setup('CALLF', [c, 1], sp)
            rs, reached = W.run(rt)
            judge(C, W, rt, rs, 'C28/height/CALLF', 'a native call with %d arguments and %d values' % (c, sp), True, sp - c, sp - c, {'retVal': True}, where, 1)
    # returns
    for op in ('RETURN', 'RETURN_VALUE'):
        for fc in (0, 1, 2, nf):
            for sp in (3, n):
                rt = W.setup(op, [], sp, fc, fp=2)
                rs, reached = W.run(rt)
                C.analysed |= reached
                judge(C, W, rt, rs, 'C28/frames', '%s with %d frames and %d values' % (op, fc, sp), fc > 0, 0, 2,
                      {'fp': True, 'fc': True, 'retVal': True}, where, fc - 1)


def kinds(T, C, vm, W):
    where = T.where('Tiny_ExecuteCycle')
    # conditions
    for op, (delta, needs) in sorted(BOOLEAN.items()):
        k = operands(vm, op)
        for v in W.kinds():
            rt = W.setup(op, [0] * (k or 0), 4)
            vv = W.value(rt, v)
            rt.value(rt.slot(3), vv)
            rt.before = rt.st.clone()
            rs, reached = W.run(rt)
            C.analysed |= reached
            ok = isinstance(v, tuple) and v[0] == 'BOOL'
            judge(C, W, rt, rs, 'C28/kind/' + op, '%s of %s' % (op, describe(v)), ok, 3, 4 + delta, {}, where, 1)
    # fields
    for op in ('STRUCT_GET', 'STRUCT_SET'):
        for v in W.kinds():
            for i in (0, 1, 2, 3, 127, 128, 255):
                rt = W.setup(op, [i], 5)
                vv = W.value(rt, v)
                rt.value(rt.slot(4), vv)
                rt.before = rt.st.clone()
                rs, reached = W.run(rt)
                C.analysed |= reached
                ok = v == 'S2' and i < 2 or v == 'S0' and i < 1
                but = {'heap': True} if ok and op == 'STRUCT_SET' else {}
                judge(C, W, rt, rs, 'C28/kind/' + op, '%s of field %d of %s' % (op, i, describe(v)), ok, 3 if op == 'STRUCT_SET' else 4,
                      3 if op == 'STRUCT_SET' else 5, but, where, 1)
                if ok:
                    for r in rs:
                        if r.kind != 'ret':
                            continue
                        p = lambda o, k: add(rt.objs[o], T.off('Tiny_Object', 'ostruct.fields') + k * rt.vsize)
                        if op == 'STRUCT_GET':
                            if rt.read(r.st, rt.slot(4)) != rt.read(rt.before, p(v, i)):
                                C.fail('C28/kind/STRUCT_GET', 'field %d of %s gives another value' % (i, v), where)
                        else:
                            for o, nn in (('S2', 2), ('S0', 1)):
                                for k in range(nn):
                                    w = rt.read(rt.before, rt.slot(3) if (o, k) == (v, i) else p(o, k))
                                    g = rt.read(r.st, p(o, k))
                                    if g != w and not (g[0] == w[0] == rt.VT['NULL']):
                                        C.fail('C28/kind/STRUCT_SET', 'assigning field %d of %s leaves %r in field %d of %s' % (i, v, g, k, o), where)
    # everything else: nothing outside the operands is touched
    for op, (delta, needs) in sorted(SIMPLE.items()):
        if op not in vm.ops or needs == 0:
            continue
        k = operands(vm, op) or 0
        ks = W.kinds()
        for i, v in enumerate(ks):
            for w in (ks if needs == 2 else [None]):
                if op in ('DIV', 'MOD') and not (isinstance(w, tuple) and w[0] == 'FLOAT'):
                    # the integer division of what is not a divisor is left open
                    if not (isinstance(w, tuple) and w[1] == 3):
                        continue
                rt = W.setup(op, [0] * k, 4)
                rt.value(rt.slot(2), W.value(rt, v if needs == 2 else ('INT', 1)))
                rt.value(rt.slot(3), W.value(rt, w if needs == 2 else v))
                rt.before = rt.st.clone()
                rs, reached = W.run(rt)
                C.analysed |= reached
                bad = []
                for r in rs:
                    if r.kind == 'cut':
                        C.undecide('%s of %s and %s: %s' % (op, describe(v), describe(w), r.val))
                        break
                    if r.kind not in ('ret', 'exit'):
                        bad.append('%s %s' % (r.kind, r.val))
                    lo = 4 - needs if op != 'SETLOCAL' else 0
                    bad += W.touched(rt, r.st, lo, 4, {'pc': True, 'sp': True, 'globals': op == 'SET'} if op == 'SET' else {'pc': True, 'sp': True})
                    if r.kind == 'ret' and rt.G('sp', r.st) != 4 + delta:
                        bad.append('the height is %r' % (rt.G('sp', r.st),))
                if bad:
                    C.fail('C28/operands/' + op, '%s of %s and %s: %s' % (op, describe(v), describe(w), '; '.join(dict.fromkeys(bad[:3]))), where)
                else:
                    C.ok()
    # numbers without a meaning
    for code in range(256):
        if code in vm.names and vm.names[code] != 'MISALIGNED_INSTRUCTION':
            continue
        rt = W.setup(code, [], 4)
        rs, reached = W.run(rt)
        judge(C, W, rt, rs, 'C28/opcode', 'the byte %d, which is no instruction' % code, False, 4, 4, {}, where)


def describe(v):
    if v is None:
        return 'null'
    if isinstance(v, tuple):
        return v[0].lower().replace('_', ' ')
    return {'S2': 'a struct of two fields', 'S0': 'a struct of one field', 'nat': 'a native', 'bare': 'a native without functions',
            'text': 'a text', 'short': 'a text with its bytes inside'}[v]


def host(T, C, vm, W):
    """Tiny_CallFunction where its arguments or its frame do not fit"""
    fn = T.fn('Tiny_CallFunction')
    where = T.where(fn)
    n, nf = W.nstack, W.nframes
    for sp in (0, n - 5, n - 3, n - 2, n - 1, n):
        for c in (0, 1, 2, 3, 4):
            for fc in (0, nf - 1, nf):
                rt = W.setup('PUSH_NULL', [], sp, fc)
                T.set(rt.st, rt.state, 'Tiny_State', 'numFunctions', 1)
                # function 0: return
                rt.st.store(rt.code, 1, vm.ops['RETURN'], rt.end + 8)
                rt.st.store(rt.fpcs, 4, rt.end + 8, 0)
                rt.before = rt.st.clone()
                args = rt.st.new_obj('args', 'undef')
                for k in range(c):
                    rt.value(add(args, k * rt.vsize), ('INT', 50 + k))
                f = T.funcs[fn]
                call = [rt.thread, 0, args, c]
                if len(f.params) == 5:      # the result comes back through memory
                    call = [rt.st.new_obj('result', 'undef')] + call
                rs, reached = W.run(rt, fn, call, visits=400)
                C.analysed |= reached
                room = sp + c <= n and fc < nf
                least = sp + c + 1 <= n and fc < nf      # the return value may be kept on the stack
                what = 'a host call with %d arguments at height %d with %d frames' % (c, sp, fc)
                bad = []
                for r in rs:
                    if r.kind == 'cut':
                        C.undecide('%s: %s' % (what, r.val))
                        break
                    if r.kind == 'ret':
                        if not room:
                            bad.append('it is executed')
                        bad += W.touched(rt, r.st, sp, n, {'frames': fc})
                    elif r.kind == 'exit':
                        if least:
                            bad.append('the program is stopped')
                        bad += W.touched(rt, r.st, sp, n, {'frames': fc, 'pc': 1, 'sp': 1, 'fp': 1, 'fc': 1, 'globalVars': 1, 'retVal': 1})
                    else:
                        bad.append('%s %s' % (r.kind, r.val))
                if bad:
                    C.fail('C28/hostcall', '%s: %s' % (what, '; '.join(dict.fromkeys(bad[:3]))), where)
                else:
                    C.ok(what)


def run(T, C):
    vm = VM(T)
    W = World(T, vm)
    heights(T, C, vm, W)
    kinds(T, C, vm, W)
    host(T, C, vm, W)
