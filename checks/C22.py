"""What a host can rely on about a thread."""
from rtworld import *
from asm import Asm
from vm import VM
from libplay import Play
import natives

LEVEL = 'other'
FLOOR = 700
RULE = ('The functions by which a host drives a thread (initialise, start, step, run, look up and access global variables and '
        'functions, call a function) are interpreted on threads with undefined contents before initialisation, on threads at '
        'rest and in the middle of a program (any program counter, stack, frames, return value; opaque contents), with small '
        'machine programs (up to 1100 globals, up to 100 arguments) covering every way a function can use its frame (arguments, locals, nested calls, results, calls '
        'back into the host and from there into the machine, collections on the way). Everything that was on the thread '
        'before a call must be there afterwards, the result must be the function\'s, and an index that names nothing must '
        'stop the program before anything is touched.')

FIELDS = ['state', 'ctx.alloc', 'ctx.userdata', 'userdata', 'globalVars', 'pc', 'fp', 'sp', 'fc']


def run_fn(rt, fn, args, visits=4000, **kw):
    en = Engine(rt.m, max_visits=visits, max_paths=400)
    rt.install(en, **kw)
    rs = en.run(fn, args, rt.st)
    return rs, en.reached


def effects_of(st, n0=0):
    return [e for e in st.events()[n0:] if e[0] in ('alloc', 'free', 'realloc', 'bad', 'indirect', 'finalize', 'protect')]


def thread_diff(rt, a, b, but=()):
    """fields of the thread which differ between two states"""
    out = []
    for f in FIELDS:
        if f not in but:
            x, y = rt.G(f, a), rt.G(f, b)
            if not (x is y or type(x) is int and type(y) is int and x == y):
                out.append('%s was %r and is %r' % (f, x, y))
    return out


def same_value(rt, sa, pa, sb, pb):
    (ta, va), (tb, vb) = rt.read(sa, pa), rt.read(sb, pb)
    eq = lambda x, y: x is y or type(x) is int and type(y) is int and x == y
    return eq(ta, tb) and (eq(va, vb) or ta == rt.VT['NULL'])


def frames(rt, st, n):
    T = rt.T
    o, sz = T.off('Tiny_StateThread', 'frames'), T.size('Tiny_Frame')
    out = []
    for k in range(n):
        for m in ('pc', 'fp', 'nargs'):
            out.append(T.get(st, add(add(rt.thread, o), k * sz), 'Tiny_Frame', m))
    return out


# ------------------------------------------------------------------ life of a thread
def life(T, C):
    init, initc, start = T.fn('Tiny_InitThread'), T.fn('Tiny_InitThreadWithContext'), T.fn('Tiny_StartThread')
    for ng in (0, 1, 3, 17, 65, 300, 1100):
        for way in (init, initc):
            what = '%s with %d global variables' % (way, ng)
            rt = Rt(T, 0)
            th = T.obj(rt.st, 'Tiny_StateThread', 'raw thread', 'undef')
            rt.thread = th
            T.set(rt.st, rt.state, 'Tiny_State', 'numGlobalVars', ng)
            rt.st.x['live'] = frozenset()
            alloc, ud = fresh('alloc', 64, 4096, 1 << 46), fresh('ud', 64)
            args = [th, rt.state]
            if way == initc:
                ctx = T.obj(rt.st, 'Tiny_Context', 'ctx', 'undef', alloc=alloc, userdata=ud)
                f = T.funcs[initc]
                args = [th, rt.state, ctx] if len(f.params) == 3 else [th, rt.state, alloc, ud]
            rs, reached = run_fn(rt, way, args)
            C.analysed |= reached
            if len(rs) != 1 or rs[0].kind != 'ret':
                C.fail('C22/init', '%s: does not return normally (%s)' % (what, [(r.kind, r.val) for r in rs][:3]), T.where(way))
                continue
            st = rs[0].st
            bad = []
            G = lambda f: rt.G(f, st)
            if effects_of(st):
                bad.append('it does something besides initialising: %r' % (effects_of(st)[0],))
            if G('state') is not rt.state:
                bad.append('the state is not the given one')
            if way == initc:
                if G('ctx.alloc') is not alloc or G('ctx.userdata') is not ud:
                    bad.append('the context is not the given one')
            else:
                g = rt.m.globals.get('Tiny_DefaultContext')
                a = G('ctx.alloc')
                a = a.atom() if isinstance(a, Lin) else None
                okd = a is not None and (a.kind == 'fn' or a.kind == 'init' and 'Tiny_DefaultContext' in repr(a.args))
                if not okd:
                    bad.append('the context is not the default one (%r)' % (G('ctx.alloc'),))
            for f in ('gcHead', 'numObjects', 'globalVars', 'fp', 'sp', 'fc', 'userdata'):
                v = G(f)
                if not (type(v) is int and v == 0):
                    bad.append('%s is %r' % (f, v))
            if not (type(G('pc')) is int and G('pc') < 0):
                bad.append('the thread is not done: pc is %r' % (G('pc'),))
            if rt.read(st, rt.addr('retVal'))[0] != rt.VT['NULL']:
                bad.append('the return value is not null')
            mx = G('maxNumObjects')
            if not (type(mx) is int and mx > 0):
                bad.append('the collection threshold is %r' % (mx,))
            if bad:
                C.fail('C22/init', '%s: %s' % (what, '; '.join(bad[:3])), T.where(way))
                continue
            C.ok(what)
            # stepping a thread that has not been started does nothing
            if way == init:
                idle(T, C, rt, st, 'a thread that was only initialised')
                continue
            # start it
            rt.st = st
            rt.h.context(st, th, 'Tiny_StateThread')
            rs, reached = run_fn(rt, start, [th])
            C.analysed |= reached
            what = 'starting a thread with %d global variables' % ng
            if len(rs) != 1 or rs[0].kind != 'ret':
                C.fail('C22/start', '%s: does not return normally (%s)' % (what, [(r.kind, r.val) for r in rs][:3]), T.where(start))
                continue
            st = rs[0].st
            bad = [e[1] for e in st.events() if e[0] == 'bad']
            g = G('globalVars')
            if ng:
                if rt.h.base(g) is None:
                    bad.append('the global variables are not allocated')
                else:
                    for k in range(ng):
                        try:
                            ty = rt.read(st, add(g, k * rt.vsize))[0]
                        except Exception as e:
                            ty = e
                        if ty != rt.VT['NULL']:
                            bad.append('global variable %d starts as %r' % (k, ty))
            if G('pc') != 0:
                bad.append('pc is %r' % (G('pc'),))
            for f in ('fp', 'sp', 'fc', 'numObjects', 'gcHead'):
                if G(f) != 0:
                    bad.append('%s is %r' % (f, G(f)))
            if bad:
                C.fail('C22/start', '%s: %s' % (what, '; '.join(bad[:3])), T.where(start))
                continue
            C.ok(what)
            # starting it again keeps the variables
            rt.st = st
            for k in range(ng):
                rt.value(add(g, k * rt.vsize), ('INT', 40 + k))
            n0 = len(st.events())
            # ... done, in the middle of a program, and inside of calls
            for pc, k in ((G('pc'), 0), (fresh('pc', 32, 0, 100000), 0), (-1, 3), (fresh('pc', 32, 1, 100000), 3)):
                rt.st = st.clone()
                rt.S('pc', pc)
                for m in ('sp', 'fp', 'fc'):
                    rt.S(m, k)
                again(T, C, rt, start, th, ng, g, n0)


def again(T, C, rt, start, th, ng, g, n0):
    st = rt.st
    rs, _ = run_fn(rt, start, [th])
    st2 = rs[0].st
    bad = []
    if len(rs) != 1 or rs[0].kind != 'ret':
        bad.append('it does not return normally')
    else:
        bad = [e[1] for e in st2.events()[n0:] if e[0] == 'bad']
        if ng and G2(rt, st2, 'globalVars') is not g:
            bad.append('the global variables are allocated again')
        elif any(rt.read(st2, add(g, k * rt.vsize)) != (rt.VT['INT'], 40 + k) for k in range(ng)):
            bad.append('the global variables are reset')
        if G2(rt, st2, 'pc') != 0:
            bad.append('pc is %r' % (G2(rt, st2, 'pc'),))
    if bad:
        C.fail('C22/start', 'starting a thread a second time with %d global variables: %s' % (ng, '; '.join(bad[:3])), T.where(start))
    else:
        C.ok()


def G2(rt, st, f):
    return rt.G(f, st)


def idle(T, C, rt, st, what):
    """running a thread that is done changes nothing"""
    for f in ('Tiny_ExecuteCycle', 'Tiny_Run'):
        rt.st = st.clone()
        n0 = len(st.events())
        rs, reached = run_fn(rt, T.fn(f), [rt.thread])
        C.analysed |= reached
        if len(rs) != 1 or rs[0].kind != 'ret':
            C.fail('C22/idle', '%s on %s: %s' % (f, what, [(r.kind, r.val) for r in rs][:3]), T.where(f))
            continue
        s2 = rs[0].st
        bad = thread_diff(rt, st, s2)
        if effects_of(s2, n0):
            bad.append('it has effects: %r' % (effects_of(s2, n0)[0],))
        if f == 'Tiny_ExecuteCycle' and rs[0].val != 0:
            bad.append('it claims to have executed something (%r)' % (rs[0].val,))
        if bad:
            C.fail('C22/idle', '%s on %s: %s' % (f, what, '; '.join(bad[:3])), T.where(f))
        else:
            C.ok('%s on %s' % (f, what))


# ------------------------------------------------------------------ programs
class Prog:
    """a program with three functions (see build)"""

    def __init__(self, vm):
        self.vm = vm
        a = self.a = Asm(vm)
        self.pcs = []
        self.main = a.label()

    def fn(self):
        self.pcs.append(self.a.label())
        return len(self.pcs) - 1


def first_arg(n):
    """index of argument k of n relative to the frame"""
    return lambda k: (k - n) & 0xffffffff


MANY_ARGS = (9, 16, 17, 33, 65, 100)


def programs(vm):
    """(name, number of arguments, build(asm, fn index) -> body, expected result given argument values, effects)"""
    def ret_arg(n, k):
        def body(a):
            a.op('GETLOCAL', first_arg(n)(k)).op('RETURN_VALUE')
        return body
    for n in range(0, 5):
        for k in range(n):
            yield 'returns argument %d of %d' % (k, n), n, ret_arg(n, k), lambda av, k=k: av[k], {}

    for n in MANY_ARGS:
        for k in (0, n // 2, n - 1):
            yield 'returns argument %d of %d' % (k, n), n, ret_arg(n, k), lambda av, k=k: av[k], {}

    def nothing(a):
        a.op('RETURN')
    for n in (0, 1, 3):
        yield 'returns nothing, %d arguments' % n, n, nothing, lambda av: None, {}

    def locals_(a):
        a.op('PUSH_NULL_N', 3)
        a.op('GETLOCAL', first_arg(2)(1)).op('SETLOCAL', 1)
        a.op('PUSH_1').op('SETLOCAL', 2).op('PUSH_TRUE').op('SETLOCAL', 0)
        a.op('PUSH_0').op('PUSH_0')
        a.op('GETLOCAL', 1).op('RETURN_VALUE')
    yield 'uses locals and leaves values behind', 2, locals_, lambda av: av[1], {}

    def overwrite(a):
        a.op('PUSH_TRUE').op('SETLOCAL', first_arg(2)(0))
        a.op('GETLOCAL', first_arg(2)(0)).op('RETURN_VALUE')
    yield 'assigns to its argument', 2, overwrite, lambda av: ('BOOL', 1), {}

    def glob(a):
        a.op('GETLOCAL', first_arg(1)(0)).op('SET', 1).op('GET', 0).op('RETURN_VALUE')
    yield 'assigns a global variable', 1, glob, lambda av: 'g0', {1: lambda av: av[0]}

    def retval(a):
        a.op('GET_RETVAL').op('RETURN_VALUE')

    def nested(a):
        a.op('GETLOCAL', first_arg(2)(1)).op('GETLOCAL', first_arg(2)(0))
        a.op('CALL', 2, 1).op('GET_RETVAL').op('RETURN_VALUE')
    yield 'calls a function', 2, nested, lambda av: av[1], {}

    def nested2(a):
        a.op('GETLOCAL', first_arg(2)(1)).op('GETLOCAL', first_arg(2)(0)).op('CALL', 2, 1)
        a.op('GETLOCAL', first_arg(2)(0)).op('GET_RETVAL').op('CALL', 2, 1)
        a.op('GET_RETVAL').op('RETURN_VALUE')
    yield 'calls a function twice', 2, nested2, lambda av: av[0], {}

    def alloc(a):
        a.op('GETLOCAL', first_arg(1)(0)).op('PUSH_STRUCT', 1)
        a.op('GETLOCAL', first_arg(1)(0)).op('PUSH_STRUCT', 1)
        a.op('GETLOCAL', first_arg(1)(0)).op('RETURN_VALUE')
    yield 'allocates', 1, alloc, lambda av: av[0], {}

    def foreign(a):
        a.op('GETLOCAL', first_arg(2)(0)).op('GETLOCAL', first_arg(2)(1)).op('CALLF', 2, 2)
        a.op('GET_RETVAL').op('RETURN_VALUE')
    yield 'calls a native function', 2, foreign, lambda av: 'native', {}


def setup(T, vm, body, before, gc, symbolic=False):
    """a thread in the middle of something, with a program whose function 0 has the given body and function 1 returns its
    first argument of two"""
    rt = Rt(T, 2)
    a = Asm(vm)
    a.op('HALT')
    f0 = a.label()
    body(a)
    f1 = a.label()
    a.op('GETLOCAL', first_arg(2)(0)).op('RETURN_VALUE')
    a.op('HALT')
    a.put(rt.st, rt.code)
    T.set(rt.st, rt.state, 'Tiny_State', 'numFunctions', 2)
    rt.st.store(rt.fpcs, 4, f0, 0)
    rt.st.store(rt.fpcs, 4, f1, 4)
    for n, k in (('A', 'string'), ('B', 'native'), ('R', 'struct'), ('G', 'string'), ('D', 'bare'), ('K', 'embedded')):
        rt.new(n, k, 1)
    pc, fp, sp, fc, rv, gl = before
    S = rt.S
    S('pc', pc)
    S('fp', fp)
    S('sp', sp)
    S('fc', fc)
    # what lies on the stack
    for k in range(sp):
        rt.value(rt.slot(k), [('INT', 900 + k), 'K', None, ('FLOAT', fresh('s%d' % k, 64))][k % 4])
    rt.value(rt.addr('retVal'), rv)
    if gl:
        rt.value(rt.gslot(0), 'G')
        rt.value(rt.gslot(1), ('INT', 5))
    else:
        S('globalVars', 0)
        rt.st.x['live'] = rt.st.x['live'] - {rt.globals.t[0][0]}
    if gc:
        S('maxNumObjects', 1)
    nat = fresh('host_function', 64, 4096, 1 << 46)
    rt.nat = nat
    sz = 8
    rt.st.store(rt.ffs, sz, nat, 2 * sz)
    return rt


BEFORE = [(-1, 0, 0, 0, None, False), (-1, 0, 0, 0, None, True), (0, 0, 0, 0, 'R', True), (17, 0, 3, 0, ('INT', 3), True),
          (23, 2, 6, 1, 'R', True), (9, 5, 5, 3, 'K', True), (40, 1, 9, 2, ('BOOL', 1), True)]


def meaning(rt, v):
    if v == 'g0':
        return ('obj', rt.objs['G'])
    if isinstance(v, str):
        return ('obj', rt.objs[v])
    return ('val',) + rt.val(v)


def calls(T, C, vm):
    cf = T.fn('Tiny_CallFunction')
    argsets = {0: [[]], 1: [['A'], [('INT', 71)], [None]], 2: [['A', 'B'], [('INT', 1), 'A']], 3: [['A', None, 'B']],
               4: [['A', ('INT', 4), 'B', ('FLOAT', fresh('x', 64))]]}
    for n in MANY_ARGS:
        argsets[n] = [['A'] + [('INT', 300 + k) for k in range(n - 2)] + ['B']]
    for name, n, body, expect, effects in programs(vm):
        for av in argsets[n]:
            for before in BEFORE if n < 9 else (BEFORE[1], BEFORE[-1]):
                for gc in (False, True) if n < 9 else (True,):
                    one_call(T, C, vm, cf, name, n, body, expect, effects, av, before, gc)


def one_call(T, C, vm, cf, name, n, body, expect, effects, av, before, gc, reuse=None):
    pc, fp, sp, fc, rv, gl = before
    if not gl and (name.startswith('assigns a global')):
        expect = lambda a: None
    rt = setup(T, vm, body, before, gc)
    what = 'calling a function that %s%s, with pc %d, %d values, %d frames, result %s%s' % (
        name, ' (%s)' % ', '.join(map(str, (a if not isinstance(a, tuple) else a[0] for a in av))) if 0 < len(av) < 9 else '', pc, sp, fc,
        rv if not isinstance(rv, tuple) else rv[0], '' if gl else ', no globals yet')
    arr = rt.st.new_obj('args', 'undef')
    arr.t[0][0].meta['size'] = max(1, n * rt.vsize)
    for k, x in enumerate(av):
        rt.value(add(arr, k * rt.vsize), x)
    s0 = rt.st.clone()
    seen = []
    ret = (rt.VT['INT'], fresh('native result', 64))

    def foreign(e, st, target, args, inst):
        if target is rt.nat:
            seen.append((args, st.clone()))
            return AggV([ret[1], ret[0]])
        st.log('bad', 'an unknown function is called')
        return AggV([0, 0])
    en = Engine(rt.m, max_visits=400, max_paths=400)
    rt.install(en)
    old = en.indirect

    def ind(e, st, target, args, inst):
        if target is rt.nat:
            return foreign(e, st, target, args, inst)
        return old(e, st, target, args, inst)
    en.indirect = ind
    rs = en.run(cf, [rt.thread, 0, arr, n], rt.st)
    C.analysed |= en.reached
    if not rs:
        C.undecide(what + ': no outcome')
    for r in rs:
        if r.kind != 'ret':
            C.fail('C22/call', '%s: ends with %s (%s)' % (what, r.kind, r.val), T.loc(r.where))
            continue
        st = r.st
        bad = [e[1] for e in st.events() if e[0] == 'bad']
        bad += thread_diff(rt, s0, st, () if gl else ('globalVars',))
        for k in range(sp):
            if not same_value(rt, s0, rt.slot(k), st, rt.slot(k)):
                bad.append('stack slot %d below the call changed' % k)
        if frames(rt, s0, fc) != frames(rt, st, fc):
            bad.append('a frame below the call changed')
        if not same_value(rt, s0, rt.addr('retVal'), st, rt.addr('retVal')):
            bad.append('the thread\'s own return value is not restored')
        want = expect(av)
        if isinstance(r.val, AggV):
            p, t = r.val.v
        else:
            p = t = None
        if want == 'native':
            okr = t == ret[0] and p is ret[1]
        else:
            if want == 'g0':
                want = 'G' if gl else None
            wt, wp = rt.val(want)
            if wt == rt.VT['BOOL']:
                p = E.extract(p, 0, 8, 1)
            okr = t == wt and (wt == rt.VT['NULL'] or p is wp or type(p) is int and type(wp) is int and p == wp)
        if not okr:
            bad.append('the result is (%s, %r)' % (rt.VN.get(t, t), p))
        # global variables
        g = rt.G('globalVars', st)
        if rt.h.base(g) is None:
            bad.append('there are no global variables')
        else:
            for k in range(2):
                now = rt.read(st, add(g, k * rt.vsize))
                x = effects[k](av) if k in effects else (['G', ('INT', 5)][k] if gl else None)
                if now[0] != rt.val(x)[0] or now[0] != rt.VT['NULL'] and not (now[1] is rt.val(x)[1] or now[1] == rt.val(x)[1]):
                    bad.append('global variable %d is %s' % (k, rt.VN.get(now[0], now[0])))
        # everything the host can still use must be alive
        live = st.x.get('live', frozenset())
        keep = ['K'] * (sp > 1) + ([rv] if isinstance(rv, str) else []) + (['G'] if gl else [])
        if isinstance(want, str) and want in rt.objs:
            keep.append(want)
        for o in keep:
            if rt.objs[o].t[0][0] not in live:
                bad.append('%s is released although it is still in use' % o)
        if bad:
            C.fail('C22/call', '%s: %s' % (what, '; '.join(bad[:3])), T.where(cf))
        else:
            C.ok(what)
    if name == 'calls a native function':
        for args, s in seen:
            bad = []
            if args[0] is not rt.thread or args[2] != n:
                bad.append('it does not get its thread and number of arguments')
            else:
                for k, x in enumerate(av):
                    t, p = rt.read(s, add(args[1], k * rt.vsize))
                    wt, wp = rt.val(x)
                    if t != wt or not (p is wp or p == wp):
                        bad.append('argument %d is wrong' % k)
                o = E.add(args[1], rt.slot(0), -1)
                o = o if type(o) is int else None
                spn = rt.G('sp', s)
                if o is None or type(spn) is not int or o + n * rt.vsize > spn * rt.vsize:
                    bad.append('its arguments are not on the stack while it runs (a collection would miss them)')
            if bad:
                C.fail('C22/native', '%s: %s' % (what, '; '.join(bad)), T.where(cf))
            else:
                C.ok()
        if not seen:
            C.fail('C22/native', '%s: the native function is never called' % what, T.where(cf))


# ------------------------------------------------------------------ from a native function back into the machine
def reentry(T, C, vm, L):
    cf = T.fn('Tiny_CallFunction')
    name = [x for x in L.sigs if x[4] is not None and x[4] in T.funcs and cf in T.callees(x[4])]
    if not name:
        C.undecide('no native function calls back into the machine')
        return
    for x in name:
        nat = x[4]
        for before in BEFORE[2:]:
            for gc in (False, True):
                for args in ([], ['A'], ['A', ('INT', 8)], ['B', 'A', None]):
                    re_one(T, C, vm, nat, x[0], before, gc, args)


def re_one(T, C, vm, nat, script, before, gc, args):
    pc, fp, sp, fc, rv, gl = before
    n = len(args)

    def body(a):
        if n:
            a.op('GETLOCAL', first_arg(n)(n - 1)).op('RETURN_VALUE')
        else:
            a.op('PUSH_1').op('RETURN_VALUE')
    rt = setup(T, vm, body, before, gc)
    # the instruction under way: CALLF nat(function 0, args...)
    a = Asm(vm)
    a.pc = 64
    at = a.label()
    a.op('CALLF', n + 1, 3)
    end = a.label()
    a.put(rt.st, rt.code)
    T.set(rt.st, rt.state, 'Tiny_State', 'numForeignFunctions', 4)
    rt.st.store(rt.ffs, 8, fnptr(rt, nat), 3 * 8)
    rt.S('pc', at)
    rt.push(('INT', 0))
    for x in args:
        rt.push(x)
    s0 = rt.st.clone()
    rs, reached = run_fn(rt, T.fn('Tiny_ExecuteCycle'), [rt.thread])
    C.analysed |= reached
    what = 'native %s calling function 0 with %d arguments (%d values below, %d frames%s)' % (script, n, sp, fc, ', collecting' if gc else '')
    for r in rs:
        if r.kind != 'ret':
            C.fail('C22/reentry', '%s: ends with %s (%s)' % (what, r.kind, r.val), T.loc(r.where))
            continue
        st = r.st
        bad = [e[1] for e in st.events() if e[0] == 'bad']
        bad += thread_diff(rt, s0, st, ('pc', 'sp'))
        if rt.G('pc', st) != end:
            bad.append('the program continues at %r, not after the call' % (rt.G('pc', st),))
        if rt.G('sp', st) != sp:
            bad.append('the stack has %r values, not %d' % (rt.G('sp', st), sp))
        for k in range(sp):
            if not same_value(rt, s0, rt.slot(k), st, rt.slot(k)):
                bad.append('stack slot %d changed' % k)
        if frames(rt, s0, fc) != frames(rt, st, fc):
            bad.append('a frame changed')
        t, p = rt.read(st, rt.addr('retVal'))
        want = args[-1] if args else ('INT', 1)
        wt, wp = rt.val(want)
        if t != wt or wt != rt.VT['NULL'] and not (p is wp or type(p) is int and p == wp):
            bad.append('the result is %s' % rt.VN.get(t, t))
        live = st.x.get('live', frozenset())
        if isinstance(want, str) and rt.objs[want].t[0][0] not in live:
            bad.append('the result is released')
        if bad:
            C.fail('C22/reentry', '%s: %s' % (what, '; '.join(bad[:3])), T.where(nat))
        else:
            C.ok(what)


def fnptr(rt, name):
    return Engine(rt.m).gptr(name)


# ------------------------------------------------------------------ indexes
def indexes(T, C, vm):
    cf = T.fn('Tiny_CallFunction')
    for idx in (-(1 << 31), -2, -1, 0, 1, 2, 3, 7, (1 << 31) - 1):
        for nf in (0, 1, 2):
            rt = setup(T, vm, lambda a: a.op('RETURN'), BEFORE[3], False)
            T.set(rt.st, rt.state, 'Tiny_State', 'numFunctions', nf)
            rs, reached = run_fn(rt, cf, [rt.thread, idx, 0, 0])
            verdict(T, C, 'C22/function-index', 'calling function %d of %d' % (idx, nf), rs, 0 <= idx < nf, cf)
    get, setg = T.fn('Tiny_GetGlobal'), T.fn('Tiny_SetGlobal')
    for ng in (0, 1, 3):
        for idx in (-(1 << 31), -2, -1, 0, 1, 2, 3, 4, (1 << 31) - 1):
            for started in (True, False):
                for f in (get, setg):
                    rt = Rt(T, ng)
                    cells = []
                    if not started:
                        rt.S('globalVars', 0)
                    else:
                        for k in range(ng):
                            cells.append(('INT', fresh('global%d' % k, 64)))
                            rt.value(rt.gslot(k), cells[k])
                    new = fresh('value', 64)
                    if f == get:
                        fn = T.funcs[get]
                        out = None
                        if len(fn.params) == 3:
                            out = rt.st.new_obj('out', 'undef')
                            out.t[0][0].meta['size'] = rt.vsize
                        args = ([out] if out is not None else []) + [rt.thread, idx]
                    else:
                        fn = T.funcs[setg]
                        args = [rt.thread, idx]
                        if len(fn.params) == 3:
                            v = rt.st.new_obj('value', 'undef')
                            v.t[0][0].meta['size'] = rt.vsize
                            rt.value(v, ('FLOAT', new))
                            args.append(v)
                        else:
                            args += [new, rt.VT['FLOAT']]
                    rs, reached = run_fn(rt, f, args)
                    C.analysed |= reached
                    what = '%s(%d) with %d global variables%s' % (f, idx, ng, '' if started else ' not yet allocated')
                    good = started and 0 <= idx < ng
                    if not verdict(T, C, 'C22/global-index', what, rs, good, f) or not good:
                        continue
                    st = rs[0].st
                    bad = [e[1] for e in st.events() if e[0] == 'bad']
                    if f == get:
                        v = rs[0].val
                        t, p = (v.v[1], v.v[0]) if isinstance(v, AggV) else rt.read(st, out)
                        if t != rt.VT['INT'] or p is not cells[idx][1]:
                            bad.append('the result is (%s, %r)' % (rt.VN.get(t, t), p))
                    for k in range(ng):
                        t, p = rt.read(st, rt.gslot(k))
                        w = (rt.VT['FLOAT'], new) if f == setg and k == idx else (rt.VT['INT'], cells[k][1])
                        if t != w[0] or p is not w[1]:
                            bad.append('global variable %d is (%s, %r)' % (k, rt.VN.get(t, t), p))
                    if bad:
                        C.fail('C22/global', '%s: %s' % (what, '; '.join(bad[:3])), T.where(f))
                    else:
                        C.ok()


def verdict(T, C, key, what, rs, good, f):
    """returns exactly when it should; otherwise stops without having done anything"""
    if len(rs) != 1:
        C.undecide('%s has %d outcomes' % (what, len(rs)))
        return False
    r = rs[0]
    if good:
        if r.kind != 'ret':
            C.fail(key, '%s: ends with %s (%s)' % (what, r.kind, r.val), T.where(f))
            return False
        C.ok(what)
        return True
    if r.kind != 'exit':
        C.fail(key, '%s is not caught (%s %s)' % (what, r.kind, r.val if r.kind != 'ret' else ''), T.where(f))
        return False
    C.ok(what)
    return True


# ------------------------------------------------------------------ looking up names
def names(T, C):
    e = T.m.enums()
    kinds = sorted(k for k in e if k.startswith('TINY_SYM_'))
    if 'TINY_SYM_GLOBAL' not in kinds or 'TINY_SYM_FUNCTION' not in kinds:
        raise Missing('symbol kinds')
    gi, fi = T.fn('Tiny_GetGlobalIndex'), T.fn('Tiny_GetFunctionIndex')
    tables = [[]]
    for k in kinds:
        tables.append([(k, 'x')])
        tables.append([(k, 'xy'), (k, 'x'), (k, 'y')])
        tables.append([(k, 'y'), ('TINY_SYM_GLOBAL', 'x'), ('TINY_SYM_FUNCTION', 'x'), (k, 'x')])
        tables.append([(k, 'x'), ('TINY_SYM_FUNCTION', 'x'), ('TINY_SYM_GLOBAL', 'x')])
        tables.append([(k, 'x'), ('TINY_SYM_FUNCTION', 'X'), ('TINY_SYM_GLOBAL', 'xx'), ('TINY_SYM_GLOBAL', '')])
    for tab in tables:
        for f, kind, field in ((gi, 'TINY_SYM_GLOBAL', 'var.index'), (fi, 'TINY_SYM_FUNCTION', 'func.index')):
            st = State()
            syms = []
            for n, (k, name) in enumerate(tab):
                s = T.obj(st, 'Tiny_Symbol', 'sym%d' % n, 'init', type=e[k])
                T.set(st, s, 'Tiny_Symbol', 'name', T.cstr(st, name))
                if k in ('TINY_SYM_GLOBAL', 'TINY_SYM_LOCAL'):
                    T.set(st, s, 'Tiny_Symbol', 'var.index', 100 + n)
                elif k == 'TINY_SYM_FUNCTION':
                    T.set(st, s, 'Tiny_Symbol', 'func.index', 200 + n)
                syms.append(s)
            state = T.obj(st, 'Tiny_State', 'state', 'init')
            T.set(st, state, 'Tiny_State', 'globalSymbols',
                  T.stretchy(st, 'symbols', [[(0, 8, s)] for s in syms], 8) if syms else 0)
            want = [n for n, (k, name) in enumerate(tab) if k == kind and name == 'x']
            wants = {(100 if kind == 'TINY_SYM_GLOBAL' else 200) + n for n in want[:1]} or {-1}
            en = Engine(T.m, max_visits=100)
            rs = en.run(f, [state, T.cstr(st, 'x')], st)
            C.analysed |= en.reached
            what = '%s among %s' % (f, ', '.join('%s %s' % (k[9:].lower(), n) for k, n in tab) or 'nothing')
            if len(rs) != 1 or rs[0].kind != 'ret':
                C.fail('C22/lookup', '%s: %s' % (what, [(r.kind, r.val) for r in rs][:3]), T.where(f))
            elif rs[0].val not in wants:
                C.fail('C22/lookup', '%s: gives %r' % (what, rs[0].val), T.where(f))
            else:
                C.ok(what)


# ------------------------------------------------------------------ running
def running(T, C, vm):
    """a program runs to its end, step by step or at once"""
    def straight(a):
        a.op('PUSH_1').op('SET', 0).op('PUSH_TRUE').op('SET', 1).op('HALT')

    def looped(a):
        a.op('PUSH_0').op('SET', 0)
        top = a.label()
        a.op('GET', 0).op('PUSH_1').op('EQU').op('LOG_NOT')
        x = Asm(a.vm)
        x.pc = a.pc
        x.op('GOTOZ', 0).op('GET', 0).op('ADD1').op('SET', 0).op('GOTO', 0)
        a.op('GOTOZ', x.pc).op('GET', 0).op('ADD1').op('SET', 0).op('GOTO', top).op('PUSH_TRUE').op('SET', 1).op('HALT')
    for name, body in (('a straight program', straight), ('a loop', looped)):
        final = []
        for f in ('Tiny_Run', 'Tiny_ExecuteCycle'):
            rt = Rt(T, 2)
            rt.S('fc', 0)
            a = Asm(vm)
            body(a)
            a.put(rt.st, rt.code)
            steps, r = 0, None
            while steps < 60:
                rs, reached = run_fn(rt, T.fn(f), [rt.thread])
                C.analysed |= reached
                if len(rs) != 1 or rs[0].kind != 'ret':
                    r = None
                    C.fail('C22/run', '%s of %s: %s' % (f, name, [(x.kind, x.val) for x in rs][:3]), T.where(f))
                    break
                r = rs[0]
                rt.st = r.st
                steps += 1
                if f == 'Tiny_Run' or r.val == 0:
                    break
            if r is None:
                continue
            bad = [e[1] for e in rt.st.events() if e[0] == 'bad']
            pc = rt.G('pc')
            if not (type(pc) is int and pc < 0):
                bad.append('the thread is not done (pc %r)' % (pc,))
            if rt.read(rt.st, rt.gslot(0)) != (rt.VT['INT'], 1):
                bad.append('global variable 0 is %r' % (rt.read(rt.st, rt.gslot(0)),))
            t, p = rt.read(rt.st, rt.gslot(1))
            if t != rt.VT['BOOL']:
                bad.append('global variable 1 is %r' % ((t, p),))
            if rt.G('sp') != 0 or rt.G('fc') != 0:
                bad.append('sp %r, fc %r' % (rt.G('sp'), rt.G('fc')))
            if f == 'Tiny_ExecuteCycle' and steps != len(executed(name, a)) + 1:
                bad.append('%d steps report an instruction' % (steps - 1))
            if bad:
                C.fail('C22/run', '%s of %s: %s' % (f, name, '; '.join(bad[:3])), T.where(f))
            else:
                C.ok('%s of %s' % (f, name))
                idle(T, C, rt, rt.st, 'a thread that has finished ' + name)


def executed(name, a):
    if name == 'a straight program':
        return a.starts
    # the loop body runs once: prologue 2, test 5, body 4, test 5, epilogue 3
    return list(range(2 + 5 + 4 + 5 + 3))


def run(T, C):
    vm = VM(T)
    L = natives.Lib(T)
    life(T, C)
    names(T, C)
    running(T, C, vm)
    indexes(T, C, vm)
    calls(T, C, vm)
    reentry(T, C, vm, L)
