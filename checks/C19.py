"""Collection keeps exactly what the program can still reach."""
import itertools
from rtworld import *
from vm import VM
import natives

LEVEL = 'other'
FLOOR = 2000
RULE = ('The collector is reached through the execution of one instruction on threads whose heap is every graph of up to three '
        'structs with one field and two structs with two fields, and every kind of object (structs, strings of both '
        'representations, natives with and without callbacks), referenced from every kind of root; and through every '
        'instruction of the machine with objects in all its operands. After an instruction that collects, every object '
        'reachable from the stack, the global variables and the return value must still be allocated, in the list and '
        'unmarked, every other object must have been finalised (once, with its address and context, before release) and '
        'released once, and the count of objects must be the length of the list; when no collection is due nothing is '
        'released. Allocation functions never release anything and list the new object. The mark callbacks of the '
        'library\'s own containers must protect every value they hold.')


def judge(rt, r, due, before, what):
    """problems of one finished path"""
    T, st = rt.T, r.st
    ev = st.events()
    bad = [e[1] for e in ev if e[0] == 'bad']
    live = st.x.get('live', frozenset())
    reach = rt.reach(st)
    if reach is None:
        return [rt.undefined] if rt.undefined else None
    lst = rt.listed(st)
    if lst is None:
        return ['the list of objects is not terminated']
    dead = [n for n, p in rt.objs.items() if p.t[0][0] not in live]
    names = {p: n for n, p in rt.objs.items()}
    nm = lambda p: names.get(p, 'the new object')
    for p in reach:
        if p.t[0][0] not in live:
            bad.append('%s (%s) is released although the program can still reach it' % (nm(p), rt.kind.get(p, '')))
        elif p not in lst:
            bad.append('%s is no longer in the list of objects' % nm(p))
    for p in lst:
        if p.t[0][0] not in live:
            bad.append('the list of objects contains a released object')
        elif T.get(st, p, 'Tiny_Object', 'marked') != 0:
            bad.append('%s stays marked' % nm(p))
        if lst.count(p) > 1:
            bad.append('%s is in the list twice' % nm(p))
    for n, atoms in rt.owned.items():
        for a in atoms:
            if (a in live) == (n in dead):
                bad.append('what %s (%s) owns is %s' % (n, rt.kind[rt.objs[n]], 'kept' if n in dead else 'released'))
                break
    fin = [e for e in ev if e[0] == 'finalize']
    frees = [e[1] for e in ev if e[0] == 'free']
    if due:
        for n, p in rt.objs.items():
            if not any(p is q for q in reach) and n not in dead:
                bad.append('%s (%s) stays allocated although nothing refers to it' % (n, rt.kind[p]))
    elif frees or fin:
        bad.append('objects are released although no collection is due')
    if rt.G('numObjects', st) != len(lst):
        bad.append('the object count is %r, the list has %d' % (rt.G('numObjects', st), len(lst)))
    for n, p in rt.objs.items():
        gone = n in dead
        k = rt.kind[p]
        if k == 'native':
            ad = T.get(before, p, 'Tiny_Object', 'nat.addr')
            mine = [e for e in fin if e[2] is ad]
            if len(mine) != (1 if gone else 0):
                bad.append('%s is finalised %d times' % (n, len(mine)))
            elif mine and mine[0][1] is not rt.addr('ctx'):
                bad.append('%s is finalised with another context' % n)
            elif mine and gone:
                i1 = [j for j, e in enumerate(ev) if e is mine[0]]
                i2 = [j for j, e in enumerate(ev) if e[0] == 'free' and e[1] is p]
                if i2 and i2[0] < i1[0]:
                    bad.append('%s is finalised after its release' % n)
        if k == 'string':
            tx = T.get(before, p, 'Tiny_Object', 'string.ptr')
            if (tx.t[0][0] in live) == gone:
                bad.append('the text of %s is %s' % (n, 'kept' if gone else 'released'))
    return bad


def world(T, code, vals=(), nglobals=2):
    rt = Rt(T, nglobals, code)
    return rt


def execute(rt, due, foreign=None, fn='Tiny_ExecuteCycle', args=None, visits=60):
    en = Engine(rt.m, max_visits=visits)
    en.max_frames = max(60, visits // 10)
    rt.install(en, foreign)
    n = rt.G('numObjects')
    if fn != 'Tiny_DestroyThread':
        rt.S('maxNumObjects', n if due is True else due if due else 1 << 20)
    before = rt.st.clone()
    rs = en.run(rt.T.fn(fn), args if args is not None else [rt.thread], rt.st)
    return rs, before, en.reached


def settle(T, C, rt, rs, before, due, key, what, strict=True):
    for r in rs:
        if r.kind == 'cut':
            C.fail(key, '%s: does not finish' % what, T.loc(r.where))
            continue
        if r.kind != 'ret':
            if r.kind in ('crash', 'bad') or strict:
                C.fail(key, '%s: %s' % (what, r.val), T.loc(r.where))
            continue
        bad = judge(rt, r, due, before, what)
        if bad is None:
            C.undecide(what)
        elif bad:
            C.fail(key, '%s: %s' % (what, '; '.join(bad[:3])), T.where('Tiny_ExecuteCycle'))
        else:
            C.ok(what)


ROOTS = ('stack', 'global', 'retVal', 'none')


def root(rt, where, v, k=0):
    if where == 'stack':
        rt.push(v)
    elif where == 'global':
        rt.value(rt.gslot(k), v)
    elif where == 'retVal':
        rt.value(rt.addr('retVal'), v)


def graphs(T, C):
    """every small graph of structs"""
    op = Rt(T).OP['PUSH_TRUE']
    for nobj, nf in ((3, 1), (2, 2)):
        names = ['A', 'B', 'C'][:nobj]
        opts = [None] + names
        for edges in itertools.product(opts, repeat=nobj * nf):
            for rooted in itertools.product((0, 1), repeat=nobj):
                # the last root kind varies with the graph so that all kinds meet all shapes
                rt = world(T, [op])
                for n in names:
                    rt.new(n, 'struct', nf)
                for k, e in enumerate(edges):
                    rt.field(names[k // nf], k % nf, e)
                h = (hash_(edges) + sum(rooted)) % 3
                for k, n in enumerate(names):
                    if rooted[k]:
                        root(rt, ROOTS[(h + k) % 3], n, k % 2)
                rs, before, reached = execute(rt, True)
                C.analysed |= reached
                settle(T, C, rt, rs, before, True, 'C19/graph', 'structs with fields %s, roots %s' % (
                    '/'.join(str(e) for e in edges), ''.join(n for n, x in zip(names, rooted) if x) or 'none'))


def hash_(edges):
    return sum((k + 1) * (0 if e is None else ord(e)) for k, e in enumerate(edges))


def kinds(T, C):
    """every kind of object in every kind of root, directly and in a struct, next to a dead one"""
    op = Rt(T).OP['PUSH_TRUE']
    for kind in ('struct', 'string', 'embedded', 'native', 'plain', 'bare'):
        for where in ROOTS:
            for inside in (False, True):
                for due in (True, False):
                    for order in (0, 1):
                        rt = world(T, [op])
                        mk = [lambda: rt.new('X', kind, 1), lambda: rt.new('dead', kind, 1)]
                        for f in (mk if order else mk[::-1]):
                            f()
                        if inside:
                            rt.new('S', 'struct', 3)
                            rt.field('S', 1, 'X')
                            rt.field('S', 0, ('INT', 5))
                        root(rt, where, 'S' if inside else 'X', 1)
                        rs, before, reached = execute(rt, due)
                        C.analysed |= reached
                        settle(T, C, rt, rs, before, due, 'C19/kind/' + kind, '%s %s in %s%s, collection %sdue' % (
                            kind, 'in a struct' if inside else '', where, '', '' if due else 'not '))
    # several stack slots, none missed at either end
    for n in range(1, 6):
        rt = world(T, [op])
        for k in range(n):
            rt.new('X%d' % k, 'string' if k % 2 else 'embedded')
            rt.push('X%d' % k)
        rt.new('dead', 'string')
        # what lies above the top of the stack is not in use
        rt.value(rt.slot(n + 1), 'dead')
        rs, before, reached = execute(rt, True)
        settle(T, C, rt, rs, before, True, 'C19/stack', '%d objects on the stack' % n)
    for n in range(0, 5):
        rt = world(T, [op], nglobals=n)
        for k in range(n):
            rt.new('X%d' % k, 'string' if k % 2 else 'embedded')
            root(rt, 'global', 'X%d' % k, k)
        rt.new('dead', 'native')
        rs, before, reached = execute(rt, True)
        settle(T, C, rt, rs, before, True, 'C19/globals', '%d objects in global variables' % n)
    # a native's own references, protected by its callback
    for where in ROOTS:
        rt = world(T, [op])
        p = rt.new('N', 'native')
        c = rt.new('X', 'string')
        rt.new('dead', 'embedded')
        rt.children[T.get(rt.st, p, 'Tiny_Object', 'nat.addr')] = [c]
        root(rt, where, 'N')
        rs, before, reached = execute(rt, True)
        settle(T, C, rt, rs, before, True, 'C19/native', 'a native in %s which refers to a string' % where)


def marks(n):
    """places in a table of n at which a limit would show"""
    return sorted({k + d for j in range(14) for k in (1 << j, 100, 1000) for d in (-1, 0, 1) if 0 <= k + d < n} | {n - 1})


def large(T, C):
    """full stacks, many globals, wide structs, long chains and many objects: no table is only looked at in part"""
    op = Rt(T).OP['PUSH_TRUE']

    def judge_(rt, key, what):
        rs, before, reached = execute(rt, True, visits=20000)
        C.analysed |= reached
        settle(T, C, rt, rs, before, True, key, what)
    depth = T.fsize('Tiny_StateThread', 'stack') // T.size('Tiny_Value')
    for n in (depth - 1,):
        rt = world(T, [op])
        at = marks(n)
        for k in range(n):
            if k in at:
                rt.new('X%d' % k, 'string' if k % 2 else 'embedded')
            rt.value(rt.slot(k), 'X%d' % k if k in at else ('INT', k))
        rt.S('sp', n)
        rt.new('dead', 'string')
        judge_(rt, 'C19/stack', 'a stack of %d values' % n)
    for n in (1100,):
        rt = world(T, [op], nglobals=n)
        for k in marks(n):
            rt.new('X%d' % k, 'string' if k % 2 else 'embedded')
            rt.value(rt.gslot(k), 'X%d' % k)
        rt.new('dead', 'string')
        judge_(rt, 'C19/globals', '%d global variables' % n)
    rt = world(T, [op])
    rt.new('S', 'struct', 255)
    for k in marks(255):
        rt.new('X%d' % k, 'string' if k % 2 else 'embedded')
        rt.field('S', k, 'X%d' % k)
    rt.new('dead', 'struct', 255)
    root(rt, 'stack', 'S')
    judge_(rt, 'C19/graph', 'a struct of 255 fields')
    for n in (500,):
        for last in (True, False):
            rt = world(T, [op])
            for k in range(n):
                rt.new('X%d' % k, 'struct', 2)
                if k:
                    rt.field('X%d' % (k - 1), 1 if last else 0, 'X%d' % k)
            rt.new('dead', 'string')
            root(rt, 'global', 'X0')
            judge_(rt, 'C19/graph', 'a chain of %d structs' % n)
    # many objects, most of them dead, the live ones anywhere in the list
    n = 2100
    rt = world(T, [op])
    at = marks(n)
    for k in range(n):
        rt.new('X%d' % k, ('string', 'embedded', 'plain')[k % 3])
        if k in at and rt.G('sp') < depth - 2:
            rt.push('X%d' % k)
    judge_(rt, 'C19/many', '%d objects of which %d are on the stack' % (n, len(at)))
    # containers with many values
    L = natives.Lib(T)
    L.arrays('any', 'arr_any')
    I = ('INT', 5)
    for n in (250,):
        for k in (n - 1, n // 2):
            vals = [I] * n
            vals[k] = 'A'
            for name in ('arr_any', 'dict'):
                v = vals if name != 'dict' else [x for j in range(n // 2) for x in (('INT', j), 'A' if j == k // 2 else I)]
                contain(T, C, L, name, v, ['A'], [], 'global', op, visits=20000)
    # an array of ints is given something to keep at any place
    L.arrays('int', 'arr_int')
    for k in (4, 5, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 249):
        vals = [I] * 250
        vals[k] = 'A'
        contain(T, C, L, 'arr_int', vals[:max(20, k + 1)], ['A'], [], 'global', op, visits=20000)
    for k in (253, 700, 1099):
        contain(T, C, L, 'arr_any', [I] * 250, ['A'], [('arr_any_push', 'A' if j == k else I) for j in range(250, 1100)], 'global', op, visits=20000)
    for k in (0, 300, 599):
        contain(T, C, L, 'dict', [], ['A'], [('dict_put', ('INT', j), 'A' if j == k else I) for j in range(600)], 'global', op, visits=20000)


def instructions(T, C):
    """every instruction with objects in its operands, collecting afterwards"""
    vm = VM(T)
    for name, opc in sorted(vm.ops.items()):
        dec = vm.decode(opc, 0)
        if dec is None:
            continue
        for v in (0, 1, 2):
            for shape in range(5):
                for due in (True, False):
                    try:
                        instr(T, C, name, opc, dec, v, shape, due)
                    except E.Limit as e:
                        C.undecide('%s %d, shape %d: %s' % (name, v, shape, e))


def containers(T, C):
    """the containers of the library, made by their own constructors, keep what they hold"""
    L = natives.Lib(T)
    op = Rt(T).OP['PUSH_TRUE']
    I, F, K = ('INT', 5), ('FLOAT', 0), ('INT', 7)
    cases = []
    for elem in ('int', 'str', 'any', 'Foo'):
        name = 'arr_' + elem
        L.arrays(elem, name)
        for vals in ([], ['A'], ['A', 'B', 'C'], [I, 'A'], ['A', I], [I, None, 'B', I], ['N'], ['S'], ['B', 'S', 'N', 'A'], [I, I]):
            cases.append((name, vals, vals, [[]]))
        cases.append((name, [], ['A', 'B'], [[(name + '_push', 'A'), (name + '_push', 'B')]]))
        if elem != 'int':
            cases.append((name, [I], ['A'], [[(name + '_set', ('INT', 0), 'A')], [(name + '_set_index', ('INT', 0), 'A')]]))
            cases.append((name, [], ['A'], [[(name + '_resize_fill', ('INT', 2), 'A')]]))
            cases.append((name, [I], ['A'], [[(name + '_insert', ('INT', 0), 'A')]]))
        else:
            cases.pop()
    for name in ('dict', 'dict_str_int'):
        for vals in ([], [I, 'A'], ['A', I], [I, 'A', K, 'B'], ['A', 'B'], [I, 'S', K, I], [K, 'N']):
            if L.by.get(name):
                cases.append((name, vals, vals, [[]]))
    for put in ('dict_put', 'dict_set_index'):
        cases.append(('dict', [], ['A'], [[(put, I, 'A')]]))
        cases.append(('dict', [I, 'B'], ['A'], [[(put, I, 'A')]]))
    cases.append(('dict', [I, 'A', K, 'B'], [], [[('dict_clear',)]]))
    cases.append(('dict', [I, 'A', K, 'B'], ['B'], [[('dict_remove', I)]]))
    keys = [('dict_keys', ['A', I, K, 'B'], ['A']), ('dict_values', ['A', I, K, 'B'], ['B'])]
    for name, vals, kept, histories in cases:
        for hist in histories:
            for where in ('stack', 'retVal', 'global', 'none'):
                contain(T, C, L, name, vals, kept, hist, where, op)
    for name, vals, kept in keys:
        for where in ('stack', 'none'):
            contain(T, C, L, 'dict', vals, kept, [(name,)], where, op, view=True)
    C.analysed |= L.reached


def contain(T, C, L, name, vals, kept, hist, where, op, view=False, visits=600):
    rt = Rt(T, 2, [op])
    for n, k in (('A', 'string'), ('B', 'embedded'), ('C', 'embedded'), ('N', 'native'), ('D', 'string')):
        rt.new(n, k)
    rt.new('S', 'struct', 1)
    rt.field('S', 0, 'D')
    # the two strings differ so that they are different keys
    st = rt.st
    q = T.get(st, rt.objs['B'], 'Tiny_Object', 'string.ptr')
    st.store(q, 1, 120)
    what = '%s(%s)%s in %s' % (name, ', '.join(show(x) for x in vals) if len(vals) < 20 else '%d values' % len(vals), ''.join(' %s(%s)' % (
        h[0], ', '.join(show(x) for x in h[1:])) for h in hist[:3]) + (' and %d more' % (len(hist) - 3) if len(hist) > 3 else ''), where)
    before = rt.st.x['live']
    obj = None
    for step in [(name,) + tuple(vals)] + [tuple(h) for h in hist]:
        args = list(step[1:]) if obj is None else ['obj'] + list(step[1:])
        rs, reached = natives.call(rt, L.fn(step[0]), args, visits=visits)
        C.analysed |= reached
        rs = [r for r in rs if (r.kind, r.val) != ('exit', 'assert')]
        if len(rs) != 1 or rs[0].kind != 'ret':
            bad = [r for r in rs if r.kind != 'ret']
            if bad:
                C.fail('C19/library/' + step[0], '%s: %s ends with %s (%s)' % (what, step[0], bad[0].kind, bad[0].val), T.loc(bad[0].where))
            else:
                C.undecide(what)
            return
        rt.st = rs[0].st
        ev = [e[1] for e in rt.st.events() if e[0] == 'bad']
        if ev or [e for e in rt.st.events() if e[0] == 'finalize']:
            C.fail('C19/library/' + step[0], '%s: %s' % (what, ev[0] if ev else 'an object is finalised'), T.where(L.fn(step[0])))
            return
        ty, p = natives.result(rs[0])
        if obj is None or view:
            if obj is not None:
                # the new container; the old one is garbage from here on
                old = rt.objs['obj']
                rt.children[T.get(rt.st, old, 'Tiny_Object', 'nat.addr')] = [rt.objs[x] for x in vals if isinstance(x, str)]
                rt.objs['old'] = rt.objs.pop('obj')
                rt.owned['old'] = rt.owned.pop('obj')
                before = rt.before
            if ty != rt.VT['NATIVE'] or rt.h.base(p) is None:
                C.fail('C19/library/' + step[0], '%s: %s does not return an object' % (what, step[0]), T.where(L.fn(step[0])))
                return
            obj = p
            rt.objs['obj'] = p
            rt.kind[p] = 'container'
            rt.before = rt.st.x['live']
        rt.owned['obj'] = [a for a in rt.st.x['live'] - before if a is not obj.t[0][0] and a not in
                           [b for k, v in rt.owned.items() if k != 'obj' for b in v]
                           and a not in [q.t[0][0] for q in rt.objs.values()]]
    rt.children[T.get(rt.st, obj, 'Tiny_Object', 'nat.addr')] = [rt.objs[x] for x in kept if isinstance(x, str)]
    root(rt, where, 'obj', 1)
    rt.st.trim() if hasattr(rt.st, 'trim') else None
    rs, before, reached = execute(rt, True, visits=visits)
    C.analysed |= reached
    settle(T, C, rt, rs, before, True, 'C19/library/' + name, what)


def show(x):
    return x if isinstance(x, str) else 'null' if x is None else '%s %s' % (x[0].lower(), x[1])


def instr(T, C, name, opc, dec, v, shape, due):
    rt = Rt(T, 3, [opc])
    st = rt.st
    for o, sz in dec['operands']:
        st.store(rt.code, sz, v, o)
    for k in range(4):
        st.store(rt.fpcs, 4, 100, 4 * k)
    for n in ('P', 'Q', 'R'):
        rt.new(n, 'struct', 3)
    for n, k in (('s1', 'string'), ('s2', 'embedded'), ('n1', 'native'), ('g1', 'string'), ('r1', 'native'), ('f1', 'string'),
                 ('f2', 'embedded'), ('f3', 'native'), ('dead', 'native'), ('dead2', 'string')):
        rt.new(n, k)
    rt.field('P', 0, 'f1')
    rt.field('P', 1, 'f2')
    rt.field('P', 2, 'f3')
    rt.field('Q', 1, 'P')
    rt.value(rt.gslot(0), 'g1')
    rt.value(rt.gslot(1), 'Q')
    rt.value(rt.gslot(2), None)
    rt.value(rt.addr('retVal'), 'r1')
    stack = {0: ['s1', 's2', 'n1', 'R', 'P'], 1: ['s1', 'P', 'R', ('INT', 3), ('INT', 4)],
             2: ['P', 's1', 's2', 'R', ('BOOL', 1)], 3: ['s1', 's2', 'n1', 's1', 'P'], 4: ['R', 's2', 'n1', 's1', 's2']}[shape]
    if name in ('ADD1', 'SUB1') and stack[-1][0] != 'INT':
        return                             # only emitted for integers (C04)
    for x in stack:
        rt.push(x)
    rt.S('fp', 2)
    rt.S('fc', 2)
    fo = T.off('Tiny_StateThread', 'frames') + T.size('Tiny_Frame')
    for f, x in (('pc', 200), ('fp', 0)):
        st.store(rt.thread, 4, x, fo + T.off('Tiny_Frame', f))
    st.store(rt.thread, 1, 1, fo + T.off('Tiny_Frame', 'nargs'))

    def foreign(e, s, target, args, inst):
        # a native function which returns a new string object
        p = rt.h.fresh(s, T.size('Tiny_Object') + 4, None)
        for f, x in (('marked', 0), ('type', rt.VT['STRING']), ('next', rt.G('gcHead', s)), ('string.len', 3),
                     ('string.ptr', add(p, T.size('Tiny_Object')))):
            T.set(s, p, 'Tiny_Object', f, x)
        rt.S('gcHead', p, s)
        rt.S('numObjects', rt.G('numObjects', s) + 1, s)
        return AggV([p, rt.VT['STRING']])
    rs, before, reached = execute(rt, due and rt.G('numObjects'), foreign)
    C.analysed |= reached
    settle(T, C, rt, rs, before, due, 'C19/op/' + name, '%s %d with %s on the stack, collection %sdue' % (
        name, v, ' '.join(x if isinstance(x, str) else x[0].lower() for x in stack), '' if due else 'not '), strict=False)


# ------------------------------------------------------------------ allocation
def allocation(T, C):
    for f, kind in (('Tiny_NewString', 'string'), ('Tiny_NewStringNullTerminated', 'string'), ('Tiny_NewStringCopy', 'embedded'),
                    ('Tiny_NewStringCopyNullTerminated', 'embedded'), ('Tiny_NewNative', 'native')):
        T.fn(f)
        for n in range(3):
            rt = Rt(T)
            for k in range(n):
                rt.new('X%d' % k, ('native', 'string')[k % 2])
            text = rt.h.cstr(rt.st, 'some text', 'text') if kind == 'string' else T.cstr(rt.st, 'some text', 'text')
            prop = rt.st.new_obj('prop', 'init')
            addr = fresh('address', 64)
            args = {'Tiny_NewString': [rt.thread, text, 4], 'Tiny_NewStringNullTerminated': [rt.thread, text],
                    'Tiny_NewStringCopy': [rt.thread, text, 4], 'Tiny_NewStringCopyNullTerminated': [rt.thread, text],
                    'Tiny_NewNative': [rt.thread, addr, prop]}[f]
            ln = 4 if len(args) == 3 else 9
            old = rt.G('gcHead')
            rs, before, reached = execute(rt, 1, None, f, args)
            C.analysed |= reached
            what = '%s with %d objects' % (f, n)
            for r in rs:
                if r.kind != 'ret':
                    C.fail('C19/new/' + f, '%s: ends with %s (%s)' % (what, r.kind, r.val), T.where(f))
                    continue
                st = r.st
                bad = [e[1] for e in st.events() if e[0] == 'bad']
                if [e for e in st.events() if e[0] in ('free', 'finalize')]:
                    bad.append('it releases objects the host may still use')
                lst = rt.listed(st)
                v = r.val
                ty, p = (v.v[1], v.v[0]) if isinstance(v, AggV) else (None, None)
                if lst is None or len(lst) != n + 1 or not any(p is x for x in lst):
                    bad.append('the new object is not in the list of the thread\'s objects exactly once')
                elif rt.G('numObjects', st) != n + 1:
                    bad.append('the object count is %r after %d objects' % (rt.G('numObjects', st), n + 1))
                else:
                    Q = lambda m: T.get(st, p, 'Tiny_Object', m)
                    want = rt.VT['NATIVE' if kind == 'native' else 'STRING']
                    if ty != want or Q('type') != want:
                        bad.append('its type is %r/%r' % (ty, Q('type')))
                    if Q('marked') != 0:
                        bad.append('it is born marked')
                    if kind == 'native':
                        if Q('nat.addr') is not addr or Q('nat.prop') is not prop:
                            bad.append('its address or properties are not the given ones')
                    else:
                        if Q('string.len') != ln:
                            bad.append('its length is %r' % (Q('string.len'),))
                        tp = Q('string.ptr')
                        if kind == 'string' and tp is not text:
                            bad.append('its text is not the given one')
                        elif kind == 'embedded':
                            b = E.cstring(None, st, tp, 100)
                            if b != b'some text'[:ln]:
                                bad.append('its text is %r' % (b,))
                            if tp is text:
                                bad.append('its text is not a copy')
                if bad:
                    C.fail('C19/new/' + f, '%s: %s' % (what, '; '.join(bad[:3])), T.where(f))
                else:
                    C.ok(what)


# ------------------------------------------------------------------ the end of a thread
def destroy(T, C):
    f = T.fn('Tiny_DestroyThread')
    for kinds_ in [()] + [(k,) for k in ('struct', 'string', 'embedded', 'native', 'plain', 'bare')] + [
            ('native', 'native', 'string'), ('struct', 'embedded', 'native', 'string', 'bare')]:
        for ng, busy in ((0, False), (2, False), (0, True), (2, True), (40, False)):
            rt = Rt(T, ng)
            if not ng:
                rt.st.x['live'] = rt.st.x['live'] - {rt.globals.t[0][0]}
            for k, kd in enumerate(kinds_):
                rt.new('X%d' % k, kd, 1)
            if kinds_ and ng:
                root(rt, 'global', 'X0')
            if busy:
                # destroyed in the middle of a program, inside of two calls
                for k in range(3):
                    rt.push('X0' if kinds_ and k == 1 else ('INT', fresh('slot', 64)))
                if kinds_:
                    rt.value(rt.addr('retVal'), 'X%d' % (len(kinds_) - 1))
                for m, x in (('pc', fresh('pc', 32, 0, 1000)), ('fp', 2), ('fc', 2)):
                    rt.S(m, x)
            rs, before, reached = execute(rt, False, None, f)
            C.analysed |= reached
            what = 'end of a %sthread with %s and %d globals' % ('running ' if busy else '', ', '.join(kinds_) or 'no objects', ng)
            for r in rs:
                if r.kind != 'ret':
                    C.fail('C19/destroy', '%s: ends with %s (%s)' % (what, r.kind, r.val), T.loc(r.where))
                    continue
                ev = r.st.events()
                bad = [e[1] for e in ev if e[0] == 'bad']
                left = r.st.x.get('live', frozenset())
                if left:
                    bad.append('%s stays allocated' % ', '.join(sorted(a.name for a in left)))
                for n, p in rt.objs.items():
                    if rt.kind[p] == 'native':
                        ad = T.get(before, p, 'Tiny_Object', 'nat.addr')
                        k = len([e for e in ev if e[0] == 'finalize' and e[2] is ad and e[1] is rt.addr('ctx')])
                        if k != 1:
                            bad.append('%s is finalised %d times' % (n, k))
                if len([e for e in ev if e[0] == 'finalize']) != len([1 for k in kinds_ if k == 'native']):
                    bad.append('something that is not a native with a finaliser is finalised')
                if bad:
                    C.fail('C19/destroy', '%s: %s' % (what, '; '.join(bad[:3])), T.where(f))
                else:
                    C.ok(what)


def run(T, C):
    graphs(T, C)
    kinds(T, C)
    large(T, C)
    instructions(T, C)
    containers(T, C)
    allocation(T, C)
    destroy(T, C)
