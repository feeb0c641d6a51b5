"""An array is a sequence."""
import itertools
from libplay import *

LEVEL = 'other'
FLOOR = 1500
RULE = ('The functions `use array` binds are found by interpreting the macro for every kind of element type. Every one of them '
        'is then interpreted on arrays of every length up to four with every amount of spare room (reached by constructing, '
        'pushing, popping and shifting), with opaque values of every kind, every index from two below to two above the '
        'bounds and the integers which differ from a valid index only in their upper half; the array is read back through '
        'its own length and get functions and compared with a sequence to which the same operation was applied. An index '
        'outside the array must stop the program instead. No access may leave the allocated blocks and no block may be lost.')

STOP = 'stop'


def apply(op, s, args, elems):
    """the reference: (new contents, result) or STOP"""
    def ix(k, hi):
        return type(k) is int and 0 <= k < hi
    n = len(s)
    if op == 'len':
        return s, ('INT', n)
    if op in ('get', 'get_index'):
        return (s, elems(s[args[0][1]])) if ix(args[0][1], n) else STOP
    if op in ('set', 'set_index'):
        return (s[:args[0][1]] + [args[1]] + s[args[0][1] + 1:], NULL) if ix(args[0][1], n) else STOP
    if op == 'push':
        return s + [args[0]], NULL
    if op == 'pop':
        return (s[:-1], elems(s[-1])) if n else STOP
    if op == 'shift':
        return (s[1:], elems(s[0])) if n else STOP
    if op == 'remove':
        return (s[:args[0][1]] + s[args[0][1] + 1:], NULL) if ix(args[0][1], n) else STOP
    if op == 'insert':
        return (s[:args[0][1]] + [args[1]] + s[args[0][1]:], NULL) if ix(args[0][1], n) else STOP
    if op == 'clear':
        return [], NULL
    if op == 'resize':
        return (s[:args[0][1]] + [None] * (args[0][1] - n), NULL) if args[0][1] >= 0 else STOP
    if op == 'resize_fill':
        return (s[:args[0][1]] + [args[1]] * (args[0][1] - n), NULL) if args[0][1] >= 0 else STOP
    return None


# how to reach an array of n elements with different amounts of spare room: (constructor values, operations)
def ways(n, val):
    yield [val(k) for k in range(n)], []
    yield [], [('push', k) for k in range(n)]
    if n < 4:
        yield [val(k) for k in range(n + 1)], [('pop',)]
        yield [val(k) for k in range(n + 1)], [('shift',)]
    if n < 3:
        yield [val(k) for k in range(n + 2)], [('remove', 0), ('pop',)]
    if n == 0:
        yield [val(k) for k in range(3)], [('clear',)]


def kinds_of(elem):
    if elem == 'int':
        return lambda k: ('INT', 100 + k * 1000003)
    if elem == 'float':
        return lambda k: ('FLOAT', fresh('f%d' % k, 64))
    if elem == 'bool':
        return lambda k: ('BOOL', k & 1)
    if elem == 'str':
        return lambda k: 'XY'[k % 2]
    mixed = [('INT', 77), 'X', None, 'N', ('FLOAT', fresh('g', 64)), ('BOOL', 1), 'S', ('LIGHT_NATIVE', fresh('a', 64))]
    return lambda k: mixed[k % len(mixed)]


def world(T, L):
    p = Play(T, L)
    rt = p.rt
    rt.new('X', 'string')
    rt.new('Y', 'embedded')
    rt.new('N', 'native')
    rt.new('S', 'struct', 1)
    rt.new('Z', 'string')
    return p


def setup(p, name, ctor, hist, val):
    v = p.make(name, *ctor)
    if v is None or v[0] != 'value' or 'obj' not in p.rt.objs:
        return v, None
    s = list(ctor)
    for h in hist:
        op, args = h[0], []
        if op == 'push':
            args = [val(h[1])]
        elif op == 'remove':
            args = [('INT', h[1])]
        r = p.call(name + '_' + op, 'obj', *args)
        want = apply(op, s, args, p.meaning)
        if r is None or r[0] != 'value':
            return r, None
        s = want[0]
    return v, s


def check(p, name, s):
    """compare the array with the sequence; -> problem or None"""
    r = p.call(name + '_len', 'obj')
    if r is None:
        return None, True
    if r[0] != 'value' or not same(r[1], ('INT', len(s))):
        return 'its length is %s, not %d' % (show(r[1]) if r[0] == 'value' else r[1].val, len(s)), False
    for k, x in enumerate(s):
        r = p.call(name + '_get', 'obj', ('INT', k))
        if r is None:
            return None, True
        if r[0] != 'value' or not same(r[1], p.meaning(x)):
            return 'element %d is %s, not %s' % (k, show(r[1]) if r[0] == 'value' else r[1].val, show(p.meaning(x))), False
    return None, False


def one(T, C, L, name, elem, ctor, hist, op, args, n):
    val = kinds_of(elem)
    p = world(T, L)
    key = 'C20/' + op
    what = 'array of %s: %d elements (%s%s), %s(%s)' % (elem, n, 'made with %d' % len(ctor), ''.join(', ' + h[0] for h in hist), op,
                                                     ', '.join(show(a) for a in args))
    v, s = setup(p, name, ctor, hist, val)
    if s is None:
        if v is not None and v[0] == 'stop':
            C.fail('C20/setup', what + ': ends with %s before' % v[1].val, T.loc(v[1].where))
        else:
            C.undecide('%s: %s' % (what, p.vague))
        return
    C.analysed |= p.reached
    want = apply(op, s, args, p.meaning)
    r = p.call(name + '_' + op, 'obj', *args)
    C.analysed |= p.reached
    where = T.where(L.fn(name + '_' + op))
    if r is None:
        C.undecide('%s: %s' % (what, p.vague))
        return
    if want == STOP:
        if stopped(r):
            C.ok(what)
        else:
            C.fail(key, '%s: %s instead of stopping the program' % (
                what, 'returns %s' % show(r[1]) if r[0] == 'value' else r[1].val), where)
        return
    if r[0] != 'value':
        C.fail(key, '%s: ends with %s' % (what, r[1].val), T.loc(r[1].where))
        return
    bad = list(p.bad)
    if not same(r[1], want[1]):
        bad.append('returns %s, not %s' % (show(r[1]), show(want[1])))
    pr, und = check(p, name, want[0])
    if pr:
        bad.append(pr)
    bad += [b for b in p.bad if b not in bad] + p.leaks()
    if und and not bad:
        C.undecide('%s: %s' % (what, p.vague))
    elif bad:
        C.fail(key, '%s: %s' % (what, '; '.join(bad[:3])), where)
    else:
        C.ok(what)


def indexes(n):
    return [-2, -1] + list(range(n + 2)) + [-(1 << 63), (1 << 31) - 1, 1 << 31, 1 << 32, (1 << 32) + max(n - 1, 0), -(1 << 32), (1 << 63) - 1]


def operations(T, C, L):
    elems = ('int', 'str', 'any', 'Foo', 'float', 'bool')
    for elem in elems:
        name = 'arr_' + elem
        out, rs = L.arrays(elem, name)
        have = {x[0][len(name) + 1:] for x in out if x[0] != name}
        missing = [o for o in ('len', 'get', 'get_index', 'set', 'set_index', 'push', 'pop', 'shift', 'remove', 'insert', 'clear',
                               'resize', 'resize_fill') if o not in have]
        if missing:
            C.fail('C20/bound', 'use array(%s) does not bind %s' % (elem, ', '.join(missing)), T.where(L.macros['array']))
        val = kinds_of(elem)
        new = {'str': 'Z', 'Foo': 'S', 'int': ('INT', -5), 'bool': ('BOOL', 1), 'float': ('FLOAT', fresh('new', 64)), 'any': 'Z'}[elem]
        deep = elem in ('int', 'any')
        for n in range(0, 5 if deep else 3):
            for ctor, hist in ways(n, val):
                for op in sorted(have - set(missing)):
                    if op in ('sort',):
                        continue
                    if op in ('len', 'pop', 'shift', 'clear'):
                        alts = [[]]
                    elif op == 'push':
                        alts = [[new]]
                    elif op in ('get', 'get_index', 'remove', 'set', 'set_index', 'insert'):
                        ks = indexes(n) if deep and not hist or n == 1 else range(-1, n + 2)
                        alts = [[('INT', k)] + ([new] if op in ('set', 'set_index', 'insert') else []) for k in ks]
                    elif op in ('resize', 'resize_fill'):
                        alts = [[('INT', k)] + ([new] if op == 'resize_fill' else []) for k in list(range(-1, n + 3)) + [n + 9]]
                    else:
                        continue
                    for a in alts:
                        one(T, C, L, name, elem, ctor, hist, op, a, n)


def long_(T, C, L):
    """growth over several reallocations, mixed operations on one array"""
    name = 'arr_any'
    if name not in L.by:
        L.arrays('any', name)
    val = kinds_of('any')
    for seq in (['push'] * 9, ['push', 'push', 'insert0', 'shift'] * 4, ['push', 'insert0', 'push', 'pop', 'remove0', 'push'] * 3,
                ['push', 'push', 'clear', 'push', 'push'] * 2, ['resize', 'push', 'push', 'insertlast', 'shift', 'resize']):
        p = world(T, L)
        v = p.make(name)
        s, k, done = [], 0, []
        pr = und = None
        for o in seq:
            op, args = o, []
            if o.startswith('insert'):
                op, args = 'insert', [('INT', 0 if o == 'insert0' else len(s) - 1), val(k)]
            elif o.startswith('remove'):
                op, args = 'remove', [('INT', 0)]
            elif o == 'resize':
                args = [('INT', (k * 5) % 4)]
            elif o == 'push':
                args = [val(k)]
            k += 1
            want = apply(op, s, args, p.meaning)
            r = p.call(name + '_' + op, 'obj', *args)
            done.append(op)
            if r is None or want == STOP:
                und = True
                break
            if r[0] != 'value' or not same(r[1], want[1]):
                pr = '%s %s instead of returning %s' % (op, 'returns ' + show(r[1]) if r[0] == 'value' else 'ends with ' + str(r[1].val), show(want[1]))
                break
            s = want[0]
            pr, und = check(p, name, s)
            p.bad += p.leaks()
            if pr or und or p.bad:
                break
        C.analysed |= p.reached
        what = 'history ' + ' '.join(done)
        if pr or p.bad:
            C.fail('C20/history', '%s: %s' % (what, pr or p.bad[0]), T.where(L.fn(name + '_push')))
        elif und:
            C.undecide('%s: %s' % (what, p.vague))
        else:
            C.ok(what)


def places(n):
    """places at which a limit would show"""
    return sorted({k + d for j in range(14) for k in (1 << j, 100, 1000) for d in (-1, 0, 1) if 0 <= k + d < n} | set(range(max(0, n - 3), n)))


def large(T, C, L):
    """long arrays: no operation handles only a part of them"""
    for elem in ('any', 'int'):
        name = 'arr_' + elem
        if name not in L.by:
            L.arrays(elem, name)
        for n in (37, 255, 1100 if C.tier == 'quick' else 5000):
            C_ops = [('len',)] + [(o, k) for o in ('get', 'set', 'insert', 'remove') for k in (0, 1, n // 2, n - 2, n - 1)] + [
                ('get', n), ('set', n), ('insert', n), ('remove', n), ('push',), ('pop',), ('shift',), ('clear',)] + [
                (o, k) for o in ('resize', 'resize_fill') for k in (0, n // 2, n, n + 1, 3 * n)]
            p = world(T, L)
            p.visits = 40000
            s = [('INT', 5 + 3 * k) for k in range(n)]
            first = min(n, 255)
            v = p.make(name, *s[:first])
            what = 'an array of %d' % n
            for x in s[first:]:
                if v is not None and v[0] == 'value':
                    v = p.call(name + '_push', 'obj', x)
            if v is None or v[0] != 'value' or p.bad:
                if v is None:
                    C.undecide('%s: %s' % (what, p.vague))
                else:
                    C.fail('C20/push', '%s cannot be made: %s' % (what, p.bad[0] if p.bad else 'ends with %s' % v[1].val), T.where(L.fn(name + '_push')))
                continue
            st0 = p.rt.st
            for o in C_ops:
                p.rt.st = st0.clone()
                p.bad = []
                args = [('INT', k) for k in o[1:]] + ([('INT', -9)] if o[0] in ('set', 'insert', 'push', 'resize_fill') else [])
                want = apply(o[0], s, args, p.meaning)
                r = p.call(name + '_' + o[0], 'obj', *args)
                say = '%s, %s(%s)' % (what, o[0], ', '.join(show(a) for a in args))
                where = T.where(L.fn(name + '_' + o[0]))
                if r is None:
                    C.undecide('%s: %s' % (say, p.vague))
                    continue
                if want == STOP or r[0] != 'value':
                    if want == STOP and stopped(r):
                        C.ok(say)
                    else:
                        C.fail('C20/' + o[0], '%s: %s' % (say, 'does not stop the program' if want == STOP else 'ends with %s' % r[1].val), where)
                    continue
                bad = list(p.bad)
                if not same(r[1], want[1]):
                    bad.append('returns %s, not %s' % (show(r[1]), show(want[1])))
                r = p.call(name + '_len', 'obj')
                if r is None or r[0] != 'value' or not same(r[1], ('INT', len(want[0]))):
                    bad.append('its length is not %d' % len(want[0]))
                else:
                    for k in places(len(want[0])):
                        r = p.call(name + '_get', 'obj', ('INT', k))
                        if r is None or r[0] != 'value' or not same(r[1], p.meaning(want[0][k])):
                            bad.append('element %d is %s, not %s' % (k, show(r[1]) if r and r[0] == 'value' else 'lost', show(p.meaning(want[0][k]))))
                            break
                bad += p.leaks()
                if bad:
                    C.fail('C20/' + o[0], '%s: %s' % (say, bad[0]), where)
                else:
                    C.ok(say)
            C.analysed |= p.reached


def by_hand(T, C, L, n, where):
    """every order of n integers, equal ones and the extremes among them, comes out sorted"""
    for base in ([1, 2, 3, 4, 5][:n], [1, 1, 2, 2, 1][:n], [-(1 << 63), (1 << 63) - 1, 0, -1, 1 << 32][:n]):
        for vals in sorted(set(itertools.permutations(base))):
            p = Play(T, L)
            p.make('arr_int', *[('INT', x) for x in vals])
            r = p.call('arr_int_sort', 'obj')
            what = 'sorting %s' % (vals,)
            pr, und = check(p, 'arr_int', [('INT', x) for x in sorted(vals)]) if r is not None and r[0] == 'value' else (
                None if r is None else 'ends with %s' % r[1].val, r is None)
            if und:
                C.undecide(what)
            elif pr or p.bad:
                C.fail('C20/sort', '%s: %s' % (what, pr or p.bad[0]), where)
            else:
                C.ok(what)


def sort(T, C, L):
    """sorting hands the elements to the C library with a comparison that orders integers"""
    L.arrays('int', 'arr_int')
    for e in ('str', 'any', 'float', 'Foo'):
        out, _ = L.arrays(e, 'tmp')
        if any(x[0] == 'tmp_sort' and x[4] == L.by['arr_int_sort'][4] for x in out):
            C.fail('C20/sort', 'arrays of %s are sorted as integers' % e, T.where(L.macros['array']))
        else:
            C.ok()
    cmp_ = set()
    for n in (0, 1, 2, 3, 4, 17, 64, 65, 101, 255, 300, 1100):
        p = Play(T, L)
        p.visits = 40000

        def qs(en, s, a, i):
            s.log('qsort', a[0], a[1], a[2], a[3])
        p.hooks = {'qsort': qs}
        p.make('arr_int', *[('INT', 9 - k) for k in range(min(n, 255))])
        for k in range(255, n):
            p.call('arr_int_push', 'obj', ('INT', 9 - k))
        r = p.call('arr_int_sort', 'obj')
        C.analysed |= p.reached
        ev = [e for e in p.rt.st.events() if e[0] == 'qsort']
        what = 'sorting %d integers' % n
        where = T.where(L.fn('arr_int_sort'))
        if r is None:
            C.undecide(what)
            continue
        if r[0] == 'value' and not ev and n > 1:
            # sorted by the library itself: the result counts
            if n <= 5:
                by_hand(T, C, L, n, where)
                continue
            pr, und = check(p, 'arr_int', [('INT', 9 - k) for k in reversed(range(n))])
            if und:
                C.undecide(what)
            elif pr or p.bad:
                C.fail('C20/sort', '%s: %s' % (what, pr or p.bad[0]), where)
            else:
                C.ok(what)
            continue
        if r[0] != 'value' or len(ev) > 1:
            C.fail('C20/sort', '%s: %s' % (what, 'ends with %s' % r[1].val if r[0] != 'value' else 'the elements are not sorted once'), where)
            continue
        if ev:
            e = ev[0]
            first = None
            if n:
                # the first element is where the sorted region must begin
                st = p.rt.st
                first = [st.load(e[1], 8, p.rt.voff + k * p.rt.vsize) for k in range(n)]
                if [E.signed(x, 64) if type(x) is int else x for x in first] != [9 - k for k in range(n)] or e[2] != n or e[3] != p.rt.vsize:
                    C.fail('C20/sort', '%s: the sorted region is not the elements of the array' % what, where)
                    continue
            c = L.name(e[4])
            if c:
                cmp_.add(c)
        C.ok(what)
    for c in sorted(cmp_):
        vals = [-(1 << 63), -(1 << 32), -(1 << 31) - 1, -2, -1, 0, 1, 2, (1 << 31) - 1, 1 << 31, 1 << 32, (1 << 32) + 1, (1 << 63) - 1]
        for x in vals:
            for y in vals:
                rt = Rt(T)
                a, b = rt.h.block(rt.st, 'a', rt.vsize, 'undef'), rt.h.block(rt.st, 'b', rt.vsize, 'undef')
                rt.value(a, ('INT', x))
                rt.value(b, ('INT', y))
                en = Engine(T.m)
                rt.install(en)
                rs = en.run(c, [a, b], rt.st)
                C.analysed |= en.reached
                sg = lambda v: (v > 0) - (v < 0)
                for r in rs:
                    if r.kind == 'ret' and type(r.val) is int and sg(E.signed(r.val, 32)) == sg(x - y) and \
                            not [q for q in r.st.events() if q[0] == 'bad']:
                        C.ok()
                    else:
                        C.fail('C20/compare', 'comparing %d with %d gives %s' % (x, y, r.val), T.where(c))


def run(T, C):
    L = Lib(T)
    operations(T, C, L)
    long_(T, C, L)
    large(T, C, L)
    sort(T, C, L)
    C.analysed |= L.reached
