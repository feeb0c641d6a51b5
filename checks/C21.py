"""A dictionary is a map."""
import itertools
import multiprocessing
import os
import traceback
from libplay import *

LEVEL = 'other'
FLOOR = 600
RULE = ('The functions of every dictionary type are found by interpreting the binding function. Induction over table states: '
        'from every valid arrangement of up to four entries in a table of eight places (each key reachable from its home '
        'place), get, exists, put, remove and clear with every present key and an absent key of every home must give what a map gives '
        'and a valid table with exactly the right entries, growth included. In addition, histories of insertions, '
        'replacements, removals and clearing over keys chosen to collide, to probe into each other\'s buckets and to wrap '
        'around the end of the table (integer keys whose remainders coincide or are neighbours), up to growth of the table, '
        'are interpreted and compared with a map by looking up every key used, asking whether it exists and listing keys and '
        'values after the history. Values which the language calls equal must hash alike: for every kind of value the hash '
        'of two equal representations is compared on symbolic contents. No access may leave the allocated '
        'blocks, and no block may be lost.')

V = [('INT', 1001), None, 'X', ('BOOL', 1), 'N', ('INT', 1005), 'S', ('INT', 1007), 'Y']


class Map:
    """the reference: association list with the language's equality on the keys used here"""

    def __init__(self):
        self.e = []

    def put(self, k, v):
        for x in self.e:
            if x[0] == k:
                x[1] = v
                return
        self.e.append([k, v])

    def get(self, k):
        for x in self.e:
            if x[0] == k:
                return x[1]
        return None

    def has(self, k):
        return any(x[0] == k for x in self.e)

    def remove(self, k):
        self.e = [x for x in self.e if x[0] != k]


def world(T, L):
    p = Play(T, L, visits=20000)
    rt = p.rt
    rt.new('X', 'string')
    rt.new('Y', 'embedded')
    rt.new('N', 'native')
    rt.new('S', 'struct', 1)
    return p


def text(rt, s, kind):
    """a string value with the given text: const string, or an object of either representation"""
    st = rt.st
    b = s.encode('latin-1')
    if kind == 'const':
        q = st.new_obj('text%r' % s, ('bytes', b + b'\0'))
        return ('CONST_STRING', q)
    T = rt.T
    o = T.size('Tiny_Object')
    emb = kind == 'embedded'
    p = rt.h.block(st, 'string%r%s%d' % (s, kind, len(rt.objs)), o + (len(b) + 1 if emb else 0), 'undef')
    if emb:
        q = add(p, o)
        for k, c in enumerate(b + b'\0'):
            st.store(p, 1, E.signed(c, 8), o + k)
    else:
        q = rt.h.block(st, 'text%r' % s, len(b) + 1, ('bytes', b + b'\0'))
    for f, v in (('marked', 0), ('type', rt.VT['STRING']), ('next', rt.G('gcHead')), ('string.len', len(b)), ('string.ptr', q)):
        T.set(st, p, 'Tiny_Object', f, v)
    rt.S('gcHead', p)
    rt.S('numObjects', rt.G('numObjects') + 1)
    return ('STRING', p)


def history(T, C, L, name, ops, keys, what, key, names=None, values=V, ctor=(), keyval=None):
    """play the operations (put i j / remove i / clear), then compare with the reference"""
    p = world(T, L)
    m = Map()
    keyval = keyval or (lambda p, k: k)
    kv = {k: keyval(p, k) for k in list(keys) + [o[1] for o in ops if len(o) > 1]}
    args = []
    for k, v in ctor:
        args += [kv[k], v]
        m.put(k, v)
    f = names or {}
    N = lambda o: f.get(o, name + '_' + o)
    where = T.where(L.fn(N('put')))

    def flunk(t, w=None):
        C.analysed.update(p.reached)
        C.fail(key, '%s: %s' % (what, t), w or where)

    v = p.make(name, *args)
    if v is None or 'obj' not in p.rt.objs:
        if v is None:
            C.undecide('%s: %s' % (what, p.vague))
        else:
            flunk('the constructor ends with %s' % (v[1].val if v[0] == 'stop' else v[1],))
        return
    for o in ops:
        if o[0] == 'put':
            r = p.call(N('put'), 'obj', kv[o[1]], o[2])
            m.put(o[1], o[2])
        elif o[0] == 'remove':
            r = p.call(N('remove'), 'obj', kv[o[1]])
            m.remove(o[1])
        else:
            r = p.call(N('clear'), 'obj')
            m = Map()
        if r is None:
            C.undecide('%s: %s' % (what, p.vague))
            return
        if r[0] != 'value' or not same(r[1], NULL):
            flunk('%s %s' % (o[0], 'returns %s' % show(r[1]) if r[0] == 'value' else 'ends with %s' % (r[1].val,)))
            return
    for k in keys:
        for q in ('get', 'exists'):
            r = p.call(N(q), 'obj', kv[k])
            if r is None:
                C.undecide('%s: %s' % (what, p.vague))
                return
            want = p.meaning(m.get(k)) if q == 'get' else ('BOOL', 1 if m.has(k) else 0)
            if r[0] != 'value' or not same(r[1], want):
                flunk('%s of %s %s, not %s' % (q, show(k), 'is %s' % show(r[1]) if r[0] == 'value' else 'ends with %s' % (r[1].val,), show(want)),
                      T.where(L.fn(N(q))))
                return
    lists = [('keys', [p.meaning(kv[x[0]]) for x in m.e])]
    if (name + '_values') in L.by:
        lists.append(('values', [p.meaning(x[1]) for x in m.e]))
    got = {}
    for q, want in lists:
        r = p.make(N(q), 'obj', name='list')
        ok = r is not None and r[0] == 'value' and 'list' in p.rt.objs
        n = p.call('arr_any_len', 'list') if ok else None
        have = []
        if n is not None and n[0] == 'value' and n[1][0] == 'INT' and type(n[1][1]) is int:
            for k in range(min(n[1][1], len(want) + 3)):
                e = p.call('arr_any_get', 'list', ('INT', k))
                have.append(e[1] if e is not None and e[0] == 'value' else ('?', None))
        left = list(have)
        good = ok and n is not None and n[0] == 'value' and n[1][1] == len(want)
        for w in want:
            i = next((i for i, x in enumerate(left) if same(x, w)), None)
            if i is None:
                good = False
            else:
                left.pop(i)
        got[q] = have
        if not good:
            flunk('%s gives %s, not %s' % (q, [show(x) for x in have], [show(x) for x in want]), T.where(L.fn(N(q))))
            return
        p.rt.objs.pop('list')
    if len(got) == 2:
        # position by position, the value belongs to the key
        for a, b in zip(got['keys'], got['values']):
            e = next((x for x in m.e if same(p.meaning(kv[x[0]]), a)), None)
            if e is not None and not same(p.meaning(e[1]), b):
                flunk('keys and values are not in the same order', T.where(L.fn(N('values'))))
                return
    C.analysed |= p.reached
    p.bad += p.leaks()
    if p.bad:
        flunk(p.bad[0])
    else:
        C.ok(what)


def say(ops):
    return ' '.join('%s %s' % (o[0], show(o[1])) if len(o) > 1 else o[0] for o in ops)


def sequences(T, C, L):
    """short histories over colliding and wrapping keys"""
    I = lambda k: ('INT', k)
    fam = {'one bucket': [I(3), I(35), I(67)], 'the end of the table': [I(31), I(63), I(0)], 'neighbours': [I(30), I(62), I(31)],
           'wrapping': [I(31), I(63), I(95)], 'negative': [I(-1), I(31), I(-33)]}
    for nm, ks in fam.items():
        a, b, c = ks
        for perm in itertools.permutations(ks):
            # all three in, then every set of removals in every order
            put = [('put', k, V[i]) for i, k in enumerate(perm)]
            for rm in [[]] + [[x] for x in ks] + [list(x) for x in itertools.permutations(ks, 2)] + [list(perm)]:
                ops = put + [('remove', k) for k in rm]
                history(T, C, L, 'dict', ops, ks + [I(5)], 'keys at %s: %s' % (nm, say(ops)), 'C21/collide')
        for perm in itertools.permutations(ks, 2):
            x, y = perm
            z = [k for k in ks if k not in perm][0]
            for ops in ([('put', x, V[0]), ('put', x, V[1])], [('put', x, V[0]), ('put', y, V[1]), ('put', x, V[2])],
                        [('put', x, V[0]), ('put', y, V[1]), ('put', y, V[2])],
                        [('put', x, V[0]), ('remove', y)], [('remove', x)], [('put', x, V[0]), ('remove', x), ('put', y, V[1])],
                        [('put', x, V[0]), ('put', y, V[1]), ('remove', x), ('put', y, V[2])],
                        [('put', x, V[0]), ('put', y, V[1]), ('remove', x), ('put', z, V[2]), ('remove', y)],
                        [('put', x, V[0]), ('put', y, V[1]), ('clear',)], [('put', x, V[0]), ('clear',), ('put', y, V[3])]):
                history(T, C, L, 'dict', ops, ks, 'keys at %s: %s' % (nm, say(ops)), 'C21/collide')
    # a longer cluster, each member removed in turn
    ks = [I(29), I(30), I(61), I(31), I(93), I(0), I(62)]
    for k in ks:
        ops = [('put', x, V[i % len(V)]) for i, x in enumerate(ks)] + [('remove', k)]
        history(T, C, L, 'dict', ops, ks + [I(1)], 'a cluster of seven: ' + say(ops), 'C21/cluster')
        for k2 in ks:
            if k2 != k:
                history(T, C, L, 'dict', ops + [('remove', k2)], ks, 'a cluster of seven: ' + say(ops + [('remove', k2)]), 'C21/cluster')


def growth(T, C, L):
    """insertions across the growth of the table"""
    I = lambda k: ('INT', k)
    for nm, ks in (('consecutive', [I(k) for k in range(20)]), ('colliding', [I(k * 32 + 7) for k in range(18)]),
                   ('colliding after growth', [I(k * 64 + 63) for k in range(18)]),
                   ('wrapping', [I(20 + k) for k in range(19)])):
        for n in (15, 16, 17, len(ks)):
            ops = [('put', k, V[i % len(V)]) for i, k in enumerate(ks[:n])]
            history(T, C, L, 'dict', ops, ks, '%d %s keys' % (n, nm), 'C21/grow')
        ops = [('put', k, V[i % len(V)]) for i, k in enumerate(ks)]
        history(T, C, L, 'dict', ops + [('remove', ks[3]), ('remove', ks[len(ks) - 1])], ks, '%d %s keys, two removed' % (len(ks), nm), 'C21/grow')
        history(T, C, L, 'dict', ops[:16] + [('remove', ks[0]), ('put', ks[17], V[1]), ('remove', ks[9])], ks,
                '16 %s keys, removing and adding at the limit' % nm, 'C21/grow')
        history(T, C, L, 'dict', ops[:16] + [('put', ks[4], V[6])], ks, '16 %s keys, replacing at the limit' % nm, 'C21/grow')
    # a table as full as it can be without growing, and what a removal does to it
    ks = [I(k * 7) for k in range(34)]
    full = [('put', k, V[i % len(V)]) for i, k in enumerate(ks)]
    for n in (31, 32, 33):
        history(T, C, L, 'dict', full[:n] + [('remove', ks[n]), ('remove', ks[0])], ks, '%d keys, an absent and a present one removed' % n, 'C21/grow')
    if C.tier == 'thorough':
        ks = [I(k * 5) for k in range(70)]
        history(T, C, L, 'dict', [('put', k, V[i % len(V)]) for i, k in enumerate(ks)], ks, '70 keys', 'C21/grow')


def large(T, C, L):
    """many entries: no growth, probe or walk is limited"""
    I = lambda k: ('INT', k)
    n = 700 if C.tier == 'quick' else 3000
    out = []

    def play(ops, keys, what, key, **kw):
        out.append(lambda C: history(T, C, L, 'dict', ops, keys, what, key, **kw))
    ks = [I(k * 3 - 40) for k in range(n)]
    ops = [('put', k, V[i % len(V)]) for i, k in enumerate(ks)]
    play(ops + [('remove', k) for k in ks[1::2]], ks, '%d keys, every other removed' % n, 'C21/grow')
    play(ops + [('clear',), ('put', ks[5], V[2]), ('put', ks[-1], V[0])], ks[::7] + [ks[-1]], '%d keys, cleared' % n, 'C21/grow')
    ks = [I(k * (1 << 20)) for k in range(60)]
    ops = [('put', k, V[i % len(V)]) for i, k in enumerate(ks)]
    play(ops + [('remove', k) for k in ks[10:50]], ks, '60 keys of one place, 40 removed', 'C21/cluster')
    # texts that differ only at their end, or by their length
    ts = [('t' * k,) for k in (1, 7, 8, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 600)]
    ts += [('t' * (k - 1) + 'u',) for k in (32, 64, 128, 256, 600)] + [('key%d' % k,) for k in range(40)]
    ops = [('put', k, V[i % len(V)]) for i, k in enumerate(ts)]
    for kd in ('const', 'string'):
        play(ops + [('remove', k) for k in ts[::5]], ts, '%d texts as keys (%s)' % (len(ts), kd), 'C21/strings',
             keyval=lambda p, k, kd=kd: text(p.rt, k[0], kd))
    C.together(out)


# ------------------------------------------------------------------ induction over table states
# A table is valid when every key is reached from its home without crossing an empty slot. From every valid table of
# eight slots - not only those some short history leads to - every operation with a key of every home must give a valid table with
# exactly the right entries. As the empty table is valid this covers histories of any length on such a table.
B = 8


class Tables:
    def __init__(self, T, L):
        self.T, self.L = T, L
        p = self.p = Play(T, L, visits=4000)
        v = p.make('dict')
        if v is None or 'obj' not in p.rt.objs:
            raise Missing('a dictionary made by dict()')
        self.d = T.get(p.rt.st, p.rt.objs['obj'], 'Tiny_Object', 'nat.addr')
        self.base = p.rt.st
        self.vs = T.size('Tiny_Value')
        self.homes = {}

    def key(self, home, n):
        return ('INT', home + B * n)

    def build(self, slots, size=B):
        """slots: {slot: (key, value)}"""
        T, st = self.T, self.base.clone()
        self.p.rt.st = st
        to = T.off('Tiny_Value', 'type')
        for f, k in (('keys.data', 0), ('values.data', 1)):
            items = []
            for s in range(size):
                x = slots.get(s)
                x = x and x[k]
                items.append([(0, 8, x[1] if x else 0), (to, 1, self.p.rt.VT[x[0] if x else 'NULL'])])
            old = T.get(st, self.d, 'Dict', f)
            b = self.p.rt.h.base(add(old, -8))
            if b is not None:
                st.x['live'] = st.x['live'] - {b}
            T.set(st, self.d, 'Dict', f, self.p.rt.h.stretchy(st, f, items, self.vs, cap=size))
        T.set(st, self.d, 'Dict', 'bucketCount', size)
        T.set(st, self.d, 'Dict', 'filledCount', len(slots))
        self.before = set(st.x['live'])

    def read(self):
        """-> (size, filled count, {slot: (key, value)}) of the table as it is now"""
        T, st = self.T, self.p.rt.st
        size = T.get(st, self.d, 'Dict', 'bucketCount')
        kd, vd = T.get(st, self.d, 'Dict', 'keys.data'), T.get(st, self.d, 'Dict', 'values.data')
        to = T.off('Tiny_Value', 'type')
        VN = self.p.rt.VN

        def val(q, s):
            t = st.load(q, 1, s * self.vs + to)
            t = VN.get(t, t)
            return None if t == 'NULL' else (t, st.load(q, 8, s * self.vs))
        if type(size) is not int or T.sbcount(st, kd) != size or T.sbcount(st, vd) != size:
            return None
        return size, T.get(st, self.d, 'Dict', 'filledCount'), {s: (val(kd, s), val(vd, s)) for s in range(size) if val(kd, s) is not None}

    def home(self, key, size=B):
        """where the code puts the key in an empty table"""
        if (key, size) not in self.homes:
            self.build({}, size)
            self.p.call('dict_put', 'obj', key, ('INT', 1))
            r = self.read()
            self.homes[key, size] = list(r[2])[0] if r is not None and r[0] == size and len(r[2]) == 1 else None
        return self.homes[key, size]

    def linear(self):
        """the keys have the homes they are made for, and a second key of a home goes to the next slot"""
        for h in range(B):
            if self.home(self.key(h, 1)) != h:
                return False
            self.build({h: (self.key(h, 1), ('INT', 1))})
            self.p.call('dict_put', 'obj', self.key(h, 2), ('INT', 2))
            r = self.read()
            if r is None or sorted(r[2]) != sorted([h, (h + 1) % B]):
                return False
        return True

    def wrong(self, want):
        """what is wrong with the table after an operation that should have left these entries"""
        r = self.read()
        if r is None:
            return 'the table is not one of keys and values of one size'
        size, filled, slots = r
        have = {}
        for s, (k, v) in slots.items():
            if k in have:
                return '%s is in the table twice' % show(k)
            have[k] = v
        for k in want:
            if k not in have:
                return '%s is lost' % show(k)
            if have[k] != want[k]:
                return '%s has the value %s, not %s' % (show(k), show(have[k] or NULL), show(want[k] or NULL))
        for k in have:
            if k not in want:
                return '%s is still there' % show(k)
        if filled != len(have):
            return 'the number of entries is given as %s' % (filled,)
        for s, (k, v) in slots.items():
            h = k[1] % B if size == B else self.home_kept(k, size)
            if h is None:
                continue
            while h != s:
                if h not in slots:
                    return '%s cannot be reached from its place' % show(k)
                h = (h + 1) % size
        return None

    def home_kept(self, key, size):
        st, bf = self.p.rt.st, self.before
        h = self.home(key, size)
        self.p.rt.st, self.before = st, bf
        return h


def tables(most):
    """every valid arrangement: {slot: home}, at most so many entries"""
    out = []
    for n in range(most + 1):
        for ss in itertools.combinations(range(B), n):
            def homes(s):
                h, r = s, [s]
                while (h - 1) % B in ss and len(r) < n:
                    h = (h - 1) % B
                    r.append(h)
                return r
            for hs in itertools.product(*[homes(s) for s in ss]):
                out.append(dict(zip(ss, hs)))
    return out


def state_job(a):
    k, n, most = a
    T, L = _TL
    try:
        W = Tables(T, L)
        out, cnt, und = [], 0, []
        for arr in tables(most)[k::n]:
            slots = {s: (W.key(h, s + 1), ('INT', 100 + s) if s % 3 else None) for s, h in arr.items()}
            want = {a: b for a, b in slots.values()}
            what = 'a table with %s' % (', '.join('a key of place %d at %d' % (h, s) for s, h in arr.items()) or 'no entries')
            keys = [(a, True) for a in want] + [(W.key(h, 20), False) for h in range(B)]
            for key, there in keys:
                for op in ('get', 'exists', 'put', 'remove', 'clear'):
                    if op == 'clear' and key is not keys[0][0]:
                        continue
                    W.build(slots)
                    n0 = len(W.p.rt.st.events())
                    w = dict(want)
                    args = ['obj'] + ([] if op == 'clear' else [key]) + ([('INT', 7)] if op == 'put' else [])
                    r = W.p.call('dict_' + op, *args)
                    say_ = '%s, %s %s' % (what, op, show(key) if op != 'clear' else '')
                    if r is None:
                        und.append('%s: %s' % (say_, W.p.vague))
                        continue
                    cnt += 1
                    if op == 'put':
                        w[key] = ('INT', 7)
                    elif op == 'remove':
                        w.pop(key, None)
                    elif op == 'clear':
                        w = {}
                    exp = {'get': want.get(key) or NULL, 'exists': ('BOOL', 1 if there else 0)}.get(op, NULL)
                    if r[0] != 'value':
                        out.append((op, '%s: it ends with %s' % (say_, r[1].val)))
                    elif not same(r[1], exp):
                        out.append((op, '%s: it gives %s instead of %s' % (say_, show(r[1]), show(exp))))
                    else:
                        x = W.wrong(w)
                        if x:
                            out.append((op, '%s: %s' % (say_, x)))
                    bad = [e[1] for e in W.p.rt.st.events()[n0:] if e[0] == 'bad']
                    if bad:
                        out.append((op, '%s: %s' % (say_, bad[0])))
        return out, cnt, und, W.p.reached
    except Missing as ex:
        return ('missing', str(ex))
    except Exception:
        return ('error', traceback.format_exc())


def states(T, C, L):
    global _TL
    _TL = (T, L)
    try:
        W = Tables(T, L)
        if not W.linear():
            C.undecide('induction over tables: the table does not probe slot after slot')
            return
    except (Missing, KeyError) as ex:
        C.undecide('induction over tables: %s' % ex)
        return
    most = 4
    with multiprocessing.get_context('fork').Pool(int(os.environ.get('TINY_JOBS') or 8)) as p:
        rs = p.map(state_job, [(k, 32, most) for k in range(32)], 1)
    C.count('table states', len(tables(most)))
    for r in rs:
        if r[0] == 'missing':
            C.undecide('induction over tables: ' + r[1])
            return
        if r[0] == 'error':
            raise RuntimeError(r[1])
        out, cnt, und, reached = r
        C.analysed |= reached
        C.ok(n=cnt - len(out))
        for op, x in out:
            C.fail('C21/induction/' + op, x, T.where(L.fn('dict_' + op)))
        for x in und:
            C.undecide(x)


def variants(T, C, L):
    """all kinds of keys, construction from arguments, and the other names the functions are bound under"""
    I = lambda k: ('INT', k)
    kinds = [('ints', [I(4), I(36), I((1 << 63) - 1)], None), ('bools', [('BOOL', 0), ('BOOL', 1)], None),
             ('mixed', [('BOOL', 1), I(2), I(1)], None)]
    for kd in ('const', 'string', 'embedded'):
        kinds.append(('strings (%s)' % kd, [('a',), ('b',), ('ab',), ('',)], lambda p, k, kd=kd: text(p.rt, k[0], kd)))
    for nm, ks, kvf in kinds:
        for n in range(len(ks) + 1):
            ctor = [(k, V[i]) for i, k in enumerate(ks[:n])]
            for ops in ([], [('remove', ks[0])], [('put', ks[-1], V[5])], [('put', ks[0], V[5])]):
                history(T, C, L, 'dict', ops, ks, 'dict of %d %s: %s' % (n, nm, say(ops)), 'C21/kinds', ctor=ctor, keyval=kvf)
    # the same text is the same key in every representation
    for k1, k2 in itertools.permutations(('const', 'string', 'embedded'), 2):
        p = world(T, L)
        a, b = text(p.rt, 'same', k1), text(p.rt, 'same', k2)
        p.make('dict')
        p.call('dict_put', 'obj', a, I(5))
        r = p.call('dict_get', 'obj', b)
        e = p.call('dict_exists', 'obj', b)
        what = 'a %s key looked up with a %s' % (k1, k2)
        if r is None or e is None:
            C.undecide(what)
        elif r[0] == 'value' and same(r[1], I(5)) and e[0] == 'value' and same(e[1], ('BOOL', 1)):
            C.ok(what)
        else:
            C.fail('C21/strings', '%s is not found' % what, T.where(L.fn('dict_get')))
    names = {}
    if 'dict_get_index' in L.by and 'dict_set_index' in L.by:
        names = {'get': 'dict_get_index', 'put': 'dict_set_index'}
        for ops in ([('put', I(3), V[0]), ('put', I(35), V[1]), ('remove', I(3))], [('put', I(3), V[0]), ('put', I(3), V[2])]):
            history(T, C, L, 'dict', ops, [I(3), I(35)], 'index syntax: ' + say(ops), 'C21/index', names=names)
    for name in sorted({x[0][:-4] for x in L.sigs if x[0].endswith('_put')} - {'dict'}):
        if any(n not in L.by for n in (name, name + '_put', name + '_get', name + '_exists', name + '_remove', name + '_keys', name + '_clear')):
            C.fail('C21/bound', 'the type %s does not have all functions of a dictionary' % name, T.where('Tiny_BindFunction'))
            continue
        vals = [I(k) for k in range(10, 18)]
        kvf = lambda p, k: text(p.rt, k[0], 'const')
        ks = [('one',), ('two',), ('three',), ('four',)]
        for ops in ([], [('put', k, vals[i]) for i, k in enumerate(ks)], [('put', ks[0], vals[0]), ('put', ks[0], vals[1]), ('put', ks[1], vals[2]), ('remove', ks[0])],
                    [('put', ks[0], vals[0]), ('clear',), ('put', ks[2], vals[3])]):
            history(T, C, L, name, ops, ks, '%s: %s' % (name, say(ops)), 'C21/' + name, keyval=kvf)
    # an odd number of constructor arguments has no meaning
    for n in (1, 3):
        p = world(T, L)
        r = p.call('dict', *[I(k) for k in range(n)])
        if stopped(r):
            C.ok('dict with %d arguments stops' % n)
        elif r is None:
            C.undecide('dict with %d arguments' % n)
        else:
            C.fail('C21/odd', 'dict with %d arguments does not stop the program' % n, T.where(L.fn('dict')))


def equal(T, C, L):
    """values the language calls equal are the same key"""
    def same_native(p):
        p.rt.new('M', 'native')
        for n in ('N', 'M'):
            T.set(p.rt.st, p.rt.objs[n], 'Tiny_Object', 'nat.addr', 8192)
        return 'N', 'M'
    I = ('INT', 5)
    pairs = [('a float', lambda p: (('FLOAT', E.fconst(1.5)), ('FLOAT', E.fconst(1.5)))),
             ('positive and negative zero', lambda p: (('FLOAT', E.fconst(0.0)), ('FLOAT', E.fconst(-0.0)))),
             ('negative and positive zero', lambda p: (('FLOAT', E.fconst(-0.0)), ('FLOAT', E.fconst(0.0)))),
             ('a light native', lambda p: (('LIGHT_NATIVE', 4096), ('LIGHT_NATIVE', 4096))),
             ('two objects of one native', same_native)]
    for nm, f in pairs:
        p = world(T, L)
        a, b = f(p)
        p.make('dict')
        p.call('dict_put', 'obj', a, I)
        r = p.call('dict_get', 'obj', b)
        C.analysed |= p.reached
        if r is None:
            C.undecide('%s as a key: %s' % (nm, p.vague))
        elif r[0] == 'value' and same(r[1], I):
            C.ok('%s as a key' % nm)
        else:
            C.fail('C21/equal', '%s: what was stored is not found' % nm, T.where(L.fn('dict_get')))
    other = [('a float', ('FLOAT', E.fconst(1.5)), ('FLOAT', E.fconst(2.5))), ('an int and a float', ('INT', 0), ('FLOAT', E.fconst(0.0))),
             ('an int and a bool', ('INT', 1), ('BOOL', 0)), ('a light native', ('LIGHT_NATIVE', 4096), ('LIGHT_NATIVE', 4096 + 32)),
             ('an int and a light native', ('INT', 64), ('LIGHT_NATIVE', 64)), ('ints', ('INT', 1), ('INT', (1 << 32) + 1))]
    for nm, a, b in other:
        for x, y in ((a, b), (b, a)):
            p = world(T, L)
            p.make('dict')
            p.call('dict_put', 'obj', x, I)
            p.call('dict_put', 'obj', y, ('INT', 6))
            r, q = p.call('dict_get', 'obj', x), p.call('dict_get', 'obj', y)
            if r is None or q is None:
                C.undecide('different keys: ' + nm)
            elif r[0] == q[0] == 'value' and same(r[1], I) and same(q[1], ('INT', 6)):
                C.ok('different keys: ' + nm)
            else:
                C.fail('C21/different', 'different keys (%s) are confused' % nm, T.where(L.fn('dict_get')))
    # objects as keys: the hash depends on nothing but the identity
    hv = T.funcs.get('HashValue')
    if hv is None:
        C.note('the hash function was not found; identity of object keys is not checked')
        return
    for n in ('S', 'N'):
        p = world(T, L)
        out = []
        for k in range(2):
            st = p.rt.st
            t, x = p.rt.val(n)
            en = Engine(T.m)
            p.rt.install(en)
            rs = en.run('HashValue', [x, t], st)
            C.analysed |= en.reached
            rs = [r for r in rs if (r.kind, r.val) != ('exit', 'assert')]
            if len(rs) != 1 or rs[0].kind != 'ret':
                out = None
                break
            out.append(rs[0].val)
            # marking and other objects do not change it
            T.set(st, p.rt.objs[n], 'Tiny_Object', 'marked', 1)
            T.set(st, p.rt.objs[n], 'Tiny_Object', 'next', 0)
            if n == 'S':
                p.rt.field('S', 0, ('INT', 77))
        if out is None or len(out) < 2:
            C.undecide('hash of an object')
        elif out[0] == out[1] or out[0] is out[1]:
            C.ok('hash of a %s' % n)
        else:
            C.fail('C21/identity', 'the hash of a %s changes while it is a key' % ('struct' if n == 'S' else 'native'), T.where('HashValue'))


def run(T, C):
    L = Lib(T)
    states(T, C, L)
    equal(T, C, L)
    L.arrays('any', 'arr_any')
    variants(T, C, L)
    sequences(T, C, L)
    growth(T, C, L)
    large(T, C, L)
    C.analysed |= L.reached
