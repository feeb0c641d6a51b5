"""Memory comes from the allocator it belongs to and goes back to it exactly once."""
from hostworld import *
from effects import *
import natives

LEVEL = 'other'
FLOOR = 150
RULE = ('Call-graph rule: only the default allocator calls the C library\'s allocation functions. Access-path rule: nothing reachable from '
        'a thread, the native functions and the finalisers uses the state\'s context. The default allocator and every wrapper are '
        'interpreted on opaque blocks and sizes. States holding symbols of every kind with zero to three parts are deleted, states are '
        'created, bound to in every way and deleted, and after each step every block must be owned by the state and after deletion '
        'none may be left or released twice. The arena is interpreted on sequences of opaque and of boundary sizes: blocks are '
        'inside one page, aligned, disjoint, and every page is released once. Growing buffers keep their contents.')
RAW = {'malloc', 'calloc', 'realloc', 'free', 'strdup', 'strndup', 'reallocarray', 'aligned_alloc', 'posix_memalign', 'memalign', 'valloc',
       'pvalloc', 'getline', 'getdelim', 'asprintf', 'vasprintf', 'open_memstream', '__strdup', '__strndup', '_Znwm', '_ZdlPv', 'cfree'}


def default_alloc(T):
    g = T.m.globals.get('Tiny_DefaultContext')
    if g is None or g.init is None:
        raise Missing('Tiny_DefaultContext')
    names = []

    def walk(v):
        if isinstance(v, ir.GRef):
            names.append(v.name)
        elif isinstance(v, (list, tuple)):
            for x in v:
                walk(x)
        elif hasattr(v, 'el'):
            walk(v.el)
        elif hasattr(v, 'v'):
            walk(v.v)
    ents = {}
    Engine(T.m)._flat(g.ty, g.init, 0, ents)
    for k, e in ents.items():
        x = e[1]
        a = x.atom() if isinstance(x, Lin) else None
        n = getattr(a, 'name', None) if a is not None else getattr(x, 'name', None)
        if n:
            names.append(n.lstrip('&'))
    names = [n for n in names if n in T.funcs]
    if len(names) != 1:
        raise Missing('the function of Tiny_DefaultContext')
    return names[0]


def raw(T, C):
    d = default_alloc(T)
    allowed = T.reach([d])
    users = {}
    for f, fn in T.m.funcs.items():
        if fn.decl:
            continue
        for i in fn.insts():
            ops = list(i.x or ())
            for x in ops:
                if isinstance(x, ir.GRef) and x.name in RAW:
                    users.setdefault(f, []).append((x.name, i))
    # whoever else uses what only the default allocator may use
    others = set()
    for f in T.funcs:
        if f == d:
            continue
        others |= {g for g in T.callees(f)}
    for f in T.funcs:
        bad = users.get(f, [])
        C.analysed.add(f)
        if f == d or f in allowed and f not in others:
            C.ok('%s is (part of) the default allocator' % f)
            continue
        for n, i in bad:
            C.fail('C27/raw/' + f, '%s uses %s instead of the context\'s allocator' % (f, n), T.where(f, i))
        if d in T.callees(f):
            C.fail('C27/raw/' + f, '%s calls the default allocator directly' % f, T.where(f))
        elif not bad:
            C.ok()
    C.count('functions')


def contract(T, C):
    """the default allocator, the wrappers"""
    d = default_alloc(T)
    for ptr in ('null', 'block'):
        for size in (0, 'size', 1):
            if ptr == 'null' and size == 0:
                continue
            st = State()
            p = 0 if ptr == 'null' else st.new_obj('given', 'init')
            n = fresh('size', 64, 1, 1 << 40) if size == 'size' else size
            res = fresh('result', 64, 4096, 1 << 46)

            def hook(name):
                def f(en, s, a, i):
                    s.log('libc', name, tuple(a))
                    return None if name == 'free' else res
                return f
            en = Engine(T.m, hooks={x: hook(x) for x in RAW})
            rs = en.run(d, [p, n, fresh('userdata', 64)], st)
            C.analysed |= en.reached
            what = 'the default allocator given %s and %s' % (ptr, size if size != 'size' else 'a size')
            for r in rs:
                ev = [e[1:3] for e in r.st.events() if e[0] == 'libc']
                ok = r.kind == 'ret'
                if size == 0:
                    ok = ok and [e for e in ev if e[0] == 'free' and e[1] == (p,)] == ev and len(ev) == 1 and (r.val == 0 or True)
                elif ptr == 'null':
                    ok = ok and len(ev) == 1 and (ev[0] == ('realloc', (0, n)) or ev[0] == ('malloc', (n,)) or ev[0] == ('calloc', (1, n)) or ev[0] == ('calloc', (n, 1))) and r.val is res
                else:
                    ok = ok and ev == [('realloc', (p, n))] and r.val is res
                if ok:
                    C.ok(what)
                else:
                    C.fail('C27/default', '%s does %s' % (what, ', '.join('%s%r' % e for e in ev) or 'nothing'), T.where(d))
    for f, args, want in (('TMalloc', 'cn', (0, 'n', 'u')), ('TRealloc', 'cpn', ('p', 'n', 'u')), ('TFree', 'cp', ('p', 0, 'u')), ('TFree', 'c0', None),
                          ('Tiny_AllocUsingContext', 'vpn', ('p', 'n', 'u')), ('Tiny_AllocUsingContext', 'v0n', (0, 'n', 'u')),
                          ('Tiny_AllocUsingContext', 'vp0', ('p', 0, 'u'))):
        fs = [f] if f in T.funcs else [x for x in T.funcs if x.split('.')[0] == f]
        if not fs:
            if f.startswith('Tiny_'):
                raise Missing(f)
            continue
        f = fs[0]
        st = State()
        al, ud, n, res = fresh('alloc', 64, 4096, 1 << 46), fresh('userdata', 64), fresh('size', 64, 1, 1 << 40), fresh('result', 64, 4096, 1 << 46)
        c = T.obj(st, 'Tiny_Context', 'context', 'undef')
        T.set(st, c, 'Tiny_Context', 'alloc', al)
        T.set(st, c, 'Tiny_Context', 'userdata', ud)
        p = st.new_obj('given', 'init')
        av = []
        for k, x in enumerate(args):
            if x == 'c':
                av.append(c)
            elif x == 'v':
                av += [al, ud]
            elif x == 'p':
                av.append(p)
            elif x == 'n':
                av.append(n)
            else:
                av.append(0)
        if 'v' in args and len(T.m.funcs[f].params) != len(av):
            av = [c] + av[2:]
        en = Engine(T.m)

        def indirect(e, s, target, a, i):
            s.log('call', target, tuple(a))
            return res
        en.indirect = indirect
        rs = en.run(f, av, st)
        C.analysed |= en.reached
        what = '%s(%s)' % (f, args)
        for r in rs:
            ev = [e[1:3] for e in r.st.events() if e[0] == 'call']
            w = [] if want is None else [(al, tuple({'n': n, 'p': p, 'u': ud}.get(x, x) for x in want))]
            ok = r.kind == 'ret' and ev == w and (f == 'TFree' or r.val is res or r.val is None)
            if ok:
                C.ok(what)
            else:
                C.fail('C27/wrapper/' + f, '%s calls %s instead of %s' % (what, ev, w), T.where(f))


def call_args(i):
    return list(i.x[1:])


def contexts(T, C):
    """what runs on a thread does not use the context of the state"""
    ef = Effects(T)
    roots = {f for f in T.funcs if any(t and ef.sname(T.m.pointee(t[0]) if T.m.pointee(t[0]) else None) == 'Tiny_StateThread' and not t[1]
                                       for t in ef.params(f).values())}
    for f in list(T.funcs):
        if f in T.fnptrs:
            # natives and callbacks of native values: reached through pointers
            ps = [t for t in ef.params(f).values()]
            if any(ef.sname(T.m.pointee(t[0])) == 'Tiny_State' for t in ps if not t[1] and T.m.pointee(t[0])):
                continue
            roots.add(f)
    d = default_alloc(T)
    for f in sorted(T.reach(roots)):
        if T.m.funcs[f].decl or f == d:
            continue
        vals = ef.analyse(f)
        bad = None
        for i in T.m.funcs[f].insts():
            if i.op == 'load':
                cand = [i.x[0]]
            elif i.op == 'call':
                # only where a context is expected: the state itself has the same address
                g = i.x[0].name if isinstance(i.x[0], ir.GRef) else None
                want = ef.params(g) if g in T.funcs else {}
                ps = T.m.funcs[g].params if g in T.funcs else []
                cand = [x for x, p in zip(call_args(i), ps) if p in want and T.m.pointee(want[p][0]) and ef.sname(T.m.pointee(want[p][0])) == 'Tiny_Context']
                if g and g.startswith(('llvm.memcpy', 'memcpy')):
                    cand = [call_args(i)[1]]
            else:
                continue
            for x in cand:
                pl = ef.place(vals, x) if isinstance(x, str) else None
                if pl and pl.startswith('Tiny_State.ctx'):
                    bad = bad or i
        C.analysed.add(f)
        if bad is not None:
            C.fail('C27/context/' + f, '%s runs on a thread but uses the context of the state' % f, T.where(f, bad))
        else:
            C.ok()


# ------------------------------------------------------------------ states
class Built(Host):
    """a state whose symbols are written down directly"""

    def base(self):
        T, st = self.T, self.st
        s = self.h.block(st, 'state', T.size('Tiny_State'), 'init')
        self.state = s
        self.h.context(st, s, 'Tiny_State')
        for f in ('program', 'functionPcs', 'foreignFunctions', 'globalSymbols', 'pcToFileLine', 'currFunc'):
            T.set(st, s, 'Tiny_State', f, 0)
        for f in ('numStrings', 'numFunctions', 'numForeignFunctions', 'numGlobalVars'):
            T.set(st, s, 'Tiny_State', f, 0)

    def symbol(self, ty, name):
        T, st = self.T, self.st
        p = self.h.block(st, 'symbol ' + name, T.size('Tiny_Symbol'), 'init')
        T.set(st, p, 'Tiny_Symbol', 'type', self.SYM[ty])
        T.set(st, p, 'Tiny_Symbol', 'name', self.h.cstr(st, name, 'name ' + name))
        return p

    def symbols_of(self, name, xs):
        return self.h.stretchy(self.st, name, [[(0, 8, x)] for x in xs], 8) if xs is not None else 0

    def make(self, kind, tag, n):
        T, st = self.T, self.st
        p = self.symbol(kind, '%s%s' % (kind.lower(), tag))
        S = lambda f, v: T.set(st, p, 'Tiny_Symbol', f, v)
        sub = lambda k, what: [self.symbol(k, '%s%s.%s%d' % (kind, tag, what, j)) for j in range(n)] if n is not None else None
        other = self.symbol_shared
        if kind == 'FUNCTION':
            S('func.args', self.symbols_of('args' + tag, sub('LOCAL', 'arg')))
            S('func.locals', self.symbols_of('locals' + tag, sub('LOCAL', 'local')))
            S('func.returnTag', other)
        elif kind == 'FOREIGN_FUNCTION':
            S('foreignFunc.argTags', self.symbols_of('argTags' + tag, [other] * n if n is not None else None))
            S('foreignFunc.returnTag', other)
        elif kind == 'TAG_STRUCT':
            S('sstruct.fields', self.symbols_of('fields' + tag, sub('FIELD', 'field')))
        elif kind == 'TAG_NULLABLE':
            S('nullableTag', other)
        elif kind == 'CONST':
            S('constant.tag', other)
        elif kind == 'GLOBAL':
            S('var.tag', other)
        return p


TOP = ('GLOBAL', 'FUNCTION', 'FOREIGN_FUNCTION', 'CONST', 'TAG_STRUCT', 'TAG_FOREIGN', 'TAG_NULLABLE', 'MODULE')


def delete(T, C):
    f = T.fn('Tiny_DeleteState')
    cases = [((), 0, False)]
    cases += [(((k, n),), 1, True) for k in TOP for n in (None, 0, 1, 3)]
    cases += [(tuple((k, 2) for k in TOP), 3, True), (tuple((k, 1) for k in reversed(TOP)), 0, False), ((('FUNCTION', 2), ('FUNCTION', 1)), 2, True)]
    cases += [((('FUNCTION', 1),), 1, 'empty'), ((), 0, 'empty')]
    for syms, ns, bufs in cases:
        H = Built(T)
        H.base()
        st = H.st
        S = lambda g, v: T.set(st, H.state, 'Tiny_State', g, v)
        H.symbol_shared = H.symbol('TAG_FOREIGN', 'shared')
        ps = [H.symbol_shared] + [H.make(k, str(j), n) for j, (k, n) in enumerate(syms)]
        S('globalSymbols', H.symbols_of('globalSymbols', ps))
        S('numStrings', ns)
        for k in range(ns):
            st.store(H.state, 8, H.h.cstr(st, 'string %d' % k), T.off('Tiny_State', 'strings') + 8 * k)
        if bufs:
            # 'empty': what a failed compilation took back, the room is still there
            n = 0 if bufs == 'empty' else 1
            S('program', H.h.stretchy(st, 'program', [[(0, 1, 1)]] * (3 * n), 1))
            S('pcToFileLine', H.h.stretchy(st, 'lines', [[]] * n, T.size('Tiny_PCToFileLine')))
            S('functionPcs', H.h.block(st, 'functionPcs', 16))
            S('foreignFunctions', H.h.block(st, 'foreignFunctions', 16))
        what = 'deleting a state with %s, %d texts, %s' % (', '.join('%s(%s)' % x for x in syms) or 'no symbols', ns, {'empty': 'tables without entries', True: 'code', False: 'no code'}[bufs])
        H.h.stop = False
        v = H.call('Tiny_DeleteState', H.state)
        C.analysed |= H.reached
        finish(T, C, H, v, what, 'C27/delete', f)


def finish(T, C, H, v, what, key, f):
    if v[0] == 'vague':
        C.undecide('%s: %s' % (what, v[1]))
        return
    if v[0] != 'value':
        r = v[-1]
        C.fail(key, '%s ends with %s' % (what, r.val), T.loc(r.where) or T.where(f))
        return
    bad = [e[1] for e in H.events if e[0] == 'bad']
    left = H.st.x.get('live', frozenset())
    if left:
        bad.append('%s stays allocated' % ', '.join(sorted(a.name for a in left)[:4]))
    if bad:
        C.fail(key, '%s: %s' % (what, '; '.join(bad[:3])), T.where(f))
    else:
        C.ok(what)


def steps():
    n = lambda k: 'name%d' % k
    out = []
    sigs = ['plain', 'none()', 'one(int)', 'two(int, str): float', 'many(any, ...): any', 'opt(str?): int?', 'th(thing): thing', 'th2(thing?, other): other?', 'x: int',
            'long_name_that_needs_a_longer_buffer_than_usual_0123456789(int): void']
    out.append([('Tiny_BindFunction', s) for s in sigs])
    out.append([('Tiny_RegisterType', 'thing'), ('Tiny_RegisterType', 'thing'), ('Tiny_RegisterType', 'int'), ('Tiny_BindFunction', 'f(thing, thing?): thing?'),
                ('Tiny_BindFunction', 'g(late)'), ('Tiny_RegisterType', 'late'), ('Tiny_RegisterType', 'late')])
    out.append([('Tiny_BindConstBool', 'b', 1), ('Tiny_BindConstInt', 'i', 7), ('Tiny_BindConstFloat', 'f', 2.5), ('Tiny_BindConstString', 's', 'text'),
                ('Tiny_BindConstString', 's2', 'text'), ('Tiny_BindConstString', 's3', ''), ('Tiny_BindMacro', 'm'), ('Tiny_BindMacro', 'm2')])
    for x in ('Tiny_BindStandardArray', 'Tiny_BindStandardDict', 'Tiny_BindStandardIO', 'Tiny_BindStandardLib', 'Tiny_BindI64'):
        out.append([(x,)])
    return out


def histories(T, C):
    create = T.fn('Tiny_CreateStateWithContext')
    seqs = steps()
    for ops in [[]] + seqs + [[o for s in seqs[:3] for o in s]]:
        H = Host(T)
        v = H.create()
        if v[0] != 'value':
            C.fail('C27/create', 'creating a state ends with %s' % (v[-1].val if v[0] != 'vague' else v[1]), T.where(create)) if v[0] != 'vague' else C.undecide(v[1])
            continue
        done = True
        for op in ops:
            if op[0] not in T.funcs:
                continue
            args = [H.text(x) if isinstance(x, str) else E.fconst(x) if isinstance(x, float) else x for x in op[1:]]
            if op[0] in ('Tiny_BindFunction', 'Tiny_BindMacro'):
                args.append(H.callee(op[1]))
            v = H.call(op[0], H.state, *args)
            what = '%s(%s)' % (op[0], ', '.join(repr(x) for x in op[1:]))
            if v[0] == 'vague':
                C.undecide('%s: %s' % (what, v[1]))
                done = False
                break
            if v[0] != 'value':
                C.fail('C27/' + op[0], '%s ends with %s' % (what, v[-1].val), T.loc(v[-1].where) or T.where(op[0]))
                done = False
                break
            bad = [e[1] for e in H.events if e[0] == 'bad']
            x = H.lost()
            if x:
                bad.append('%d blocks are lost (%s)' % (len(x), ', '.join(sorted(a.name for a in x)[:3])))
            if bad:
                C.fail('C27/' + op[0], '%s: %s' % (what, '; '.join(bad[:3])), T.where(op[0]))
            else:
                C.ok(what)
        C.analysed |= H.reached
        if done:
            v = H.call('Tiny_DeleteState', H.state)
            finish(T, C, H, v, 'deleting a state after %s' % (', '.join(o[0] for o in ops[:4]) or 'its creation'), 'C27/delete', 'Tiny_DeleteState')
        # the state's own context is the one it was given
        C.analysed |= H.reached
    # with the default context
    H = Host(T)
    H.h.alloc = None
    for n in ('malloc', 'realloc', 'free', 'calloc'):
        H.extra[n] = libc(H, n)
    v = H.call('Tiny_CreateState')
    if v[0] == 'value':
        H.state = v[1]
        v = H.call('Tiny_DeleteState', H.state)
        finish(T, C, H, v, 'creating and deleting a state with the default context', 'C27/create', 'Tiny_CreateState')
    elif v[0] == 'vague':
        C.undecide('Tiny_CreateState: ' + v[1])
    else:
        C.fail('C27/create', 'Tiny_CreateState ends with %s' % v[-1].val, T.where('Tiny_CreateState'))


def libc(H, n):
    def f(en, st, a, i):
        h = H.h
        u = h.userdata
        if n == 'malloc':
            return h.call(en, st, [0, a[0], u], i)
        if n == 'calloc':
            return h.call(en, st, [0, a[0] * a[1], u], i)
        if n == 'realloc':
            return h.call(en, st, [a[0], a[1], u], i)
        if a[0] == 0:
            return None
        h.call(en, st, [a[0], 0, u], i)
        return None
    return f


# ------------------------------------------------------------------ the arena
def arena(T, C):
    f = T.fn('Tiny_ArenaAlloc')
    page = None
    import itertools
    cap = probe_page(T)
    sizes = [1, 2, 7, 8, 24, 100]
    big = [cap - 8, cap - 1, cap, cap + 1, cap * 3]
    seqs = [tuple(p) for n in (1, 2, 3) for p in itertools.product((1, 8, 20, cap // 2, cap, cap + 1), repeat=n)]
    seqs += [tuple(sizes * 3), tuple(sizes + big + sizes), (cap - 9, 1, 1, 1, 1), (cap - 8, 8, 8), (cap - 7, 8, 8), tuple([cap // 8] * 20), (cap + 1, cap + 1, 8, cap + 1, 8, 8)]
    for seq in seqs:
        for align in ((8,), (1,), (1, 8)):
            if len(seq) > 3 or len(align) == 1 or seq[0] in (1, 20):
                one_arena(T, C, seq, align)
    # opaque sizes
    one_arena(T, C, (None, None, None), (1,), cap)
    for seq in ((None,), (None, 8, 8), (8, None, 1)):
        one_arena(T, C, seq, (1,), cap)


def probe_page(T):
    """the size of a page"""
    st = State()
    h = Heap(T)
    a = T.obj(st, 'Tiny_Arena', 'arena', 'undef')
    h.context(st, a, 'Tiny_Arena')
    T.set(st, a, 'Tiny_Arena', 'head', 0)
    en = Engine(T.m)
    h.install(en)
    rs = en.run('Tiny_ArenaAlloc', [a, 1, 8], st)
    ev = [e for r in rs for e in r.st.events() if e[0] == 'alloc']
    if len(ev) != 1 or type(ev[0][2]) is not int:
        return 4096
    return ev[0][2] - T.size('Tiny_ArenaPage')


def one_arena(T, C, seq, aligns, cap=None):
    h = Heap(T)
    st = State()
    a = T.obj(st, 'Tiny_Arena', 'arena', 'undef')
    what = 'allocating %s with alignment %s' % (', '.join('%s' % ('any size' if s is None else s) for s in seq[:8]), '/'.join(map(str, aligns)))
    en = Engine(T.m, max_visits=200)
    h.install(en)
    rs = en.run('Tiny_InitArena', [a, h.alloc, h.userdata], st)
    if len(rs) != 1 or rs[0].kind != 'ret':
        C.fail('C27/arena', 'Tiny_InitArena does not return', T.where('Tiny_InitArena'))
        return
    work = [(rs[0].st, [])]
    bad = []
    for k, s in enumerate(seq):
        nxt = []
        for st, got in work:
            al = aligns[k % len(aligns)]
            n = s if s is not None else fresh('size%d' % k, 64, 1, cap)
            st.frames = []
            for r in en.run('Tiny_ArenaAlloc', [a, n, al], st):
                if r.kind != 'ret':
                    if r.kind == 'cut':
                        C.undecide('%s: cut' % what)
                        return
                    bad.append('%s (%s)' % (r.kind, r.val))
                    continue
                o = h.owner(r.val)
                if o is None or o not in r.st.x['live']:
                    bad.append('gives %r, which is not in a page' % (r.val,))
                    continue
                off = add(r.val, A(o), -1)
                total = h.size(r.st, o)
                for v, t in ((add(off, T.size('Tiny_ArenaPage'), -1), 'overlaps the head of its page'), (add(total, add(off, n), -1), 'reaches beyond its page')):
                    d = v < 0 if type(v) is int else r.st.decide(E.mk_le(add(v, 1)))
                    if d is not False:
                        bad.append('block %d %s%s' % (k, 'may ' if d is None else '', t))
                if type(off) is int and off % al:
                    bad.append('block %d is at %d, not aligned to %d' % (k, off, al))
                elif type(off) is not int and al > 1 and not aligned(r.st, off, al):
                    r.st.x['unaligned'] = True
                for o2, off2, n2 in got:
                    if o2 is o:
                        lo = add(off, add(off2, n2), -1)      # this starts at or after the end of that
                        hi = add(off2, add(off, n), -1)
                        d1 = lo >= 0 if type(lo) is int else r.st.decide(E.mk_le(add(lo, 1)))
                        d1 = d1 if type(lo) is int else (None if d1 is None else not d1)
                        d2 = hi >= 0 if type(hi) is int else r.st.decide(E.mk_le(add(hi, 1)))
                        d2 = d2 if type(hi) is int else (None if d2 is None else not d2)
                        if d1 is not True and d2 is not True:
                            bad.append('block %d %s an earlier one' % (k, 'overlaps' if d1 is False and d2 is False else 'may overlap'))
                # what was there stays where it is
                nxt.append((r.st, got + [(o, off, n)]))
        work = nxt
    for st, got in work:
        bad += [e[1] for e in st.events() if e[0] == 'bad']
        st.frames = []
        for r in en.run('Tiny_DestroyArena', [a], st):
            if r.kind != 'ret':
                bad.append('destroying it ends with %s' % r.val)
                continue
            bad += [e[1] for e in r.st.events() if e[0] == 'bad']
            if r.st.x['live']:
                bad.append('%d pages are not released' % len(r.st.x['live']))
    C.analysed |= en.reached
    if bad:
        C.fail('C27/arena', '%s: %s' % (what, '; '.join(list(dict.fromkeys(bad))[:3])), T.where('Tiny_ArenaAlloc'))
    else:
        C.ok(what)


def aligned(st, off, al):
    c = getattr(off, 'c', 0)
    return all(k % al == 0 or getattr(a, 'align', 1) % al == 0 for a, k in off.t) and c % al == 0


# ------------------------------------------------------------------ growing buffers
def buffers(T, C):
    grow = [f for f in T.funcs if f.startswith('stb__sbgrowf') or 'sbgrow' in f]
    for f in grow:
        np = len(T.m.funcs[f].params)
        for n in (None, 0, 1, 2, 5, 8):
            for inc in (1, 2, 7):
                for isz in (1, 8, 16):
                    h = Heap(T)
                    st = State()
                    cap = n
                    p = 0 if n is None else h.stretchy(st, 'buffer', [[(o, 1, fresh('c%d.%d' % (k, o), 8)) for o in range(isz)] for k in range(n)], isz, cap=cap)
                    items = [st.load(p, 1, k) for k in range((n or 0) * isz)]
                    c = T.obj(st, 'Tiny_Context', 'context', 'undef')
                    h.context_at = None
                    T.set(st, c, 'Tiny_Context', 'alloc', h.alloc)
                    T.set(st, c, 'Tiny_Context', 'userdata', h.userdata)
                    en = Engine(T.m)
                    h.install(en)
                    if np != 4:
                        raise Missing('the parameters of ' + f)
                    rs = en.run(f, [c, p, inc, isz], st)
                    C.analysed |= en.reached
                    what = 'growing a buffer of %s elements of %d bytes by %d' % ('no' if n is None else n, isz, inc)
                    for r in rs:
                        bad = [e[1] for e in r.st.events() if e[0] == 'bad']
                        if r.kind != 'ret':
                            bad.append('ends with %s' % r.val)
                        else:
                            q = r.val
                            o = h.owner(q)
                            if o is None or o not in r.st.x['live'] or len(r.st.x['live']) != 1:
                                bad.append('the result is not the only block')
                            else:
                                ncap, cnt = r.st.load(q, 4, -8), r.st.load(q, 4, -4)
                                off = add(q, A(o), -1)
                                if type(ncap) is not int or ncap < (n or 0) + inc:
                                    bad.append('the capacity is %r' % (ncap,))
                                elif off + ncap * isz > h.size(r.st, o):
                                    bad.append('the block is smaller than its capacity')
                                if cnt != (n or 0):
                                    bad.append('the count is %r' % (cnt,))
                                if [r.st.load(q, 1, k) for k in range((n or 0) * isz)] != items:
                                    bad.append('the elements change')
                        if bad:
                            C.fail('C27/buffer', '%s: %s' % (what, '; '.join(bad[:3])), T.where(f))
                        else:
                            C.ok(what)


def run(T, C):
    raw(T, C)
    contract(T, C)
    contexts(T, C)
    delete(T, C)
    histories(T, C)
    arena(T, C)
    buffers(T, C)
