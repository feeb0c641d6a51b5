"""Positions and line records name the place in the source."""
from gen import *
from heap import Heap
from parse import Parser, toks, S, X, F, Tok
from constructs import statements, CONTROL, build_ctl
import C09

LEVEL = 'other'
FLOOR = 700
RULE = ('The conversion of positions to lines and columns is interpreted on all sources over two characters up to six bytes '
        'and every position. The lookup of the line of a program counter is interpreted on tables of 0-9 records with '
        'symbolic, strictly increasing program counters and a symbolic program counter between each two neighbours; it must '
        'find the last record at or before it. Every statement is compiled in states with no, older and equal line records '
        'and with no, a known and a new file name: afterwards the table is strictly increasing, its older part is unchanged '
        'and its record for the first instruction has the statement\'s line and file. The parser\'s nodes must carry a '
        'position inside the construct (up to the token that follows it) and statements a line of their head (up to the token that follows it).')


# ------------------------------------------------------------------ friendly positions
def friendly(T, C):
    import itertools
    f = T.fn('Tiny_PosToFriendlyPos')
    srcs = [''.join(p) for n in range(1, 7) for p in itertools.product('a\n', repeat=n)]
    srcs += ['first line\n\n\tthird line\nend', '\r\nx\r\n']
    big = ''.join('x' * (k * 37 % 61) + '\n' for k in range(400)) + 'y' * 700 + '\nz'
    for src in srcs + [big]:
        ps = range(len(src)) if src is not big else [p for p in (0, 127, 128, 255, 256, 257, 1000, 4095, 4096, 8000, len(big) - 3, len(big) - 300, len(big) - 650,
                                                                len(big) - 1)]
        for pos in ps:
            st = State()
            s = T.cstr(st, src, 'source')
            s.t[0][0].meta['size'] = len(src) + 1
            h = Heap(T)

            def chr_(en, s_, a, i):
                b = E.cstring(en, s_, a[0], 40000)
                if b is None or type(a[1]) is not int:
                    raise Raise('crash', 'strchr on an unknown text')
                k = b.find(bytes([a[1] & 255]))
                return 0 if k < 0 else add(a[0], k)
            en = Engine(T.m, hooks={'strchr': chr_}, max_visits=40000, max_steps=1000000)
            h.install(en)
            rs = en.run(f, [pos, s, len(src)], st)
            C.analysed |= en.reached
            line = src[:pos].count('\n')
            col = pos - (src[:pos].rfind('\n') + 1)
            what = 'position %d of %r' % (pos, src if len(src) < 99 else src[:40] + '...')
            for r in rs:
                if r.kind != 'ret':
                    C.fail('C18/friendly', '%s: ends with %s (%s)' % (what, r.kind, r.val), T.where(f))
                    continue
                bad = [e[1] for e in r.st.events() if e[0] == 'bad']
                v = r.val
                if type(v) is int:
                    got = {'lineIndex': v & 0xffffffff, 'charIndex': v >> 32 & 0xffffffff}
                    o = T.off('Tiny_FriendlyPos', 'lineIndex')
                    if o:
                        got = {'lineIndex': got['charIndex'], 'charIndex': got['lineIndex']}
                else:
                    got = {}
                if got and (got['lineIndex'], got['charIndex']) != (line, col):
                    bad.append('gives line %d, column %d instead of %d, %d' % (got['lineIndex'], got['charIndex'], line, col))
                if bad:
                    C.fail('C18/friendly', '%s: %s' % (what, '; '.join(bad)), T.where(f))
                elif not got:
                    C.undecide(what)
                else:
                    C.ok(what)


# ------------------------------------------------------------------ looking up a program counter
def lookup(T, C):
    f = T.fn('Tiny_GetExecutingFileLine')
    for n in range(0, 5):
        look(T, C, f, n, -1, False, (1, 1))
    for n in range(0, 10):
        for j in range(max(n, 1)):
            for nofile in (False, True):
                for outs in ((1, 1), (0, 1), (1, 0)):
                    if (nofile or n > 5) and outs != (1, 1):
                        continue
                    look(T, C, f, n, j, nofile, outs)


def lookup_many(T, C):
    """tables of up to 3000 records, known program counters"""
    f = T.fn('Tiny_GetExecutingFileLine')
    for n in (33, 64, 100, 255, 256, 257, 1000, 3000):
        pcs, x = [], 3
        for k in range(n):
            pcs.append(x)
            x += 1 + (k * 7 + k // 5) % 13
        for j in sorted({0, 1, 2, n // 4, n // 2, n // 2 + 1, n - 2, n - 1} | {k for k in (31, 32, 127, 128, 199, 200, 201, 255, 256, 511, 512, 1023, 1024, 2047, 2048)
                                                                              if k < n}):
            for q in {pcs[j], (pcs[j + 1] if j + 1 < n else pcs[j] + 9) - 1}:
                st = State()
                state = T.obj(st, 'Tiny_State', 'state', 'init')
                thread = T.obj(st, 'Tiny_StateThread', 'thread', 'init')
                T.set(st, thread, 'Tiny_StateThread', 'state', state)
                T.set(st, state, 'Tiny_State', 'numStrings', 12)
                so = T.off('Tiny_State', 'strings')
                files = [st.new_obj('file%d' % k) for k in range(12)]
                for k, p in enumerate(files):
                    st.store(state, 8, p, so + 8 * k)
                o = [T.off('Tiny_PCToFileLine', m) for m in ('pc', 'fileStrIndex', 'line')]
                items = [[(o[0], 4, pcs[k]), (o[1], 4, k * 12 // n), (o[2], 4, 7 * k + 1)] for k in range(n)]
                T.set(st, state, 'Tiny_State', 'pcToFileLine', T.stretchy(st, 'lines', items, T.size('Tiny_PCToFileLine')))
                T.set(st, thread, 'Tiny_StateThread', 'pc', q)
                pf, pl = st.new_obj('file', 'undef'), st.new_obj('line', 'undef')
                en = Engine(T.m, max_visits=100000)
                what = 'line of pc %d in record %d of %d' % (q, j, n)
                for r in en.run(f, [thread, pf, pl], st):
                    if r.kind == 'cut':
                        C.undecide('%s: %s' % (what, r.val))
                    elif r.kind != 'ret':
                        C.fail('C18/lookup', '%s: ends with %s (%s)' % (what, r.kind, r.val), T.where(f))
                    elif r.st.load(pl, 4) != 7 * j + 1 or r.st.load(pf, 8) != files[j * 12 // n]:
                        C.fail('C18/lookup', '%s: gives line %r of file %r' % (what, r.st.load(pl, 4), r.st.load(pf, 8)), T.where(f))
                    else:
                        C.ok(what)
                C.analysed |= en.reached


def look(T, C, f, n, j, nofile, outs):
    st = State()
    state = T.obj(st, 'Tiny_State', 'state', 'init')
    thread = T.obj(st, 'Tiny_StateThread', 'thread', 'init')
    T.set(st, thread, 'Tiny_StateThread', 'state', state)
    T.set(st, state, 'Tiny_State', 'numStrings', 12)
    so = T.off('Tiny_State', 'strings')
    for k in range(12):
        st.store(state, 8, st.new_obj('file%d' % k), so + 8 * k)
    pc = fresh('first', 64, 0, 1 << 20)
    recs, q = [], fresh('pc', 32, 0, 1 << 20)
    for k in range(n):
        line = fresh('line%d' % k, 32, 1, 1 << 20)
        fi = -1 if nofile and k == j else k + 1
        recs.append((pc, fi, line))
        r, s = fresh('into%d' % k, 64, 0, 1 << 16), fresh('rest%d' % k, 64, 1, 1 << 16)
        if k == j:
            q = add(pc, r)
        pc = add(add(pc, r), s)
    if j < 0:
        q = -1
    items = [[(T.off('Tiny_PCToFileLine', 'pc'), 4, a), (T.off('Tiny_PCToFileLine', 'fileStrIndex'), 4, b),
              (T.off('Tiny_PCToFileLine', 'line'), 4, c)] for a, b, c in recs]
    T.set(st, state, 'Tiny_State', 'pcToFileLine', T.stretchy(st, 'lines', items, T.size('Tiny_PCToFileLine')) if n else 0)
    T.set(st, thread, 'Tiny_StateThread', 'pc', q)
    pf, pl = st.new_obj('file', 'undef'), st.new_obj('line', 'undef')
    en = Engine(T.m, max_visits=60)
    rs = en.run(f, [thread, pf if outs[0] else 0, pl if outs[1] else 0], st)
    C.analysed |= en.reached
    what = 'line of a program counter in record %d of %d%s' % (j, n, ', without file' if nofile else '')
    if j < 0:
        what = 'line of a thread that does not run, %d records' % n
    at = n and j >= 0
    wl = recs[j][2] if at else 0
    wf = st.load(state, 8, so + 8 * recs[j][1]) if at and recs[j][1] >= 0 else 0
    for r in rs:
        if r.kind == 'cut':
            C.fail('C18/lookup', '%s: never finishes' % what, T.where(f))
            continue
        if r.kind != 'ret':
            C.fail('C18/lookup', '%s: ends with %s (%s)' % (what, r.kind, r.val), T.where(f))
            continue
        bad = []
        gl, gf = r.st.load(pl, 4), r.st.load(pf, 8)
        if outs[1] and not (gl is wl or gl == wl):
            bad.append('gives line %r' % (gl,))
        if outs[0] and not (gf is wf or gf == wf):
            bad.append('gives file %r' % (gf,))
        if bad:
            C.fail('C18/lookup', '%s: %s' % (what, '; '.join(bad)), T.where(f))
        else:
            C.ok(what)


# ------------------------------------------------------------------ one record per statement
def builds(g):
    out = []
    for name, b in statements(g):
        out.append((name, lambda b=b: b().root))
    for name, ast in CONTROL.items():
        out.append((name, lambda ast=ast: build_ctl(g, ast)))
    return out


def kind(name):
    """one representative per kind of statement"""
    for k in ('EQUAL to a global (I)', 'DECLARE to a local (I)', 'PLUSEQUAL to the first field (I)', 'EQUAL to an element',
              'call statement', 'function'):
        if name.startswith(k):
            return k
    return None


def records(T, C):
    probe = Gen(T)
    probe.start(0)
    names = [n for n, _ in builds(probe)]
    seen = set()
    pick = []
    for k, n in enumerate(names):
        kd = kind(n) if k < len(names) - len(CONTROL) else n
        if kd and kd not in seen:
            seen.add(kd)
            pick.append(k)
    for k in pick:
        for table in ('none', 'older', 'equal'):
            for fname in ('no', 'known', 'new'):
                rec(T, C, k, names[k], table, fname)


class Ordered(Gen):
    """sub-constructs emit an unknown positive multiple of 8 bytes"""

    def emit_child(self, en, st, exp, kind):
        name, k = self.opaque[exp]
        pos = st.load(self.code, 4, -4)
        kids = st.x.get('kids', ())
        n = len(kids)
        while len(self.q) <= n + 1:
            self.q.append(fresh('d%d' % len(self.q), 64, 1, 1 << 16))
        end = add(pos, mul(self.q[n + 1], 8))
        st.store(self.code, 4, end, -4)
        st.x['kids'] = kids + ((pos, end, name, kind, exp),)


def rec(T, C, k, name, table, fname):
    g = Ordered(T)
    g.start(0)
    st = g.st
    root = builds(g)[k][1]()
    st = g.st
    g.seal()
    so = T.off('Tiny_State', 'strings')
    ns = 1 if fname == 'new' else 3
    T.set(st, g.state, 'Tiny_State', 'numStrings', ns)
    st.store(g.state, 8, T.cstr(st, 'other'), so)
    st.store(g.state, 8, T.cstr(st, 'file.tiny'), so + 8)
    st.store(g.state, 8, T.cstr(st, 'more'), so + 16)
    T.set(st, g.state, 'Tiny_State', 'l.fileName', T.cstr(st, 'file.tiny') if fname != 'no' else 0)
    sz = T.size('Tiny_PCToFileLine')
    O = {f: T.off('Tiny_PCToFileLine', f) for f in ('pc', 'fileStrIndex', 'line')}
    old = []
    if table != 'none':
        for j in range(2):
            d = fresh('before%d' % j, 64, 1, 8)
            old.append((add(g.startpos, add(mul(d, -1), -10 * (1 - j))),
                        fresh('of%d' % j, 32, -1, 2), fresh('ol%d' % j, 32, 1, 1 << 20)))
        if table == 'equal':
            old.append((g.startpos, fresh('of2', 32, -1, 2), fresh('ol2', 32, 1, 1 << 20)))
    items = [[(O['pc'], 4, a), (O['fileStrIndex'], 4, b), (O['line'], 4, c)] for a, b, c in old]
    T.set(st, g.state, 'Tiny_State', 'pcToFileLine', T.stretchy(st, 'lines', items, sz, cap=64) if old else 0)
    if not old:
        T.set(st, g.state, 'Tiny_State', 'pcToFileLine', 0)
    # records of the statements which begin where this one begins
    lines = [T.get(st, root, 'Tiny_Expr', 'lineNumber')]
    p = root
    while T.get(st, p, 'Tiny_Expr', 'type') == g.EXP['BLOCK']:
        p = T.get(st, p, 'Tiny_Expr', 'blockHead')
        if type(p) is int:
            break
        lines.append(T.get(st, p, 'Tiny_Expr', 'lineNumber'))
    if T.get(st, root, 'Tiny_Expr', 'type') == g.EXP['FOR']:
        p = T.get(st, root, 'Tiny_Expr', 'forx.init')
        lines.append(T.get(st, p, 'Tiny_Expr', 'lineNumber'))
    if T.get(st, root, 'Tiny_Expr', 'type') == g.EXP['PROC']:
        lines = None
    ems = g.compile('CompileStatement', root)
    C.analysed |= g.reached
    what = '%s, %s line records before, %s file name' % (name, table, fname)
    key = 'C18/record/' + name.split(' ')[0]
    where = T.where('CompileStatement')
    for em in ems:
        if em.kind == 'cut':
            C.undecide(what)
            continue
        if em.kind != 'ret':
            continue
        s = em.st
        tab = T.get(s, g.state, 'Tiny_State', 'pcToFileLine')
        n = T.sbcount(s, tab) if type(tab) is not int else 0
        bad = []
        if type(n) is not int:
            C.undecide(what)
            continue
        got = [tuple(s.load(tab, 4, j * sz + O[f]) for f in ('pc', 'fileStrIndex', 'line')) for j in range(n)]
        for a, b in zip(got, got[1:]):
            if s.decide(E.mk_le(add(add(a[0], 1), b[0], -1))) is not True:
                bad.append('the records are not in order of their code (%r, %r)' % (a[0], b[0]))
                break
        keep = [x for x in old if x[0] is not g.startpos]
        if [tuple(map(id_, x)) for x in got[:len(keep)]] != [tuple(map(id_, x)) for x in keep]:
            bad.append('the records of earlier statements change')
        mine = [x for x in got if same(s, x[0], g.startpos)]
        if len(mine) != 1:
            bad.append('%d records for the first instruction of the statement' % len(mine))
        else:
            if lines is not None and not any(mine[0][2] is l or mine[0][2] == l for l in lines):
                bad.append('its record has another line (%r)' % (mine[0][2],))
            fi = -1 if fname == 'no' else 1
            if mine[0][1] != fi:
                bad.append('its record names file %r instead of %d' % (mine[0][1], fi))
            elif fname == 'new':
                t = E.cstring(None, s, s.load(g.state, 8, so + 8))
                if t != b'file.tiny' or T.get(s, g.state, 'Tiny_State', 'numStrings') == 1:
                    bad.append('the file name is not kept')
        if bad:
            C.fail(key, '%s: %s' % (what, '; '.join(bad)), where)
        else:
            C.ok(what)


def id_(x):
    return x if type(x) is int else id(x)


def same(st, a, b):
    return a is b or st.decide(E.mk_eq(add(a, b, -1))) is True


# ------------------------------------------------------------------ positions of the parser's nodes
def parsed(T, C):
    P = Parser(T)
    for root, items, ctx in C09.templates():
        if root == 'ParseProgram' or len(items) > 40:
            continue
        if items and isinstance(items[0], tuple) and (items[0][0], root) in (
                ('S', 'ParseStatement'), ('E', 'ParseExpr'), ('F', 'ParseFactor'), ('E', 'ParseStatement'), ('E', 'ParseFactor')):
            continue
        func = ctx.get('func')
        P.start(items, scope=ctx.get('scope', 0))
        syms = []
        if func is not None:
            fs = P.g.sym('FUNCTION', 'fn', func__index=3, func__args=0, func__locals=0,
                         func__returnTag=P.g.prim(P.st, 'VOID' if func == 'void' else 'INT'))
            T.set(P.st, P.state, 'Tiny_State', 'currFunc', fs)
            syms = [fs]
        P.seal(syms)
        rs = P.run(root)
        tx = C09.text(items)
        head = 0
        if root == 'ParseStatement' and not (isinstance(items[0], Tok) and items[0].kind not in ('IDENT',)):
            ops = [k for k, i in enumerate(items) if isinstance(i, Tok) and i.kind in C09.ASSIGN + ('DECLARE', 'DECLARECONST', 'COLON')]
            head = ops[0] if ops else len(items)
        for r in rs:
            if r.kind != 'ret':
                continue
            bad = []
            n = r.st.x['ti']
            for p in nodes(P, r.st, r.val):
                pos = T.get(r.st, p, 'Tiny_Expr', 'pos')
                ln = T.get(r.st, p, 'Tiny_Expr', 'lineNumber')
                k = (pos - 1000) // 10 if type(pos) is int else None
                if k is None or not 0 <= k <= n:
                    bad.append('a node has position %r' % (pos,))
                if type(ln) is not int or not 50 <= ln <= 50 + n:
                    bad.append('a node has line %r' % (ln,))
            if not bad and inside(P, r.st, r.val):
                k = (T.get(r.st, r.val, 'Tiny_Expr', 'pos') - 1000) // 10
                if k >= len(items):
                    bad.append('the position of the construct is behind it')
            if root == 'ParseStatement' and not bad:
                ln = T.get(r.st, r.val, 'Tiny_Expr', 'lineNumber')
                if not 50 <= ln <= 50 + head + 1:
                    bad.append('the statement has the line of item %d, its head ends at item %d' % (ln - 50, head))
            if bad:
                C.fail('C18/node/' + tx, '%s: %s' % (tx, bad[0]), T.where(root))
            else:
                C.ok('positions of ' + tx)
    C.analysed |= P.reached


KIDS = {'BINARY': ('binary.lhs', 'binary.rhs'), 'UNARY': ('unary.exp',), 'PAREN': ('paren',), 'PROC': ('proc.body',),
        'IF': ('ifx.cond', 'ifx.body', 'ifx.alt'), 'IF_TERNARY': ('ifx.cond', 'ifx.body', 'ifx.alt'),
        'WHILE': ('whilex.cond', 'whilex.body'), 'FOR': ('forx.init', 'forx.cond', 'forx.step', 'forx.body'),
        'DOT': ('dot.lhs',), 'INDEX': ('index.arr', 'index.elem'), 'RETURN': ('retExpr',), 'CAST': ('cast.value',)}
LISTS = {'CALL': 'call.argsHead', 'BLOCK': 'blockHead', 'CONSTRUCTOR': 'constructor.argsHead'}


def inside(P, st, p):
    """whether the construct's position lies within it; those made when their last part has been read carry the next token's"""
    T, g = P.T, P.g
    nm = {v: k for k, v in g.EXP.items()}.get(T.get(st, p, 'Tiny_Expr', 'type'))
    if nm == 'BINARY':
        op = T.get(st, p, 'Tiny_Expr', 'binary.op')
        return any(op == g.TOK[k] for k in C09.ASSIGN + ('DECLARE', 'DECLARECONST'))
    return nm not in ('PAREN', 'BREAK')


def nodes(P, st, p, depth=0):
    T, g = P.T, P.g
    if type(p) is int or depth > 20 or any(q == p for q, _ in st.x.get('opq', ())):
        return
    yield p
    nm = {v: k for k, v in g.EXP.items()}.get(T.get(st, p, 'Tiny_Expr', 'type'))
    for f in KIDS.get(nm, ()):
        yield from nodes(P, st, T.get(st, p, 'Tiny_Expr', f), depth + 1)
    if nm in LISTS:
        q = T.get(st, p, 'Tiny_Expr', LISTS[nm])
        n = 0
        while type(q) is Lin and n < 50:
            yield from nodes(P, st, q, depth + 1)
            q = T.get(st, q, 'Tiny_Expr', 'next')
            n += 1


def run(T, C):
    friendly(T, C)
    lookup(T, C)
    lookup_many(T, C)
    records(T, C)
    parsed(T, C)
