"""Every error ends the compilation with a bounded message about the right place."""
import json
import re
import anchor
from gen import *
from heap import Heap
from effects import Effects

LEVEL = 'other'
FLOOR = 300
RULE = ('Every variadic function that reaches the message formatter is an error reporter: each is interpreted abstractly with '
        'unknown arguments, and must pass the formatter its own format and arguments, the message buffer with its size, the '
        'file, source and position of the lexer, expression or symbol it was given, mark the result as an error and leave by '
        'the jump buffer of the innermost compilation (or the process when there is none). The formatter itself is '
        'interpreted on sources of every shape up to seven lines, every position and buffers of several sizes: it must stay '
        'inside the buffer, name the file and line and show the source lines with their numbers. At every call of a printf-'
        'like function or reporter in the library the format must be constant and agree with the number and types of the '
        'arguments; every compilation started inside the library must have its result looked at; reading a source file is '
        'followed on all paths of its system calls.')


# ------------------------------------------------------------------ reporters
def reporters(T):
    """the variadic functions which hand their arguments to the formatter (themselves, or through a function which takes
    them as a va_list)"""
    out = []
    fmt = T.fn('Tiny_FormatErrorV')
    for f, fn in T.funcs.items():
        if not is_variadic(T, f):
            continue
        seen, work = set(), [f]
        while work:
            x = work.pop()
            for c in T.callees(x):
                if c not in seen and (c == fmt or takes_list(T, c)):
                    seen.add(c)
                    work.append(c)
        if fmt in seen:
            out.append(f)
    return sorted(out)


def takes_list(T, f):
    return f in T.funcs and '__va_list_tag' in anchor.signature(T.m, f)


def known(f):
    """is it one of the functions the library has always had (which never return)?"""
    return f in json.load(open(anchor.FILE))


def is_variadic(T, f):
    for i in T.m.funcs[f].calls():
        c = i.x[0]
        if isinstance(c, ir.GRef) and c.name.startswith('llvm.va_start'):
            return True
    return False


def reporter(T, C, ef, f):
    params = ef.params(f)
    g = Gen(T)
    for nest in ('n', 0):
        g.start(0)
        st = g.st
        n = fresh('nest', 32, 1, 16) if nest else 0
        T.set(st, g.state, 'Tiny_State', 'compileCallNestCount', n)
        args, pos, lex = [], None, None
        fmt = None
        order = T.m.funcs[f].params
        for p in order:
            ref, _ = params.get(p, (None, False))
            s = ef.sname(T.m.pointee(ref)) if ref and T.m.pointee(ref) else None
            if s == 'Tiny_State':
                args.append(g.state)
            elif s == 'Tiny_Lexer':
                o = T.obj(st, 'Tiny_Lexer', 'lexer', 'init')
                lex = o
                args.append(o)
            elif s in ('Tiny_Expr', 'Tiny_Symbol'):
                o = T.obj(st, s, 'subject', 'init')
                pos = T.get(st, o, s, 'pos')
                args.append(o)
            elif ref and p != order[-1] and not T.m.pointee(ref):
                pos = fresh('position', 32)
                args.append(pos)
            else:
                fmt = st.new_obj('format', 'init')
                args.append(fmt)
        T.set(st, g.state, 'Tiny_State', 'l.fileName', fresh('state.fileName'))
        if lex is not None:
            want = [T.get(st, lex, 'Tiny_Lexer', k) for k in ('fileName', 'src', 'pos')]
        else:
            want = [T.get(st, g.state, 'Tiny_State', 'l.' + k) for k in ('fileName', 'src', 'pos')]
        if pos is not None:
            want[2] = pos
        key, what = 'C17/reporter/%s/%s' % (f, 'compiling' if nest else 'outside'), 'reporter %s %s' % (
            f, 'during a compilation' if nest else 'outside of compilations')
        en = Engine(T.m, hooks={'Tiny_FormatErrorV': lambda en, s, a, i: s.log('format', tuple(a)),
                                'fprintf': lambda en, s, a, i: 0, 'fputs': lambda en, s, a, i: 0})
        rs = en.run(f, args, st)
        C.analysed |= en.reached
        bad = []
        for r in rs:
            ev = r.st.events()
            fm = [e[1] for e in ev if e[0] == 'format']
            if r.kind == 'ret':
                if fm or known(f):
                    bad.append('it can return to its caller')
                continue
            if r.kind == 'cut':
                C.undecide(what)
                continue
            if len(fm) != 1:
                bad.append('%d messages are formatted' % len(fm))
                continue
            a = fm[0]
            o = T.off('Tiny_State', 'compileErrorResult.error.msg')
            if a[0] != add(g.state, o) and a[0] is not add(g.state, o):
                bad.append('the message is written to %r' % (a[0],))
            if type(a[1]) is not int or not 0 < a[1] <= T.fsize('Tiny_State', 'compileErrorResult.error.msg'):
                bad.append('the size of the message buffer is given as %r' % (a[1],))
            for k, nm in ((2, 'file name'), (3, 'source'), (4, 'position')):
                if a[k] is not want[k - 2] and not (type(a[k]) is int and a[k] == want[k - 2]):
                    bad.append('the %s of the message is %r' % (nm, a[k]))
            if a[5] is not fmt:
                bad.append('the format is %r' % (a[5],))
            if T.get(r.st, g.state, 'Tiny_State', 'compileErrorResult.type') != T.enum('TINY_COMPILE_ERROR'):
                bad.append('the result is not marked as an error')
            j = [e for e in ev if e[0] == 'longjmp']
            if nest:
                buf = add(add(g.state, T.off('Tiny_State', 'compileErrorJmpBufs')), add(n, -1), 200)
                if not j:
                    if r.kind == 'exit' and r.st.decide(E.mk_eq(n)) is None:
                        bad.append('the compilation is not left')
                    elif r.kind == 'exit':
                        bad.append('the process ends instead of the compilation')
                elif not eq(r.st, j[0][1], buf):
                    bad.append('it jumps to %r, the innermost compilation waits at %r' % (j[0][1], buf))
            elif r.kind != 'exit' or j:
                bad.append('it jumps although no compilation is under way')
        if bad:
            C.fail(key, '%s: %s' % (what, '; '.join(sorted(set(bad))[:3])), T.where(f))
        else:
            C.ok(what)


def eq(st, a, b):
    return a is b or (type(a) is int and a == b) or st.decide(E.mk_eq(add(a, b, -1))) is True


# ------------------------------------------------------------------ the formatter
def sources():
    out = ['', 'a', '\n', 'ab\n', '\nab', 'a\nb', 'a\n\nb\n', '\n\n\n', 'if x {\n  y\n}\n']
    out.append('\n'.join('line %d' % k for k in range(1, 10)))
    out.append('\n'.join('l%d' % k for k in range(1, 13)) + '\n')
    return out


def formatter(T, C):
    f = T.fn('Tiny_FormatErrorV')
    for src in sources() + [None]:
        for pos in range(0, len(src or '') + 1, 1 if len(src or '') < 12 else 5):
            for size in (1024, 64, 20, 5, 1, 0):
                if size != 1024 and pos % 2:
                    continue
                fmt_one(T, C, f, src, pos, size)


def fmt_one(T, C, f, src, pos, size):
    st = State()
    h = Heap(T)
    buf = h.block(st, 'message', size, 'undef')
    fmt = st.new_obj('format', 'init')
    va = st.new_obj('va', 'init')
    s = T.cstr(st, src, 'source') if src is not None else 0
    if src is not None:
        s.t[0][0].meta['size'] = len(src) + 1
    name = T.cstr(st, 'file.tiny')
    msg = b'some message'

    def vsn(en, s_, a, i):
        s_.log('message', a[2], a[3])
        if type(a[1]) is not int:
            return fresh('vsnprintf()', 32)
        if a[1] > 0:
            for k, b in enumerate(msg[:a[1] - 1] + b'\0'):
                s_.store(a[0], 1, b, k)
                h.access(s_, add(a[0], k), 1, 'a write')
        return len(msg)

    def sn(en, s_, a, i):
        t = E.format_text(en, s_, a[2], a[3:])
        if t is None or type(a[1]) is not int:
            s_.log('vague', 'snprintf')
            return fresh('snprintf()', 32)
        if a[1] > 0:
            for k, b in enumerate(t[:a[1] - 1] + b'\0'):
                s_.store(a[0], 1, E.signed(b, 8), k)
                h.access(s_, add(a[0], k), 1, 'a write')
        return len(t)
    en = Engine(T.m, hooks={'vsnprintf': vsn, 'snprintf': sn}, max_visits=4000)
    h.install(en)
    rs = en.run(f, [buf, size, name, s, pos, fmt, va], st)
    C.analysed |= en.reached
    key = 'C17/format/%d' % size
    what = 'message for position %d of %r in %d bytes' % (pos, src, size)
    for r in rs:
        if r.kind == 'cut':
            C.fail(key, '%s: never finishes' % what, T.loc(r.where))
            continue
        if r.kind != 'ret':
            C.fail(key, '%s: ends with %s (%s)' % (what, r.kind, r.val), T.loc(r.where))
            continue
        bad = [e[1] for e in r.st.events() if e[0] == 'bad']
        if [e for e in r.st.events() if e[0] == 'vague']:
            C.undecide(what)
            continue
        if not bad and not [e for e in r.st.events() if e[0] == 'message' and e[1] is fmt and e[2] is va]:
            bad.append('the message itself is not formatted from the given format and arguments')
        if not bad and size:
            out = E.cstring(en, r.st, buf, size + 1)
            if out is None:
                bad.append('the message is not terminated')
            else:
                bad += text(out.decode('latin1'), src, pos, size)
        if bad:
            C.fail(key, '%s: %s' % (what, '; '.join(bad[:3])), T.where(f))
        else:
            C.ok(what)


def text(out, src, pos, size):
    bad = []
    if src is None:
        full = 'some message' in out and 'ERROR' in out
        return [] if full or size < 64 else ['the message is %r' % out]
    line = src[:pos].count('\n') + 1
    end = 'ERROR file.tiny(%d): some message' % line
    lines = src.split('\n')
    truncated = len(out) == size - 1
    if not truncated and end not in out:
        bad.append('%r does not say %r' % (out, end))
    head = out.split('ERROR')[0]
    shown = set()
    for l in head.split('\n'):
        m = re.match(r'^(\d+)( ->)?\t(.*)$', l)
        if not m:
            continue
        n = int(m.group(1))
        last = truncated and head.endswith(l)
        if n < 1 or n > len(lines) or (m.group(3) != lines[n - 1] and not (last and lines[n - 1].startswith(m.group(3)))):
            bad.append('line %d is shown as %r' % (n, m.group(3)))
        if bool(m.group(2)) != (n == line):
            bad.append('line %d is %smarked, the error is in line %d' % (n, '' if m.group(2) else 'not ', line))
        shown.add(n)
    if not truncated and line not in shown and not (line == len(lines) and lines[-1] == ''):
        bad.append('the offending line %d is not shown' % line)
    return bad


# ------------------------------------------------------------------ formats at call sites
CONV = re.compile(r'%(?:%|([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t|q)?([diouxXcsfFgGeEpn]))')


def wanted(fmt):
    """argument classes a format takes, or None when it is malformed"""
    out = []
    k = 0
    while True:
        k = fmt.find('%', k)
        if k < 0:
            return out
        m = CONV.match(fmt, k)
        if not m:
            return None
        k = m.end()
        if m.group(5) is None:
            continue
        for w in (m.group(2), m.group(3)):
            if w == '*':
                out.append('i32')
        c = m.group(5)
        if c in 'diouxXc':
            out.append('i64' if m.group(4) in ('l', 'll', 'z', 'j', 't', 'q') else 'i32')
        elif c == 's' or c == 'p':
            out.append('ptr')
        elif c == 'n':
            return None
        else:
            out.append('double')


PRINTF = {'printf': 0, 'fprintf': 1, 'snprintf': 2, 'sprintf': 1, 'dprintf': 1}
VPRINTF = {'vprintf': 0, 'vfprintf': 1, 'vsnprintf': 2, 'vsprintf': 1}


def const_strings(T, f, v, depth=0):
    """the constant strings an operand can be: list of str, or ('param', k), or None"""
    if isinstance(v, ir.GRef):
        g = T.m.globals.get(v.name)
        if g is None:
            return None
        b = gbytes(g.init)
        return None if b is None else [b[v.off:].split(b'\0')[0].decode('latin1')]
    if isinstance(v, str):
        fn = T.m.funcs[f]
        if v in fn.params:
            return ('param', fn.params.index(v))
        for i in fn.insts():
            if i.res == v:
                if i.op in ('phi', 'select') and depth < 6:
                    xs = list(i.a.values()) if i.op == 'phi' else i.x[1:]
                    out = []
                    for x in xs:
                        r = const_strings(T, f, x, depth + 1)
                        if not isinstance(r, list):
                            return r
                        out += r
                    return out
                if i.op in ('bitcast', 'freeze'):
                    return const_strings(T, f, i.x[0], depth + 1)
                if i.op == 'getelementptr' and not i.a[1] and isinstance(i.x[0], ir.GRef):
                    return const_strings(T, f, ir.GRef(i.x[0].name, i.x[0].off + i.a[0]), depth + 1)
                if i.op == 'load' and isinstance(i.x[0], ir.GRef):
                    g = T.m.globals.get(i.x[0].name)
                    if g is not None and isinstance(g.init, ir.GRef):
                        return const_strings(T, f, g.init, depth + 1)
                if i.op == 'load' and depth < 6:
                    return member_strings(T, f, i, depth)
                return None
    return None


def member_strings(T, f, i, depth):
    """the constants a text kept in a structure member can be: everything the library ever stores in that member"""
    ef = T.effects
    place = ef.place(ef.analyse(f), i.x[0])
    if place is None or place.startswith('[') or place.endswith('?'):
        return None
    last = place.rsplit('.', 1)[1]
    out = []
    for g in sorted(T.funcs):
        for j, p in ef.stores(g):
            if j.op == 'store' and p and not p.startswith('[') and p.rsplit('.', 1)[1] == last and j.x[0] != 0:
                r = const_strings(T, g, j.x[0], depth + 1)
                if not isinstance(r, list):
                    return None
                out += r
    return out or None


def composed(T, f, v):
    """is it a local buffer which the function fills by printf-like calls from constant texts only?"""
    fn = T.m.funcs[f]
    root = base(fn, v)
    if root is None:
        return False
    n = 0
    for i in fn.calls():
        c = i.x[0]
        if not isinstance(c, ir.GRef) or c.name.startswith('llvm.') or not any(isinstance(x, str) and base(fn, x) == root for x in i.x[1:]):
            continue
        if c.name not in ('snprintf', 'sprintf') or base(fn, i.x[1]) != root:
            if c.name in PRINTF or c.name in T.funcs:
                continue               # only read there
            return False
        k = PRINTF[c.name] + 1
        s = const_strings(T, f, i.x[k])
        if not isinstance(s, list):
            return False
        for x in i.x[k + 1:]:
            if not (type(x) is int or isinstance(const_strings(T, f, x), list) or table_text(T, f, x)):
                return False
        n += 1
    return n > 0


def base(fn, v):
    for _ in range(8):
        d = next((i for i in fn.insts() if i.res == v), None) if isinstance(v, str) else None
        if d is None:
            return None
        if d.op == 'alloca':
            return d.res
        if d.op not in ('getelementptr', 'bitcast', 'freeze'):
            return None
        v = d.x[0]
    return None


def table_text(T, f, v):
    """a text read from a constant table"""
    fn = T.m.funcs[f]
    d = next((i for i in fn.insts() if i.res == v), None) if isinstance(v, str) else None
    if d is None or d.op != 'load':
        return False
    x = d.x[0]
    for _ in range(8):
        if isinstance(x, ir.GRef):
            g = T.m.globals.get(x.name)
            return g is not None and g.const
        d = next((i for i in fn.insts() if i.res == x), None) if isinstance(x, str) else None
        if d is None or d.op not in ('getelementptr', 'bitcast', 'freeze'):
            return False
        x = d.x[0]
    return False


def gbytes(v):
    if isinstance(v, ir.Bytes):
        return bytes(v.b)
    if isinstance(v, ir.Agg) and all(type(x) is int for _, x in v.vals):
        return bytes(x & 255 for _, x in v.vals)
    if v is ir.ZERO_AGG or v == 0:
        return b'\0'
    return None


def formats(T, C, reps):
    pos = dict(PRINTF)
    nfix = {}
    for f in reps:
        pos[f] = len(T.m.funcs[f].params) - 1
    # functions which pass a parameter on as the format
    passed = {}
    for f in sorted(T.funcs):
        if f in reps or not is_variadic(T, f):
            continue
        for i in T.m.funcs[f].calls():
            c = i.x[0]
            if isinstance(c, ir.GRef) and c.name in VPRINTF:
                s = const_strings(T, f, i.x[1 + VPRINTF[c.name]])
                if isinstance(s, tuple) and s[1] == len(T.m.funcs[f].params) - 1:
                    pos[f] = s[1]
    work = True
    while work:
        work = False
        for f in sorted(T.funcs):
            for i in T.m.funcs[f].calls():
                c = i.x[0]
                if not isinstance(c, ir.GRef) or c.name not in pos:
                    continue
                k = pos[c.name]
                v = i.x[1 + k] if len(i.x) > 1 + k else None
                s = const_strings(T, f, v)
                if isinstance(s, tuple):
                    if f in pos or c.name not in pos:
                        continue
                    pos[f] = s[1]
                    # what it passes along with the format, besides its own variable arguments
                    passed[f] = passed[c.name] if c.name in passed else [cls(t) for t in i.a[k + 1:]]
                    work = True
    n = 0
    for f in sorted(T.funcs):
        for i in T.m.funcs[f].calls():
            c = i.x[0]
            if not isinstance(c, ir.GRef):
                continue
            if c.name in VPRINTF:
                s = const_strings(T, f, i.x[1 + VPRINTF[c.name]])
                n += 1
                if isinstance(s, tuple):
                    C.ok('format passed on by %s' % f)
                elif s is None:
                    C.fail('C17/fmt/%s/v' % f, '%s formats with a text that is not a constant' % f, T.where(f, i))
                continue
            if c.name not in pos:
                continue
            k = pos[c.name]
            v = i.x[1 + k] if len(i.x) > 1 + k else None
            s = const_strings(T, f, v)
            n += 1
            key = 'C17/fmt/%s/%s' % (f, c.name)
            if isinstance(s, tuple):
                if f in passed or f in reps:
                    if f in passed and passed[f] != (passed[c.name] if c.name in passed else [cls(t) for t in i.a[k + 1:]]):
                        C.undecide('%s passes a format it was given with different arguments' % f)
                    else:
                        C.ok('format passed on by %s' % f)
                    continue
            if not isinstance(s, list):
                if composed(T, f, v):
                    C.undecide('%s: the format of a call of %s is put together from constants' % (f, c.name))
                else:
                    C.fail(key, 'the format of this call of %s is not a constant' % c.name, T.where(f, i))
                continue
            got = passed[c.name] if c.name in passed else [cls(t) for t in i.a[k + 1:]]
            bad = None
            for t in s:
                w = wanted(t)
                if w is None:
                    bad = 'the format %r is malformed' % t
                elif w != got:
                    bad = 'the format %r takes %s, the call passes %s' % (t, ' '.join(w) or 'nothing', ' '.join(got) or 'nothing')
            if bad:
                C.fail(key, '%s calls %s: %s' % (f, c.name, bad), T.where(f, i))
            else:
                C.ok('%s: %s(%r)' % (f, c.name, s[0][:40]))
    C.count('format_sites', n)


def cls(t):
    if t.k == 'int':
        return 'i32' if t.w <= 32 else 'i64'
    return {'ptr': 'ptr', 'double': 'double', 'float': 'double'}.get(t.k, t.k)


# ------------------------------------------------------------------ results are looked at
def results(T, C):
    n = 0
    for f in sorted(T.funcs):
        fn = T.m.funcs[f]
        for i in fn.calls():
            c = i.x[0]
            if not isinstance(c, ir.GRef) or c.name not in ('Tiny_CompileString', 'Tiny_CompileFile'):
                continue
            n += 1
            dst = i.x[1]
            key = 'C17/result/%s' % f
            if isinstance(dst, str) and dst in fn.params:
                C.ok('%s returns the result of the compilation' % f)
                continue
            used = False
            alias = {dst}
            for j in fn.insts():
                if j.op == 'getelementptr' and j.x[0] in alias and not j.a[1] and j.a[0] == 0:
                    alias.add(j.res)
            for j in fn.insts():
                if j.op == 'load' and j.x[0] in alias:
                    used = True
                if j is not i and j.op == 'call' and any(x in alias for x in j.x[1:]) and isinstance(j.x[0], ir.GRef) and \
                        not j.x[0].name.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.memset')):
                    used = True
            if used:
                C.ok('%s looks at the result of the compilation' % f)
            else:
                C.fail(key, '%s ignores whether the compilation it starts succeeds' % f, T.where(f, i))
    C.count('inner_compilations', n)


# ------------------------------------------------------------------ reading a source file
def compile_file(T, C):
    f = T.fn('Tiny_CompileFile')
    g = Gen(T)
    g.start(0)
    st = g.st
    h = Heap(T)
    h.context(st, g.state, 'Tiny_State')
    sret = st.new_obj('result', 'undef')
    name = st.new_obj('filename', 'init')
    FILE = fresh('file', 64, 1)
    ln = fresh('length', 64)

    def fopen(en, s, a, i):
        s2 = s.clone()
        s.log('fopen', a[0])
        s2.log('nofile')
        return E.Forks([(s, FILE), (s2, 0)])

    def fread(en, s, a, i):
        tot = a[1] if type(a[2]) is int and a[2] == 1 else a[2] if a[1] == 1 else op('mul', 64, a[1], a[2])
        h.access(s, a[0], tot, 'reading the file') if tot != 0 else None
        s.x['reads'] = s.x.get('reads', ()) + (tot,)
        r = fresh('got', 64, 0, 1 << 40)
        s.assume(E.mk_le(add(r, tot, -1)), True)
        s.x['read'] = (a[0], r)
        return r

    def comp(en, s, a, i):
        p = a[3]
        buf, r = s.x.get('read', (None, None))
        if buf is None or p is not buf:
            s.log('wrong', 'what is compiled is not what was read')
        elif s.load(add(p, r), 1) != 0:
            s.log('wrong', 'the text that was read is not terminated')
        if h.base(p) is not None and h.base(p) not in s.x['live']:
            s.log('wrong', 'the text is released before it is compiled')
        s.log('compile', a[0], a[1], a[2], p)
        T.set(s, a[0], 'Tiny_CompileResult', 'type', fresh('outcome', 32, 0, 1))
        return None
    en = Engine(T.m, hooks={'fopen': fopen, 'ftell': lambda en, s, a, i: ln, 'fread': fread, 'Tiny_CompileString': comp,
                            'fclose': lambda en, s, a, i: (s.log('fclose', a[0]), 0)[1], 'fseek': lambda en, s, a, i: 0,
                            'rewind': lambda en, s, a, i: None})
    h.install(en)
    rs = en.run(f, [sret, g.state, name], st)
    C.analysed |= en.reached
    for k, r in enumerate(rs):
        ev = r.st.events()
        nofile = any(e[0] == 'nofile' for e in ev)
        what = 'compiling a file, path %d (%s)' % (k, 'it cannot be opened' if nofile else 'it is opened')
        key = 'C17/file'
        if r.kind != 'ret':
            C.fail(key, '%s: ends with %s (%s)' % (what, r.kind, r.val), T.loc(r.where))
            continue
        bad = [e[1] for e in ev if e[0] in ('wrong', 'bad')]
        closed = [e for e in ev if e[0] == 'fclose']
        opened = [e for e in ev if e[0] == 'fopen']
        if len(closed) != len(opened) or any(e[1] is not FILE for e in closed):
            bad.append('the file is opened %d times and closed %d times' % (len(opened), len(closed)))
        if r.st.x.get('live', frozenset()):
            bad.append('the text is never released')
        cs = [e for e in ev if e[0] == 'compile']
        rd = r.st.x.get('reads', ())
        if cs and len(rd) == 1 and r.st.decide(E.mk_eq(add(rd[0], ln, -1))) is False:
            bad.append('%r bytes are read of a file of %r' % (rd[0], ln))
        if not cs:
            if r.st.load(sret, 4) != T.enum('TINY_COMPILE_ERROR'):
                bad.append('the result is not an error although nothing was compiled')
            if not [e for e in ev if e[0] == 'ext' and e[1] == 'snprintf']:
                bad.append('no message says why')
            lo, hi = r.st.interval(ln)
            if not nofile and lo <= 100 <= hi:
                bad.append('a file of 100 bytes is refused')
        elif cs[0][2] is not g.state or cs[0][3] is not name or len(cs) != 1:
            bad.append('what is compiled is not the file')
        elif cs[0][1] is not sret and r.st.load(sret, 4) is not r.st.load(cs[0][1], 4):
            bad.append('the result of the compilation is not returned')
        if bad:
            C.fail(key, '%s: %s' % (what, '; '.join(bad[:3])), T.where(f))
        else:
            C.ok(what)


def run(T, C):
    ef = T.effects = Effects(T)
    reps = reporters(T)
    C.count('reporters', len(reps))
    for f in reps:
        reporter(T, C, ef, f)
    formatter(T, C)
    formats(T, C, reps)
    results(T, C)
    compile_file(T, C)
