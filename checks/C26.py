"""Text, number, file and output functions compute what they say."""
import math
from clib import *

LEVEL = 'other'
FLOOR = 700
RULE = ('Every text, number, JSON, i64, input, output and file function the library binds is interpreted on known arguments: texts of every '
        'representation and of lengths around each buffer size, including texts with embedded terminators, indexes and numbers around every '
        'limit, every conversion of the formatted output functions over every kind of value, and sequences of file operations on a '
        'model file system; the result, what is printed and what the files contain are compared with the definition. The C '
        'library is modelled by what it computes from known arguments. Arguments outside the '
        'definition must stop the program.')

REPS = ('const', 'string', 'embedded')
MAX, MIN = (1 << 63) - 1, -(1 << 63)
STOP = ('stop',)
NULLV = ('null',)


def S(x):
    return ('text', x if isinstance(x, bytes) else x.encode('latin-1'))


def I(x):
    return ('int', x)


def Fl(x):
    return ('float', x)


def B(x):
    return ('bool', x)


class World:
    def __init__(self, T, L, stdin=b'', files=None):
        self.T, self.L = T, L
        self.rt = rt = Rt(T)
        for f in ('globalSymbols', 'pcToFileLine'):
            T.set(rt.st, rt.state, 'Tiny_State', f, 0)
        self.io = Io(T, rt, stdin, files)
        self.reached = set()
        self.vague = None
        self.texts = []

    def arg(self, a, rep):
        rt = self.rt
        k = a[0]
        if k == 'text':
            r = rep if rep != 'const' or 0 not in a[1] else 'string'
            v = make_text(rt, a[1], r)
            self.texts.append((v, a[1]))
            return v
        if k == 'int':
            return ('INT', a[1])
        if k == 'float':
            return ('FLOAT', E.fconst(a[1]))
        if k == 'bool':
            return ('BOOL', int(a[1]))
        if k == 'null':
            return None
        if k == 'i64':
            return ('LIGHT_NATIVE', a[1])
        if k == 'struct':
            n = 'struct%d' % len(rt.objs)
            rt.new(n, 'struct', len(a[1]))
            for j, f in enumerate(a[1]):
                v = self.arg(f, rep)
                if v is not None and not isinstance(v, tuple) or v is None or isinstance(v, tuple):
                    rt.field(n, j, v)
            return n
        if k == 'native':
            n = 'native%d' % len(rt.objs)
            p = rt.new(n, 'native' if a[1] else 'bare')
            if a[1]:
                q = rt.T.get(rt.st, p, 'Tiny_Object', 'nat.prop')
                rt.T.set(rt.st, q, 'Tiny_NativeProp', 'name', rt.T.cstr(rt.st, a[1], 'prop name'))
            return n
        return a[1]                          # a raw value

    def call(self, name, args, rep='const'):
        """-> ('value', meaning, output) or ('stop', how, output) or None"""
        rt = self.rt
        vals = [self.arg(a, rep) for a in args]
        hooks = self.io.hooks()
        n0 = len(rt.st.events())
        try:
            rs, reached = call(rt, self.L.fn(name), vals, visits=100000, hooks=hooks, max_paths=100)
        except E.Limit as e:
            self.vague = str(e)
            return None
        self.reached |= reached
        if len(rs) != 1:
            kinds = {(r.kind, r.val if not isinstance(r.val, AggV) else 'value') for r in rs}
            self.vague = '%d outcomes %s' % (len(rs), list(kinds)[:4])
            return None
        r = rs[0]
        ev = r.st.events()[n0:]
        out = join([e[1] for e in ev if e[0] == 'stdout'])
        self.bad = [e[1] for e in ev if e[0] == 'bad']
        self.events = ev
        self.last = r
        if r.kind != 'ret':
            return ('stop', r, out)
        rt.st = r.st
        t, p = result(r)
        c = r.st.const_of(t) if isinstance(t, Lin) else t
        n = rt.VN.get(c)
        if n in ('STRING', 'CONST_STRING'):
            x = text_of(rt, r.st, c, p)
            return ('value', ('text', x) if x is not None else ('raw', (n, p)), out)
        if n == 'BOOL':
            b = p & 1 if type(p) is int else r.st.const_of(E.extract(p, 0, 8, 1))
            return ('value', ('bool', bool(b)), out)
        if n == 'NULL':
            return ('value', NULLV, out)
        if n == 'FLOAT':
            x = fval(p)
            return ('value', ('float', x) if x is not None else ('raw', (n, p)), out)
        if n == 'INT':
            x = r.st.const_of(p) if isinstance(p, Lin) else p
            return ('value', ('int', x) if type(x) is int else ('raw', (n, p)), out)
        if n == 'LIGHT_NATIVE':
            x = r.st.const_of(p) if isinstance(p, Lin) else p
            return ('value', ('i64', wrap(x, 64)) if type(x) is int else ('raw', (n, p)), out)
        return ('value', ('raw', (n, p)), out)


def equal(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'float' and isinstance(a[1], float) and isinstance(b[1], float):
        return pystruct.pack('d', a[1]) == pystruct.pack('d', b[1]) or math.isnan(a[1]) and math.isnan(b[1])
    return a == b


def show(a):
    return a[0] if len(a) == 1 else '%s %r' % a if a[0] != 'raw' else repr(a[1])


def brief(s):
    return s if len(s) < 100 else '%s...%d...%s' % (s[:30], len(s), s[-10:])


def desc(args):
    return ', '.join(brief(repr(a[1])) if len(a) > 1 else a[0] for a in (args if len(args) < 12 else list(args[:10]) + list(args[-2:])))


def judge(T, C, L, name, args, want, rep='const', stdin=b'', out=b'', world=None, what=None, files=None):
    key = 'C26/' + name
    w = world or World(T, L, stdin, files)
    what = what or '%s(%s)%s' % (name, desc(args), ' [%s]' % rep if any(a[0] == 'text' for a in args) and rep != 'const' else '')
    r = w.call(name, args, rep)
    C.analysed |= w.reached
    where = T.where(L.fn(name))
    if r is None:
        C.undecide('%s: %s' % (what, w.vague))
        return None
    if want == STOP:
        if r[0] == 'stop' and r[1].kind == 'exit':
            C.ok(what)
        else:
            C.fail(key, '%s %s instead of stopping the program' % (what, 'gives ' + show(r[1]) if r[0] == 'value' else 'ends with ' + str(r[1].val)), where)
        return w
    if r[0] == 'stop':
        C.fail(key, '%s ends with %s' % (what, '; '.join(w.bad) or r[1].val), T.loc(r[1].where) or where)
        return w
    bad = list(w.bad)
    if want is not None and not equal(r[1], want):
        bad.append('gives %s, not %s' % (brief(show(r[1])), brief(show(want))))
    if out is not None and r[2] != join([out] if isinstance(out, bytes) else out):
        bad.append('prints %s, not %s' % (brief(repr(r[2])), brief(repr(out))))
    for (t, p), s in w.texts:
        if text_of(w.rt, w.rt.st, w.rt.VT[t], p) != s and not (t == 'CONST_STRING' and 0 in s):
            bad.append('changes the text %r it was given' % s)
    if bad:
        C.fail(key, '%s %s' % (what, '; '.join(bad[:3])), where)
    else:
        C.ok(what)
    return w


TEXTS = [b'', b'a', b'abc', b'hello world', b'a\0b', b'\0', b'abc\0', b'x' * 31, b'y' * 64, bytes(range(1, 128))]


def reps(s):
    return [r for r in REPS if r != 'const' or 0 not in s]


def texts(T, C, L):
    J = lambda n, a, w, **k: judge(T, C, L, n, a, w, **k)
    for s in TEXTS:
        for rep in reps(s):
            J('strlen', [S(s)], I(len(s)), rep=rep)
            n = len(s)
            for fn in ('stridx', 'sget', 'str_get_index'):
                if fn not in L.by:
                    continue
                ks = [-1, 0, 1, n - 1, n, n + 1, MIN, MAX, 1 << 31, 1 << 32, (1 << 32) + n - 1, -(1 << 32)]
                for k in sorted(set(ks)):
                    J(fn, [S(s), I(k)], I(s[k]) if 0 <= k < n else STOP, rep=rep)
            for c in (0, ord('a'), ord('b'), ord('c'), ord(' '), ord('x'), ord('Z')):
                J('strchr', [S(s), I(c)], I(s.find(bytes([c]))), rep=rep)
            m = min(n, 12)
            for a in sorted({-1, 0, 1, m // 2, n - 1, n, n + 1}):
                for b in sorted({-2, -1, 0, 1, m // 2, n - 1, n, n + 1, MAX, 1 << 32}):
                    e = n if b == -1 else b
                    if 0 <= a <= e and e <= n:
                        J('substr', [S(s), I(a), I(b)], S(s[a:e]), rep=rep)
                    elif a == e and a >= 0:
                        continue             # the empty text beyond the end is left open
                    else:
                        J('substr', [S(s), I(a), I(b)], STOP, rep=rep)
    few = [b'', b'a', b'bc', b'a\0b', b'z' * 33]
    for x in few:
        for y in few:
            for rep in ('string', 'embedded') + (('const',) if 0 not in x + y else ()):
                J('strcat', [S(x), S(y)], S(x + y), rep=rep)
    for n in (3, 4, 5):
        xs = [few[(k * 2 + 1) % len(few)] for k in range(n)]
        J('strcat', [S(x) for x in xs], S(b''.join(xs)), rep='string')


NUMBERS = [0, 1, -1, 9, 10, -10, 99, 123456789, 1000000, 16777217, (1 << 31) - 1, 1 << 31, -(1 << 31), -(1 << 31) - 1, (1 << 32) - 1, 1 << 32,
           (1 << 53) + 1, MAX, MIN, MAX - 1, MIN + 1]
FLOATS = [0.0, -0.0, 1.0, -1.0, 0.5, 1.5, -2.5, 3.14159, 1e6, 123456.0, 1234567.0, 1e21, 1e-5, 0.1, 16777217.0, 2.0 ** 53, -2.0 ** 53, 4503599627370497.5,
          -4503599627370496.5, 1e300, 5e-324, 0.99999999999999989, -0.99999999999999989, 1.0000000000000002]


def gfmt(x):
    return b'%.6g' % x if False else ('%g' % x).encode()


def numbers(T, C, L):
    J = lambda n, a, w, **k: judge(T, C, L, n, a, w, **k)
    for k in NUMBERS:
        J('int_to_str', [I(k)], S(b'%d' % k))
        J('ntos', [I(k)], S(b'%d' % k))
        for rep in REPS if k in (0, MIN, 10) else ('const',):
            J('str_to_int', [S(b'%d' % k)], I(k), rep=rep)
            J('stoi', [S(b'%d' % k), I(10)], I(k), rep=rep)
        J('ston', [S(b'%d' % k)], Fl(float(k)))
        if 'int_to_i64' in L.by:
            J('int_to_i64', [I(k)], ('i64', k))
            J('i64_to_string', [('i64', k)], S(b'%d' % k))
        J('int_to_json', [I(k)], S(b'%d' % k))
    for t, base, v in ((b'', 10, 0), (b'abc', 10, 0), (b'12abc', 10, 12), (b'  42', 10, 42), (b'+7', 10, 7), (b'-', 10, 0), (b'1 2', 10, 1),
                       (b'99999999999999999999', 10, MAX), (b'-99999999999999999999', 10, MIN), (b'1.9', 10, 1), (b'ff', 16, 255), (b'0x1F', 16, 31),
                       (b'-ff', 16, -255), (b'1010', 2, 10), (b'z', 36, 35), (b'777', 8, 511), (b'7fffffffffffffff', 16, MAX), (b'12', 3, 5)):
        J('stoi', [S(t), I(base)], I(v))
        if base == 10:
            for rep in REPS:
                J('str_to_int', [S(t)], I(v), rep=rep)
    for x in FLOATS:
        J('floor', [Fl(x)], Fl(float(math.floor(x)) if x == x and abs(x) < 1e18 and not (x == 0) else x))
        J('ceil', [Fl(x)], Fl(math.copysign(float(math.ceil(x)), x) if x == x and abs(x) < 1e18 and not (x == 0) else x))
        J('ntos', [Fl(x)], S(gfmt(x)))
        J('float_to_json', [Fl(x)], S(gfmt(x)))
    for t, v in ((b'1.5', 1.5), (b'-2e3', -2000.0), (b'', 0.0), (b'abc', 0.0), (b' 7xyz', 7.0), (b'.5', 0.5), (b'1e-3', 0.001), (b'0.1', 0.1), (b'12345678.9', 12345678.9),
                 (b'123456789012345680', 123456789012345680.0)):
        for rep in REPS:
            J('ston', [S(t)], Fl(v), rep=rep)
    for x in (float('inf'), float('-inf'), float('nan')):
        J('float_to_json', [Fl(x)], S('null'))
    for b in (True, False):
        J('bool_to_json', [B(b)], S('true' if b else 'false'))
    for n in ('int_to_json', 'str_to_json', 'float_to_json', 'bool_to_json'):
        J(n, [NULLV], S('null'))
    for s in (b'', b'abc', b'say "hi"', b'back\\slash', b'tab\tnl\n', b'\x01\x1f ~\x7f', b'"', b'\\"', b'q' * 40 + b'"', b'nul\0nul'):
        j = b'"' + b''.join(b'\\' + bytes([c]) if c in b'"\\' else bytes([c]) if c >= 32 else None or ('\\u%04x' % c).encode() for c in s) + b'"'
        for rep in reps(s):
            judge_json(T, C, L, s, j, rep)
    if 'i64_add_many' in L.by:
        for xs in ([5], [5, 7], [1, 2, 3, 4], [1 << 40, 1 << 41], [MAX, -1], [MIN, 1], [-5, 3, -9]):
            J('i64_add_many', [('i64', x) for x in xs], ('i64', sum(xs)))
        for xs in ([5], [5, 7], [2, 3, 4], [1 << 31, 1 << 31], [-1, 77], [1 << 40, 3, -1], [0, 9]):
            J('i64_mul_many', [('i64', x) for x in xs], ('i64', math.prod(xs)))


def judge_json(T, C, L, s, want, rep):
    """any JSON string whose value is s"""
    import json
    w = World(T, L)
    what = 'str_to_json(%s) [%s]' % (brief(repr(s)), rep)
    r = w.call('str_to_json', [S(s)], rep)
    C.analysed |= w.reached
    where = T.where(L.fn('str_to_json'))
    if r is None:
        C.undecide('%s: %s' % (what, w.vague))
        return
    if r[0] != 'value' or r[1][0] != 'text' or w.bad:
        C.fail('C26/str_to_json', '%s %s' % (what, '; '.join(w.bad) or 'does not give a text'), where)
        return
    try:
        v = json.loads(r[1][1].decode('latin-1'))
    except ValueError:
        v = None
    if v != s.decode('latin-1'):
        C.fail('C26/str_to_json', '%s gives %r, which is not that text in JSON' % (what, r[1][1]), where)
    else:
        C.ok(what)


# ------------------------------------------------------------------ printing
def printing(T, C, L):
    J = lambda a, out, **k: judge(T, C, L, 'printf', a, NULLV if out is not STOP else STOP, out=out, **k)
    for rep in REPS:
        J([S('plain text')], b'plain text', rep=rep)
        J([S('')], b'', rep=rep)
        J([S('%s'), S('abc')], b'abc', rep=rep)
        J([S('[%s]'), S('')], b'[]', rep=rep)
        J([S('%s%s'), S('ab'), S('%i')], b'ab%i', rep=rep)
        J([S('%q'), S('a b')], b'"a b"', rep=rep)
    for k in NUMBERS:
        J([S('%i'), I(k)], b'%d' % k)
        J([S('<%q>'), I(k)], b'<%d>' % k)
    J([S('100%%')], b'100%')
    J([S('%%i'), I(3)], b'%i')
    J([S('%i %i'), I(1), I(2)], b'1 2')
    J([S('%s=%i;'), S('k'), I(-4)], b'k=-4;')
    J([S('%c%c'), I(72), I(105)], b'Hi')
    J([S('%i'), I(1), I(2)], b'1')
    J([S('\\%s\n'), S('x')], b'\\x\n')
    for x in FLOATS:
        J([S('%f'), Fl(x)], ('%f' % x).encode())
        J([S('%q'), Fl(x)], ('%f' % x).encode())
    J([S('%f'), I(3)], b'3.000000')
    for n in range(3):
        J([S('%i' * (n + 1))] + [I(k) for k in range(n)], STOP)
    J([S('%s')], STOP)
    # %q of every kind of value
    for v, t in ((NULLV, b'<null>'), (B(True), b'true'), (B(False), b'false'), (S('t'), b'"t"'), (('struct', [I(1)]), b'struct {1}'),
                 (('struct', [I(1), S('x'), NULLV]), b'struct {1, "x", <null>}'),
                 (('struct', [B(True), ('struct', [Fl(0.5), I(MIN)])]), b'struct {true, struct {0.500000, %d}}' % MIN)):
        for rep in REPS if v[0] in ('text', 'struct') else ('const',):
            J([S('%q'), v], t, rep=rep)
            J([S('%q|%i'), v, I(5)], t + b'|5', rep=rep)
    for nm in ('thing', None):
        w = World(T, L)
        r = w.call('printf', [S('%q'), ('native', nm)])
        C.analysed |= w.reached
        what = 'printing a native %s a name' % ('with' if nm else 'without')
        if r is None:
            C.undecide(what + ': ' + str(w.vague))
            continue
        ad = w.rt.T.get(w.rt.st, next(iter(w.rt.objs.values())), 'Tiny_Object', 'nat.addr')
        want = [b"<native 'thing' at " if nm else b'<native at ', ('addr', ad), b'>']
        if r[0] == 'value' and r[2] == want:
            C.ok(what)
        else:
            C.fail('C26/printf', '%s prints %r' % (what, r[2]), T.where(L.fn('printf')))
    # arrays
    for elem, vals, t in (('int', [], b'[]'), ('int', [I(1)], b'[1]'), ('int', [I(1), I(-2), I(MAX)], b'[1, -2, %d]' % MAX), ('str', [S('a'), S('b')], b'["a", "b"]'),
                          ('any', [NULLV, B(True), S('z'), Fl(1.5)], b'[<null>, true, "z", 1.500000]')):
        L.arrays(elem, 'arr_' + elem)
        w = World(T, L)
        r = w.call('arr_' + elem, vals)
        if r is None or r[0] != 'value' or r[1][0] != 'raw':
            C.undecide('an array to print: %s' % w.vague)
            continue
        w.rt.objs['arr'] = r[1][1][1]
        w.rt.kind[r[1][1][1]] = 'container'
        J([S('%q'), ('object', 'arr')], t, world=w, what='printing an array of %d %s' % (len(vals), elem))
        w2 = World(T, L)


# ------------------------------------------------------------------ long texts, many arguments
def large(T, C, L):
    J = lambda n, a, w, **k: judge(T, C, L, n, a, w, **k)
    for n in (200, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 9000):
        s = b''.join(bytes([97 + k % 26]) for k in range(n - 1)) + b'Z'
        for rep in ('string', 'const'):
            J('strlen', [S(s)], I(n), rep=rep)
            J('strchr', [S(s), I(ord('Z'))], I(n - 1), rep=rep)
            J('strchr', [S(s), I(ord('!'))], I(-1), rep=rep)
            J('substr', [S(s), I(1), I(n)], S(s[1:]), rep=rep)
            J('substr', [S(s), I(n - 2), I(-1)], S(s[-2:]), rep=rep)
            J('substr', [S(s), I(1), I(n + 1)], STOP, rep=rep)
            for fn in ('stridx', 'sget', 'str_get_index'):
                if fn in L.by:
                    J(fn, [S(s), I(n - 1)], I(90), rep=rep)
                    J(fn, [S(s), I(n)], STOP, rep=rep)
        J('strcat', [S(s), S(b'!')], S(s + b'!'), rep='string')
        J('strcat', [S(b'!'), S(s)], S(b'!' + s), rep='string')
        J('strcat', [S(s), S(b''), S(s)], S(s + s), rep='string')
        for x in (b'%s', b'[%s]'):
            judge(T, C, L, 'printf', [S(x), S(s)], NULLV, out=x.replace(b'%s', s))
        judge(T, C, L, 'printf', [S(s)], NULLV, out=s)
        judge(T, C, L, 'printf', [S('%q'), S(s)], NULLV, out=b'"' + s + b'"')
        q = s[:-2] + b'"\\'
        judge_json(T, C, L, q, None, 'string')
    judge_json(T, C, L, b'"' * 300 + b'\n' * 300 + b'\x01' * 300, None, 'string')
    for n in (9, 15, 16, 17, 20, 31, 32, 33, 40, 63, 64, 65, 100, 120):
        xs = [b'%d,' % k for k in range(n)]
        J('strcat', [S(x) for x in xs], S(b''.join(xs)), rep='string')
        J('strcat', [S(x) for x in xs], S(b''.join(xs)), rep='const')
        judge(T, C, L, 'printf', [S('%i ' * n)] + [I(k * k) for k in range(n)], NULLV, out=b''.join(b'%d ' % (k * k) for k in range(n)))
        judge(T, C, L, 'printf', [S('%s' * n)] + [S(x) for x in xs], NULLV, out=b''.join(xs))
        judge(T, C, L, 'printf', [S('%i ' * n + '%i')] + [I(k * k) for k in range(n)], STOP, out=None)
        judge(T, C, L, 'printf', [S('%q'), ('struct', [I(k) for k in range(n)])], NULLV, out=b'struct {' + b', '.join(b'%d' % k for k in range(n)) + b'}')
        if 'i64_add_many' in L.by:
            J('i64_add_many', [('i64', k * k) for k in range(n)], ('i64', sum(k * k for k in range(n))))
            J('i64_mul_many', [('i64', 1 + (k == n - 1) * 6) for k in range(n)], ('i64', 7))
    v = I(1)
    t = b'1'
    for k in range(30):
        v, t = ('struct', [v, I(k)]), b'struct {%s, %d}' % (t, k)
    judge(T, C, L, 'printf', [S('%q'), v], NULLV, out=t)
    for elem, mk in (('int', lambda k: (I(k), b'%d' % k)), ('str', lambda k: (S('t%d' % k), b'"t%d"' % k))):
        for n in (40, 255, 300):
            vals = [mk(k) for k in range(n)]
            w = World(T, L)
            L.arrays(elem, 'arr_' + elem)
            r = w.call('arr_' + elem, [x for x, _ in vals])
            if r is None or r[0] != 'value' or r[1][0] != 'raw':
                C.undecide('an array of %d to print: %s' % (n, w.vague))
                continue
            w.rt.objs['arr'] = r[1][1][1]
            w.rt.kind[r[1][1][1]] = 'container'
            judge(T, C, L, 'printf', [S('%q'), ('object', 'arr')], NULLV, out=b'[' + b', '.join(x for _, x in vals) + b']', world=w,
                  what='printing an array of %d %s' % (n, elem))


# ------------------------------------------------------------------ input
def inputs(T, C, L):
    lines = [b'', b'a', b'abcdef', b'abcdefg', b'abcdefgh', b'0123456789abcde', b'0123456789abcdef', b'0123456789abcdefg', b'x' * 31, b'x' * 32, b'x' * 33, b'y' * 100,
             b'tab\there', b'a b c', b'\xe4\xff!']
    for l in lines:
        for end, rest in ((b'\n', b'next\n'), (b'', b'')):
            w = World(T, L, stdin=l + end + rest)
            judge(T, C, L, 'input', [], S(l), world=w, what='input of %r%s' % (l, '' if end else ' at the end of the input'))
            if end and w.last.kind == 'ret':
                judge(T, C, L, 'input', [], S(b'next'), world=w, what='the line after %r' % l)
                judge(T, C, L, 'input', [], S(b''), world=w, what='input at the end')
    for rep in REPS:
        judge(T, C, L, 'input', [S('name? ')], S('bob'), rep=rep, stdin=b'bob\n', out=b'name? ')
        judge(T, C, L, 'input', [S('100%s%n')], S('bob'), rep=rep, stdin=b'bob\n', out=b'100%s%n')
    for v in (I(5), NULLV, B(True)):
        judge(T, C, L, 'input', [v], S('bob'), stdin=b'bob\n', out=None)


# ------------------------------------------------------------------ files
DATA = [b'', b'a', b'hello\nworld\n', b'bin\0ary\0', b'z' * 300]


def files(T, C, L):
    for d in DATA:
        fs = {b'f.txt': d, b'other': b'unchanged'}
        for rep in REPS:
            w = World(T, L, files=fs)
            judge(T, C, L, 'read_file', [S('f.txt')], S(d), rep=rep, world=w, what='read_file of %r [%s]' % (d[:20], rep))
            closed(T, C, L, w, 'read_file')
        for rep in reps(d):
            w = World(T, L, files=fs if d else {})
            judge(T, C, L, 'write_file', [S('f.txt'), S(d)], B(True), rep=rep, world=w, what='write_file of %r [%s]' % (d[:20], rep))
            content(T, C, L, w, b'f.txt', d, 'write_file')
            closed(T, C, L, w, 'write_file')
            w = World(T, L, files={b'f.txt': b'longer than what is written, ' * 20})
            judge(T, C, L, 'write_file', [S('f.txt'), S(d)], B(True), rep=rep, world=w, what='write_file over more than %r [%s]' % (d[:20], rep))
            content(T, C, L, w, b'f.txt', d, 'write_file')
            judge(T, C, L, 'read_file', [S('f.txt')], S(d), rep=rep, world=w, what='reading back %r [%s]' % (d[:20], rep))
    w = World(T, L)
    judge(T, C, L, 'read_file', [S('missing')], NULLV, world=w, what='read_file of a missing file')
    judge(T, C, L, 'write_file', [S('/nowhere/x'), S('d')], B(False), world=w, what='write_file where no file can be')
    closed(T, C, L, w, 'write_file')
    # handles
    for d in (b'', b'abcdefgh', b'q' * 50):
        for n in (0, 1, 3, 8, 50, 51, 100, -1):
            w = opened(T, C, L, {b'f': d}, 'f', 'r')
            if w is None:
                continue
            judge(T, C, L, 'fread', [('object', 'file'), I(n)], S(d[:max(n, 0)]), world=w, what='fread of %d from %d' % (n, len(d)))
            judge(T, C, L, 'fread', [('object', 'file'), I(2)], S(d[max(n, 0):][:2]), world=w, what='fread of 2 after %d from %d' % (n, len(d)))
        w = opened(T, C, L, {b'f': d}, 'f', 'r')
        if w is not None:
            judge(T, C, L, 'fsize', [('object', 'file')], I(len(d)), world=w, what='fsize of %d' % len(d))
            for p in (0, 3, len(d), len(d) + 5):
                judge(T, C, L, 'fseek', [('object', 'file'), I(p)], NULLV, world=w, what='fseek %d' % p)
                judge(T, C, L, 'fread', [('object', 'file'), I(4)], S(d[p:p + 4]), world=w, what='fread of 4 at %d of %d' % (p, len(d)))
            judge(T, C, L, 'fclose', [('object', 'file')], NULLV, world=w, what='fclose')
            closed(T, C, L, w, 'fclose')
    for d in (b'', b'abc', b'a\0b', b'w' * 40):
        for rep in reps(d):
            w = opened(T, C, L, {b'f': b'before'}, 'f', 'w')
            if w is not None:
                judge(T, C, L, 'fwrite', [('object', 'file'), S(d)], None, rep=rep, world=w, what='fwrite of %r [%s]' % (d[:10], rep))
                judge(T, C, L, 'fwrite', [('object', 'file'), S('!')], None, rep=rep, world=w, what='fwrite after %r [%s]' % (d[:10], rep))
                content(T, C, L, w, b'f', d + b'!', 'fwrite')
            for n in (0, 1, 2, len(d), len(d) + 1, -1, 1 << 32, (1 << 32) + 1):
                for x in (I(n), Fl(float(n))):
                    w = opened(T, C, L, {b'f': b'before'}, 'f', 'w')
                    if w is None:
                        continue
                    judge(T, C, L, 'fwrite', [('object', 'file'), S(d), x], None, rep=rep, world=w, what='fwrite of %s of %r [%s]' % (x[1], d[:10], rep))
                    content(T, C, L, w, b'f', d[:n] if 0 <= n <= len(d) else d, 'fwrite')
    w = opened(T, C, L, {b'f': b'before'}, 'f', 'a')
    if w is not None:
        judge(T, C, L, 'fwrite', [('object', 'file'), S('+')], None, world=w, what='fwrite at the end')
        content(T, C, L, w, b'f', b'before+', 'fwrite')
    w = World(T, L)
    judge(T, C, L, 'fopen', [S('missing'), S('r')], NULLV, world=w, what='fopen of a missing file')
    # far positions arrive whole
    w = opened(T, C, L, {b'f': b'abc'}, 'f', 'w')
    if w is not None:
        judge(T, C, L, 'fseek', [('object', 'file'), I((1 << 32) + 1)], NULLV, world=w, what='fseek far')
        k = w.rt.st.x['open']
        if all(v[1] == (1 << 32) + 1 for v in k.values()):
            C.ok('fseek far')
        else:
            C.fail('C26/fseek', 'fseek to 2^32+1 goes to %s' % [v[1] for v in k.values()], T.where(L.fn('fseek')))


def opened(T, C, L, fs, name, mode):
    w = World(T, L, files=fs)
    r = w.call('fopen', [S(name), S(mode)], 'embedded')
    C.analysed |= w.reached
    if r is None or r[0] != 'value' or r[1][0] != 'raw' or r[1][1][0] != 'NATIVE':
        C.fail('C26/fopen', 'fopen(%r, %r) gives %s' % (name, mode, show(r[1]) if r and r[0] == 'value' else w.vague), T.where(L.fn('fopen')))
        return None
    w.rt.objs['file'] = r[1][1][1]
    w.rt.kind[r[1][1][1]] = 'native'
    return w


def content(T, C, L, w, name, want, fn):
    got = w.rt.st.x['fs'].get(name)
    if got == want:
        C.ok()
    else:
        C.fail('C26/' + fn, 'after %s the file contains %r, not %r' % (fn, got if got is None else got[:40], want[:40]), T.where(L.fn(fn)))


def closed(T, C, L, w, fn):
    if w.rt.st.x.get('open'):
        C.fail('C26/' + fn, '%s leaves a file open' % fn, T.where(L.fn(fn)))
    else:
        C.ok()


# ------------------------------------------------------------------ the rest
def rest(T, C, L):
    w = World(T, L)
    r = w.call('time', [])
    t = w.io.time
    if r is not None and r[0] == 'value' and r[1][0] == 'raw' and r[1][1] == ('INT', t):
        C.ok('time')
    else:
        C.fail('C26/time', 'time() is not the time: %s' % (show(r[1]) if r and r[0] == 'value' else w.vague), T.where(L.fn('time')))
    w = World(T, L)
    r = w.call('rand', [])
    vals = [e[1] for e in w.events if e[0] == 'rand'] if r is not None else []
    p = r[1][1][1] if r is not None and r[0] == 'value' and r[1][0] == 'raw' else None
    if len(vals) == 1 and p is not None and (p is vals[0] or p == vals[0]):
        C.ok('rand')
    else:
        C.fail('C26/rand', 'rand() is not a number of the generator', T.where(L.fn('rand')))
    for k in (0, 1, 42, -1, (1 << 31) - 1):
        w = World(T, L)
        r = w.call('srand', [I(k)])
        sr = [e[1] for e in w.events if e[0] == 'srand'] if r is not None else []
        if r is not None and r[0] == 'value' and len(sr) == 1 and type(sr[0]) is int and wrap(sr[0], 32) == wrap(k, 32):
            C.ok('srand')
        else:
            C.fail('C26/srand', 'srand(%d) seeds the generator with %s' % (k, sr), T.where(L.fn('srand')))
    for k in (0, 1, 2, 255):
        w = World(T, L)
        r = w.call('exit', [I(k)])
        ex = [e[1] for e in w.events if e[0] == 'exit'] if r is not None else []
        if r is not None and r[0] == 'stop' and len(ex) == 1 and ex[0] == k:
            C.ok('exit')
        else:
            C.fail('C26/exit', 'exit(%d) does not end the program with that code' % k, T.where(L.fn('exit')))


def run(T, C):
    L = Lib(T)
    for n in ('strlen', 'printf', 'read_file'):
        L.fn(n)
    C.together([(lambda C2, f=f: f(T, C2, L)) for f in (large, texts, numbers, printing, inputs, files, rest)])
    C.analysed |= L.reached
