"""The C library as the library's text, number and file functions use it, on known arguments: formatted output, number
parsing and a small file system.  Arguments that are not known stay opaque."""
import math
import re
import struct as pystruct
from natworld import *

SPEC = re.compile(rb'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d*))?(hh|h|ll|l|j|z|t|L)?([a-zA-Z%])')
WIDTH = {b'hh': 8, b'h': 16, b'l': 64, b'll': 64, b'j': 64, b'z': 64, b't': 64}


def fval(x):
    """python float of an abstract double"""
    if isinstance(x, float):
        return x
    if isinstance(x, Lin):
        a = x.atom()
        if a is not None and a.kind == 'fconst':
            v = a.args
            return v[0] if isinstance(v, tuple) else v
    if type(x) is int:                       # the bits, as a store and a load leave them
        return pystruct.unpack('d', pystruct.pack('Q', x & (1 << 64) - 1))[0]
    return None


def wrap(v, w, sg=True):
    v &= (1 << w) - 1
    return v - (1 << w) if sg and v >> (w - 1) else v


def fmt_c(fl, width, prec, conv, v):
    """one conversion done by python's %, which agrees with C for these"""
    s = '%' + fl.decode() + (str(width) if width is not None else '') + ('.%d' % prec if prec is not None else '') + conv
    return (s % v).encode()


def ctext(rt, st, p, n=None, who='a read'):
    """bytes of a text up to its terminator, at most n; checked against the heap; None when not known"""
    if type(p) is int:
        return None
    out = bytearray()
    while n is None or len(out) < n:
        q = add(p, len(out))
        rt.h.access(st, q, 1, who)
        v = st.load(p, 1, len(out))
        if type(v) is Lin:
            c = st.const_of(v)
            v = c if c is not None else v
        if type(v) is not int:
            return None
        if v == 0:
            return bytes(out)
        out.append(v & 255)
        if len(out) > 100000:
            return None
    return bytes(out)


class Format(Exception):
    pass


def format_c(rt, st, fmt, args, who='printf'):
    """the bytes printf would write; a list of bytes and opaque pieces"""
    f = ctext(rt, st, fmt, None, who)
    if f is None:
        return None
    out = []
    args = list(args)
    pos = 0

    def take():
        if not args:
            raise Format('%s is given too few arguments for its format' % who)
        return args.pop(0)
    while pos < len(f):
        k = f.find(b'%', pos)
        if k < 0:
            out.append(f[pos:])
            break
        if k > pos:
            out.append(f[pos:k])
        m = SPEC.match(f, k)
        if not m:
            raise Format('%s is given the format %r' % (who, f))
        pos = m.end()
        fl, w, pr, ln, cv = m.groups()
        if cv == b'%':
            out.append(b'%')
            continue
        width = None
        if w == b'*':
            width = take()
        elif w is not None:
            width = int(w)
        prec = None
        if pr == b'*':
            prec = take()
        elif pr is not None:
            prec = int(pr or b'0')
        v = take()
        known = all(x is None or type(x) is int for x in (width, prec))
        if cv == b's':
            t = ctext(rt, st, v, prec if type(prec) is int and prec >= 0 else None, who) if known else None
            if t is None and type(v) is int:
                raise Format('%s is given no text for %%s' % who)
            out.append(('text', v) if t is None else (fmt_c(fl, width, None, 's', t.decode('latin-1')) if width is not None else t))
            if t is not None and width is not None:
                out[-1] = fmt_c(fl, width, None, 's', t.decode('latin-1')).decode('utf-8').encode('latin-1')
        elif cv in (b'd', b'i', b'u', b'x', b'X', b'o'):
            ww = WIDTH.get(ln, 32)
            if type(v) is Lin:
                c = st.const_of(v)
                v = c if c is not None else v
            if type(v) is int and known:
                v = wrap(v, ww, cv in (b'd', b'i'))
                out.append(fmt_c(fl, width, prec, cv.decode().replace('u', 'd').replace('i', 'd'), v))
            else:
                out.append(('int', ww if cv in (b'd', b'i') else -ww, v))
        elif cv in (b'f', b'g', b'e', b'F', b'G', b'E'):
            x = fval(v)
            if x is None or not known:
                out.append(('float', bytes(m.group(0)), v))
            else:
                out.append(fmt_c(fl, width, prec, cv.decode(), x))
        elif cv == b'c':
            if type(v) is int:
                out.append(bytes([v & 255]))
            else:
                out.append(('char', v))
        elif cv == b'p':
            out.append(('addr', v))
        else:
            raise Format('%s is given the format %r' % (who, f))
    return join(out)


def join(parts):
    out = []
    for p in parts:
        if isinstance(p, bytes) and out and isinstance(out[-1], bytes):
            out[-1] += p
        elif p != b'':
            out.append(p)
    return out


SPACE = b' \t\n\v\f\r'


def strtol(t, base):
    """(value, characters used)"""
    k = 0
    while k < len(t) and t[k] in SPACE:
        k += 1
    neg = False
    if k < len(t) and t[k] in b'+-':
        neg = t[k] == ord('-')
        k += 1
    if base in (0, 16) and t[k:k + 2].lower() == b'0x' and k + 2 < len(t) and chr(t[k + 2]).lower() in '0123456789abcdef':
        k += 2
        base = 16
    elif base == 0:
        base = 8 if t[k:k + 1] == b'0' else 10
    v, s = 0, k
    while k < len(t):
        c = chr(t[k]).lower()
        d = ord(c) - 48 if c.isdigit() else ord(c) - 87 if 'a' <= c <= 'z' else 99
        if d >= base:
            break
        v = v * base + d
        k += 1
    if k == s:
        return 0, 0
    v = -v if neg else v
    return max(-(1 << 63), min((1 << 63) - 1, v)), k


NUM = re.compile(rb'[ \t\n\v\f\r]*([+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)')


def strtod(t):
    m = NUM.match(t)
    return (float(m.group(1)), m.end()) if m else (0.0, 0)


class Io(Libc):
    """+ files: {name: bytes}; what is written to stdout is logged as ('stdout', part)"""

    def __init__(self, T, rt, stdin=b'', files=None):
        super().__init__(T, rt, stdin)
        rt.st.x['fs'] = dict(files or {})
        self.handles = [fresh('file%d' % k, 64, 4096, 1 << 46) for k in range(4)]
        self.FILE = self.handles[0]
        self.time = fresh('time()', 64, 0, 1 << 40)

    def handle(self, s, f):
        t = s.x.get('open', {})
        for k, h in enumerate(self.handles):
            if h is f or h == f:
                return k if k in t else None
        return None

    def hooks(self):
        D = super().hooks()
        rt = self.rt

        def bad(s, t):
            s.log('bad', t)
            raise Raise('bad', t)

        def outp(s, parts):
            for x in parts:
                s.log('stdout', x)

        def is_std(f):
            a = f.atom() if isinstance(f, Lin) else None
            n = repr(a) if a is not None else repr(f)
            return 'stdout' if 'stdout' in n else 'stderr' if 'stderr' in n else 'stdin' if 'stdin' in n else None

        def fmt(s, f, a, who):
            try:
                r = format_c(rt, s, f, a, who)
            except Format as e:
                bad(s, str(e))
            return r if r is not None else [('unknown', who)]

        def dest(s, f, parts):
            w = is_std(f)
            if w == 'stdout':
                outp(s, parts)
            elif w == 'stderr':
                for x in parts:
                    s.log('stderr', x)
            else:
                k = self.handle(s, f)
                if k is None:
                    bad(s, 'something that is not an open file is written to')
                data = b''.join(p if isinstance(p, bytes) else b'?' for p in parts)
                self.put(s, k, data)

        def printf(en, s, a, i):
            p = fmt(s, a[0], a[1:], 'printf')
            outp(s, p)
            return sum(len(x) for x in p if isinstance(x, bytes))

        def fprintf(en, s, a, i):
            dest(s, a[0], fmt(s, a[1], a[2:], 'fprintf'))
            return 1

        def ch(en, s, a, i):
            c = a[0]
            dest(s, a[1], [bytes([c & 255]) if type(c) is int else ('char', c)])
            return c

        def pch(en, s, a, i):
            c = a[0]
            outp(s, [bytes([c & 255]) if type(c) is int else ('char', c)])
            return c

        def puts(en, s, a, i):
            t = ctext(rt, s, a[0], None, 'puts')
            outp(s, [t if t is not None else ('text', a[0]), b'\n'])
            return 1

        def fputs(en, s, a, i):
            t = ctext(rt, s, a[0], None, 'fputs')
            dest(s, a[1], [t if t is not None else ('text', a[0])])
            return 1

        def snprintf(en, s, a, i):
            p = fmt(s, a[2], a[3:], 'snprintf')
            n = a[1]
            if all(isinstance(x, bytes) for x in p) and type(n) is int:
                t = b''.join(p)
                for k, b in enumerate((t[:n - 1] + b'\0') if n > 0 else b''):
                    rt.h.access(s, add(a[0], k), 1, 'formatting')
                    s.store(a[0], 1, E.signed(b, 8), k)
                return len(t)
            s.log('formatted', tuple(p))
            return D_sn(en, s, a, i)
        D_sn = D['snprintf']

        def sprintf(en, s, a, i):
            p = fmt(s, a[1], a[2:], 'sprintf')
            if all(isinstance(x, bytes) for x in p):
                t = b''.join(p)
                for k, b in enumerate(t + b'\0'):
                    rt.h.access(s, add(a[0], k), 1, 'formatting')
                    s.store(a[0], 1, E.signed(b, 8), k)
                return len(t)
            return bad(s, 'sprintf of something unknown')

        def number(parse):
            def f(en, s, a, i):
                t = ctext(rt, s, a[0], None, i.x[0].name)
                if t is None:
                    return fresh(i.x[0].name, 64)
                v, used = parse(t, a)
                if len(a) > 1 and isinstance(a[1], Lin):
                    s.store(a[1], 8, add(a[0], used))
                return v
            return f
        lng = number(lambda t, a: strtol(t, a[2] if len(a) > 2 and type(a[2]) is int else 10))
        integer = number(lambda t, a: (wrap(strtol(t, 10)[0], 32), 0))
        longint = number(lambda t, a: (strtol(t, 10)[0], 0))
        dbl = number(lambda t, a: (E.fconst(strtod(t)[0]), strtod(t)[1]))

        def unary(fn, name):
            def f(en, s, a, i):
                x = fval(a[0])
                if x is None:
                    return op(name, 64, a[0])
                return E.fconst(x if math.isinf(x) or math.isnan(x) else math.copysign(float(fn(x)), x))
            return f

        def floorf(fn):
            def f(en, s, a, i):
                return fresh('single precision', 32)
            return f

        # ---- files
        def fopen(en, s, a, i):
            n, m = ctext(rt, s, a[0], None, 'fopen'), ctext(rt, s, a[1], None, 'fopen')
            s.log('open', n, m)
            fs = dict(s.x['fs'])
            t = dict(s.x.get('open', {}))
            if m is None or n is None or m[:1] not in (b'r', b'w', b'a') or m[:1] == b'r' and n not in fs or n.startswith(b'/nowhere'):
                return 0
            if m[:1] == b'w':
                fs[n] = b''
                s.x['fs'] = fs
            k = min(set(range(len(self.handles))) - set(t))
            t[k] = (n, len(fs[n]) if n in fs and m[:1] == b'a' else 0, m)
            fs.setdefault(n, b'')
            s.x['fs'] = fs
            s.x['open'] = t
            return self.handles[k]

        def h(s, f, who):
            k = self.handle(s, f)
            if k is None:
                bad(s, '%s is given something that is not an open file' % who)
            return k

        def fclose(en, s, a, i):
            k = h(s, a[0], 'fclose')
            t = dict(s.x['open'])
            del t[k]
            s.x['open'] = t
            s.log('close', a[0])
            return 0

        def fseek(en, s, a, i):
            k = h(s, a[0], 'fseek')
            n, pos, m = s.x['open'][k]
            if type(a[1]) is not int or type(a[2]) is not int:
                bad(s, 'fseek to an unknown position')
            to = a[1] + {0: 0, 1: pos, 2: len(s.x['fs'][n])}.get(a[2], 0)
            if to < 0:
                return -1
            s.x['open'] = dict(s.x['open'], **{}) if False else {**s.x['open'], k: (n, to, m)}
            return 0

        def ftell(en, s, a, i):
            return s.x['open'][h(s, a[0], 'ftell')][1]

        def rewind(en, s, a, i):
            k = h(s, a[0], 'rewind')
            n, pos, m = s.x['open'][k]
            s.x['open'] = {**s.x['open'], k: (n, 0, m)}

        def fread(en, s, a, i):
            k = h(s, a[3], 'fread')
            n, pos, m = s.x['open'][k]
            if type(a[1]) is not int or type(a[2]) is not int:
                bad(s, 'fread of an unknown amount')
            if m[:1] != b'r' and b'+' not in m:
                return 0
            data = s.x['fs'][n][pos:pos + a[1] * a[2]]
            if a[1] * a[2] > 0:
                rt.h.access(s, a[0], a[1] * a[2], 'reading a file')
            for j, b in enumerate(data):
                s.store(a[0], 1, E.signed(b, 8), j)
            s.x['open'] = {**s.x['open'], k: (n, pos + len(data), m)}
            return len(data) // a[1] if a[1] else 0

        def fwrite(en, s, a, i):
            if type(a[1]) is not int or type(a[2]) is not int:
                bad(s, 'fwrite of an unknown amount')
            t = bytearray()
            for j in range(a[1] * a[2]):
                rt.h.access(s, add(a[0], j), 1, 'writing a file')
                v = s.load(a[0], 1, j)
                t.append(v & 255 if type(v) is int else 63)
            w = is_std(a[3])
            if w == 'stdout':
                outp(s, [bytes(t)])
                return a[2]
            k = h(s, a[3], 'fwrite')
            if not self.put(s, k, bytes(t)):
                return 0
            return a[2]

        def time(en, s, a, i):
            if a and isinstance(a[0], Lin):
                s.store(a[0], 8, self.time)
            return self.time

        def rand(en, s, a, i):
            r = fresh('rand()', 32, 0, (1 << 31) - 1)
            s.log('rand', r)
            return r

        def srand(en, s, a, i):
            s.log('srand', a[0])

        def ex(en, s, a, i):
            s.log('exit', a[0])
            raise Raise('exit', 'exit')

        def memchr(en, s, a, i):
            n = a[2]
            if type(n) is not int or type(a[1]) is not int:
                return fresh('memchr()', 64)
            for k in range(n):
                rt.h.access(s, add(a[0], k), 1, 'a search')
                v = s.load(a[0], 1, k)
                if type(v) is int and v & 255 == a[1] & 255:
                    return add(a[0], k)
            return 0
        D.update(printf=printf, fprintf=fprintf, putc=ch, fputc=ch, _IO_putc=ch, putchar=pch, puts=puts, fputs=fputs, snprintf=snprintf,
                 sprintf=sprintf, strtol=lng, strtoll=lng, __isoc23_strtol=lng, __isoc23_strtoll=lng, atoi=integer, atol=longint,
                 atoll=longint, strtod=dbl, atof=dbl, floor=unary(math.floor, 'ffloor'), ceil=unary(math.ceil, 'fceil'),
                 floorf=floorf('floor'), ceilf=floorf('ceil'), fopen=fopen, fclose=fclose, fseek=fseek, ftell=ftell, rewind=rewind,
                 fread=fread, fwrite=fwrite, time=time, rand=rand, srand=srand, exit=ex, memchr=memchr)
        for n in ('floor', 'ceil'):
            D['llvm.%s.f64' % n] = D[n]
        return D

    def put(self, s, k, data):
        n, pos, m = s.x['open'][k]
        if m[:1] == b'r' and b'+' not in m:
            return False
        c = s.x['fs'][n]
        if m[:1] == b'a':
            pos = len(c)
        c = c.ljust(pos, b'\0')
        s.x['fs'] = {**s.x['fs'], n: c[:pos] + data + c[pos + len(data):]}
        s.x['open'] = {**s.x['open'], k: (n, pos + len(data), m)}
        return True


def make_text(rt, s, kind):
    """a string value with the given text: const string, or an object of either representation"""
    st, T = rt.st, rt.T
    b = s.encode('latin-1') if isinstance(s, str) else s
    if kind == 'const':
        q = st.new_obj('text%r' % s, ('bytes', b + b'\0'))
        q.t[0][0].meta['size'] = len(b) + 1
        return ('CONST_STRING', q)
    o = T.size('Tiny_Object')
    emb = kind == 'embedded'
    p = rt.h.block(st, 'string%r%s%d' % (s, kind, rt.G('numObjects')), o + (len(b) + 1 if emb else 0), 'undef')
    if emb:
        q = add(p, o)
        for k, c in enumerate(b + b'\0'):
            st.store(p, 1, E.signed(c, 8), o + k)
    else:
        q = rt.h.block(st, 'text%r' % s, len(b) + 1, ('bytes', b + b'\0'))
    for f, v in (('marked', 0), ('type', rt.VT['STRING']), ('next', rt.G('gcHead')), ('string.len', len(b)), ('string.ptr', q)):
        T.set(st, p, 'Tiny_Object', f, v)
    rt.S('gcHead', p)
    rt.S('numObjects', rt.G('numObjects') + 1)
    return ('STRING', p)


def text_of(rt, st, t, p):
    """bytes of a string value, or None"""
    if t == rt.VT['CONST_STRING']:
        return ctext(rt, st, p)
    if t != rt.VT['STRING'] or type(p) is int:
        return None
    q, n = rt.T.get(st, p, 'Tiny_Object', 'string.ptr'), rt.T.get(st, p, 'Tiny_Object', 'string.len')
    if type(n) is Lin:
        c = st.const_of(n)
        n = c if c is not None else n
    if type(n) is not int or type(q) is int:
        return None
    out = bytearray()
    for k in range(n):
        rt.h.access(st, add(q, k), 1, 'the text')
        v = st.load(q, 1, k)
        if type(v) is Lin:
            c = st.const_of(v)
            v = c if c is not None else v
        if type(v) is not int:
            return None
        out.append(v & 255)
    return bytes(out)
