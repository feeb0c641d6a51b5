"""Running the library's native functions on every kind of argument their signature admits, with the C library modelled."""
import re
from natives import *

GETS = [b'', b'\n', b'a\n', b'abcdef\n', b'abcdefg\n', b'abcdefgh\nxyz', b'0123456789abcdefghij\n', b'abc', b'abcdefg',
        b'0123456789abcde', b'0123456789abcdef']


def cbytes(st, p):
    out = b''
    while len(out) < 1 << 16:
        v = st.load(p, 1, len(out))
        if type(v) is not int:
            return None
        if v == 0:
            return out
        out += bytes([v & 255])
    return None


FILE = fresh('FILE', 64, 4096, 1 << 46)


class Libc:
    """the C library functions the natives use; what they read and write is checked against the heap"""

    def __init__(self, T, rt, stdin=b'abc\n'):
        self.T, self.rt, self.stdin = T, rt, stdin
        self.FILE = FILE

    def hooks(self):
        h = self.rt.h
        D = {}

        def reads(*ks):
            def f(en, s, a, i):
                name = i.x[0].name
                for k in ks:
                    self.text(en, s, a[k], name)
                s.log('libc', name, tuple(a))
                w = i.ty.w if i.ty is not None and i.ty.k != 'void' else None
                if i.ty is None or i.ty.k == 'void':
                    return None
                return fresh(name + '()', w or 64)
            return f

        def fopen(en, s, a, i):
            self.text(en, s, a[0], 'fopen')
            self.text(en, s, a[1], 'fopen')
            s2 = s.clone()
            s.log('open', a[0], a[1])
            s2.log('noopen', a[0], a[1])
            return Forks([(s, self.FILE), (s2, 0)])

        def fread(en, s, a, i):
            tot = a[1] if type(a[2]) is int and a[2] == 1 else a[2] if type(a[1]) is int and a[1] == 1 else op('mul', 64, a[1], a[2])
            if not (type(tot) is int and tot == 0):
                h.access(s, a[0], tot, 'reading a file')
            s.log('libc', 'fread', tuple(a))
            r = fresh('fread()', 64, 0, 1 << 40)
            s.assume(E.mk_le(add(r, a[2], -1)), True)
            if type(a[2]) is int and type(a[1]) is int and a[1] == 1 and a[2] < 256:
                for k in range(a[2]):
                    s.store(a[0], 1, fresh('byte', 8), k)
            return r

        def fwrite(en, s, a, i):
            tot = a[1] if type(a[2]) is int and a[2] == 1 else a[2] if type(a[1]) is int and a[1] == 1 else op('mul', 64, a[1], a[2])
            if not (type(tot) is int and tot == 0):
                h.access(s, a[0], tot, 'writing a file')
            s.log('libc', 'fwrite', tuple(a))
            r = fresh('fwrite()', 64, 0, 1 << 40)
            return r

        def ftell(en, s, a, i):
            s.log('libc', 'ftell', tuple(a))
            s2, s3 = s.clone(), s.clone()
            s2.log('nosize')
            s3.log('nosize')
            return Forks([(s, fresh('ftell()', 64, 0, (1 << 31) - 2)), (s2, -1), (s3, fresh('ftell()', 64, (1 << 31) - 1, (1 << 63) - 1))])

        def fclose(en, s, a, i):
            s.log('close', a[0])
            return 0

        def getc(en, s, a, i):
            k = s.x.get('stdin', 0)
            s.x['stdin'] = k + 1
            return self.stdin[k] if k < len(self.stdin) else -1

        def fgets(en, s, a, i):
            return 0

        def memchr(en, s, a, i):
            if not (type(a[2]) is int and a[2] == 0):
                h.access(s, a[0], a[2], 'a search')
            s.log('libc', 'memchr', tuple(a))
            if type(a[2]) is int and type(a[1]) is int:
                for k in range(a[2]):
                    v = s.load(a[0], 1, k)
                    if type(v) is not int:
                        break
                    if v & 255 == a[1] & 255:
                        return add(a[0], k)
                else:
                    return 0
            if type(a[2]) is int and a[2] < 16:
                out = []
                for k in range(a[2]):
                    s2 = s.clone()
                    s2.log('found', k)
                    out.append((s2, add(a[0], k)))
                out.append((s, 0))
                return Forks(out)
            return fresh('memchr()', 64)

        def qsort(en, s, a, i):
            s.log('libc', 'qsort', tuple(a))
            return None

        def out(en, s, a, i):
            nm = i.x[0].name
            s.log('out', nm, tuple(a), i)
            if nm in ('puts', 'fputs'):
                self.text(en, s, a[0], nm)
            elif nm in ('printf', 'fprintf'):
                k = 0 if nm == 'printf' else 1
                self.text(en, s, a[k], nm)
                fmt = cbytes(s, a[k])
                rest = list(a[k + 1:])
                for m in re.finditer(rb'%[-+ #0]*(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|j|z|t|L)?([a-zA-Z%])', fmt or b''):
                    if m.group(4) == b'%':
                        continue
                    need = [m.group(1) == b'*', m.group(2) == b'*']
                    if sum(need) + 1 > len(rest):
                        s.log('bad', '%s is given too few arguments for its format' % nm)
                        raise Raise('bad', '%s is given too few arguments for its format' % nm)
                    width = [rest.pop(0) for x in need if x]
                    v = rest.pop(0)
                    if m.group(4) == b's' and m.group(2) is None:
                        self.text(en, s, v, nm)
                    elif m.group(4) == b's' and m.group(2) == b'*' and width and type(width[-1]) is int and width[-1] > 0:
                        self.rt.h.access(s, v, width[-1], 'a read by ' + nm)
            return fresh(i.x[0].name + '()', 32)

        def snprintf(en, s, a, i):
            s.log('ext', 'snprintf', tuple(a))
            t = E.format_text(en, s, a[2], a[3:])
            n = a[1]
            if t is not None and type(n) is int:
                for k, b in enumerate((t[:n - 1] + b'\0') if n > 0 else b''):
                    h.access(s, add(a[0], k), 1, 'formatting')
                    s.store(a[0], 1, E.signed(b, 8), k)
                return len(t)
            # the text is that of an integer or a floating point number: short, never empty
            r = fresh('snprintf()', 32, 1, 24)
            if type(n) is int:
                for k in range(min(n, 64)):
                    h.access(s, add(a[0], k), 1, 'formatting')
                    s.store(a[0], 1, fresh('digit', 8), k)
            return r
        D.update(fopen=fopen, fread=fread, fwrite=fwrite, fclose=fclose, getc=getc, fgetc=getc, getchar=getc, fgets=fgets, memchr=memchr,
                 qsort=qsort, snprintf=snprintf, strtod=reads(0), strtol=reads(0), strtoll=reads(0), __isoc23_strtol=reads(0),
                 __isoc23_strtoll=reads(0), atoi=reads(0), atol=reads(0), atoll=reads(0), atof=reads(0),
                 time=reads(), rand=reads(), srand=reads(), fseek=reads(), ftell=ftell, rewind=reads(),
                 printf=out, putc=out, putchar=out, fputc=out, puts=out, fputs=out, fprintf=out)
        return D

    def text(self, en, s, p, who):
        """a C string is read"""
        if type(p) is int:
            s.log('bad', '%s is given no text' % who)
            raise Raise('bad', '%s is given no text' % who)
        a = None
        for x, k in p.t:
            if k == 1 and x.kind == 'obj' and x.meta:
                a = x
        if a is None:
            return
        n = 0
        while n < 1 << 16:
            self.rt.h.access(s, add(p, n), 1, 'a read by ' + who)
            v = s.load(p, 1, n)
            if type(v) is not int or v == 0:
                return
            n += 1


def kinds(ty, libc):
    """[(label, maker(rt) -> value)] for a declared type"""
    def text(kind, s):
        def f(rt):
            n = 'text%d' % len(rt.objs)
            if kind == 'const':
                q = rt.st.new_obj(n, ('bytes', s + b'\0'))
                q.t[0][0].meta['size'] = len(s) + 1
                rt.texts.append((q, s))
                return ('CONST_STRING', q)
            p = rt.new(n, kind)
            blk = rt.h.block(rt.st, n + '.text', len(s) + 1, ('bytes', s + b'\0')) if kind == 'string' else \
                rt.T.get(rt.st, p, 'Tiny_Object', 'string.ptr')
            if kind == 'string':
                # the text which came with the object is replaced
                old = rt.T.get(rt.st, p, 'Tiny_Object', 'string.ptr')
                rt.st.x['live'] = rt.st.x['live'] - {old.t[0][0]}
                rt.T.set(rt.st, p, 'Tiny_Object', 'string.ptr', blk)
                rt.T.set(rt.st, p, 'Tiny_Object', 'string.len', len(s))
                rt.owned[n] = [blk.t[0][0]]
            rt.texts.append((blk, s if kind == 'string' else b'abc'))
            return n
        return f
    ints = [('any int', lambda rt: ('INT', fresh('i', 64)))]
    floats = [('any float', lambda rt: ('FLOAT', fresh('f', 64)))]
    bools = [('true', lambda rt: ('BOOL', 1)), ('false', lambda rt: ('BOOL', 0))]
    strs = [('constant text', text('const', b'abc')), ('text', text('string', b'abcd')), ('embedded text', text('embedded', b'abc')),
            ('text with a terminator inside', text('string', b'ab\0cd')),
            ('empty text', text('const', b'')), ('empty owned text', text('string', b''))]

    def obj(kind, n=0):
        def f(rt):
            nm = '%s%d' % (kind, len(rt.objs))
            rt.new(nm, kind, n)
            return nm
        return f

    def filev(rt):
        nm = 'file%d' % len(rt.objs)
        p = rt.new(nm, 'bare')
        g = Engine(rt.m).gptr('FileProp') if 'FileProp' in rt.m.globals else fresh('FileProp', 64, 4096, 1 << 46)
        rt.T.set(rt.st, p, 'Tiny_Object', 'nat.prop', g)
        rt.T.set(rt.st, p, 'Tiny_Object', 'nat.addr', libc.FILE)
        return nm
    if ty == 'int':
        return ints
    if ty == 'float':
        return floats
    if ty == 'bool':
        return bools
    if ty == 'str':
        return strs
    if ty == 'file':
        return [('file', filev)]
    if ty == 'i64':
        return [('i64', lambda rt: ('LIGHT_NATIVE', fresh('i64', 64)))]
    if ty == 'any':
        return [('null', lambda rt: None)] + ints + floats + bools[:1] + strs[:4] + [
            ('struct', obj('struct', 2)), ('native', obj('native')), ('native without properties', obj('bare')),
            ('light native', lambda rt: ('LIGHT_NATIVE', fresh('addr', 64)))]
    return None


ACCESS = {'Tiny_ToBool': ('BOOL',), 'Tiny_ToInt': ('INT',), 'Tiny_ToFloat': ('FLOAT',), 'Tiny_ToNumber': ('INT', 'FLOAT'),
          'Tiny_ToString': ('STRING', 'CONST_STRING'), 'Tiny_StringLen': ('STRING', 'CONST_STRING'),
          'Tiny_ToAddr': ('NATIVE', 'LIGHT_NATIVE'), 'Tiny_GetProp': ('NATIVE',), 'Tiny_GetField': ('STRUCT',)}


def accessor_hooks(T, rt):
    """log every use of an accessor on a value of a type it is not for"""
    out = {}
    for n in T.funcs:
        b = n.split('.')[0]
        if b in ACCESS:
            ok = {rt.VT[x] for x in ACCESS[b]}

            def f(en, s, a, i, b=b, ok=ok):
                t = None
                if len(a) >= 2 and not isinstance(a[0], AggV):
                    t = a[1]
                elif isinstance(a[0], AggV):
                    t = a[0].v[1]
                elif isinstance(a[0], Lin):
                    t = s.load(a[0], 1, rt.toff)
                if type(t) is Lin:
                    c = s.const_of(t)
                    t = c if c is not None else t
                if type(t) is int and (t & 255) not in ok:
                    s.log('accessor', b, rt.VN.get(t & 255, t))
                return INLINE
            out[n] = f
    return out


def argument_sets(args, varargs, libc, extras=3):
    """labelled argument lists: one argument varied at a time, then growing numbers of further arguments"""
    base = [kinds(t, libc) for t in (args or [])]
    if any(b is None for b in base):
        return None
    sets = []
    first = [b[0] for b in base]
    sets.append((list(first), False))
    for k, b in enumerate(base):
        for alt in b[1:]:
            s = list(first)
            s[k] = alt
            sets.append((s, False))
    if varargs:
        anyk = kinds('any', libc)
        for n in range(1, extras + 1):
            for k in range(len(anyk)):
                sets.append((list(first) + [anyk[(k + j) % len(anyk)] for j in range(n)], True))
    return sets


def result_fits(rt, declared, t, p):
    """does a result of type t fit the declared type?  None when the declaration says nothing"""
    VT = rt.VT
    if declared is None or declared in ('any', 'void'):
        return True
    opt = declared.endswith('?')
    d = declared.rstrip('?')
    if t == VT['NULL']:
        return opt
    want = {'int': ('INT',), 'float': ('FLOAT',), 'bool': ('BOOL',), 'str': ('STRING', 'CONST_STRING'), 'Thing': ('STRUCT',)}.get(d, ('NATIVE', 'LIGHT_NATIVE'))
    return t in {VT[x] for x in want}
