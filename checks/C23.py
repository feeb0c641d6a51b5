"""Values: one type each, accessors that respect it, and equality."""
from rtworld import *
import os
import tempfile

LEVEL = 'other'
FLOOR = 500
RULE = ('Every constructor of values is interpreted on an opaque payload, and every accessor (including the inline ones of the '
        'header) on a value of every kind with an opaque payload: it must give exactly the payload for the types it is '
        'documented for and the neutral result for all others, without following a payload that is not a pointer. Equality '
        'is interpreted on every ordered pair of a set of values which covers every kind, every representation of texts '
        '(constant, owned, embedded; equal, different, prefixes, empty, with a zero byte inside) and distinct objects with '
        'equal and different contents, and on opaque payloads where the result must be the comparison of the payloads.')

INLINE_FNS = ('Tiny_IsNull', 'Tiny_ToBool', 'Tiny_ToInt', 'Tiny_ToFloat', 'Tiny_ToNumber', 'Tiny_IsThreadDone')


def with_inlines():
    """the library plus the inline functions of its header"""
    d = tempfile.mkdtemp(prefix='tinyhdr')
    try:
        f = os.path.join(d, 'keep.c')
        with open(f, 'w') as h:
            h.write('#include <stddef.h>\n#include "tiny.h"\nvoid *const verif_keep[] = {%s};\n' % ', '.join(
                '(void *)' + x for x in INLINE_FNS))
        import tiny
        old = tiny.sources
        tiny.sources = lambda: old() + [f]
        try:
            return tiny.Tiny()
        finally:
            tiny.sources = old
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


def pass_value(rt, fn, cells, extra=()):
    """arguments for a function taking Tiny_Values (each either two registers or a pointer)"""
    f = rt.m.funcs[fn]
    out = []
    n = len(f.params)
    byreg = n == 2 * len(cells) + len(extra)
    for c in cells:
        if byreg:
            out += [c[1], c[0]]
        else:
            p = rt.st.new_obj('value', 'undef')
            p.t[0][0].meta['size'] = rt.vsize
            rt.st.store(p, 8, c[1], rt.voff)
            rt.st.store(p, 1, c[0], rt.toff)
            out.append(p)
    return out + list(extra)


def exe(rt, C, fn, args):
    en = Engine(rt.m, max_visits=200, max_paths=100)
    rt.install(en)
    rs = en.run(fn, args, rt.st)
    C.analysed |= en.reached
    return rs


def ret_value(rt, r):
    v = r.val
    return (v.v[1], v.v[0]) if isinstance(v, AggV) else (None, None)


def eqv(a, b):
    return a is b or type(a) is int and type(b) is int and a == b


# ------------------------------------------------------------------ constructors
def constructors(T, C):
    for fn, ty, bits in (('Tiny_NewBool', 'BOOL', 8), ('Tiny_NewInt', 'INT', 64), ('Tiny_NewFloat', 'FLOAT', 64),
                         ('Tiny_NewConstString', 'CONST_STRING', 64), ('Tiny_NewLightNative', 'LIGHT_NATIVE', 64)):
        T.fn(fn)
        f = T.funcs[fn]
        pays = [fresh('payload', 64) if bits == 64 else None]
        if ty == 'BOOL':
            pays = [0, 1]
        elif ty == 'CONST_STRING':
            pays = [fresh('text', 64, 4096, 1 << 46)]
        elif ty == 'INT':
            pays += [0, -1, 1 << 31, -(1 << 31) - 1, (1 << 63) - 1, -(1 << 63)]
        elif ty == 'LIGHT_NATIVE':
            pays += [0]
        for x in pays:
            rt = Rt(T)
            for r in exe(rt, C, fn, [x]):
                if r.kind != 'ret':
                    C.fail('C23/new/' + fn, '%s(%r): ends with %s' % (fn, x, r.val), T.where(fn))
                    continue
                t, p = ret_value(rt, r)
                if ty == 'BOOL':
                    p = E.extract(p, 0, 8, 1) if p is not None else p
                if t != rt.VT[ty] or not eqv(p, x):
                    C.fail('C23/new/' + fn, '%s(%r) gives (%s, %r)' % (fn, x, rt.VN.get(t, t), p), T.where(fn))
                else:
                    C.ok('%s(%r)' % (fn, x))


def texts(T, C):
    """a text made from bytes has exactly those bytes, whatever they are, and nothing behind them is read"""
    for fn in ('Tiny_NewStringCopy', 'Tiny_NewString'):
        T.fn(fn)
        for data in (b'', b'a', b'some text', b'\0', b'a\0b', b'\0\0', b'ab\0', b'\xff\x80\0\x7f', b'x' * 300, b'x' * 299 + b'\0'):
            rt = Rt(T)
            copy = fn == 'Tiny_NewStringCopy'
            if copy:
                # not terminated
                src = rt.st.new_obj('source', 'undef')
                src.t[0][0].meta['size'] = len(data)
                for k, b in enumerate(data):
                    rt.st.store(src, 1, E.signed(b, 8), k)
            else:
                src = rt.h.block(rt.st, 'source', len(data) + 1, ('bytes', data + b'\0'))
            en = Engine(rt.m, max_visits=2000, max_paths=100)
            rt.install(en)
            rs = en.run(fn, [rt.thread, src, len(data)], rt.st)
            C.analysed |= en.reached
            what = '%s of %r' % (fn, data[:12])
            for r in rs:
                if r.kind != 'ret':
                    C.fail('C23/text/' + fn, '%s: ends with %s (%s)' % (what, r.kind, r.val), T.where(fn))
                    continue
                st = r.st
                bad = [e[1] for e in st.events() if e[0] == 'bad']
                t, p = ret_value(rt, r)
                Q = lambda m: T.get(st, p, 'Tiny_Object', m)
                if t != rt.VT['STRING']:
                    bad.append('its type is %r' % (rt.VN.get(t, t),))
                elif Q('string.len') != len(data):
                    bad.append('its length is %r, not %d' % (Q('string.len'), len(data)))
                elif not bad:
                    tp = Q('string.ptr')
                    got = [st.load(tp, 1, k) for k in range(len(data) + 1)]
                    want = [E.signed(b, 8) for b in data + b'\0']
                    if not copy and tp is not src:
                        bad.append('its text is not the given block')
                    elif [x & 255 if type(x) is int else x for x in got] != [x & 255 for x in want]:
                        bad.append('its bytes are not the given ones and a terminator')
                if bad:
                    C.fail('C23/text/' + fn, '%s: %s' % (what, '; '.join(bad[:3])), T.where(fn))
                else:
                    C.ok(what)


# ------------------------------------------------------------------ accessors
def world(T):
    rt = Rt(T)
    rt.new('S', 'struct', 3)
    rt.new('T', 'struct', 3)
    rt.new('H', 'string')
    rt.new('M', 'embedded')
    rt.new('N', 'native')
    rt.new('P', 'bare')
    vals = {
        'null': (rt.VT['NULL'], 0),
        'null with leftovers': (rt.VT['NULL'], fresh('left', 64)),
        'true': (rt.VT['BOOL'], 1),
        'false': (rt.VT['BOOL'], 0),
        'int': (rt.VT['INT'], fresh('i', 64)),
        'float': (rt.VT['FLOAT'], fresh('f', 64)),
        'constant text': (rt.VT['CONST_STRING'], T.cstr(rt.st, 'abcd', 'ctext')),
        'light native': (rt.VT['LIGHT_NATIVE'], fresh('addr', 64)),
        'light native null': (rt.VT['LIGHT_NATIVE'], 0),
        'struct': rt.val('S'), 'string': rt.val('H'), 'embedded string': rt.val('M'), 'native': rt.val('N'),
        'native without properties': rt.val('P'),
    }
    return rt, vals


def accessors(T, C):
    rt0, vals = world(T)
    for fn in INLINE_FNS[:5] + ('Tiny_ToString', 'Tiny_StringLen', 'Tiny_ToAddr', 'Tiny_GetProp'):
        T.fn(fn)
        for name in vals:
            rt, vs = world(T)
            t, p = vs[name]
            O = lambda m: T.get(rt.st, p, 'Tiny_Object', m)
            kind = rt.VN[t]
            want = {
                'Tiny_IsNull': lambda: int(kind == 'NULL'),
                'Tiny_ToBool': lambda: p if kind == 'BOOL' else 0,
                'Tiny_ToInt': lambda: p if kind == 'INT' else 0,
                'Tiny_ToFloat': lambda: p if kind == 'FLOAT' else 0,
                'Tiny_ToNumber': lambda: p if kind == 'FLOAT' else ('sitofp', p) if kind == 'INT' else 0,
                'Tiny_ToString': lambda: p if kind == 'CONST_STRING' else O('string.ptr') if kind == 'STRING' else 0,
                'Tiny_StringLen': lambda: 4 if kind == 'CONST_STRING' else O('string.len') if kind == 'STRING' else 0,
                'Tiny_ToAddr': lambda: p if kind == 'LIGHT_NATIVE' else O('nat.addr') if kind == 'NATIVE' else 0,
                'Tiny_GetProp': lambda: O('nat.prop') if kind == 'NATIVE' else 0,
            }[fn]()
            rs = exe(rt, C, fn, pass_value(rt, fn, [(t, p)]))
            what = '%s of a %s value' % (fn, name)
            for r in rs:
                if r.kind != 'ret':
                    C.fail('C23/accessor/' + fn, '%s: ends with %s (%s)' % (what, r.kind, r.val), T.where(fn))
                    continue
                got = r.val
                if fn in ('Tiny_ToFloat', 'Tiny_ToNumber') and isinstance(want, int):
                    good = zero_float(got)
                elif isinstance(want, tuple):
                    a = got.atom() if isinstance(got, Lin) else None
                    good = a is not None and a.kind == 'op' and a.args[0] == 'sitofp' and a.args[1] is p
                elif fn in ('Tiny_ToBool', 'Tiny_IsNull'):
                    g = got
                    if isinstance(g, Cond):
                        d = r.st.decide(g)
                        g = None if d is None else int(d)
                    elif not isinstance(g, int) and g is not None:
                        g = E.extract(g, 0, 8, 1)
                    good = isinstance(g, int) and (g & 1) == want
                else:
                    good = eqv(got, want)
                if [e for e in r.st.events() if e[0] == 'bad']:
                    C.fail('C23/accessor/' + fn, '%s: %s' % (what, [e[1] for e in r.st.events() if e[0] == 'bad'][0]), T.where(fn))
                elif not good:
                    C.fail('C23/accessor/' + fn, '%s gives %r, not %r' % (what, got, want), T.where(fn))
                else:
                    C.ok(what)


def zero_float(x):
    if isinstance(x, float):
        return x == 0.0
    if isinstance(x, int):
        return x == 0
    return repr(x) == '0.0'


def fields(T, C):
    fn = T.fn('Tiny_GetField')
    for n in (1, 3):
        for idx in (-(1 << 31), -2, -1, 0, 1, 2, 3, 4, (1 << 31) - 1):
            rt = Rt(T)
            rt.new('S', 'struct', n)
            cells = [('INT', fresh('field%d' % k, 64)) for k in range(n)]
            for k in range(n):
                rt.field('S', k, cells[k])
            rs = exe(rt, C, fn, pass_value(rt, fn, [rt.val('S')], [idx]))
            what = 'field %d of a struct of %d' % (idx, n)
            good = 0 <= idx < n
            for r in rs:
                if not good:
                    if r.kind != 'exit':
                        C.fail('C23/field', '%s is not caught (%s)' % (what, r.kind), T.where(fn))
                    else:
                        C.ok(what)
                    continue
                t, p = ret_value(rt, r) if r.kind == 'ret' else (None, r.val)
                if t != rt.VT['INT'] or p is not cells[idx][1]:
                    C.fail('C23/field', '%s gives (%s, %r)' % (what, rt.VN.get(t, t), p), T.where(fn))
                else:
                    C.ok(what)
    rt0, vals = world(T)
    for name in vals:
        for idx in (-1, 0, 1):
            if name == 'struct':
                continue
            rt, vs = world(T)
            rs = exe(rt, C, fn, pass_value(rt, fn, [vs[name]], [idx]))
            what = 'field %d of a %s value' % (idx, name)
            for r in rs:
                t = ret_value(rt, r)[0] if r.kind == 'ret' else r.val
                if t != rt.VT['NULL']:
                    C.fail('C23/field', '%s gives %s' % (what, rt.VN.get(t, t)), T.where(fn))
                else:
                    C.ok(what)


# ------------------------------------------------------------------ equality
TEXTS = [b'', b'a', b'ab', b'abc', b'abd', b'xbc', b'a\0b', b'a\0c', b'\xff\xfe', b'abcdefghij', b'abcdefghik']


def population(T):
    rt = Rt(T)
    st = rt.st
    V = []

    def add_(name, cls, t, p):
        V.append((name, cls, t, p))
    add_('null', ('null',), rt.VT['NULL'], 0)
    add_('null with leftovers', ('null',), rt.VT['NULL'], fresh('left', 64))
    for b in (0, 1):
        add_('bool %d' % b, ('bool', b), rt.VT['BOOL'], b)
    for k in (0, 1, -1, 5, 1 << 32, (1 << 32) + 5, (1 << 63) - 1, -(1 << 63)):
        add_('int %d' % k, ('int', k), rt.VT['INT'], k)
    for f in (0.0, -0.0, 1.5, -1.5, 1.0 + 2.0 ** -52, 1.0, 16777217.0, 16777216.0, 1e300, float('inf'), float('-inf'), 5e-324):
        add_('float %r' % f, ('float', f), rt.VT['FLOAT'], E.fconst(f))
    add_('float nan', ('nan', None), rt.VT['FLOAT'], E.fconst(float('nan')))
    for tx in TEXTS:
        for rep in ('const', 'const2', 'heap', 'heap2', 'embedded'):
            if rep.startswith('const'):
                if 0 in tx:
                    continue
                add_('%s %r' % (rep, tx), ('text', tx), rt.VT['CONST_STRING'], T.cstr(st, tx, rep))
                continue
            nm = '%s%r' % (rep, tx)
            p = rt.new(nm, 'string' if rep != 'embedded' else 'embedded')
            # its text, exactly as long as it is (no terminator for an owned text)
            blk = rt.h.block(st, nm + '.t', max(len(tx), 1), 'undef')
            for k, c in enumerate(tx):
                st.store(blk, 1, E.signed(c, 8), k)
            T.set(st, p, 'Tiny_Object', 'string.ptr', blk)
            T.set(st, p, 'Tiny_Object', 'string.len', len(tx))
            add_(nm, ('text', tx), rt.VT['STRING'], p)
    a1, a2 = (st.new_obj('x1', 'init'), st.new_obj('x2', 'init'))
    for nm, kind, ad in (('nat1', 'native', a1), ('nat2', 'native', a1), ('nat3', 'native', a2), ('nat4', 'bare', a1), ('nat5', 'native', 0)):
        p = rt.new(nm, kind)
        T.set(st, p, 'Tiny_Object', 'nat.addr', ad)
        add_(nm, ('native', ad if isinstance(ad, int) else ad.t), rt.VT['NATIVE'], p)
    for nm, ad in (('light1', a1), ('light2', a1), ('light3', a2), ('light4', 0)):
        add_(nm, ('light', ad if isinstance(ad, int) else ad.t), rt.VT['LIGHT_NATIVE'], ad)
    for nm, n in (('s1', 1), ('s2', 1), ('s3', 2), ('s4', 0)):
        p = rt.new(nm, 'struct', n)
        add_(nm, ('struct', nm), rt.VT['STRUCT'], p)
    return rt, V


def truth(r):
    v = r.val
    if isinstance(v, Cond):
        d = r.st.decide(v)
        return None if d is None else bool(d)
    if isinstance(v, int):
        return bool(v & 1)
    if isinstance(v, Lin):
        c = r.st.const_of(v)
        return None if c is None else bool(c & 1)
    return None


def equality(T, C):
    fn = T.fn('Tiny_AreValuesEqual')
    rt, V = population(T)
    base = rt.st
    # texts against everything of a few kinds, everything else against everything
    for n1, c1, t1, p1 in V:
        for n2, c2, t2, p2 in V:
            rt.st = base.clone()
            rs = exe(rt, C, fn, pass_value(rt, fn, [(t1, p1), (t2, p2)]))
            what = 'equality of %s and %s' % (n1, n2)
            want = c1 == c2 and c1[0] != 'nan'
            got = set()
            for r in rs:
                if r.kind != 'ret':
                    got.add('%s %s' % (r.kind, r.val))
                elif [e for e in r.st.events() if e[0] == 'bad']:
                    got.add([e[1] for e in r.st.events() if e[0] == 'bad'][0])
                else:
                    got.add(truth(r))
            if got != {want}:
                C.fail('C23/equality', '%s is %s, not %s' % (what, ', '.join(map(str, got)), want), T.where(fn))
            else:
                C.ok(what)
    # opaque payloads
    for ty in ('INT', 'LIGHT_NATIVE', 'FLOAT'):
        for same in (False, True):
            rt = Rt(T)
            x = fresh('x', 64)
            y = x if same else fresh('y', 64)
            rs = exe(rt, C, fn, pass_value(rt, fn, [(rt.VT[ty], x), (rt.VT[ty], y)]))
            what = 'equality of two %s values with %s payload' % (ty.lower(), 'the same' if same else 'any')
            outs = set()
            for r in rs:
                if r.kind != 'ret':
                    C.fail('C23/equality', '%s: %s' % (what, r.val), T.where(fn))
                    continue
                if ty in ('INT', 'LIGHT_NATIVE'):
                    d = None
                    v = r.val
                    if isinstance(v, Lin):
                        c = r.st.const_of(v)
                        v = c if c is not None else v
                    eq = E.mk_eq(E.add(x, y, -1)) if not same else True
                    rel = r.st.decide(eq) if not same else True
                    if isinstance(v, int):
                        outs.add((bool(v & 1), rel))
                    else:
                        outs.add((cond_is(v, eq), 'cond'))
                else:
                    v = r.val
                    a = v.atom() if isinstance(v, Lin) else None
                    if a is not None and a.kind == 'op':
                        v = next((x for x in a.args if isinstance(x, Cond)), v)
                    outs.add((bool(isinstance(v, Cond) and not v.neg and 'foeq' in repr(v)), 'cond'))
            if ty in ('INT', 'LIGHT_NATIVE'):
                good = outs and all((o[0] == o[1] and o[1] is not None) or (o[1] == 'cond' and o[0]) for o in outs)
                if not good:
                    C.fail('C23/equality', '%s: %s' % (what, outs), T.where(fn))
                else:
                    C.ok(what)
            elif ty == 'FLOAT':
                if not outs or not all(o[0] for o in outs):
                    C.fail('C23/equality', '%s is not the comparison of the numbers: %s' % (what, outs), T.where(fn))
                else:
                    C.ok(what)


def cond_is(v, c):
    """is the abstract result v the truth value of c?"""
    if isinstance(v, Cond):
        return v == c or repr(v) == repr(c)
    a = v.atom() if isinstance(v, Lin) else None
    if a is not None and a.kind == 'op':
        for x in a.args:
            if isinstance(x, Cond) and repr(x) == repr(c):
                return True
            if isinstance(x, (Lin,)) and cond_is(x, c):
                return True
    return False


def run(T, C):
    T2 = with_inlines()
    constructors(T2, C)
    texts(T2, C)
    accessors(T2, C)
    fields(T2, C)
    equality(T2, C)
