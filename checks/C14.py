"""Source text is split into the tokens of the language."""
import multiprocessing
import os
import traceback
from lexref import *

LEVEL = 'other'
FLOOR = 5000
RULE = ('The characters are partitioned into the classes the lexer can distinguish (every character constant its functions '
        'compare with, the rest by their character-type masks). The lexer is interpreted abstractly on every source of one and two '
        'classes, every third class after the prefixes of multi-character tokens, and templates of keywords, identifiers, numbers, '
        'strings, escapes, comments and their one-character edits and truncations; kinds, texts, values (conversion function, '
        'base and full width), line numbers, the end or error reached and the position (never past the end of the source, no '
        'byte read after it) must be those of the reference.')


def brief(s):
    return repr(s) if len(s) < 120 else '%r...%d...%r' % (s[:40], len(s), s[-20:])


def constants(T):
    """character constants the lexer compares with"""
    out = set()
    for f in T.reach([T.fn('Tiny_GetToken')]):
        if f not in T.funcs or f.startswith(('stb', 'TM', 'TR', 'TF')):
            continue
        for i in T.m.funcs[f].insts():
            if i.op in ('icmp', 'switch'):
                todo = list(i.x) if i.x else []
                while todo:
                    x = todo.pop()
                    if isinstance(x, (list, tuple)):
                        todo.extend(x)
                    elif type(x) is int and 0 < x < 256:
                        out.add(x)
                    elif hasattr(x, 'v') and type(x.v) is int and 0 < x.v < 256:
                        out.add(x.v)
                for k in (i.a or {}) if isinstance(getattr(i, 'a', None), dict) else ():
                    if type(k) is int and 0 < k < 256:
                        out.add(k)
    return out


def alphabet(T, tier):
    cs = constants(T)
    cs |= {ord(c) for c in '\n\t "\'\\x./_0tnrb' + ''.join(TWO) + ''.join(ONE)}
    tab = ctype_table()
    groups = {}
    for c in range(1, 256):
        if c not in cs:
            groups.setdefault((tab[128 + c], c >= 128), []).append(c)
    reps = set(cs)
    for g in groups.values():
        reps.add(g[0])
        reps.add(g[-1])
        if tier == 'thorough':
            reps.update(g)
    return [chr(c) for c in sorted(reps)]


def inputs(T, tier):
    al = alphabet(T, tier)
    out = ['']
    out += [chr(c) for c in range(1, 256)]
    out += [a + b for a in al for b in al]
    out += [p + c for p in ('..', '0x', '1.', "'a", "'\\", '"a', '"\\', '//', 'a_', 'a1', '12', '0x1', '1.5', '/*', '-', '- ', '\n', '//\n',
                            'if', 'ne', '<<', '>>', '->', ':=', '::', '==', '!=', '&&', '||', '...', "'\\n", '"\\n', '"\n', '// c\n')
            for c in [chr(k) for k in range(1, 256)]]
    sub = [c for c in al if c in './"\'\\0x1a \n_&|:=<>-+!t@' or c == al[-1]]
    out += [a + b + c for a in './"\'0&|:=<>-!1a\n' for b in sub for c in sub]
    words = list(KEYWORDS) + ['true', 'false', 'x', 'abc', 'A9_z', 'i', 'nu', 'int', 'str']
    for w in words:
        out += [w, w + ' ', w + '(', w + '_', w + '1', w + 'x', 'x' + w, w.upper(), w[:-1], w + w, ' ' + w + '\n', w + '.' + w, '1 ' + w, '\n\n' + w]
    for n in ('0', '7', '10', '007', '9223372036854775807', '0x0', '0xff', '0xDEADBEEF', '0x7fffffffffffffff', '1.5', '0.25', '10.', '3.', '123456.789',
              '4294967296', '0xAg', '1a', '12_3', '1.5.2', '1...', '1..2', '1.x', '0x', '0xx', '5-3', '5.foo', '1.5f', '-1', '+1.5', '1e5', '99999999999999999999'):
        out += [n, n + ' ', n + ')', ' ' + n, n + '\n' + n, n + '"a"']
    strs = ['""', '"a"', '"a b"', '"a\\"b"', '"\\n\\t\\r\\b\\\\\\\'"', '"\\q"', '"//x"', '"a\nb"', '"a\n\nb" c', '"\n"', '"x', '"x\\', '"x\\"', '"é"', '"a""b"',
            '"\\0"', '"a" "b"', "'a'", "'\\n'", "'\\''", "'\\\\'", "'\"'", "'a", "'ab'", "'\\t'x", "'\n' x", "' '", "'\\", "'", "'\\x41'", '"\\x41"', '"\t"',
            '"' + 'long' * 20 + '"', 'x' * 70, '"a\\\nb" c']
    out += strs
    for s in strs:
        out += [s[:k] for k in range(1, min(len(s), 8))] + [s + ' y', 'z ' + s, '\n' + s + '\n z', s + s]
    comments = ['//', '// a', '// a\n', '// a\nb', '// a\n// b\nc', '//\n//\n//\n x', 'a // b\nc', 'a / b', 'a /', '/', '/ /', '/=', '//=', '// "x\n"y"',
                '///', '// a\r\nb', '\n\n// c\n\n d', 'a//b\n//c\n', '// x\n\n\n// y\nz', '/**/', '5//2\n+1']
    out += comments
    out += ['\t\v\f\r \n a', 'a\n b\n  c\n', '\r\na\r\nb', 'a\n\n\n', '\n' * 5 + '@', 'a' + ' ' * 30 + 'b']
    progs = ['func f(x: int): int { return x + 1 }', 'x := new A{1, "s"}', 'a[0] = b.c.d && !e || f >= 2', 'while i<10{i+=1}',
             'use array("int") as ai', 'c::5', 'x:=y?1:2', 'a<<2>>1', 'foreign p(...)', 'n: A? = null', 'if(a==b)c()else d()', 'f(1,2.5,\'c\',"s",true)',
             'a-->b', 'a=-1', 'a==-1', 'a!=!b', 'a&&&b', 'a|||b', 'a:::b', 'a===b', 'a<=>b', 'a<<=b', 'a...b', 'a....b', 'a..b', '.5', 'a.5', '5.a', 'a+ +b', 'a++b']
    out += progs
    for p in progs:
        out += [p[:k] for k in range(1, len(p), 1 if tier == 'thorough' else 3)]
        if tier == 'thorough':
            out += [p[:k] + c + p[k + 1:] for k in range(len(p)) for c in al]
    for n in (63, 64, 127, 128, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 5000):
        x = ''.join(chr(97 + k % 26) for k in range(n - 1)) + 'Z'
        out += [x, x + ' y', '(' + x, '"' + x + '"', '"' + x + '" y', '"' + x, '// ' + x + '\nq', ' ' * n + 'q', '\n' * n + 'q', '"' + '\\n' * (n // 2) + x[:3] + '" y',
                '"' + '\n' * n + '" y', '1' * 3 + '.' + '0' * n + '5', '0' * n + '7', '0x' + '0' * n + 'f', '"a' + '\t' * n + 'b"', 'if' + x, x + '(']
        if n < 1500:
            out += ['// c\n' * n + 'q', '//\n' * n, ' \n' * n + '"' + x, '\n// x\n' * (n // 2) + 'q 1']
    seen = set()
    return [x for x in out if not (x in seen or seen.add(x))]


_S = []


def job(a):
    part, n = a
    T, srcs = _S[0]
    L = Lexer(T)
    bad, cut, ok, skip = [], [], 0, 0
    for k in range(part, len(srcs), n):
        s = srcs[k]
        try:
            w = ref(s)
        except Unspecified:
            skip += 1
            w = None
        try:
            err, got = L.tokens(s)
        except E.Limit as e:
            cut.append((s, str(e)))
            continue
        except Exception:
            cut.append((s, traceback.format_exc()))
            continue
        if err:
            (cut if err.startswith('cut') else bad).append((s, err))
            continue
        if len(got) >= 64:
            bad.append((s, 'produces more than 64 tokens'))
            continue
        if w is None:
            continue
        e = compare(w, got)
        if e:
            bad.append((s, e))
        else:
            ok += 1
    return bad, cut, ok, skip, L.reached, L.en.unknown


def run(T, C):
    srcs = inputs(T, C.tier)
    _S[:] = [(T, srcs)]
    with multiprocessing.get_context('fork').Pool(int(os.environ.get('TINY_JOBS') or 8)) as p:
        rs = p.map(job, [(k, 32) for k in range(32)], 1)
    where = T.where('Tiny_GetToken')
    for bad, cut, ok, skip, reached, unk in rs:
        C.analysed |= reached
        C.ok(n=ok)
        C.count('sources', ok)
        C.count('unspecified', skip)
        for s, e in bad:
            C.fail('C14/%s' % brief(s), 'the source %s: %s' % (brief(s), e if len(e) < 600 else e[:600] + '...'), where)
        for s, e in cut:
            C.undecide('%s: %s' % (brief(s), e))
    C.counts['character_classes'] = len(alphabet(T, C.tier))
    C.counts['constants'] = len(constants(T))
