"""The lexer under the abstract interpreter, and a reference for the tokens of a source text."""
import ctypes
from tiny import *

KEYWORDS = {k: k.upper() for k in ('null', 'if', 'func', 'foreign', 'return', 'while', 'for', 'else', 'struct', 'new', 'cast',
                                   'break', 'continue', 'use', 'foreach')}
TWO = {'&&': 'LOG_AND', '||': 'LOG_OR', ':=': 'DECLARE', '::': 'DECLARECONST', '+=': 'PLUSEQUAL', '-=': 'MINUSEQUAL',
       '*=': 'STAREQUAL', '/=': 'SLASHEQUAL', '%=': 'PERCENTEQUAL', '|=': 'OREQUAL', '&=': 'ANDEQUAL', '==': 'EQUALS',
       '!=': 'NOTEQUALS', '<=': 'LTE', '>=': 'GTE', '->': 'ARROW', '<<': 'SHIFT_LEFT', '>>': 'SHIFT_RIGHT'}
ONE = {'(': 'OPENPAREN', ')': 'CLOSEPAREN', '{': 'OPENCURLY', '}': 'CLOSECURLY', '[': 'OPENSQUARE', ']': 'CLOSESQUARE',
       '+': 'PLUS', '-': 'MINUS', '*': 'STAR', '/': 'SLASH', '%': 'PERCENT', '>': 'GT', '<': 'LT', '=': 'EQUAL', '!': 'BANG',
       '&': 'AND', '|': 'OR', ',': 'COMMA', ';': 'SEMI', ':': 'COLON', '.': 'DOT', '?': 'QUESTION'}
ESC = {'t': '\t', 'n': '\n', 'r': '\r', 'b': '\b'}
SPACE = ' \t\n\v\f\r'
ALPHA = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
DIGIT = '0123456789'
HEX = DIGIT + 'abcdefABCDEF'


class Unspecified(Exception):
    pass


def ref(src):
    """[(kind, text, value, line)] up to the end of the source or the first error"""
    i, line, out = 0, 1, []
    n = len(src)
    while True:
        while i < n and (src[i] in SPACE or src.startswith('//', i)):
            if src[i] == '/':
                while i < n and src[i] != '\n':
                    i += 1
                continue
            if src[i] == '\n':
                line += 1
            i += 1
        if i >= n:
            out.append(('EOF', None, None, line))
            return out
        c = src[i]
        if src.startswith('...', i):
            out.append(('ELLIPSIS', '...', None, line))
            i += 3
        elif src[i:i + 2] in TWO:
            out.append((TWO[src[i:i + 2]], src[i:i + 2], None, line))
            i += 2
        elif c in ONE:
            out.append((ONE[c], c, None, line))
            i += 1
        elif c in ALPHA:
            j = i
            while j < n and (src[j] in ALPHA or src[j] in DIGIT or src[j] == '_'):
                j += 1
            w = src[i:j]
            if w in ('true', 'false'):
                out.append(('BOOL', w, w == 'true', line))
            else:
                out.append((KEYWORDS.get(w, 'IDENT'), w, None, line))
            i = j
        elif c in DIGIT:
            j = i
            while j < n and src[j] in DIGIT:
                j += 1
            if j < n and src[j] == 'x':
                k = j + 1
                while k < n and src[k] in HEX:
                    k += 1
                if src[i:j] != '0' or k == j + 1 or (k < n and src[k] in '.x'):
                    raise Unspecified()
                out.append(('INT', src[i:k], ('int', 16, src[i:k]), line))
                i = k
            elif j < n and src[j] == '.':
                k = j + 1
                while k < n and src[k] in DIGIT:
                    k += 1
                if k < n and src[k] == 'x':
                    raise Unspecified()
                out.append(('FLOAT', src[i:k], ('float', src[i:k]), line))
                i = k
            else:
                out.append(('INT', src[i:j], ('int', 10, src[i:j]), line))
                i = j
        elif c == "'":
            j = i + 1
            if j < n and src[j] == '\\':
                j += 1
                v = ESC.get(src[j], src[j]) if j < n else None
            else:
                if j < n and src[j] == "'":
                    raise Unspecified()
                v = src[j] if j < n else None
            if j < n and src[j] == '\n':
                line += 1
            if v is None or j + 1 >= n or src[j + 1] != "'":
                out.append(('LEXER_ERROR', None, None, None))
                return out
            out.append(('CHAR', None, ('char', v), line))
            i = j + 2
        elif c == '"':
            j = i + 1
            v = ''
            while j < n and src[j] != '"':
                if src[j] == '\\':
                    j += 1
                    if j >= n:
                        break
                    v += ESC.get(src[j], src[j])
                else:
                    v += src[j]
                if src[j] == '\n':
                    line += 1
                j += 1
            if j >= n:
                out.append(('LEXER_ERROR', None, None, None))
                return out
            out.append(('STRING', v, None, line))
            i = j + 1
        else:
            out.append(('LEXER_ERROR', None, None, None))
            return out


_ctype = None


def ctype_table():
    global _ctype
    if _ctype is None:
        f = ctypes.CDLL(None).__ctype_b_loc
        f.restype = ctypes.POINTER(ctypes.POINTER(ctypes.c_ushort))
        p = f().contents
        _ctype = [p[k] for k in range(-128, 256)]
    return _ctype


class Lexer:
    def __init__(self, T):
        self.T = T
        self.get = T.fn('Tiny_GetToken')
        self.TOK = {v: k[len('TINY_TOK_'):] for k, v in T.m.enums().items() if k.startswith('TINY_TOK_')}
        base = State()
        tab = base.new_obj('ctype', 'undef')
        for k, v in enumerate(ctype_table()):
            base.store(tab, 2, E.signed(v, 16), 2 * k)
        pp = base.new_obj('ctype_loc', 'undef')
        base.store(pp, 8, add(tab, 256), 0)
        self.base, self.pp = base, pp
        self.reached = set()

        def sto(kind):
            def f(en, st, a, i):
                v = fresh(kind, 64)
                base = a[2] if kind == 'int' else None
                st.x['conv'] = (kind, v, E.cstring(None, st, a[0]), a[1], base)
                return v
            return f

        def table(en, st, a, i):
            return self.pp

        def isx(s):
            def f(en, st, a, i):
                if type(a[0]) is not int:
                    return fresh('ctype', 32)
                return int(0 <= a[0] < 128 and chr(a[0]) in s)
            return f
        self.hooks = {'__ctype_b_loc': table, 'strtod': sto('float'), 'strtoll': sto('int'), '__isoc23_strtoll': sto('int'),
                      'strtol': sto('int'), '__isoc23_strtol': sto('int'), 'atoll': sto('int10'), 'atof': sto('float'),
                      'isalpha': isx(ALPHA), 'isdigit': isx(DIGIT), 'isalnum': isx(ALPHA + DIGIT), 'isspace': isx(SPACE),
                      'isxdigit': isx(HEX)}
        self.en = Engine(T.m, hooks=self.hooks, max_visits=400)

        def indirect(en, s, target, a, inst):
            p = s.new_obj('heap%d' % E.Atom.n, 'undef')
            if type(a[0]) is Lin:
                return a[0]
            s.log('alloc', a[0], a[1], p)
            return p
        self.en.indirect = indirect
        self.over = None

        def on_load(en, st, p, size, inst):
            d = add(p, self.src, -1) if type(p) is Lin else None
            if type(d) is int and not 0 <= d <= self.len:
                self.over = 'reads %d bytes %s the source' % (d - self.len if d > 0 else -d, 'past the end of' if d > 0 else 'before')
        self.en.on_load = on_load

    def start(self, src):
        T = self.T
        st = self.base.clone()
        b = src.encode('latin1') + b'\0'
        s = st.new_obj('src', ('bytes', b))
        s.t[0][0].meta['size'] = len(b)
        l = T.obj(st, 'Tiny_Lexer', 'lexer', 'init')
        init = T.fn('Tiny_InitLexer')
        self.src = s
        self.len = len(b) - 1
        self.en.max_visits = max(400, 4 * len(b))
        self.en.max_steps = max(200000, 1000 * len(b))
        rs = self.en.run(init, [l, st.new_obj('file', 'init'), s, fresh('alloc', 64), fresh('userdata', 64)], st)
        return l, [r.st for r in rs if r.kind == 'ret']

    def tokens(self, src, limit=64):
        """[(kind, lexeme, value, line)] or (problem,)"""
        T = self.T
        self.over = None
        l, sts = self.start(src)
        if len(sts) != 1:
            return 'initialising the lexer has %d outcomes' % len(sts), None
        st = sts[0]
        out = []
        G = lambda f: T.get(st, l, 'Tiny_Lexer', f)
        while len(out) < limit:
            st.x.pop('conv', None)
            st.frames = []
            st.steps = 0
            self.en.measure = lambda s: T.get(s, l, 'Tiny_Lexer', 'pos')
            rs = self.en.run(self.get, [l], st)
            self.en.measure = None
            if len(rs) != 1:
                return 'cut: %d paths' % len(rs), None
            r = rs[0]
            if r.kind != 'ret':
                return ('cut (%s)' % (r.val,) if r.kind == 'cut' else '%s (%s) at %s' % (r.kind, r.val, T.loc(r.where))), None
            st = r.st
            if self.over:
                return self.over, None
            k = self.TOK.get(r.val, r.val)
            if G('lastTok') != r.val:
                return 'the last token is recorded as %r' % (G('lastTok'),), None
            lex = None
            p = G('lexeme')
            if type(p) is Lin:
                lex = E.cstring(None, st, p)
                lex = lex.decode('latin1') if lex is not None else None
            pos = G('pos')
            if type(pos) is not int or pos < 0 or pos > len(src):
                return 'the position is %r after a source of %d characters' % (pos, len(src)), None
            val = None
            if k == 'BOOL':
                val = bool(G('bValue')) if type(G('bValue')) is int else G('bValue')
            elif k in ('INT', 'FLOAT'):
                c = st.x.get('conv')
                f = G('iValue' if k == 'INT' else 'fValue')
                if c and c[1] == f:
                    kind, _, text, _, base = c
                    text = text.decode('latin1') if text is not None else None
                    val = ('float', text) if kind == 'float' else ('int', 10 if kind == 'int10' else base, text)
                else:
                    val = ('raw', f)
            elif k == 'CHAR':
                val = ('char', G('iValue'))
            out.append((k, lex, val, G('lineNumber'), pos))
            if k in ('EOF', 'LEXER_ERROR'):
                if k == 'LEXER_ERROR' and not (type(G('errorMsg')) is Lin and E.cstring(None, st, G('errorMsg'))):
                    return 'an error has no message', None
                break
        self.reached |= self.en.reached
        return None, out


def compare(want, got):
    for k, w in enumerate(want):
        if k >= len(got):
            return 'ends after %d tokens' % len(got)
        g = got[k]
        if g[0] != w[0]:
            return 'token %d is %s instead of %s' % (k, g[0], w[0])
        if w[0] == 'LEXER_ERROR':
            break
        if w[3] is not None and g[3] != w[3]:
            return 'token %d (%s) is on line %r instead of %d' % (k, w[0], g[3], w[3])
        if w[1] is not None and g[1] != w[1]:
            return 'token %d (%s) has the text %r instead of %r' % (k, w[0], g[1], w[1])
        if w[0] == 'BOOL' and g[2] is not w[2]:
            return 'token %d has the value %r' % (k, g[2])
        if w[0] in ('INT', 'FLOAT'):
            v = g[2]
            if v != w[2]:
                if v[0] == 'raw' and type(v[1]) is int and w[2][0] == 'int' and v[1] == int(w[2][2], w[2][1]):
                    continue
                if v[0] == 'int' and w[2][0] == 'int' and v[1] == 0 and v[2] == w[2][2] and \
                        (w[2][1] == 16 or not (v[2].startswith('0') and len(v[2]) > 1)):
                    continue
                return 'token %d has the value %r instead of %r' % (k, v, w[2])
        if w[0] == 'CHAR':
            c = ord(w[2][1])
            if c < 128 and g[2][1] != c:
                return 'token %d has the value %r instead of %d' % (k, g[2][1], c)
            if c >= 128 and g[2][1] not in (c, c - 256):
                return 'token %d has the value %r instead of %d' % (k, g[2][1], c)
    return None
