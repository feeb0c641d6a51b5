"""What the library's macros generate denotes what they promise."""
import re
from hostworld import *

LEVEL = 'other'
FLOOR = 220
RULE = ('The macros array, delegate and json are interpreted on states which contain the library and structs, types and functions of many '
        'shapes; the text they hand to the compiler is captured, parsed, and evaluated symbolically: a delegate\'s call function must call the '
        'function its first argument denotes with the other arguments in order and give its result, the creating function must denote '
        'exactly the named function; a serializer must give an object with every field once, in order, under its name with its '
        'own value through the serializer of its type, which must exist by then. The functions array binds must have exactly the types the '
        'element and array type give. Errors (wrong arguments, unknown names, too much text, failing compilations, structs that contain '
        'themselves) must be reported as such with a bounded message.')

PRIM = {'void': 'TAG_VOID', 'bool': 'TAG_BOOL', 'int': 'TAG_INT', 'float': 'TAG_FLOAT', 'str': 'TAG_STR', 'any': 'TAG_ANY'}


# ------------------------------------------------------------------ the generated text
class Odd(Exception):
    pass


class Text:
    """generated code: a list of functions (name, [(param, type)], result type, [statements])"""

    TOK = re.compile(r'\s*(?:(//[^\n]*)|("(?:\\.|[^"\\])*")|([A-Za-z_]\w*\??)|(:=|[(){}:,.;+])|(\S))')

    def __init__(self, s):
        self.t = []
        pos = 0
        while pos < len(s):
            if not s[pos:].strip():
                break
            m = self.TOK.match(s, pos)
            if m.group(5):
                raise Odd('%r in the generated text' % m.group(5))
            if m.group(1) is None:
                self.t.append(m.group(2) or m.group(3) or m.group(4))
            pos = m.end()
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self, want=None):
        x = self.peek()
        if x is None or want is not None and x != want:
            raise Odd('%r where %r is expected' % (x, want))
        self.i += 1
        return x

    def opt(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def name(self):
        x = self.next()
        if not re.match(r'[A-Za-z_]\w*\??$', x):
            raise Odd('%r where a name is expected' % x)
        return x

    def functions(self):
        out = []
        while self.peek() is not None:
            self.next('func')
            n = self.name()
            self.next('(')
            ps = []
            while not self.opt(')'):
                if ps:
                    self.next(',')
                p = self.name()
                self.next(':')
                ps.append((p, self.name()))
            r = self.name() if self.opt(':') else 'void'
            self.next('{')
            body = []
            while not self.opt('}'):
                if self.opt(';'):
                    continue
                if self.opt('return'):
                    body.append(('return', None if self.peek() in (';', '}') else self.expr()))
                else:
                    body.append(('expr', self.expr()))
            out.append((n, ps, r, body))
        return out

    def expr(self):
        x = self.next()
        if x[0] == '"':
            e = ('str', unescape(x[1:-1]))
        elif x == '(':
            e = self.expr()
            self.next(')')
        elif x == 'cast':
            self.next('(')
            e = self.expr()
            self.next(',')
            e = ('cast', e, self.name())
            self.next(')')
        elif re.match(r'[A-Za-z_]\w*$', x):
            if self.opt('('):
                a = []
                while not self.opt(')'):
                    if a:
                        self.next(',')
                    a.append(self.expr())
                e = ('call', x, a)
            else:
                e = ('var', x)
        else:
            raise Odd('%r where an expression is expected' % x)
        while self.opt('.'):
            e = ('field', e, self.name())
        return e


def unescape(s):
    return re.sub(r'\\(.)', lambda m: {'n': '\n', 't': '\t', 'r': '\r', '0': '\0'}.get(m.group(1), m.group(1)), s)


def pieces(e):
    """a text expression as literal pieces and other expressions"""
    if e[0] == 'str':
        return [e[1]]
    if e[0] == 'call' and e[1] == 'strcat':
        if len(e[2]) < 2:
            raise Odd('strcat of %d texts' % len(e[2]))
        return [p for a in e[2] for p in pieces(a)]
    return [e]


def json_norm(ps):
    """pieces merged, white space outside of JSON strings dropped"""
    out = []
    instr = False
    for p in ps:
        if not isinstance(p, str):
            if instr:
                out.append(('inside a string',))
            out.append(p)
            continue
        b, k = '', 0
        while k < len(p):
            c = p[k]
            if instr and c == '\\':
                b += p[k:k + 2]
                k += 2
                continue
            if c == '"':
                instr = not instr
            if instr or not c.isspace():
                b += c
            k += 1
        if out and isinstance(out[-1], str):
            out[-1] += b
        elif b:
            out.append(b)
    return out


# ------------------------------------------------------------------ the world
class M(Host):
    base = None

    def __init__(self, T):
        if M.base is None or M.base.T is not T:
            Host.__init__(self, T)
            v = self.create()
            if v[0] != 'value':
                raise Missing('a state to bind to: %r' % (v,))
            for b in ('Tiny_BindStandardLib', 'Tiny_BindStandardArray', 'Tiny_BindStandardDict', 'Tiny_BindStandardIO'):
                v = self.call(T.fn(b), self.state)
                if v[0] != 'value':
                    raise Missing('the library: %s gives %r' % (b, v))
            M.base = self
            self.tags = {}
            for p in self.symbols():
                for q in (self.arr(T.get(self.st, p, 'Tiny_Symbol', 'foreignFunc.argTags')) or []) + [T.get(self.st, p, 'Tiny_Symbol', 'foreignFunc.returnTag')] \
                        if T.get(self.st, p, 'Tiny_Symbol', 'type') == self.SYM['FOREIGN_FUNCTION'] else []:
                    s = self.sym(q)
                    if s and s[1] in PRIM:
                        self.tags[s[1]] = q
                s = self.sym(p)
                if s[0] == 'TAG_FOREIGN':
                    self.tags[s[1]] = p
            for n in PRIM:
                if n not in self.tags:
                    raise Missing('the tag of ' + n)
        else:
            b = M.base
            self.__dict__.update({k: (dict(v) if isinstance(v, dict) else v) for k, v in b.__dict__.items()})
            self.reached = set()
        self.st = M.base.st.clone()
        self.sent = []
        self.fails = None           # which compilation fails
        fn = T.fn('Tiny_CompileString')
        self.extra = {fn: self.compiles}

    def macro(self, name):
        for p in self.symbols():
            s = self.sym(p)
            if s[:2] == ('MODULE', name):
                a = s[2].atom() if isinstance(s[2], Lin) else None
                if a is not None and a.kind == 'fn':
                    return a.args if isinstance(a.args, str) else a.args[0]
        raise Missing('the macro ' + name)

    def compiles(self, en, st, a, i):
        t = E.cstring(None, st, a[3], 5000)
        st.x['sent'] = st.x.get('sent', ()) + ((a[1], None if t is None else t.decode('latin1')),)
        T = self.T
        k = len(st.x['sent'])
        if self.fails == k:
            T.set(st, a[0], 'Tiny_CompileResult', 'type', self.ERR)
            for j, c in enumerate(b'the reason\0'):
                st.store(a[0], 1, c, T.off('Tiny_CompileResult', 'error.msg') + j)
            return None
        T.set(st, a[0], 'Tiny_CompileResult', 'type', self.OK)
        st.store(a[0], 1, 0, T.off('Tiny_CompileResult', 'error.msg'))
        # the functions it defines exist from now on
        try:
            fs = Text(t.decode('latin1')).functions()
        except Exception:
            return None
        old = self.st
        self.st = st
        for n, ps, r, body in fs:
            self.function(n, [(p, q) for p, q in ps], r)
        self.st = old
        return None

    @property
    def OK(self):
        return self.T.enum('TINY_COMPILE_SUCCESS')

    @property
    def ERR(self):
        return self.T.enum('TINY_COMPILE_ERROR')

    # -------------------------------------------- symbols
    def symbol(self, ty, nm, **f):
        T, st = self.T, self.st
        p = st.new_obj('symbol ' + nm, 'undef')
        T.set(st, p, 'Tiny_Symbol', 'type', self.SYM[ty])
        T.set(st, p, 'Tiny_Symbol', 'name', T.cstr(st, nm, 'name ' + nm))
        T.set(st, p, 'Tiny_Symbol', 'pos', 1)
        for k, v in f.items():
            T.set(st, p, 'Tiny_Symbol', k.replace('__', '.'), v)
        return p

    def add(self, p):
        st = self.st
        old = self.symbols()
        g = self.T.stretchy(st, 'globalSymbols', [[(0, 8, x)] for x in old + [p]], 8)
        a = self.h.owner(self.G('globalSymbols'))
        st.x['live'] = st.x.get('live', frozenset()) - {a}
        self.T.set(st, self.state, 'Tiny_State', 'globalSymbols', g)

    def tag(self, n):
        for p in self.symbols():
            s = self.sym(p)
            if s[0] in ('TAG_FOREIGN', 'TAG_STRUCT') and s[1] == n:
                return p
        return self.tags.get(n)

    def struct(self, nm, fields=None):
        """declares the struct on the first use, defines it when fields are given"""
        T, st = self.T, self.st
        p = self.tag(nm)
        if p is None:
            p = self.symbol('TAG_STRUCT', nm, sstruct__defined=0, sstruct__fields=0, sstruct__definedSerial=1)
            self.add(p)
        if fields is not None:
            fs = []
            for n, t in fields:
                tp = self.tag(t)
                if tp is None:
                    tp = self.struct(t)
                fs.append(self.symbol('FIELD', n, fieldTag=tp))
            T.set(st, p, 'Tiny_Symbol', 'sstruct.defined', 1)
            T.set(st, p, 'Tiny_Symbol', 'sstruct.fields', T.stretchy(st, 'fields of ' + nm, [[(0, 8, x)] for x in fs], 8) if fs else 0)
        return p

    def function(self, nm, params, ret, foreign=False, varargs=False):
        T, st = self.T, self.st
        tags = [self.tag(t) or self.struct(t) for _, t in params]
        rt = self.tag(ret) or self.struct(ret)
        if foreign:
            p = self.symbol('FOREIGN_FUNCTION', nm, foreignFunc__index=77, foreignFunc__varargs=int(varargs), foreignFunc__returnTag=rt,
                            foreignFunc__callee=self.callee('host'),
                            foreignFunc__argTags=T.stretchy(st, 'types', [[(0, 8, x)] for x in tags], 8) if tags else 0)
        else:
            k = sum(1 for x in self.symbols() if self.sym(x, False)[0] == 'FUNCTION')
            args = []
            for j, ((n, _), t) in enumerate(zip(params, tags)):
                args.append(self.symbol('LOCAL', n, var__initialized=1, var__scopeEnded=0, var__scope=0, var__index=j, var__tag=t))
            p = self.symbol('FUNCTION', nm, func__index=k, func__returnTag=rt, func__locals=0,
                            func__args=T.stretchy(st, 'params', [[(0, 8, x)] for x in args], 8) if args else 0)
        self.add(p)
        return p

    def use(self, macro, args, alias):
        """-> ('ok'|'error', message) | ('stop', ..) ...; the text it compiled is in self.sent"""
        T = self.T
        fn = self.macro(macro)
        st = self.st
        st.x['sent'] = ()
        res = st.new_obj('result', 'undef')
        arr = st.new_obj('args', 'undef')
        for k, s in enumerate(args):
            st.store(arr, 8, self.text(s), 8 * k)
        f = T.funcs[fn]
        a = [self.state, arr if args else 0, len(args), self.text(alias) if alias is not None else 0]
        if len(f.params) == 5:
            a = [res] + a
        v = self.call(fn, *a)
        if v[0] != 'value':
            self.sent = []
            return v
        self.sent = self.st.x['sent']
        t = T.get(self.st, res, 'Tiny_MacroResult', 'type')
        for e in self.events:
            if e[0] == 'bad':
                return ('bad', e[1])
        if type(t) is not int:
            return ('vague', 'the result type is %r' % (t,))
        if t == T.enum('TINY_MACRO_SUCCESS'):
            return ('ok', None)
        m = E.cstring(None, self.st, add(res, T.off('Tiny_MacroResult', 'error.msg')), T.fsize('Tiny_MacroResult', 'error.msg'))
        if m is None:
            return ('bad', 'the error message is not a text inside its buffer')
        return ('error', m.decode('latin1'))


def outcome(T, C, w, v, want, key, what, fn):
    """report unless the macro ended as wanted; True when it did"""
    C.analysed |= w.reached
    if v[0] == 'vague':
        C.undecide('%s: %s' % (what, v[1]))
        return False
    if v[0] == want and (want != 'error' or v[1].strip()):
        return True
    how = {'ok': 'succeeds', 'error': 'is an error: %s' % (v[1],), 'stop': 'ends with %s' % (getattr(v[-1], 'val', v[-1]),), 'bad': 'does something wrong: %s' % (v[1],)}[v[0]]
    C.fail(key, '%s %s' % (what, how if v[0] != 'error' or want != 'error' else 'is an error without a message'), T.where(fn))
    return False


def parsed(T, C, w, key, what, fn):
    """the functions of every text sent to the compiler, or None"""
    out = []
    for state, t in w.sent:
        if t is None:
            C.fail(key, '%s compiles a text that is not terminated or not determined' % what, T.where(fn))
            return None
        if state is not w.state:
            C.fail(key, '%s compiles into another state' % what, T.where(fn))
            return None
        try:
            out.append(Text(t).functions())
        except Odd as x:
            C.odd = getattr(C, 'odd', 0) + 1
            C.fail(key, '%s compiles a text that is no function definition (%s): %s' % (what, x, t[:200]), T.where(fn))
            return None
    return out


# ------------------------------------------------------------------ delegates
SIGS = [([], 'void'), ([], 'int'), (['int'], 'void'), (['int'], 'int'), (['str', 'float'], 'bool'), (['Point', 'int', 'handle'], 'Point'), (['any'] * 5, 'any'),
        (['array_any', 'Point'], 'handle'), (['bool'] * 12, 'float')]


def delegates(T, C):
    w = M(T)
    fn = w.macro('delegate')
    key = 'C30/delegate'
    for ps, r in SIGS:
        for nm, al in (('target', 'make'), ('a_rather_long_function_name_0123456789', 'x')):
            w = M(T)
            w.struct('Point', [('x', 'int')])
            w.call('Tiny_RegisterType', w.state, w.text('handle'))
            w.function('other', [('q', 'int')], 'str')
            w.function(nm, [('p%d' % k, t) for k, t in enumerate(ps)], r)
            what = 'use delegate("%s") as %s for (%s): %s' % (nm, al, ', '.join(ps), r)
            before = w.snapshot()
            v = w.use('delegate', [nm], al)
            if not outcome(T, C, w, v, 'ok', key, what, fn):
                continue
            fs = parsed(T, C, w, key, what, fn)
            if fs is None:
                continue
            fs = [f for x in fs for f in x]
            judge_delegate(T, C, w, fs, before, nm, al, ps, r, key, what, fn)
            # a second function of the same signature shares the type
            w.function('second', [('z%d' % k, t) for k, t in enumerate(ps)], r)
            before2 = w.snapshot()
            v = w.use('delegate', ['second'], 'make_second')
            if outcome(T, C, w, v, 'ok', key, what + ', then another of the same signature', fn):
                fs2 = parsed(T, C, w, key, what, fn)
                if fs2 is not None:
                    fs2 = [f for x in fs2 for f in x]
                    new = [s for s in w.snapshot()[len(before2):] if s[0].startswith('TAG')]
                    if new or len(fs2) != 1:
                        C.fail(key, '%s: a second function of that signature adds %s and %s' % (what, new, [f[0] for f in fs2]), T.where(fn))
                    else:
                        judge_create(T, C, fs2, 'second', 'make_second', [f[2] for f in fs if f[0] == al][0], key, what + ' (second)', fn)
            # and the same again changes nothing
            before3 = w.snapshot()
            v = w.use('delegate', [nm], al)
            if outcome(T, C, w, v, 'ok', key, what + ' again', fn):
                if w.sent or w.snapshot() != before3:
                    C.fail(key, '%s: the same again compiles %s' % (what, [t for _, t in w.sent]), T.where(fn))
                else:
                    C.ok()
    # different signatures never share a type
    for a, b in (((['a_b'], 'void'), (['a', 'b'], 'void')), ((['a'], 'b_c'), (['a', 'b'], 'c')), (([], 'a_b'), (['a'], 'b')), ((['int'], 'void'), (['int'], 'int')),
                 ((['a', 'b'], 'void'), (['b', 'a'], 'void')), ((['a'], 'void'), (['a', 'a'], 'void'))) + tuple(
                     ((['int'] * k + x + ['int'] * j, 'void'), (['int'] * k + y + ['int'] * j, 'void'))
                     for k, j in ((0, 0), (0, 3), (1, 0), (2, 1), (3, 0), (4, 0), (5, 0), (7, 0), (8, 0), (9, 4), (12, 0), (16, 0), (17, 0))
                     for x, y in ((['a_b', 'c'], ['a', 'b_c']),)):
        for first, second in ((a, b), (b, a)):
            w = M(T)
            for s in ('a', 'b', 'c', 'a_b', 'b_c'):
                w.struct(s, [('x', 'int')])
            w.function('f', [('p%d' % k, t) for k, t in enumerate(first[0])], first[1])
            w.function('g', [('p%d' % k, t) for k, t in enumerate(second[0])], second[1])
            what = 'delegates of (%s): %s and (%s): %s' % (', '.join(first[0]), first[1], ', '.join(second[0]), second[1])
            v = w.use('delegate', ['f'], 'df')
            if not outcome(T, C, w, v, 'ok', key, what, fn):
                continue
            fs = parsed(T, C, w, key, what, fn)
            v = w.use('delegate', ['g'], 'dg')
            gs = parsed(T, C, w, key, what, fn)
            if fs is None or gs is None:
                continue
            t1 = [f[2] for x in fs for f in x if f[0] == 'df']
            t2 = [f[2] for x in gs for f in x if f[0] == 'dg']
            if v[0] == 'error':
                C.ok(what)
            elif v[0] == 'ok' and t1 and t2 and t1 != t2:
                C.ok(what)
            elif v[0] == 'vague':
                C.undecide('%s: %s' % (what, v[1]))
            else:
                C.fail('C30/delegate-mixed', '%s have the same type %s' % (what, t2), T.where(fn))
    # errors
    def err(what, setup, args, alias, fails=None):
        w = M(T)
        w.fails = fails
        w.function('target', [('x', 'int')], 'int')
        setup(w)
        n = len(w.symbols())
        v = w.use('delegate', args, alias)
        if outcome(T, C, w, v, 'error', 'C30/delegate-error', 'use delegate ' + what, fn):
            if fails is None and w.sent:
                C.fail('C30/delegate-error', 'use delegate %s compiles %r' % (what, w.sent[0][1]), T.where(fn))
            elif fails and 'the reason' not in v[1]:
                C.fail('C30/delegate-error', 'use delegate %s does not give the reason' % what, T.where(fn))
            else:
                C.ok('use delegate ' + what)
    no = lambda w: None
    err('without arguments', no, [], 'd')
    err('with two arguments', no, ['target', 'target'], 'd')
    err('without an alias', no, ['target'], None)
    err('of an unknown function', no, ['nothing'], 'd')
    err('of the name of a type', no, ['file'], 'd')
    err('when the call function cannot be compiled', no, ['target'], 'd', 1)
    err('when the creating function cannot be compiled', no, ['target'], 'd', 2)
    # many parameters, long function names
    for n, t in [(n, t) for n in (6, 9, 13, 15, 16, 17, 20, 24, 28, 32, 36, 40, 45, 50, 60, 64, 100, 255) for t in ('int', 'Pt')]:
        large_delegate(T, C, [t if k % 3 else 'str' for k in range(n)], 'target', 'd', '%d parameters' % n, key, fn, n < 16)
    for n in (31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 300, 380, 400, 420, 440, 460, 480, 500, 511, 512, 520, 600):
        large_delegate(T, C, ['int'], 't' * (n - 1) + 'T', 'd', 'a function name of %d characters' % n, key, fn, n < 300)
        large_delegate(T, C, ['int'], 'target', 'd' * (n - 1) + 'D', 'an alias of %d characters' % n, key, fn, n < 300)
    # texts which do not fit: an error here or from the compiler, never a wrong function
    for ln in (50, 120, 150, 160, 170, 200, 240, 250, 300, 440, 480, 490, 500, 505, 510, 520, 800):
        for ps in (['x' * ln], ['int', 'y' * ln], ['x' * ln, 'x' * ln]):
            w = M(T)
            for p in ps:
                if p not in PRIM:
                    w.struct(p, [('a', 'int')])
            w.function('target', [('p%d' % k, t) for k, t in enumerate(ps)], 'int')
            what = 'use delegate with type names of %d characters' % ln
            v = w.use('delegate', ['target'], 'd')
            C.analysed |= w.reached
            if v[0] == 'vague':
                C.undecide('%s: %s' % (what, v[1]))
            elif v[0] == 'error':
                C.ok(what)
            elif v[0] != 'ok':
                C.fail(key, '%s: %s' % (what, getattr(v[-1], 'val', v[-1])), T.where(fn))
            else:
                try:
                    fs = [f for _, t in w.sent for f in Text(t).functions()]
                except Odd:
                    C.ok(what)            # the compiler refuses it
                    continue
                judge_delegate(T, C, w, fs, None, 'target', 'd', ps, 'int', key, what, fn)


def large_delegate(T, C, ps, nm, al, what, key, fn, must):
    w = M(T)
    w.struct('Pt', [('a', 'int')])
    w.function('t', [('x', 'str')], 'int')
    w.function(nm, [('p%d' % k, t) for k, t in enumerate(ps)], 'int')
    what = 'use delegate with ' + what
    v = w.use('delegate', [nm], al)
    C.analysed |= w.reached
    if v[0] == 'vague':
        C.undecide('%s: %s' % (what, v[1]))
    elif v[0] == 'error' and not must:
        C.ok(what)
    elif v[0] != 'ok':
        C.fail(key, '%s: %s' % (what, getattr(v[-1], 'val', v[-1])), T.where(fn))
    else:
        try:
            fs = [f for _, t in w.sent for f in Text(t).functions()]
        except Odd as x:
            if must:
                C.fail(key, '%s: the text is no function definition (%s)' % (what, x), T.where(fn))
            else:
                C.ok(what)            # the compiler refuses it
            return
        judge_delegate(T, C, w, fs, None, nm, al, ps, 'int', key, what, fn)


def judge_create(T, C, fs, nm, al, D, key, what, fn):
    f = next((f for f in fs if f[0] == al), None)
    bad = []
    if f is None:
        bad.append('nothing called %s is defined' % al)
    else:
        if f[1] or f[2] != D:
            bad.append('%s takes %s and gives %s' % (al, f[1], f[2]))
        want = ('call', 'get_function_index', [('str', nm)])
        if [(k, strip(e)) for k, e in f[3]] != [('return', want)]:
            bad.append('%s is %s' % (al, f[3]))
        elif f[3][0][1] == want:
            bad.append('%s gives a value of another type' % al)
    if bad:
        C.fail(key, '%s: %s' % (what, '; '.join(bad)), T.where(fn))
    else:
        C.ok()


def strip(e):
    return strip(e[1]) if e and e[0] == 'cast' else e


def judge_delegate(T, C, w, fs, before, nm, al, ps, r, key, what, fn):
    bad = []
    names = [f[0] for f in fs]
    mk = next((f for f in fs if f[0] == al), None)
    if mk is None or len(fs) != 2:
        C.fail(key, '%s defines %s' % (what, names), T.where(fn))
        return
    D = mk[2]
    if before is not None:
        new = [s for s in w.snapshot()[len(before):] if s[0] != 'FUNCTION']
        if new != [('TAG_FOREIGN', D)]:
            bad.append('the types it adds are %s and the alias gives %s' % (new, D))
    call = next(f for f in fs if f is not mk)
    if call[0] != D + '_call':
        bad.append('the call function is %s for the type %s' % (call[0], D))
    if [t for _, t in call[1]] != [D] + ps or call[2] != r:
        bad.append('the call function has the types (%s): %s' % (', '.join(t for _, t in call[1]), call[2]))
    if len({p for p, _ in call[1]}) != len(call[1]):
        bad.append('two parameters of the call function have one name')
    want = ('call', 'call_function', [('var', p) for p, _ in call[1]])
    body = call[3]
    if r == 'void':
        ok = [(k, strip(e) if e else None) for k, e in body if e is not None] == [('expr', want)]
    else:
        ok = len(body) == 1 and body[0][0] == 'return' and strip(body[0][1]) == want and (r == 'any' or body[0][1][0] == 'cast' and body[0][1][2] == r)
    if not ok:
        bad.append('the call function is %s' % (body,))
    if bad:
        C.fail(key, '%s: %s' % (what, '; '.join(bad[:3])), T.where(fn))
    else:
        C.ok(what)
    judge_create(T, C, fs, nm, al, D, key, what, fn)


# ------------------------------------------------------------------ serializers
STRUCTS = [
    ('one field', {'S': [('x', 'int')]}, 'S'),
    ('all simple kinds', {'S': [('i', 'int'), ('f', 'float'), ('b', 'bool'), ('s', 'str')]}, 'S'),
    ('a nested struct', {'In': [('v', 'int')], 'S': [('a', 'In'), ('b', 'str')]}, 'S'),
    ('the same struct twice', {'In': [('v', 'int')], 'S': [('a', 'In'), ('b', 'In')]}, 'S'),
    ('two levels', {'C': [('v', 'bool')], 'B': [('c', 'C'), ('n', 'int')], 'S': [('b', 'B'), ('c', 'C'), ('last_one', 'float')]}, 'S'),
    ('the inner one first', {'In': [('v', 'int')], 'S': [('a', 'In')]}, 'In'),
    ('a foreign type', {'S': [('list', 'array_any'), ('n', 'int')]}, 'S'),
    ('names with underscores', {'Big_name_9': [('a_b', 'int'), ('_c', 'str')]}, 'Big_name_9'),
    ('ten fields', {'S': [('f%d' % k, ('int', 'str', 'float')[k % 3]) for k in range(10)]}, 'S'),
    ('a diamond', {'D': [('v', 'int')], 'B': [('d', 'D')], 'C': [('d', 'D')], 'S': [('b', 'B'), ('c', 'C'), ('d', 'D')]}, 'S'),
]


def serializers(T, C):
    w = M(T)
    fn = w.macro('json')
    key = 'C30/json'
    for nm, structs, top in STRUCTS:
        for pre in (None, 'inner', 'top'):
            w = M(T)
            for s, fs in structs.items():
                w.struct(s, fs)
            have = {n[1][:-len('_to_json')] for n in w.snapshot() if n[0] == 'FOREIGN_FUNCTION' and n[1].endswith('_to_json')}
            if pre == 'top':
                w.function(top + '_to_json', [('v', top)], 'str')
                have.add(top)
            if pre == 'inner':
                inner = [s for s in structs if s != top]
                if not inner:
                    continue
                w.function(inner[0] + '_to_json', [('v', inner[0])], 'str', foreign=True)
                have.add(inner[0])
            what = 'use json of %s%s' % (nm, '' if pre is None else ', the %s one has a serializer already' % pre)
            v = w.use('json', [top], None)
            if not outcome(T, C, w, v, 'ok', key, what, fn):
                continue
            fs = parsed(T, C, w, key, what, fn)
            if fs is None:
                continue
            fs = [f for x in fs for f in x]
            bad = []
            need = reach(structs, top, have)
            if sorted(f[0] for f in fs) != sorted(s + '_to_json' for s in need):
                bad.append('it defines %s instead of %s' % ([f[0] for f in fs], sorted(need)))
            done = set(have)
            foreign = {s[1] for s in w.snapshot() if s[0] == 'TAG_FOREIGN'}
            for f in fs:
                s = f[0][:-len('_to_json')]
                if s not in structs:
                    continue
                bad += serializer(f, s, structs[s], done | foreign)
                done.add(s)
            if bad:
                C.fail(key, '%s: %s' % (what, '; '.join(bad[:3])), T.where(fn))
            else:
                C.ok(what)
            v = w.use('json', [top], None)
            if outcome(T, C, w, v, 'ok', key, what + ' again', fn):
                if w.sent:
                    C.fail(key, '%s: the same again compiles %s' % (what, w.sent), T.where(fn))
                else:
                    C.ok()
    # structs which contain themselves
    for nm, structs, top in (('itself', {'S': [('x', 'int'), ('next', 'S')]}, 'S'), ('itself through another', {'A': [('b', 'B')], 'B': [('a', 'A')]}, 'A'),
                             ('one that contains itself', {'N': [('n', 'N')], 'S': [('v', 'int'), ('n', 'N')]}, 'S'),
                             ('itself through two others', {'A': [('x', 'int'), ('b', 'B')], 'B': [('c', 'CC')], 'CC': [('a', 'A')]}, 'A')):
        w = M(T)
        for s in structs:
            w.struct(s)
        for s, fs in structs.items():
            w.struct(s, fs)
        v = w.use('json', [top], None)
        C.analysed |= w.reached
        what = 'use json of a struct that contains ' + nm
        if v[0] == 'error':
            C.ok(what)
        elif v[0] == 'ok':
            fs = parsed(T, C, w, key, what, fn)
            # acceptable when the serializers it makes call each other properly
            if fs is not None and all(not serializer(f, f[0][:-8], structs.get(f[0][:-8], []), set(structs) | {'int'}) for x in fs for f in x):
                C.ok(what)
            else:
                C.fail('C30/json-recursive', '%s compiles %s' % (what, [t for _, t in w.sent]), T.where(fn))
        else:
            C.fail('C30/json-recursive', '%s does not end: %s' % (what, getattr(v[-1], 'val', v[-1])), T.where(fn))

    def err(what, args, fails=None, structs={'S': [('a', 'In')], 'In': [('v', 'int')]}):
        w = M(T)
        w.fails = fails
        for s in structs:
            w.struct(s)
        for s, fs in structs.items():
            w.struct(s, fs)
        w.struct('Undefined')
        v = w.use('json', args, None)
        if outcome(T, C, w, v, 'error', 'C30/json-error', 'use json ' + what, fn):
            if fails is None and w.sent:
                C.fail('C30/json-error', 'use json %s compiles %r' % (what, w.sent[0][1]), T.where(fn))
            elif fails and ('the reason' not in v[1] or len(w.sent) != fails):
                C.fail('C30/json-error', 'use json %s: goes on after the failure or does not give the reason' % what, T.where(fn))
            else:
                C.ok('use json ' + what)
    err('without arguments', [])
    err('with two arguments', ['S', 'S'])
    err('of an unknown type', ['Nothing'])
    err('of a primitive type', ['int'])
    err('of a foreign type', ['array_any'])
    err('of a struct that is not defined', ['Undefined'])
    err('when the inner serializer cannot be compiled', ['S'], 1)
    err('when the outer serializer cannot be compiled', ['S'], 2)
    for n, fmt in [(n, 'a_field_with_a_name%d') for n in (10, 30, 31, 32, 33, 34, 35, 36, 40, 45, 50, 60, 255)] + [
            (n, 'f%d') for n in list(range(11, 62)) + [100, 255]] + [(n, 'g' * ln + '%d') for ln in (60, 120, 250, 400, 470, 900, 1000, 2000) for n in (1, 2, 3, 4, 6, 8)]:
        w = M(T)
        fields = [(fmt % k, 'int') for k in range(n)]
        w.struct('S', fields)
        what = 'use json of a struct with %d fields%s' % (n, '' if len(fmt) < 10 else ', names of %d characters' % len(fmt))
        v = w.use('json', ['S'], None)
        C.analysed |= w.reached
        if v[0] == 'error':
            if w.sent or n * (2 * len(fmt) + 40) <= 1500:
                C.fail(key, '%s: %s' % (what, v[1]), T.where(fn))
            else:
                C.ok(what)
        elif outcome(T, C, w, v, 'ok', key, what, fn):
            fs = parsed(T, C, w, key, what, fn)
            if fs is not None:
                bad = [b for x in fs for f in x for b in serializer(f, 'S', fields, {'int'})]
                if bad:
                    C.fail(key, '%s: %s' % (what, bad[0]), T.where(fn))
                else:
                    C.ok(what)


def reach(structs, s, have):
    out, work = set(), [s]
    while work:
        x = work.pop()
        if x in have or x in out or x not in structs:
            continue
        out.add(x)
        work += [t for _, t in structs[x]]
    return out


def serializer(f, s, fields, have):
    """what is wrong with the serializer f of struct s"""
    name, ps, r, body = f
    bad = []
    if len(ps) != 1 or ps[0][1] != s or r != 'str':
        return ['%s has the signature (%s): %s' % (name, ', '.join(t for _, t in ps), r)]
    v = ps[0][0]
    if len(body) != 1 or body[0][0] != 'return' or body[0][1] is None:
        return ['%s is %s' % (name, body)]
    try:
        got = json_norm(pieces(body[0][1]))
    except Odd as x:
        return ['%s: %s' % (name, x)]
    want = ['{']
    for k, (n, t) in enumerate(fields):
        want += [(',' if k else '') + '"%s":' % n, ('call', t + '_to_json', [('field', ('var', v), n)])]
    want = json_norm(want + ['}'])
    if got != want:
        d = next((k for k in range(min(len(got), len(want))) if got[k] != want[k]), min(len(got), len(want)))
        bad.append('%s gives %s where %s belongs' % (name, got[d] if d < len(got) else 'nothing', want[d] if d < len(want) else 'nothing'))
    for n, t in fields:
        if t not in have:
            bad.append('%s uses the serializer of %s before there is one' % (name, t))
    return bad


# ------------------------------------------------------------------ arrays
def arrays(T, C):
    w = M(T)
    fn = w.macro('array')
    key = 'C30/array'
    OPS = [('', ['...'], 'A'), ('_clear', ['A'], 'void'), ('_resize', ['A', 'int'], 'void'), ('_resize_fill', ['A', 'int', 'E'], 'void'), ('_get', ['A', 'int'], 'E'),
           ('_get_index', ['A', 'int'], 'E'), ('_set', ['A', 'int', 'E'], 'void'), ('_set_index', ['A', 'int', 'E'], 'void'), ('_len', ['A'], 'int'),
           ('_push', ['A', 'E'], 'void'), ('_pop', ['A'], 'E'), ('_shift', ['A'], 'E'), ('_remove', ['A', 'int'], 'void'), ('_insert', ['A', 'int', 'E'], 'void')]
    for el in ('int', 'float', 'bool', 'str', 'any', 'Point', 'handle', 'dict', 'a_long_type_name_0123456789_0123456789'):
        for al in ('List', 'a', 'a_long_array_name_0123456789_0123456789'):
            w = M(T)
            w.struct('Point', [('x', 'int')])
            if w.tag(el) is None:
                w.call('Tiny_RegisterType', w.state, w.text(el))
            before = w.snapshot()
            nf = w.G('numForeignFunctions')
            what = 'use array("%s") as %s' % (el, al)
            v = w.use('array', [el], al)
            if not outcome(T, C, w, v, 'ok', key, what, fn):
                continue
            after = w.snapshot()
            new = after[len(before):]
            bad = []
            if after[:len(before)] != before:
                bad.append('older symbols change')
            if w.sent:
                bad.append('it compiles %r' % (w.sent[0][1],))
            et = ref(el)
            if [s for s in new if s[0] != 'FOREIGN_FUNCTION'] != [('TAG_FOREIGN', al)]:
                bad.append('it adds %s' % [s for s in new if s[0] != 'FOREIGN_FUNCTION'])
            tags = {'A': ('TAG_FOREIGN', al), 'E': et, 'int': ('TAG_INT', 'int'), 'void': ('TAG_VOID', 'void')}
            want = {}
            for op, ps, r in OPS + ([('_sort', ['A'], 'void')] if el == 'int' else []):
                want[al + op] = (tuple(tags[p] for p in ps if p != '...'), '...' in ps, tags[r])
            fs = [s for s in new if s[0] == 'FOREIGN_FUNCTION']
            got = {s[1]: (tuple(x[:2] for x in s[3]), s[4], s[5][:2]) for s in fs}
            for n in sorted(set(want) | set(got)):
                if n not in want:
                    bad.append('it adds %s' % n)
                elif got.get(n) != want[n]:
                    bad.append('%s has the types %s instead of %s' % (n, got.get(n), want.get(n)))
            if [s[2] for s in fs] != list(range(nf, nf + len(fs))):
                bad.append('the functions are numbered %s' % [s[2] for s in fs])
            if bad:
                C.fail(key, '%s: %s' % (what, '; '.join(bad[:3])), T.where(fn))
            else:
                C.ok(what)
            v = w.use('array', [el], al)
            if outcome(T, C, w, v, 'ok', key, what + ' again', fn):
                if w.snapshot() != after:
                    C.fail(key, '%s: the same again changes the symbols' % what, T.where(fn))
                else:
                    C.ok()
    for what, args, al in (('without arguments', [], 'L'), ('with two arguments', ['int', 'int'], 'L'), ('without an alias', ['int'], None), ('of an unknown type', ['nothing'], 'L'),
                           ('of an undefined struct', ['Undefined'], 'L'), ('of the name of a function', ['strlen'], 'L')):
        w = M(T)
        w.struct('Undefined')
        before = w.snapshot()
        v = w.use('array', args, al)
        if outcome(T, C, w, v, 'error', 'C30/array-error', 'use array ' + what, fn):
            if w.snapshot() != before:
                C.fail('C30/array-error', 'use array %s binds something' % what, T.where(fn))
            else:
                C.ok('use array ' + what)


def ref(n):
    return (PRIM[n], n) if n in PRIM else ('TAG_STRUCT' if n == 'Point' else 'TAG_FOREIGN', n)


def run(T, C):
    C.together([lambda c, f=f: f(T, c) for f in (delegates, serializers, arrays)])
