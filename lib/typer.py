"""Typing of whole programs.

A program is a tree of tuples; it is built as the tree the parser would build and given to the compiler's back half
(type resolution and code generation) under the abstract interpreter.  The answer (accepted, and with which type for
each declared variable, or refused) is compared with a reference type system written from the language's rules.

types:  'void' 'bool' 'int' 'float' 'str' 'any', a struct 'A', a foreign type 'X', '?T'
expr:   ('val', T)  ('lit', T)  ('null',)  ('bin', op, a, b)  ('un', op, a)  ('paren', a)  ('call', f, args)
        ('new', S, args, names|None)  ('dot', a, field)  ('cast', a, T)  ('tern', c, a, b)  ('index', a, i)  ('var', x)
stmt:   ('decl', x, e)  ('assign', op, lhs, e)  ('expr', e)  ('if', c, s, s|None)  ('while', c, s)  ('for', s, c, s, s)
        ('block', s...)  ('func', name, s...)  ('ret', e|None)
"""
from gen import *

ARITH = ('PLUS', 'MINUS', 'STAR', 'SLASH')
INTS = ('PERCENT', 'AND', 'OR', 'SHIFT_LEFT', 'SHIFT_RIGHT')
ORDER = ('LT', 'GT', 'LTE', 'GTE')
EQ = ('EQUALS', 'NOTEQUALS')
LOG = ('LOG_AND', 'LOG_OR')
COMPOUND = ('PLUSEQUAL', 'MINUSEQUAL', 'STAREQUAL', 'SLASHEQUAL', 'PERCENTEQUAL', 'OREQUAL', 'ANDEQUAL')
ONLYINT = ('PERCENTEQUAL', 'OREQUAL', 'ANDEQUAL')
PRIMS = ('void', 'bool', 'int', 'float', 'str', 'any')


class Bad(Exception):
    pass


class Unspecified(Exception):
    pass


def assignable(src, dst):
    if src == 'void':
        return False
    if dst == 'any':
        return True
    if src == 'any':
        return False
    if dst[0] == '?' and src[0] != '?':
        return assignable(src, dst[1:])
    return src == dst


class Ref:
    """the reference type system"""

    def __init__(self, world):
        self.w = world
        self.vars = dict(world.get('vars', {}))
        self.decls = {}
        self.func = None

    def expr(self, e):
        k = e[0]
        if k in ('val', 'lit'):
            return e[1]
        if k == 'null':
            return 'any'
        if k == 'undeclared':
            raise Bad('denotes nothing')
        if k == 'const':
            return e[1]
        if k == 'var':
            if self.vars.get(e[1]) is None:
                raise Bad('not typed yet')
            return self.vars[e[1]]
        if k == 'paren':
            return self.expr(e[1])
        if k == 'un':
            t = self.expr(e[2])
            if e[1] == 'MINUS' and t in ('int', 'float'):
                return t
            if e[1] == 'BANG' and t == 'bool':
                return t
            raise Bad()
        if k == 'bin':
            a, b = self.expr(e[2]), self.expr(e[3])
            if e[1] in ARITH and a in ('int', 'float') and b in ('int', 'float'):
                return 'int' if a == b == 'int' else 'float'
            if e[1] in INTS and a == b == 'int':
                return 'int'
            if e[1] in ORDER and a in ('int', 'float') and b in ('int', 'float'):
                return 'bool'
            if e[1] in LOG and a == b == 'bool':
                return 'bool'
            if e[1] in EQ and 'void' not in (a, b):
                return 'bool'
            raise Bad()
        if k == 'tern':
            c, a, b = [self.expr(x) for x in e[1:]]
            if c != 'bool' or a != b:
                raise Bad()
            return a
        if k == 'cast':
            t = self.expr(e[1])
            if t == 'void' or e[2] == 'void':
                raise Unspecified()
            if t != 'any' and e[2] != 'any':
                raise Bad()
            return e[2]
        if k == 'dot':
            t = self.expr(e[1])
            f = dict(self.w.get('structs', {}).get(t) or ())
            if e[2] not in f:
                raise Bad()
            return f[e[2]]
        if k == 'call':
            f = self.w.get('funcs', {}).get(e[1])
            if f is None:
                raise Bad()
            kind, params, ret = f
            args = [self.expr(a) for a in e[2]]
            if kind == 'varargs':
                if len(args) < len(params):
                    raise Bad()
            elif len(args) != len(params):
                raise Bad()
            for a, p in zip(args, params):
                if not assignable(a, p):
                    raise Bad()
            if kind == 'varargs' and 'void' in args[len(params):]:
                raise Unspecified()
            return ret
        if k == 'new':
            fs = self.w.get('structs', {}).get(e[1])
            if fs is None:
                raise Bad()
            args = [self.expr(a) for a in e[2]]
            if len(args) != len(fs):
                raise Bad()
            if e[3] is None:
                pairs = list(zip(args, [t for _, t in fs]))
            else:
                if sorted(e[3]) != sorted(n for n, _ in fs):
                    raise Bad()
                pairs = [(a, dict(fs)[n]) for a, n in zip(args, e[3])]
            for a, p in pairs:
                if not assignable(a, p):
                    raise Bad()
            return e[1]
        if k == 'index':
            return self.index(e, None)
        raise ValueError(e)

    def index(self, e, value):
        a, i = self.expr(e[1]), self.expr(e[2])
        if a == 'void':
            raise Unspecified()
        g = self.w.get('funcs', {}).get('%s_get_index' % self.name(a))
        if g is None:
            raise Bad()
        if not self.takes(g, [a, i]):
            raise Bad()
        return g[2]

    def takes(self, f, args):
        kind, params, ret = f
        if len(args) != len(params) and not (kind == 'varargs' and len(args) >= len(params)):
            return False
        return all(assignable(a, p) for a, p in zip(args, params))

    @staticmethod
    def name(t):
        return t[1:] + '?' if t[0] == '?' else t

    def stmt(self, s):
        k = s[0]
        if k == 'decl':
            t = self.expr(s[2])
            if t == 'void':
                raise Bad()
            self.vars[s[1]] = self.decls[s[1]] = t
        elif k == 'assign':
            lhs = s[2]
            if s[1] not in COMPOUND + ('EQUAL',):
                raise Bad()         # no assignment
            if lhs[0] not in ('var', 'dot', 'index', 'val', 'undeclared') or (lhs[0] == 'val' and lhs[1] == 'void'):
                raise Bad()
            if lhs[0] == 'index':
                # the element type is what reading the element yields, which must be possible
                a, i = self.expr(lhs[1]), self.expr(lhs[2])
                g = self.w.get('funcs', {}).get('%s_get_index' % self.name(a))
                if g is None:
                    raise Bad()
                if not self.takes(g, [a, i]):
                    if s[1] == 'EQUAL' and len(g[1]) != 2:
                        raise Unspecified()
                    raise Bad()
                t = g[2]
            else:
                t = self.expr(lhs)
            v = self.expr(s[3])
            if not assignable(v, t):
                raise Bad()
            if s[1] != 'EQUAL' and t not in (('int',) if s[1] in ONLYINT else ('int', 'float')):
                raise Bad()
            if lhs[0] == 'index':
                f = self.w.get('funcs', {}).get('%s_set_index' % self.name(a))
                if f is None or not self.takes(f, [a, i, v]):
                    raise Bad()
        elif k == 'expr':
            self.expr(s[1])
            if s[1][0] != 'call':
                raise Bad()
        elif k == 'if':
            if self.expr(s[1]) != 'bool':
                raise Bad()
            self.stmt(s[2])
            if s[3]:
                self.stmt(s[3])
        elif k == 'while':
            if self.expr(s[1]) != 'bool':
                raise Bad()
            self.stmt(s[2])
        elif k == 'for':
            self.stmt(s[1])
            if self.expr(s[2]) != 'bool':
                raise Bad()
            self.stmt(s[3])
            self.stmt(s[4])
        elif k == 'block':
            for x in s[1:]:
                self.stmt(x)
        elif k == 'func':
            o, self.func = self.func, self.w['funcs'][s[1]]
            for x in s[2:]:
                self.stmt(x)
            self.func = o
        elif k == 'ret':
            if s[1] is None:
                if self.func[2] != 'void':
                    raise Bad()
            elif not assignable(self.expr(s[1]), self.func[2]):
                raise Bad()
        else:
            raise ValueError(s)

    def prog(self, p):
        for s in p:
            self.stmt(s)


class Built:
    """the program as the compiler sees it"""

    def __init__(self, T, world, prog):
        self.T = T
        self.g = g = Gen(T)
        g.start(0)
        self.st = g.st
        self.w = world
        T.set(g.st, g.state, 'Tiny_State', 'currFunc', 0)
        T.set(g.st, g.state, 'Tiny_State', 'currScope', 0)
        T.set(g.st, g.state, 'Tiny_State', 'compileCallNestCount', 1)
        self.tags = {}
        self.vars = {}
        self.nvars = 0
        structs = world.get('structs', {})
        for s in PRIMS + tuple(structs):
            self.tag(s)
        for s, fs in structs.items():
            if fs is not None:
                fl = [g.sym('FIELD', n, fieldTag=self.tag(t)) for n, t in fs]
                T.set(g.st, self.tags[s], 'Tiny_Symbol', 'sstruct.fields', g.symarray(s + '.fields', fl) if fl else 0)
        self.funcs = {}
        nf = nff = 0
        for n, (kind, params, ret) in world.get('funcs', {}).items():
            if kind == 'script':
                s = g.sym('FUNCTION', n, func__index=nf, func__locals=0, func__returnTag=self.tag(ret))
                nf += 1
                a = [g.sym('LOCAL', '%s_p%d' % (n, k), var__index=k - len(params), var__tag=self.tag(t),
                           var__initialized=1) for k, t in enumerate(params)]
                T.set(g.st, s, 'Tiny_Symbol', 'func.args', g.symarray(n + '.args', a) if a else 0)
            else:
                s = g.sym('FOREIGN_FUNCTION', n, foreignFunc__index=nff, foreignFunc__varargs=int(kind == 'varargs'),
                          foreignFunc__returnTag=self.tag(ret), foreignFunc__callee=g.st.new_obj('callee_' + n, 'init'))
                nff += 1
                a = [self.tag(t) for t in params]
                T.set(g.st, s, 'Tiny_Symbol', 'foreignFunc.argTags', g.symarray(n + '.tags', a) if a else 0)
            self.funcs[n] = s
            g.syms.append(s)
        T.set(g.st, g.state, 'Tiny_State', 'numFunctions', nf)
        T.set(g.st, g.state, 'Tiny_State', 'numForeignFunctions', nff)
        self.locals = None
        for x, t in world.get('vars', {}).items():
            self.var(x, t)
        self.head = g.chain([self.stmt(s) for s in prog])
        g.seal()

    def tag(self, t):
        g, T = self.g, self.T
        if t in self.tags:
            return self.tags[t]
        if t in PRIMS:
            p = g.prim(g.st, t.upper())
        elif t[0] == '?':
            p = g.sym('TAG_NULLABLE', t[1:] + '?', nullableTag=self.tag(t[1:]))
            g.syms.append(p)
        elif t in self.w.get('structs', {}):
            d = self.w['structs'][t] is not None
            p = g.sym('TAG_STRUCT', t, sstruct__defined=int(d), sstruct__fields=0)
            g.syms.append(p)
        else:
            p = g.sym('TAG_FOREIGN', t)
            g.syms.append(p)
        self.tags[t] = p
        return p

    def var(self, x, t=None, local=False):
        if x not in self.vars:
            g = self.g
            s = g.sym('LOCAL' if self.locals is not None else 'GLOBAL', x, var__index=self.nvars, var__initialized=1,
                      var__tag=self.tag(t) if t else 0, var__scopeEnded=0, var__scope=0)
            self.nvars += 1
            if self.locals is not None:
                self.locals.append(s)
            else:
                g.syms.append(s)
            self.vars[x] = s
        return self.vars[x]

    def args(self, es):
        return self.g.chain([self.expr(e) for e in es])

    def expr(self, e):
        g = self.g
        k = e[0]
        n = g.node
        if k == 'val':
            if e[1] == 'void':
                f = 'gives_void'
                if f not in self.funcs:
                    s = g.sym('FOREIGN_FUNCTION', f, foreignFunc__index=0, foreignFunc__varargs=0, foreignFunc__argTags=0,
                              foreignFunc__returnTag=self.tag('void'), foreignFunc__callee=g.st.new_obj('cv', 'init'))
                    self.funcs[f] = s
                    g.syms.append(s)
                    self.T.set(g.st, g.state, 'Tiny_State', 'numForeignFunctions', max(1, len(self.funcs)))
                return n('CALL', call__calleeName=g.strnode(f), call__argsHead=0)
            x = 'v_' + e[1]
            return n('ID', id__sym=self.var(x, e[1]), id__name=g.strnode(x))
        if k == 'const':
            c = g.sym('CONST', 'c_' + e[1], constant__tag=self.tag(e[1]))
            val = {'int': {'constant__iValue': 7}, 'bool': {'constant__bValue': 1}, 'str': {'constant__sIndex': 0},
                   'float': {'constant__fValue': fresh('cf', 64)}}[e[1]]
            for x, y in val.items():
                self.T.set(g.st, c, 'Tiny_Symbol', x.replace('__', '.'), y)
            g.syms.append(c)
            return n('ID', id__sym=c, id__name=g.strnode('c_' + e[1]))
        if k == 'undeclared':
            return n('ID', id__sym=0, id__name=g.strnode(e[1]))
        if k == 'var':
            return n('ID', id__sym=self.var(e[1]), id__name=g.strnode(e[1]))
        if k == 'null':
            return n('NULL')
        if k == 'lit':
            if e[1] == 'bool':
                return n('BOOL', boolean=1)
            if e[1] == 'int':
                return n('INT', iValue=7)
            if e[1] == 'float':
                return n('FLOAT', fValue=fresh('fv', 64))
            return n('STRING', sIndex=0)
        if k == 'paren':
            return n('PAREN', paren=self.expr(e[1]))
        if k == 'un':
            return n('UNARY', unary__op=g.TOK[e[1]], unary__exp=self.expr(e[2]))
        if k == 'bin':
            return n('BINARY', binary__op=g.TOK[e[1]], binary__lhs=self.expr(e[2]), binary__rhs=self.expr(e[3]))
        if k == 'tern':
            return n('IF_TERNARY', ifx__cond=self.expr(e[1]), ifx__body=self.expr(e[2]), ifx__alt=self.expr(e[3]))
        if k == 'cast':
            return n('CAST', cast__value=self.expr(e[1]), cast__tag=self.tag(e[2]))
        if k == 'dot':
            return n('DOT', dot__lhs=self.expr(e[1]), dot__field=g.strnode(e[2]))
        if k == 'call':
            return n('CALL', call__calleeName=g.strnode(e[1]), call__argsHead=self.args(e[2]))
        if k == 'new':
            names = 0
            for x in reversed(e[3] or ()):
                names = g.strnode(x, names)
            return n('CONSTRUCTOR', constructor__structTag=self.tag(e[1]), constructor__argNamesHead=names,
                     constructor__argsHead=self.args(e[2]))
        if k == 'index':
            return n('INDEX', index__arr=self.expr(e[1]), index__elem=self.expr(e[2]), index__getIndexFunc=0,
                     index__setIndexFunc=0)
        raise ValueError(e)

    def stmt(self, s):
        g, T = self.g, self.T
        k = s[0]
        n = g.node
        if k == 'decl':
            return n('BINARY', binary__op=g.TOK['DECLARE'], binary__rhs=self.expr(s[2]),
                     binary__lhs=n('ID', id__sym=self.var(s[1]), id__name=g.strnode(s[1])))
        if k == 'assign':
            return n('BINARY', binary__op=g.TOK[s[1]], binary__lhs=self.expr(s[2]), binary__rhs=self.expr(s[3]))
        if k == 'expr':
            return self.expr(s[1])
        if k == 'if':
            return n('IF', ifx__cond=self.expr(s[1]), ifx__body=self.stmt(s[2]), ifx__alt=self.stmt(s[3]) if s[3] else 0)
        if k == 'while':
            return n('WHILE', whilex__cond=self.expr(s[1]), whilex__body=self.stmt(s[2]))
        if k == 'for':
            return n('FOR', forx__init=self.stmt(s[1]), forx__cond=self.expr(s[2]), forx__step=self.stmt(s[3]),
                     forx__body=self.stmt(s[4]))
        if k == 'block':
            return n('BLOCK', blockHead=g.chain([self.stmt(x) for x in s[1:]]))
        if k == 'func':
            self.locals = []
            f = self.funcs[s[1]]
            body = n('BLOCK', blockHead=g.chain([self.stmt(x) for x in s[2:]]))
            T.set(g.st, f, 'Tiny_Symbol', 'func.locals',
                  g.symarray(s[1] + '.locals', self.locals) if self.locals else 0)
            self.locals = None
            return n('PROC', proc__decl=f, proc__body=body)
        if k == 'ret':
            return n('RETURN', retExpr=self.expr(s[1]) if s[1] else 0)
        raise ValueError(s)

    def outcomes(self):
        """[('ok', {var: type}) | ('refused', None) | (kind, val)]"""
        g, T = self.g, self.T
        ems = g.compile(T.fn('CompileState'), self.head)
        names = {v: k for k, v in self.tags.items()}
        out = []
        for e in ems:
            if e.kind == 'ret':
                d = {}
                for x, s in self.vars.items():
                    t = T.get(e.st, s, 'Tiny_Symbol', 'var.tag')
                    d[x] = names.get(t, t)
                out.append(('ok', d, e.r.where))
            elif e.kind == 'raise':
                out.append(('refused', None, e.r.where))
            else:
                out.append((e.kind, e.r.val, e.r.where))
        return out


def brief(x):
    s = show(x)
    return s if len(s) < 400 else '%s ... %s' % (s[:200], s[-150:])


def show(x):
    if isinstance(x, (list, tuple)):
        return '(%s)' % ' '.join(show(y) for y in x)
    return str(x)


def judge(T, world, prog):
    """-> (verdict, text): 'ok', 'skip', 'bad', 'cut'"""
    r = Ref(world)
    try:
        r.prog(prog)
        want = r.decls
    except Bad:
        want = None
    except Unspecified:
        return 'skip', '', None
    b = Built(T, world, prog)
    outs = b.outcomes()
    res = 'ok'
    for o in outs:
        if o[0] == 'cut':
            res = 'cut'
        elif want is None:
            if o[0] == 'ok':
                return 'bad', 'is accepted although the type rules refuse it', b
            if o[0] != 'refused':
                return 'bad', 'ends with %s (%s) instead of a compile error' % (o[0], o[1]), b
        else:
            if o[0] == 'refused':
                return 'bad', 'is refused although the type rules accept it (%s)' % T.loc(o[2]), b
            if o[0] != 'ok':
                return 'bad', 'ends with %s (%s)' % (o[0], o[1]), b
            for x, t in want.items():
                if o[1][x] != t:
                    return 'bad', 'gives %s the type %s instead of %s' % (x, o[1][x], t), b
    if not outs:
        return 'cut', '', b
    return res, '', b


def no_assignment():
    """what stands between a place and a value must be an assignment"""
    from grammar import ASSIGN
    from parse import LEX
    v = lambda t: ('val', t)
    w = {'funcs': {'G': ('script', (), 'int'), 'f': ('foreign', (), 'int')}}
    out = []
    for k in tuple(LEX) + ('BOOL', 'CHAR', 'INT', 'FLOAT', 'STRING', 'IDENT'):
        if k in ASSIGN or k in ('DECLARE', 'DECLARECONST', 'EQUAL'):
            continue
        s = ('assign', k, v('int'), v('int'))
        out.append(('a place, %s and a value' % k, w, (s,)))
        out.append(('a place, %s and a value in a function' % k, w, (('func', 'G', ('if', v('bool'), ('block', s), None), ('ret', v('int'))),)))
        out.append(('a place, %s and a value in a loop' % k, w, (('for', ('expr', ('call', 'f', ())), v('bool'), s, ('block',)),)))
    return out


def _job(a):
    import traceback
    part, n, cases = a
    T = _T[0]
    out = []
    reached = set()
    for k, (key, world, prog) in enumerate(cases):
        if k % n != part:
            continue
        try:
            v, text, b = judge(T, world, prog)
            if b is not None:
                reached |= b.g.reached
        except E.Limit as e:
            v, text = 'cut', str(e)
        except Missing:
            raise
        except Exception:
            v, text = 'cut', traceback.format_exc()
        out.append((k, v, text))
    return out, reached


_T = []


def run_cases(T, C, cases, where, prefix):
    import multiprocessing
    _T[:] = [T]
    n = 16
    with multiprocessing.get_context('fork').Pool(int(os.environ.get('TINY_JOBS') or 8)) as p:
        rs = p.map(_job, [(k, n, cases) for k in range(n)], 1)
    allr = sorted(x for r, _ in rs for x in r)
    for _, reached in rs:
        C.analysed |= reached
    for k, v, text in allr:
        key, world, prog = cases[k]
        if v == 'ok':
            C.ok('%s: %s' % (key, brief(prog)) if k % 97 == 0 else None)
            C.count('programs')
        elif v == 'cut':
            C.undecide('%s %s: %s' % (key, brief(prog), text[-400:]))
        elif v == 'bad':
            C.fail('%s/%s %s' % (prefix, key, brief(prog)), 'the program %s %s' % (brief(prog), text), where)
        else:
            C.count('unspecified')
