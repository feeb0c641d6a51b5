"""The grammar of the language, as the documentation and the examples of the language use it: a reference for the tree a
sequence of tokens and opaque sub-sentences denotes."""
from parse import Tok, LEX

ASSIGN = ('EQUAL', 'PLUSEQUAL', 'MINUSEQUAL', 'STAREQUAL', 'SLASHEQUAL', 'PERCENTEQUAL', 'OREQUAL', 'ANDEQUAL')
PREC = {}
for p, l in ((5, 'STAR SLASH PERCENT AND OR'), (4, 'SHIFT_LEFT SHIFT_RIGHT PLUS MINUS'),
             (3, 'LTE GTE EQUALS NOTEQUALS LT GT'), (2, 'LOG_AND LOG_OR')):
    for k in l.split():
        PREC[k] = p
PRIMS = ('void', 'bool', 'int', 'float', 'str', 'any')


class Bad(Exception):
    """not a sentence"""


class Skip(Exception):
    """the input does not say (an opaque item where another kind is needed, or the language leaves it open)"""


class Ref:
    def __init__(self, items, func=None, scope=0, nf=7, ng=5, structs=(), fname='fn'):
        self.it = items
        self.i = 0
        self.func = func            # return type of the enclosing function or None
        self.scope = scope
        self.nf, self.ng = nf, ng
        self.syms = [('TAG_STRUCT', n, d, f) for n, d, f in structs]
        self.trace = []
        self.locals = []
        self.args = []
        self.fname = fname
        self.fidx = None

    def cur(self):
        return self.it[self.i] if self.i < len(self.it) else Tok('EOF')

    def kind(self):
        c = self.cur()
        return c[2] if isinstance(c, tuple) else c.kind

    def lex(self):
        c = self.cur()
        if isinstance(c, tuple):
            raise Skip()
        return c.lex if c.lex is not None else LEX.get(c.kind, '')

    def next(self):
        if isinstance(self.cur(), tuple):
            raise Skip()
        self.i += 1

    def is_(self, k):
        return not isinstance(self.cur(), tuple) and self.kind() == k

    def expect(self, k):
        if isinstance(self.cur(), tuple):
            if self.kind() != k:
                raise Bad()
            raise Skip()
        if self.kind() != k:
            raise Bad()

    def opaque(self, kinds):
        c = self.cur()
        if isinstance(c, tuple):
            if c[0] not in kinds:
                if c[0] == 'F' or (c[0] == 'E' and 'S' in kinds):
                    return None
                raise Skip()
            if c[0] != kinds[0]:
                return None
            self.trace.append((c[1], self.scope, self.func is not None))
            self.i += 1
            return c
        return None

    # ------------------------------------------------------ types
    def type(self):
        self.expect('IDENT')
        n = self.lex()
        if n not in PRIMS:
            self.struct(n)
        self.next()
        if self.is_('QUESTION'):
            if n == 'void':
                raise Bad()
            self.next()
            return n + '?'
        return n

    def struct(self, n):
        for s in self.syms:
            if s and s[0] == 'TAG_STRUCT' and s[1] == n:
                return s
        s = ('TAG_STRUCT', n, 0, ())
        self.syms.append(s)
        return s

    # ------------------------------------------------------ expressions
    def expr(self):
        o = self.opaque(('E', 'F'))
        if o:
            return o[1]
        return self.binary(0)

    def binary(self, least):
        l = self.factor()
        while True:
            p = PREC.get(self.kind(), -1)
            if p < 0 or p < least:
                return l
            op = self.kind()
            if isinstance(self.cur(), tuple):
                raise Skip()
            self.next()
            r = self.binary(p + 1)
            l = ('BINARY', op, l, r)

    def args_(self, close):
        out = []
        while not self.is_(close):
            out.append(self.expr())
            if self.is_('COMMA'):
                self.next()
            elif not self.is_(close):
                raise Bad()
        self.next()
        return tuple(out)

    def factor(self):
        o = self.opaque(('F',))
        if o:
            self.lastop = o
            return o[1]
        return self.suffix(self.value())

    def suffix(self, e):
        while True:
            k = self.kind()
            if isinstance(self.cur(), tuple):
                return e
            if k == 'OPENSQUARE':
                self.next()
                x = self.expr()
                self.expect('CLOSESQUARE')
                self.next()
                e = ('INDEX', e, x)
            elif k == 'ARROW':
                self.next()
                self.expect('IDENT')
                n = self.lex()
                self.next()
                self.expect('OPENPAREN')
                self.next()
                e = ('CALL', n, e) + self.args_('CLOSEPAREN')
            elif k == 'DOT':
                self.next()
                self.expect('IDENT')
                e = ('DOT', e, self.lex())
                self.next()
            else:
                return e

    def value(self):
        c = self.cur()
        if isinstance(c, tuple):
            raise Skip()
        k = c.kind
        if k == 'NULL':
            self.next()
            return ('NULL',)
        if k in ('INT', 'CHAR', 'FLOAT', 'BOOL'):
            self.next()
            return (k, c.val)
        if k == 'STRING':
            self.next()
            return (k, c.lex)
        if k == 'IDENT':
            self.next()
            if self.is_('OPENPAREN'):
                self.next()
                return ('CALL', c.lex) + self.args_('CLOSEPAREN')
            return ('ID', c.lex)
        if k in ('MINUS', 'BANG'):
            self.next()
            return ('UNARY', k, self.factor())
        if k == 'OPENPAREN':
            self.next()
            e = self.expr()
            self.expect('CLOSEPAREN')
            self.next()
            return ('PAREN', e)
        if k == 'NEW':
            self.next()
            if isinstance(self.cur(), tuple):
                raise Skip()
            self.expect('IDENT')
            n = self.lex()
            self.struct(n)
            self.next()
            self.expect('OPENCURLY')
            self.next()
            names, args = [], []
            while not self.is_('CLOSECURLY'):
                if self.is_('DOT'):
                    self.next()
                    self.expect('IDENT')
                    names.append(self.lex())
                    self.next()
                    self.expect('EQUAL')
                    self.next()
                args.append(self.expr())
                if not self.is_('CLOSECURLY') and not self.is_('COMMA'):
                    raise Bad()
                if self.is_('COMMA'):
                    self.next()
            self.next()
            return ('CONSTRUCTOR', n, tuple(names)) + tuple(args)
        if k == 'CAST':
            self.next()
            self.expect('OPENPAREN')
            self.next()
            e = self.expr()
            self.expect('COMMA')
            self.next()
            t = self.type()
            self.expect('CLOSEPAREN')
            self.next()
            return ('CAST', e, t)
        if k == 'IF':
            self.next()
            a = self.expr()
            b = self.expr()
            self.expect('ELSE')
            self.next()
            return ('IF_TERNARY', a, b, self.expr())
        raise Bad()

    # ------------------------------------------------------ statements
    def stmt(self):
        o = self.opaque(('S', 'E', 'F'))
        if o:
            return o[1]
        c = self.cur()
        k = self.kind() if not isinstance(c, tuple) else None
        if k == 'OPENCURLY':
            self.next()
            self.scope += 1
            out = []
            while not self.is_('CLOSECURLY'):
                if self.kind() == 'EOF':
                    raise Bad()
                out.append(self.stmt())
            self.next()
            self.end_scope()
            return ('BLOCK',) + tuple(out)
        if k == 'FUNC':
            if self.func is not None:
                raise Bad()
            self.next()
            self.expect('IDENT')
            n = self.lex()
            idx = self.nf
            self.nf += 1
            slot = len(self.syms)
            self.syms.append(None)
            self.func = '?'
            self.next()
            self.expect('OPENPAREN')
            self.next()
            ps = []
            while not self.is_('CLOSEPAREN'):
                self.expect('IDENT')
                pn = self.lex()
                self.next()
                self.expect('COLON')
                self.next()
                t = self.type()
                ps.append((pn, t))
                if not self.is_('CLOSEPAREN') and not self.is_('COMMA'):
                    raise Bad()
                if self.is_('COMMA'):
                    self.next()
            if len({p for p, _ in ps}) != len(ps):
                raise Bad()
            self.next()
            rt = 'void'
            if self.is_('COLON'):
                self.next()
                rt = self.type()
            args = tuple(('LOCAL', p, j - len(ps), t, 0, 0) for j, (p, t) in enumerate(ps))
            self.func = rt
            self.args = list(args)
            self.locals = []
            self.scope += 1
            b = self.stmt()
            self.end_scope()
            self.func = None
            s = ('FUNCTION', n, idx, rt, args, tuple(tuple(l[:6]) for l in self.locals))
            self.syms[slot] = s
            self.locals = []
            return ('PROC', s, b)
        if k == 'IF':
            self.next()
            a = self.expr()
            b = self.stmt()
            d = None
            if self.is_('ELSE'):
                self.next()
                d = self.stmt()
            return ('IF', a, b, d)
        if k == 'WHILE':
            self.next()
            a = self.expr()
            self.scope += 1
            b = self.stmt()
            self.end_scope()
            return ('WHILE', a, b)
        if k == 'FOR':
            self.next()
            self.scope += 1
            a = self.stmt()
            self.expect('SEMI')
            self.next()
            b = self.expr()
            self.expect('SEMI')
            self.next()
            s = self.stmt()
            d = self.stmt()
            self.end_scope()
            return ('FOR', a, b, s, d)
        if k == 'RETURN':
            if self.func is None:
                raise Bad()
            self.next()
            if self.is_('SEMI'):
                self.next()
                return ('RETURN', None)
            if self.func == 'void':
                raise Bad()
            return ('RETURN', self.expr())
        if k in ('BREAK', 'CONTINUE'):
            self.next()
            return (k,)
        if k == 'USE':
            if self.func is not None or self.scope:
                raise Bad()
            self.next()
            self.expect('IDENT')
            n = self.lex()
            self.next()
            self.expect('OPENPAREN')
            self.next()
            args = []
            while not self.is_('CLOSEPAREN'):
                self.expect('STRING')
                args.append(self.lex())
                self.next()
                if self.is_('COMMA'):
                    self.next()
            self.next()
            a = None
            if self.is_('IDENT') and self.lex() == 'as':
                self.next()
                self.expect('IDENT')
                a = self.lex()
                self.next()
            return ('USE', n, tuple(args), a)
        self.lastop = None
        l = self.factor()
        lt = self.lastop[3] if self.lastop and isinstance(l, str) else l[0]
        if lt == 'CALL':
            return l
        op = self.kind()
        if isinstance(self.cur(), tuple):
            raise Skip()
        nm = l if isinstance(l, str) else l[1] if lt == 'ID' else None
        if op in ('DECLARE', 'COLON'):
            if lt != 'ID':
                raise Bad()
            t = None
            if self.func is not None:
                if any(x[1] == nm and x[5] == 0 for x in self.locals):
                    raise Bad()
                d = ['LOCAL', nm, len(self.locals), None, 0, 0, self.scope]
                self.locals.append(d)
            else:
                if any(s and s[0] in ('GLOBAL', 'CONST') and s[1] == nm for s in self.syms):
                    raise Bad()
                d = ['GLOBAL', nm, self.ng, None, 0, 0]
                self.ng += 1
                self.syms.append(d)
            if op == 'COLON':
                self.next()
                d[3] = self.type()
                self.expect('EQUAL')
                op = 'EQUAL'
        elif op in PREC:
            raise Bad()
        elif op not in ASSIGN and op != 'DECLARECONST':
            raise Skip()
        self.next()
        self.lastop = None
        at = self.cur()
        r = self.expr()
        if op == 'DECLARECONST':
            if lt != 'ID':
                raise Bad()
            if isinstance(at, tuple) and isinstance(r, str):
                if len(at) < 4:
                    raise Skip()
                rt, v = at[3], at[4] if len(at) > 4 else None
            else:
                rt, v = r[0], r[1] if len(r) > 1 else None
            ty = {'BOOL': 'bool', 'CHAR': 'int', 'INT': 'int', 'FLOAT': 'float', 'STRING': 'str'}.get(rt)
            if ty is None:
                raise Bad()
            if any(s and s[0] in ('GLOBAL', 'CONST') and s[1] == nm for s in self.syms):
                raise Bad()
            if any(x[1] == nm and x[5] == 0 for x in self.locals) or any(x[1] == nm for x in self.args if self.func):
                raise Bad()
            self.syms.append(('CONST', nm, ty, v))
        return ('BINARY', op, l, r)

    def end_scope(self):
        for l in self.locals:
            if l[6] == self.scope:
                l[5] = 1
        self.scope -= 1

    def program(self):
        out = []
        while self.kind() != 'EOF':
            if self.is_('STRUCT'):
                self.structdecl()
            else:
                out.append(self.stmt())
        return tuple(out)

    def structdecl(self):
        if self.func is not None:
            raise Bad()
        self.next()
        self.expect('IDENT')
        n = self.lex()
        s = self.struct(n)
        if s[2]:
            raise Bad()
        ix = self.syms.index(s)
        self.syms[ix] = ('TAG_STRUCT', n, 1, ())
        self.next()
        self.expect('OPENCURLY')
        self.next()
        fs = []
        while not self.is_('CLOSECURLY'):
            self.expect('IDENT')
            f = self.lex()
            if len(fs) >= 255 or f in [x for x, _ in fs]:
                raise Bad()
            self.next()
            self.expect('COLON')
            self.next()
            fs.append((f, self.type()))
            self.syms[ix] = ('TAG_STRUCT', n, 1, tuple(fs))
        self.next()
        if not fs:
            raise Bad()
        return n

    def symbols(self):
        out = []
        for s in self.syms:
            if s[0] in ('GLOBAL',):
                s = tuple(s)
            out.append(s)
        return out
