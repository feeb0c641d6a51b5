"""The parser, one production at a time.

The analysed production is a parsing function whose sub-parsers (statement, expression, factor) are
opaque: each consumes one abstract item of the input and yields an opaque node.  The input is a list
of token classes and opaque items; identifiers are distinct opaque names.  What the production does
with every such input is read off the abstract state it ends in.
"""
from gen import *


def S(name='S', first='IDENT'):
    return ('S', name, first)


def X(name='E', first='IDENT'):
    return ('E', name, first)


def F(name='F', kind='ID', first='IDENT'):
    return ('F', name, first, kind)


class Tok:
    def __init__(self, kind, lex=None, val=None):
        self.kind, self.lex, self.val = kind, lex, val

    def __repr__(self):
        return self.kind + ('(%s)' % self.lex if self.lex else '')


LEX = {'OPENPAREN': '(', 'CLOSEPAREN': ')', 'OPENCURLY': '{', 'CLOSECURLY': '}', 'OPENSQUARE': '[', 'CLOSESQUARE': ']',
       'PLUS': '+', 'MINUS': '-', 'STAR': '*', 'SLASH': '/', 'PERCENT': '%', 'GT': '>', 'LT': '<', 'EQUAL': '=', 'BANG': '!',
       'AND': '&', 'OR': '|', 'SHIFT_LEFT': '<<', 'SHIFT_RIGHT': '>>', 'COMMA': ',', 'SEMI': ';', 'COLON': ':', 'DOT': '.',
       'ELLIPSIS': '...', 'LOG_AND': '&&', 'LOG_OR': '||', 'DECLARE': ':=', 'DECLARECONST': '::', 'PLUSEQUAL': '+=',
       'MINUSEQUAL': '-=', 'STAREQUAL': '*=', 'SLASHEQUAL': '/=', 'PERCENTEQUAL': '%=', 'OREQUAL': '|=', 'ANDEQUAL': '&=',
       'EQUALS': '==', 'NOTEQUALS': '!=', 'LTE': '<=', 'GTE': '>=', 'ARROW': '->', 'QUESTION': '?', 'NULL': 'null',
       'IF': 'if', 'ELSE': 'else', 'WHILE': 'while', 'FOR': 'for', 'RETURN': 'return', 'FUNC': 'func', 'FOREIGN': 'foreign',
       'STRUCT': 'struct', 'NEW': 'new', 'CAST': 'cast', 'BREAK': 'break', 'CONTINUE': 'continue', 'USE': 'use',
       'FOREACH': 'foreach'}
KIND = {v: k for k, v in LEX.items()}


def toks(*items):
    """'if', 'x' (identifier), "'str'" (string), 12 (int), opaque tuples -> items"""
    out = []
    for i in items:
        if isinstance(i, (tuple, Tok)):
            out.append(i)
        elif isinstance(i, int):
            out.append(Tok('INT', str(i), i))
        elif i in KIND:
            out.append(Tok(KIND[i], i))
        elif i.startswith("'"):
            out.append(Tok('STRING', i.strip("'")))
        elif i == 'EOF':
            out.append(Tok('EOF'))
        else:
            out.append(Tok('IDENT', i))
    return out


class Parser:
    def __init__(self, T):
        self.T = T
        self.g = Gen(T)
        self.g.start(0)
        self.m = T.m
        for f in ('ParseStatement', 'ParseExpr', 'ParseFactor', 'Tiny_GetToken', 'Tiny_ArenaAlloc'):
            T.fn(f)
        self.reached = set()
        self.npaths = 0
        self.KINDS = {v: k for k, v in self.g.TOK.items()}

    def start(self, items, syms=(), currFunc=0, scope=0, numFunctions=7, numGlobals=5):
        """a state about to parse the items"""
        T, g = self.T, self.g
        st = State()
        g.st = st
        st.x = {}
        self.st = st
        self.state = g.state = T.obj(st, 'Tiny_State', 'state')
        self.items = list(items)
        self.lexemes = {}
        for k, v in (('currFunc', currFunc), ('currScope', scope), ('numFunctions', numFunctions),
                     ('numGlobalVars', numGlobals), ('compileCallNestCount', 1)):
            T.set(st, self.state, 'Tiny_State', k, v)
        self.serial = fresh('serial', 32, 1, 1 << 20)
        T.set(st, self.state, 'Tiny_State', 'compileSerial', self.serial)
        T.set(st, self.state, 'Tiny_State', 'numStrings', 0)
        self.numFunctions, self.numGlobals = numFunctions, numGlobals
        return st

    def seal(self, syms):
        """publish the symbol table (a stretchy buffer of its own memory so pushes can grow it)"""
        T = self.T
        a = T.stretchy(self.st, 'globalSymbols', [[(0, 8, s)] for s in syms], 8, cap=4096)
        T.set(self.st, self.state, 'Tiny_State', 'globalSymbols', a)

    def load(self, st, k):
        """make item k the current token"""
        T = self.T
        st.x['ti'] = k
        L = lambda f, v: T.set(st, self.state, 'Tiny_State', 'l.' + f, v)
        it = self.items[k] if k < len(self.items) else Tok('EOF')
        if isinstance(it, tuple):
            kind, lex, val = it[2], '<%s>' % it[1], None
        else:
            kind, lex, val = it.kind, it.lex if it.lex is not None else LEX.get(it.kind, ''), it.val
        L('lastTok', self.g.TOK[kind])
        L('pos', 1000 + 10 * k)
        L('lineNumber', 50 + k)
        L('lexeme', T.cstr(st, lex, name='lexeme%d' % k))
        if kind == 'LEXER_ERROR':
            L('errorMsg', T.cstr(st, 'lexer error'))
        if kind in ('INT', 'CHAR'):
            L('iValue', val)
        elif kind == 'FLOAT':
            L('fValue', val)
        elif kind == 'BOOL':
            L('bValue', val)
        return self.g.TOK[kind]

    def hooks(self, root):
        g, T = self.g, self.T

        def gettok(en, st, a, i):
            k = st.x['ti']
            if k >= 0 and k < len(self.items) and isinstance(self.items[k], tuple):
                raise Raise('mismatch', 'item %d (%r) is skipped' % (k, self.items[k][1]))
            st.x['eofs'] = st.x.get('eofs', 0) + (1 if k >= len(self.items) else 0)
            if st.x['eofs'] > 40:
                raise Raise('noeof', 'keeps reading at the end of the input')
            return self.load(st, min(k + 1, len(self.items)))

        def sub(kind, fn):
            def h(en, st, a, i):
                k = st.x['ti']
                it = self.items[k] if 0 <= k < len(self.items) else None
                if not isinstance(it, tuple):
                    if fn == root or kind == 'S' or it is None:
                        return INLINE
                    return INLINE
                if it[0] != kind:
                    # a statement may begin by reading a factor, an expression likewise
                    if (kind, it[0]) in (('S', 'F'), ('E', 'F'), ('S', 'E')):
                        return INLINE
                    raise Raise('mismatch', 'parses %s where the input has %s' % (kind, it[0]))
                return self.opaque(en, st, k, it)
            return h

        def arena(en, st, a, i):
            p = st.new_obj('node%d' % E.Atom.n, 'undef')
            return p

        def err(en, st, a, i):
            raise Raise('raise', 'compile error')

        h = {'Tiny_GetToken': gettok, 'ParseStatement': sub('S', 'ParseStatement'), 'ParseExpr': sub('E', 'ParseExpr'),
             'ParseFactor': sub('F', 'ParseFactor'), 'Tiny_ArenaAlloc': arena, 'Tiny_FormatErrorV': err,
             'fprintf': lambda en, st, a, i: 0}
        return h

    def opaque(self, en, st, k, it):
        T, g = self.T, self.g
        p = T.obj(st, 'Tiny_Expr', it[1], 'undef')
        T.set(st, p, 'Tiny_Expr', 'next', 0)
        T.set(st, p, 'Tiny_Expr', 'tag', 0)
        T.set(st, p, 'Tiny_Expr', 'pos', 1000 + 10 * k)
        T.set(st, p, 'Tiny_Expr', 'lineNumber', 50 + k)
        ty = it[3] if len(it) > 3 else None
        if ty:
            T.set(st, p, 'Tiny_Expr', 'type', g.EXP[ty])
            if ty == 'ID':
                nm = T.obj(st, 'Tiny_StringNode', 'nm', 'undef')
                T.set(st, nm, 'Tiny_StringNode', 'value', T.cstr(st, it[1]))
                T.set(st, nm, 'Tiny_StringNode', 'next', 0)
                T.set(st, p, 'Tiny_Expr', 'id.name', nm)
                T.set(st, p, 'Tiny_Expr', 'id.sym', 0)
            elif ty in ('INT', 'CHAR', 'FLOAT', 'BOOL', 'STRING'):
                f = {'INT': 'iValue', 'CHAR': 'iValue', 'FLOAT': 'fValue', 'BOOL': 'boolean', 'STRING': 'sIndex'}[ty]
                T.set(st, p, 'Tiny_Expr', f, it[4] if len(it) > 4 else 0)
        else:
            T.set(st, p, 'Tiny_Expr', 'type', fresh(it[1] + '.type', 32, 0, max(g.EXP.values())))
        st.x['opq'] = st.x.get('opq', ()) + ((p, it[1]),)
        st.x['trace'] = st.x.get('trace', ()) + ((it[1], T.get(st, self.state, 'Tiny_State', 'currScope'),
                                                  T.get(st, self.state, 'Tiny_State', 'currFunc')),)
        self.load(st, k + 1)
        return p

    def run(self, root, items=None, extra=None, args=None, first=0, long=False):
        if items is not None:
            self.items = list(items)
        st = self.st
        if first == 0:
            self.load(st, 0)
        else:
            st.x['ti'] = -1
        h = self.hooks(root)
        h.update(extra or {})
        en = Engine(self.m, hooks=h, max_visits=70000 if long or len(self.items) >= 30 else 600, max_steps=10**7 if long or len(self.items) >= 30 else 200000,
                    max_paths=4000)
        en.max_frames = 60 + 10 * len(self.items)

        def indirect(en, s, target, a, inst):
            at = target.atom()
            if at is not None and at.kind == 'init':
                p = a[0] if type(a[0]) is Lin else s.new_obj('heap%d' % E.Atom.n, 'undef')
                s.log('alloc', a[0], a[1], p)
                return p
            s.log('indirect', target, tuple(a))
            return fresh('ret', inst.ty.w or 64)
        en.indirect = indirect
        en.measure = lambda s: (s.x['ti'], s.x.get('eofs', 0))
        rs = en.run(root, args or [self.state], st)
        self.reached |= en.reached
        self.npaths += len(rs)
        return rs

    # ------------------------------------------------------------------ reading the tree
    def cstr(self, st, p):
        b = E.cstring(None, st, p)
        return None if b is None else b.decode('latin1')

    def show(self, st, p, depth=0):
        T, g = self.T, self.g
        if type(p) is int:
            return None
        for q, n in st.x.get('opq', ()):
            if q == p:
                return n
        if depth > 400:
            return '...'
        ty = T.get(st, p, 'Tiny_Expr', 'type')
        if type(ty) is not int:
            return '?%r' % (ty,)
        nm = {v: k for k, v in g.EXP.items()}.get(ty, ty)
        G = lambda f: T.get(st, p, 'Tiny_Expr', f)
        N = lambda f: self.show(st, G(f), depth + 1)
        line = None
        if nm in ('INT', 'CHAR'):
            return (nm, G('iValue'))
        if nm == 'FLOAT':
            return (nm, E.float_bits(G('fValue')))
        if nm == 'BOOL':
            return (nm, G('boolean'))
        if nm == 'STRING':
            return (nm, self.string(st, G('sIndex')))
        if nm == 'ID':
            return (nm, self.name(st, G('id.name')))
        if nm == 'CALL':
            return (nm, self.name(st, G('call.calleeName'))) + tuple(self.list(st, G('call.argsHead')))
        if nm == 'BINARY':
            return (nm, self.KINDS.get(G('binary.op'), G('binary.op')), N('binary.lhs'), N('binary.rhs'))
        if nm == 'UNARY':
            return (nm, self.KINDS.get(G('unary.op'), G('unary.op')), N('unary.exp'))
        if nm == 'PAREN':
            return (nm, N('paren'))
        if nm == 'BLOCK':
            return (nm,) + tuple(self.list(st, G('blockHead')))
        if nm == 'PROC':
            return (nm, self.symbol(st, G('proc.decl')), N('proc.body'))
        if nm in ('IF', 'IF_TERNARY'):
            return (nm, N('ifx.cond'), N('ifx.body'), N('ifx.alt'))
        if nm == 'WHILE':
            return (nm, N('whilex.cond'), N('whilex.body'))
        if nm == 'FOR':
            return (nm, N('forx.init'), N('forx.cond'), N('forx.step'), N('forx.body'))
        if nm == 'DOT':
            return (nm, N('dot.lhs'), self.name(st, G('dot.field')))
        if nm == 'INDEX':
            return (nm, N('index.arr'), N('index.elem'))
        if nm == 'RETURN':
            return (nm, N('retExpr'))
        if nm == 'CAST':
            return (nm, N('cast.value'), self.tag(st, G('cast.tag')))
        if nm == 'CONSTRUCTOR':
            return (nm, self.tag(st, G('constructor.structTag')), tuple(self.names(st, G('constructor.argNamesHead'))),
                    ) + tuple(self.list(st, G('constructor.argsHead')))
        if nm == 'USE':
            return (nm, self.name(st, G('use.moduleName')), tuple(self.names(st, G('use.argsHead'))),
                    self.name(st, G('use.asName')))
        return (nm,)

    def string(self, st, ix):
        if type(ix) is not int:
            return ix
        o = self.T.off('Tiny_State', 'strings')
        return self.cstr(st, st.load(self.state, 8, o + 8 * ix))

    def name(self, st, node):
        if type(node) is int:
            return None
        return self.cstr(st, self.T.get(st, node, 'Tiny_StringNode', 'value'))

    def names(self, st, node):
        n = 0
        while type(node) is Lin and n < 1000:
            yield self.name(st, node)
            node = self.T.get(st, node, 'Tiny_StringNode', 'next')
            n += 1

    def list(self, st, p):
        n = 0
        while type(p) is not int and n < 1000:
            yield self.show(st, p)
            p = self.T.get(st, p, 'Tiny_Expr', 'next')
            n += 1

    def tag(self, st, s):
        if type(s) is int:
            return None
        T = self.T
        ty = T.get(st, s, 'Tiny_Symbol', 'type')
        nm = {v: k for k, v in self.g.SYM.items()}.get(ty, ty)
        if nm == 'TAG_NULLABLE':
            return self.tag(st, T.get(st, s, 'Tiny_Symbol', 'nullableTag')) + '?'
        return self.cstr(st, T.get(st, s, 'Tiny_Symbol', 'name'))

    def arr(self, st, p):
        T = self.T
        n = T.sbcount(st, p)
        if type(n) is not int:
            return None
        return [st.load(p, 8, 8 * k) for k in range(n)]

    def symbol(self, st, s):
        """a symbol as a tuple"""
        T = self.T
        if type(s) is int:
            return None
        G = lambda f: T.get(st, s, 'Tiny_Symbol', f)
        ty = {v: k for k, v in self.g.SYM.items()}.get(G('type'), G('type'))
        nm = self.cstr(st, G('name'))
        if ty in ('GLOBAL', 'LOCAL'):
            return (ty, nm, G('var.index'), self.tag(st, G('var.tag')), G('var.initialized'), G('var.scopeEnded'))
        if ty == 'CONST':
            t = self.tag(st, G('constant.tag'))
            v = G({'bool': 'constant.bValue', 'int': 'constant.iValue', 'float': 'constant.fValue',
                   'str': 'constant.sIndex'}.get(t, 'constant.iValue'))
            return (ty, nm, t, self.string(st, v) if t == 'str' else E.float_bits(v))
        if ty == 'FUNCTION':
            return (ty, nm, G('func.index'), self.tag(st, G('func.returnTag')),
                    tuple(self.symbol(st, a) for a in self.arr(st, G('func.args')) or ()),
                    tuple(self.symbol(st, a) for a in self.arr(st, G('func.locals')) or ()))
        if ty == 'TAG_STRUCT':
            return (ty, nm, G('sstruct.defined'), tuple(
                (self.cstr(st, T.get(st, f, 'Tiny_Symbol', 'name')), self.tag(st, T.get(st, f, 'Tiny_Symbol', 'fieldTag')))
                for f in self.arr(st, G('sstruct.fields')) or ()))
        return (ty, nm)

    def globals(self, st):
        return [self.symbol(st, s) for s in self.arr(st, self.T.get(st, self.state, 'Tiny_State', 'globalSymbols')) or ()]
