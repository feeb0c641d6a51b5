"""Running a program changes nothing the program shares with other threads and states."""
from effects import *
import natives

LEVEL = 'other'
FLOOR = 150
RULE = ('Interprocedural ownership analysis of every store, memory-writing C library call and call through a pointer: the roots of '
        'every pointer (a parameter, memory reached from a parameter, the shared state or a symbol table, constant text, '
        'a variable of the library, fresh or thread-owned memory) are propagated through arithmetic, loads, phis, calls and '
        'returns (per-function summaries, substituted at each call site) over all functions reachable from the functions '
        'which take a thread, the native functions the library binds and the callbacks of native values. No store may have a root in the '
        'shared state, its symbols, texts or code, in constant memory or in a variable of the library; no C library '
        'function with hidden state may be called; and no function of the whole library may write a variable of the library.')

# what a C library function writes: indexes of its pointer arguments
WRITES = {'memcpy': (0,), 'memmove': (0,), 'memset': (0,), 'strcpy': (0,), 'strncpy': (0,), 'strcat': (0,), 'strncat': (0,),
          'sprintf': (0,), 'snprintf': (0,), 'vsnprintf': (0,), 'vsprintf': (0,), 'fread': (0,), 'fgets': (0,), 'qsort': (0,),
          'gets': (0,), 'realloc': (0,), 'free': (0,), 'llvm.memcpy': (0,), 'llvm.memmove': (0,), 'llvm.memset': (0,), 'read': (1,),
          'strtod': (1,), 'strtol': (1,), 'strtoll': (1,), 'strtoul': (1,), 'strtoull': (1,), '__isoc23_strtol': (1,),
          '__isoc23_strtoll': (1,), '__isoc23_strtoul': (1,), '__isoc23_strtoull': (1,), 'time': (0,), 'modf': (1,), 'frexp': (1,)}
PURE = {'strlen', 'strnlen', 'memcmp', 'memchr', 'memrchr', 'strcmp', 'strncmp', 'strchr', 'strrchr', 'strstr', 'atoi', 'atol', 'atoll', 'atof', 'floor', 'floorf',
        'ceil', 'ceilf', 'fabs', 'fabsf', 'malloc', 'calloc', 'printf', 'fprintf', 'puts', 'putchar', 'fputs', 'fputc', 'putc', 'getc', 'fgetc', 'getchar', 'ungetc',
        'fopen', 'fclose', 'fwrite', 'fseek', 'ftell', 'rewind', 'fflush', 'feof', 'ferror', 'vprintf', 'vfprintf', 'exit', 'abort', '__assert_fail', 'isspace', 'isdigit',
        'isalpha', 'isalnum', 'tolower', 'toupper', '__ctype_b_loc', 'sleep', 'usleep', 'nanosleep', 'longjmp', '_setjmp', 'setjmp', 'abs', 'labs', 'pow', 'fmod', 'sqrt', 'round',
        'trunc', 'rand', 'srand', 'write', 'fputs_unlocked', 'strtof', 'memccpy', 'strcspn', 'strspn', 'strpbrk', 'isprint', 'isupper', 'islower', 'ispunct',
        'getline', 'rand_r', 'fmin', 'fmax', 'isxdigit', 'clock', 'clock_gettime', 'perror'}
HIDDEN = {'strtok', 'asctime', 'ctime', 'gmtime', 'localtime', 'setlocale', 'getenv', 'putenv', 'setenv', 'unsetenv', 'tmpnam', 'strerror',
          'signal', 'chdir', 'drand48', 'lrand48', 'mrand48', 'rand48', 'tmpfile', 'atexit', 'system'}
SHAREDTYPES = ('Tiny_State', 'Tiny_Symbol', 'Tiny_Macro', 'Tiny_Module')


class Own:
    def __init__(self, T, ef, funcs):
        self.T, self.ef, self.m, self.funcs = T, ef, T.m, funcs
        self.writes = {f: {} for f in funcs}      # function -> {param token: (where, text)}
        self.ret = {f: frozenset() for f in funcs}
        self.roots = {}
        self.found = {}
        self.nstores = 0
        self.unknown = set()

    def const_char(self, ref):
        """is the metadata type a pointer to const?"""
        r, d = self.m._strip(ref)
        if not d or d.get('tag') != 'DW_TAG_pointer_type' or 'baseType' not in d:
            return False
        q = self.m.md(d['baseType']) if d['baseType'] else None
        while q is not None and q.get('tag') == 'DW_TAG_typedef':
            q = self.m.md(q['baseType']) if q.get('baseType') else None
        return bool(q) and q.get('tag') == 'DW_TAG_const_type'

    def initial(self, f):
        fn = self.m.funcs[f]
        out = {}
        types = self.ef.params(f)
        for k, p in enumerate(fn.params):
            t = types.get(p)
            toks = {('P', k)}
            if t and not t[1]:
                s = self.ef.sname(self.m.pointee(t[0])) if self.m.pointee(t[0]) else None
                if s in SHAREDTYPES:
                    toks = {('S', 'the %s it is given' % ('state' if s == 'Tiny_State' else 'symbol'))}
                elif self.const_char(t[0]):
                    toks = {('P', k), ('C', 'its parameter %s, which is const,' % p)}
            out[p] = frozenset(toks)
        return out

    def deref(self, toks, vals, x):
        """roots of a pointer loaded through x, whose roots are toks"""
        out = set()
        p = self.ef.operand(vals, x)
        s = self.ef.sname(p.ref) if p is not None and p.ref else None
        if s and p.off is not None:
            n, t = self.ef.member_at(p.ref, p.off)
            if s == 'Tiny_StateThread' and n == 'state':
                return frozenset({('S', 'the state of the thread')})
            if t and self.m.pointee(t) and self.ef.sname(self.m.pointee(t)) in SHAREDTYPES:
                return frozenset({('S', '%s.%s' % (s, n))})
            if t and self.const_char(t):
                out.add(('C', '%s.%s, which is const,' % (s, n)))
        for k in toks:
            if k[0] in ('P', 'D'):
                out.add(('D', k[1]))
            elif k[0] == 'S':
                out.add(k)
            elif k[0] == 'G':
                out.add(('G', k[1]))
        return frozenset(out or {('O',)})

    def op(self, R, x):
        if isinstance(x, str):
            return R.get(x, frozenset())
        if isinstance(x, ir.GRef):
            if x.name in self.m.globals:
                return frozenset({('G', x.name)})
            return frozenset()
        return frozenset()

    def subst(self, toks, args, R, vals):
        out = set()
        for t in toks:
            if t[0] == 'P':
                if t[1] < len(args):
                    out |= self.op(R, args[t[1]])
            elif t[0] == 'D':
                if t[1] < len(args):
                    for k in self.op(R, args[t[1]]):
                        if k[0] in ('P', 'D'):
                            out.add(('D', k[1]))
                        elif k[0] in ('S', 'G'):
                            out.add(k)
            else:
                out.add(t)
        return frozenset(out)

    def function(self, f):
        """one pass; True when a summary changed"""
        fn = self.m.funcs[f]
        vals = self.ef.analyse(f)
        R = self.roots.setdefault(f, self.initial(f))
        stored = self.__dict__.setdefault('slots', {}).setdefault(f, {})
        changed = False
        for _ in range(6):
            again = False
            for i in fn.insts():
                v = None
                if i.op == 'getelementptr' or i.op in ('bitcast', 'inttoptr', 'freeze', 'ptrtoint', 'addrspacecast'):
                    v = self.op(R, i.x[0])
                elif i.op in ('add', 'sub', 'or', 'and'):
                    v = self.op(R, i.x[0]) | self.op(R, i.x[1])
                elif i.op in ('phi', 'select'):
                    xs = list(i.a.values()) if i.op == 'phi' else i.x[1:]
                    v = frozenset().union(*[self.op(R, x) for x in xs]) if xs else frozenset()
                elif i.op == 'alloca':
                    v = frozenset({('L', i.res)})
                elif i.op == 'load':
                    base = self.op(R, i.x[0])
                    v = self.deref(base, vals, i.x[0]) if i.ty.k == 'ptr' or base else frozenset()
                    for k in base:
                        if k[0] == 'L':
                            v |= stored.get(k[1], frozenset())
                    if i.ty.k not in ('ptr',) and not (i.ty.k == 'int' and i.ty.w == 64):
                        v = frozenset()
                elif i.op == 'store':
                    val = self.op(R, i.x[0])
                    for k in self.op(R, i.x[1]):
                        if k[0] == 'L' and val and not val <= stored.get(k[1], frozenset()):
                            stored[k[1]] = stored.get(k[1], frozenset()) | val
                            again = True
                elif i.op == 'call':
                    c = i.x[0]
                    n = c.name if isinstance(c, ir.GRef) else None
                    if n in self.ret:
                        v = self.subst(self.ret[n], i.x[1:], R, vals)
                    elif n and i.ty.k == 'ptr':
                        b = n.split('.')[0]
                        if b in ('strchr', 'strrchr', 'strstr', 'memchr', 'strpbrk', 'memrchr'):
                            v = self.op(R, i.x[1])
                        else:
                            v = frozenset({('O',)})
                    else:
                        v = frozenset({('O',)})
                    if i.ty.k == 'ptr' and n:
                        ref = self.ef.ret_ref(n)
                        if ref and self.const_char(ref):
                            v |= {('C', 'what %s returns, which is const,' % n)}
                elif i.op == 'ret' and i.x and isinstance(i.x[0], str):
                    r = self.op(R, i.x[0])
                    if not r <= self.ret[f]:
                        self.ret[f] |= r
                        changed = True
                if v is not None and i.res and not v <= R.get(i.res, frozenset()):
                    R[i.res] = R.get(i.res, frozenset()) | v
                    again = True
            if not again:
                break
        # writes
        for i, toks, what in self.written(f, fn, R, vals):
            for t in toks:
                if t[0] in ('P', 'D'):
                    if t not in self.writes[f]:
                        self.writes[f][t] = (i, what)
                        changed = True
        return changed

    def written(self, f, fn, R, vals):
        for i in fn.insts():
            if i.op == 'store':
                yield i, self.op(R, i.x[1]), 'stores to %s' % (self.ef.place(vals, i.x[1]) or 'memory')
            elif i.op == 'call':
                c = i.x[0]
                if not isinstance(c, ir.GRef):
                    continue
                n = c.name
                b = '.'.join(n.split('.')[:2]) if n.startswith('llvm.') else n
                if b in WRITES:
                    for k in WRITES[b]:
                        if k + 1 < len(i.x):
                            yield i, self.op(R, i.x[k + 1]), '%s writes' % b
                elif n in self.writes:
                    for t, (ii, what) in list(self.writes[n].items()):
                        if t[1] + 1 < len(i.x):
                            toks = self.subst({t}, i.x[1:], R, vals)
                            # the callee's own const parameters are its own matter
                            yield i, toks, '%s, which %s,' % (n, what.split(', which')[0])

    def solve(self):
        for _ in range(12):
            ch = False
            for f in self.funcs:
                ch |= self.function(f)
            if not ch:
                break


def executing(T):
    """functions which run on behalf of a thread"""
    L = natives.Lib(T)
    ef = Effects(T)
    roots = {x[4] for x in L.sigs if x[4] in T.funcs}
    nat = len(roots)
    for f in T.funcs:
        for p, (ref, co) in ef.params(f).items():
            q = T.m.pointee(ref)
            if q and ef.sname(q) == 'Tiny_StateThread':
                roots.add(f)
    # the functions `use array` binds and callbacks of native values: everything whose address is taken outside the
    # compiler's tables and which takes a thread or an untyped pointer
    bindsrc = {n for n in T.funcs if n.startswith('Tiny_Bind')}
    for f in T.fnptrs:
        if f in T.funcs:
            ps = ef.params(f)
            names = [ef.sname(T.m.pointee(r)) if T.m.pointee(r) else 'void' for r, c in ps.values()]
            if 'Tiny_State' not in names:
                roots.add(f)
    reach = T.reach(roots)
    return ef, L, sorted(roots), reach, nat


def hidden_state(T, C, reach):
    n = 0
    for f in sorted(reach):
        if f not in T.funcs:
            continue
        for i in T.m.funcs[f].calls():
            c = i.x[0]
            if not isinstance(c, ir.GRef) or c.name in T.funcs or c.name.startswith('llvm.'):
                continue
            n += 1
            if c.name in HIDDEN:
                C.fail('C25/hidden/%s' % c.name, '%s, reached from a running thread, calls %s, which has hidden state' % (f, c.name), T.where(f, i))
            elif c.name not in PURE and c.name not in WRITES:
                C.note('%s calls %s, which the analysis does not know' % (f, c.name))
                C.count('unknown_c_functions')
            else:
                C.ok()
    C.count('c_library_calls', n)


def run(T, C):
    ef, L, roots, reach, nat = executing(T)
    if nat < 30:
        C.undecide('only %d native functions found' % nat)
    fs = sorted(f for f in reach if f in T.funcs)
    own = Own(T, ef, fs)
    own.solve()
    C.analysed |= set(fs)
    C.count('functions', len(fs))
    C.count('roots', len(roots))
    for f in fs:
        fn = T.m.funcs[f]
        R, vals = own.roots[f], ef.analyse(f)
        for i, toks, what in own.written(f, fn, R, vals):
            C.count('writes')
            bad = [t for t in toks if t[0] in ('S', 'G', 'C')]
            if what.endswith(',') and all(t[0] == 'C' for t in bad):
                bad = []
            bad = [t for t in bad if t[0] != 'G' or not const_global(T, t[1])] or [t for t in bad if t[0] == 'G']
            if bad:
                t = bad[0]
                C.fail('C25/%s' % f, '%s, which a running thread reaches, %s through %s' % (
                    f, what.rstrip(','), t[1] if t[0] != 'G' else 'the variable ' + t[1]), T.where(f, i))
            else:
                C.ok('%s %s' % (f, what))
    hidden_state(T, C, reach)
    # no function of the library writes a variable of the library
    every = sorted(T.funcs)
    own2 = Own(T, ef, every)
    own2.solve()
    for f in every:
        for i, toks, what in own2.written(f, T.m.funcs[f], own2.roots[f], ef.analyse(f)):
            g = [t for t in toks if t[0] == 'G' and not guarded(T, ef, f, i, i.x[1] if i.op == 'store' else next(
                (x for x in i.x[1:] if ('G', t[1]) in own2.op(own2.roots[f], x)), None), t[1])]
            if g and not what.endswith(','):
                C.fail('C25/global/%s' % g[0][1], '%s %s through the variable %s, which all states share' % (f, what, g[0][1]), T.where(f, i))
            elif g:
                C.fail('C25/global/%s' % g[0][1], '%s passes the variable %s to %s' % (f, g[0][1], what), T.where(f, i))
            else:
                C.ok()
    C.count('variables', len([1 for g in T.m.globals]))


def initial_types(T, g):
    """kinds of the symbols a variable starts with, or None"""
    gl = T.m.globals[g]
    if gl.init is None or not gl.ty.size:
        return None
    ents = {}
    Engine(T.m)._flat(gl.ty, gl.init, 0, ents)
    n, o = T.size('Tiny_Symbol'), T.off('Tiny_Symbol', 'type')
    out = set()
    for k in range(0, gl.ty.size, n):
        v = ents.get(k + o, (4, 0, None))[1]
        if not isinstance(v, int):
            return None
        out.add(v)
    return out


def guarded(T, ef, f, i, ptr, g):
    """is the write unreachable when the symbol is one of those the variable holds (its kind is tested on the way)?"""
    types = initial_types(T, g)
    if not types:
        return False
    fn = T.m.funcs[f]
    defs = {j.res: j for j in fn.insts() if j.res}

    def base(x):
        while isinstance(x, str) and x in defs and defs[x].op in ('getelementptr', 'bitcast') and not (defs[x].op == 'getelementptr' and defs[x].a[1]):
            x = defs[x].x[0]
        return x
    b = base(ptr)
    vals = ef.analyse(f)

    def kind_of(x):
        """is x the kind of the symbol?"""
        d = defs.get(x) if isinstance(x, str) else None
        while d is not None and d.op in ('zext', 'sext', 'trunc', 'freeze'):
            d = defs.get(d.x[0]) if isinstance(d.x[0], str) else None
        return d is not None and d.op == 'load' and base(d.x[0]) == b and ef.place(vals, d.x[0]) == 'Tiny_Symbol.type'
    where = next(blk.name for blk in fn.blocks.values() if any(j is i for j in blk.insts))
    return not any(reaches(T, fn, where, kind_of, base, b, k) for k in types)


def reaches(T, fn, where, kind_of, base, b, kind):
    """can the block be reached when the symbol is of the given kind? (the truth values which follow from the kind are
    followed along the paths)"""
    def val(env, x):
        return x if isinstance(x, int) else env.get(x) if isinstance(x, str) else None

    def step(env, j):
        if kind_of(j.res) and j.op == 'load':
            return kind
        if j.op in ('zext', 'sext', 'trunc', 'freeze'):
            v = val(env, j.x[0])
            return v & 1 if v is not None and j.op == 'trunc' and j.ty.w == 1 else v
        if j.op == 'icmp':
            p = j.a if isinstance(j.a, str) else j.a[0]
            u, v = val(env, j.x[0]), val(env, j.x[1])
            if u is None or v is None or p not in ('eq', 'ne', 'ult', 'ule', 'ugt', 'uge', 'slt', 'sle', 'sgt', 'sge'):
                return None
            d = {'e': u == v, 'l': u < v, 'g': u > v}
            return int(u != v if p == 'ne' else u == v if p == 'eq' else d[p[1]] or p[2] == 'e' and u == v)
        if j.op in ('and', 'or', 'xor', 'add', 'sub'):
            u, v = val(env, j.x[0]), val(env, j.x[1])
            if j.op == 'and' and 0 in (u, v):
                return 0
            if j.op == 'or' and j.ty.w == 1 and 1 in (u, v):
                return 1
            if u is None or v is None:
                return None
            if j.op in ('add', 'sub'):
                return (u + v if j.op == 'add' else u - v) & ((1 << j.ty.w) - 1)
            return (u & v if j.op == 'and' else u | v if j.op == 'or' else u ^ v) & ((1 << j.ty.w) - 1)
        if j.op == 'select':
            c = val(env, j.x[0])
            return None if c is None else val(env, j.x[1 if c else 2])
        if j.op == 'call' and isinstance(j.x[0], ir.GRef) and j.x[0].name in T.funcs and j.ty.k == 'int':
            ks = [n for n, x in enumerate(j.x[1:]) if base(x) == b]
            if len(ks) == 1 and j.x[1 + ks[0]] == b:
                return answer(T, j.x[0].name, ks[0], len(j.x) - 1, kind)
        return None
    seen, work = set(), [(fn.order[0].name, None, ())]
    while work:
        n, prev, env = work.pop()
        if n == where:
            return True
        if (n, prev, env) in seen:
            continue
        seen.add((n, prev, env))
        if len(seen) > 50000:
            return True
        env = dict(env)
        old = dict(env)
        for j in list(fn.blocks[n].phis) + fn.blocks[n].insts:
            if not j.res:
                continue
            v = val(old, j.a.get(prev)) if j.op == 'phi' else step(env, j)
            if v is None or j.op == 'phi' and j.ty.w > 8:
                env.pop(j.res, None)
            else:
                env[j.res] = v
        t = fn.blocks[n].insts[-1]
        succ = []
        if t.op == 'br':
            c = None if t.x is None else val(env, t.x[0])
            succ = [t.a[0]] if t.x is None else [t.a[0], t.a[1]] if c is None else [t.a[0 if c else 1]]
        elif t.op == 'switch':
            c = val(env, t.x[0])
            succ = [t.a[0]] + [d for _, d in t.a[1]] if c is None else [next((d for k, d in t.a[1] if k == c), t.a[0])]
        e = tuple(sorted(env.items()))
        work += [(d, n, e) for d in dict.fromkeys(succ)]
    return False


def answer(T, f, k, n, kind):
    """what a function answers for a symbol of the given kind, when that settles it"""
    st = State()
    sym = T.obj(st, 'Tiny_Symbol', 'symbol', 'init', type=kind)
    try:
        rs = Engine(T.m, max_visits=20).run(f, [sym if j == k else fresh('argument', 64) for j in range(n)], st)
    except Exception:
        return None
    vs = {r.val if r.kind == 'ret' and isinstance(r.val, int) else None for r in rs}
    return vs.pop() if len(vs) == 1 else None


def const_global(T, n):
    return bool(getattr(T.m.globals[n], 'const', False))
