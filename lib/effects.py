"""Typed access paths: which struct member every load, store and indirect call of a function goes through.

A pointer value is (pointee type, byte offset or None, origin).  The origin says where the pointer came from: a parameter,
a member it was loaded from ('Tiny_State.program'), a local variable, a global or the result of a call."""
from tiny import *


class Ptr:
    __slots__ = ('ref', 'off', 'origin', 'inner')

    def __init__(self, ref, off, origin, inner=False):
        self.ref, self.off, self.origin, self.inner = ref, off, origin, inner

    def __eq__(self, o):
        return isinstance(o, Ptr) and (self.ref, self.off, self.origin) == (o.ref, o.off, o.origin)

    def __hash__(self):
        return hash((self.ref, self.off, self.origin))

    def __repr__(self):
        return '%s+%s<%s>' % (self.ref, self.off, self.origin)


class Effects:
    def __init__(self, T):
        self.T = T
        self.m = T.m
        self.cache = {}
        self.m.struct('Tiny_State')
        self.byref = {}

    def sname(self, ref):
        """name of the struct a metadata type is, or None"""
        if not ref:
            return None
        r, d = self.m._strip(ref)
        if d and d.get('tag') in ('DW_TAG_structure_type', 'DW_TAG_union_type'):
            names = self.m._di_names.get(r, ())
            for n in names:
                if n.startswith('Tiny'):
                    return n
            if names:
                return names[0]
            return d.get('name', '?')
        return None

    def members(self, ref):
        r, d = self.m._strip(ref)
        if r not in self.byref:
            out = {}
            if d and 'elements' in d:
                self.m._members(r, 0, '', out)
                for n in self.m._di_names.get(r, ()):
                    if n in self.m.aliases:
                        out = {self.m.aliases[n].get(k, k): v for k, v in out.items()}
                        break
            self.byref[r] = (out, int(d.get('size', 0)) // 8 if d else 0)
        return self.byref[r]

    def member_at(self, ref, off, size=None):
        """(dotted member, typeref) of the scalar member covering off"""
        if off is None:
            return None, None
        ms, total = self.members(ref)
        if total and off >= total:
            off %= total
        best = None
        for n, (o, s, t) in ms.items():
            if o <= off < o + max(s, 1):
                if best is None or (s, -len(n)) < (best[1], -len(best[0])) or (
                        s == best[1] and n.count('.') > best[0].count('.')):
                    best = (n, s, t, o)
        if best is None:
            return None, None
        return best[0], best[2]

    def elem(self, ref):
        """element type of an array type"""
        r, d = self.m._strip(ref)
        while d and d.get('tag') == 'DW_TAG_array_type':
            ref = d.get('baseType')
            r, d = self.m._strip(ref)
        return ref

    def params(self, f):
        """param name -> metadata type"""
        fn = self.m.funcs[f]
        out = {}
        if not fn.dbg:
            return out
        d = self.m.md(fn.dbg)
        t = self.m.md(d['type'])
        refs = [None if x == 'null' else x for x in self.m.md(t['types'])][1:]
        k = 0
        seen = None
        for p in fn.params:
            if p in ('agg.result',) or p.startswith('agg.'):
                continue
            base = p.split('.coerce')[0]
            if '.coerce' in p and base == seen:
                continue
            seen = base if '.coerce' in p else None
            if k < len(refs):
                out[p] = (refs[k], '.coerce' in p)
            k += 1
        return out

    def analyse(self, f):
        """SSA name -> Ptr for the pointers of f"""
        if f in self.cache:
            return self.cache[f]
        fn = self.m.funcs[f]
        vals = {}
        self.cache[f] = vals
        for p, (ref, coerced) in self.params(f).items():
            r = self.m.pointee(ref)
            if coerced or r is None:
                # a struct passed by (hidden) pointer
                if self.sname(ref) and not coerced:
                    vals[p] = Ptr(ref, 0, 'param ' + p)
                continue
            vals[p] = Ptr(r, 0, 'param ' + p)
        for _ in range(4):
            changed = False
            for i in fn.insts():
                if i.res is None:
                    continue
                v = self.value(f, vals, i)
                if v is not None and vals.get(i.res) != v:
                    vals[i.res] = v
                    changed = True
            if not changed:
                break
        return vals

    def operand(self, vals, x):
        if isinstance(x, str):
            return vals.get(x)
        if isinstance(x, ir.GRef):
            return Ptr(None, x.off, 'global ' + x.name)
        return None

    def value(self, f, vals, i):
        if i.op == 'getelementptr':
            b = self.operand(vals, i.x[0])
            if b is None:
                return None
            off = None if b.off is None else b.off + i.a[0]
            if i.a[1]:
                # dynamic index: which element does not matter, the member within it does
                scs = i.a[1]
                if off is not None and b.ref and self.sname(b.ref):
                    total = self.members(b.ref)[1]
                    if not any(s == total for s in scs) and off == 0 and b.off == 0:
                        off = off if i.a[0] else off
                    return Ptr(b.ref, off, b.origin, True)
                return Ptr(b.ref, off if off is not None else None, b.origin, True)
            return Ptr(b.ref, off, b.origin, b.inner)
        if i.op == 'load':
            p = self.operand(vals, i.x[0])
            if i.ty.k != 'ptr' or p is None:
                return None
            if p.ref is None:
                return Ptr(None, 0, '*' + p.origin)
            if self.sname(p.ref):
                n, t = self.member_at(p.ref, p.off)
                if n is None:
                    return None
                t = self.elem(t)
                return Ptr(self.m.pointee(t), 0, '%s.%s' % (self.sname(p.ref), n))
            r = self.m.pointee(self.elem(p.ref))
            return Ptr(r, 0, p.origin + '[]') if r else Ptr(None, 0, p.origin + '[]')
        if i.op == 'alloca':
            return Ptr(None, 0, 'local ' + i.res)
        if i.op in ('phi', 'select'):
            xs = list(i.a.values()) if i.op == 'phi' else i.x[1:]
            ps = [self.operand(vals, x) for x in xs if not (x == 0)]
            ps = [p for p in ps if p is not None]
            if not ps:
                return None
            same = [p for p in ps if (p.ref, p.off) == (ps[0].ref, ps[0].off)]
            if len(same) == len(ps):
                os = sorted(set(p.origin for p in ps))
                return Ptr(ps[0].ref, ps[0].off, os[0] if len(os) == 1 else '|'.join(sorted(set('|'.join(os).split('|')))))
            rs = set(p.ref for p in ps)
            os = sorted(set('|'.join(p.origin for p in ps).split('|')))
            return Ptr(ps[0].ref if len(rs) == 1 else None, None, '|'.join(os))
        if i.op == 'call' and i.ty.k == 'ptr':
            c = i.x[0]
            n = c.name if isinstance(c, ir.GRef) else 'indirect'
            sig = self.ret_ref(n)
            return Ptr(self.m.pointee(sig) if sig else None, 0, 'call ' + n)
        if i.op in ('bitcast', 'inttoptr', 'freeze', 'addrspacecast'):
            return self.operand(vals, i.x[0])
        return None

    def ret_ref(self, f):
        fn = self.m.funcs.get(f)
        if fn is None or not fn.dbg:
            return None
        d = self.m.md(fn.dbg)
        t = self.m.md(d['type'])
        x = self.m.md(t['types'])[0]
        return None if x == 'null' else x

    def place(self, vals, x):
        """text of the memory a pointer operand denotes: 'Struct.member' or '[origin]'"""
        p = self.operand(vals, x)
        if p is None:
            return None
        s = self.sname(p.ref) if p.ref else None
        if s:
            n, _ = self.member_at(p.ref, p.off)
            return '%s.%s' % (s, n if n else '?')
        return '[%s]' % p.origin

    def stores(self, f):
        """(instruction, place) of every store and memcpy/memset of f"""
        vals = self.analyse(f)
        for i in self.m.funcs[f].insts():
            if i.op == 'store':
                yield i, self.place(vals, i.x[1])
            elif i.op == 'call' and isinstance(i.x[0], ir.GRef) and i.x[0].name.split('.')[:2] in (
                    ['llvm', 'memcpy'], ['llvm', 'memmove'], ['llvm', 'memset'], ['memcpy'], ['memmove'], ['memset']):
                yield i, self.place(vals, i.x[1])

    def loads(self, f):
        vals = self.analyse(f)
        for i in self.m.funcs[f].insts():
            if i.op == 'load':
                yield i, self.place(vals, i.x[0])

    def indirect(self, f):
        """(instruction, where the called pointer came from)"""
        vals = self.analyse(f)
        for i in self.m.funcs[f].calls():
            if not isinstance(i.x[0], ir.GRef):
                p = self.operand(vals, i.x[0])
                yield i, p.origin if p else '?'
