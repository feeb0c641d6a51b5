"""A path-sensitive dataflow analyser (disjunctive abstract interpretation) for LLVM IR.

Abstract values are affine terms  c + sum(k_i * atom_i)  over opaque atoms (the address of an object,
the unread initial content of a memory cell, the result of an operator the domain does not
interpret).  What is known about atoms is an interval / disequality environment per trace
partition.  A partition is split at a branch which the environment does not decide, and is dropped
when the environment contradicts the branch.  No formula is handed to a solver, nothing of the
analysed program is executed; a loop which the environment does not bound is cut (and counted).
"""
import math
import struct as pystruct
import time
import ir as IR

INF = 1 << 200


class Atom:
    __slots__ = ('id', 'kind', 'args', 'w', 'lo', 'hi', 'align', 'name', 'nonnull', 'meta', 'lin')
    n = 0

    def __init__(self, kind, args=(), w=64, lo=None, hi=None, align=1, name=None):
        Atom.n += 1
        self.id = Atom.n
        self.kind = kind
        self.args = args
        self.w = w
        self.lo = -(1 << (w - 1)) if lo is None else lo
        self.hi = (1 << (w - 1)) - 1 if hi is None else hi
        if w == 1 and lo is None:
            self.lo, self.hi = 0, 1
        self.align = align
        self.name = name
        self.nonnull = kind in ('obj', 'fn')
        self.meta = None
        self.lin = None

    def __repr__(self):
        if self.name:
            return self.name
        if self.kind == 'op':
            return '%s(%s)' % (self.args[0], ','.join(map(repr, self.args[1:])))
        if self.kind == 'init':
            k, o = self.args
            return '[%s]' % show_addr(k, o)
        if self.kind == 'fconst':
            return repr(self.args)
        return '%s#%d' % (self.kind, self.id)

    def __lt__(self, o):
        return self.id < o.id


def show_addr(k, o):
    s = '+'.join(('%d*' % c if c != 1 else '') + repr(a) for a, c in k)
    return s + ('%+d' % o if o else '')


class Lin:
    __slots__ = ('t', 'c')

    def __init__(self, t, c):
        self.t = t
        self.c = c

    def __repr__(self):
        return show_addr(self.t, self.c)

    def atom(self):
        if self.c == 0 and len(self.t) == 1 and self.t[0][1] == 1:
            return self.t[0][0]
        return None


_LIN = {}


def lin(t, c):
    if not t:
        return c
    k = (t, c)
    r = _LIN.get(k)
    if r is None:
        r = Lin(t, c)
        _LIN[k] = r
    return r


def A(atom):
    if atom.lin is None:
        atom.lin = lin(((atom, 1),), 0)
    return atom.lin


def add(a, b, kb=1):
    """a + kb*b"""
    if type(b) is int:
        if type(a) is int:
            return a + kb * b
        return lin(a.t, a.c + kb * b)
    if type(a) is int:
        if kb == 1:
            return lin(b.t, b.c + a)
        return lin(tuple((x, k * kb) for x, k in b.t), a + kb * b.c)
    d = dict(a.t)
    for x, k in b.t:
        v = d.get(x, 0) + kb * k
        if v:
            d[x] = v
        else:
            d.pop(x, None)
    return lin(tuple(sorted(d.items(), key=_aid)), a.c + kb * b.c)


def _aid(p):
    return p[0].id


def mul(a, k):
    if type(a) is int:
        return a * k
    if k == 0:
        return 0
    return lin(tuple((x, c * k) for x, c in a.t), a.c * k)


class Cond:
    """t + c <= 0 ('le') or t + c == 0 ('eq'), possibly negated"""
    __slots__ = ('op', 'd', 'neg')

    def __init__(self, op, d, neg=False):
        self.op = op
        self.d = d
        self.neg = neg

    def __repr__(self):
        if self.op == 'atom':
            return ('!' if self.neg else '') + repr(self.d)
        return '%s(%r %s 0)' % ('!' if self.neg else '', self.d, {'le': '<=', 'eq': '=='}.get(self.op, self.op))

    def __eq__(self, o):
        return isinstance(o, Cond) and (self.op, self.d, self.neg) == (o.op, o.d, o.neg)

    def __hash__(self):
        return hash((self.op, self.d, self.neg))


class UCond:
    """unsigned a < b where signs are not known"""
    __slots__ = ('a', 'b', 'strict', 'neg', 'w')

    def __init__(self, a, b, strict, neg, w):
        self.a = a
        self.b = b
        self.strict = strict
        self.neg = neg
        self.w = w

    def __eq__(self, o):
        return isinstance(o, UCond) and (self.a, self.b, self.strict, self.neg) == (o.a, o.b, o.strict, o.neg)

    def __hash__(self):
        return hash((self.a, self.b, self.strict, self.neg))

    def __repr__(self):
        return '%sult(%r,%r)' % ('!' if self.neg else '', self.a, self.b)


class AndCond:
    """conjunction/disjunction of conditions (from `and i1`, `or i1`, select)"""
    __slots__ = ('l', 'r', 'op')

    def __init__(self, op, l, r):
        self.op = op
        self.l = l
        self.r = r

    def __eq__(self, o):
        return isinstance(o, AndCond) and (self.op, self.l, self.r) == (o.op, o.l, o.r)

    def __hash__(self):
        return hash((self.op, self.l, self.r))


class AggV:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return '{%s}' % ','.join(map(repr, self.v))


_OPS = {}
CMP_NEG = {'lt': 'ge', 'ge': 'lt', 'eq': 'ne', 'ne': 'eq'}


def op(name, w, *args, lo=None, hi=None):
    k = (name, w) + args
    r = _OPS.get(k)
    if r is None:
        r = Atom('op', (name,) + args, w, lo, hi)
        _OPS[k] = r
    return A(r)


_FC = {}


def fconst(v):
    k = pystruct.pack('d', v)
    if k not in _FC:
        a = Atom('fconst', v, 64)
        a.name = repr(v)
        _FC[k] = a
    return A(_FC[k])


def float_bits(v):
    """a floating constant as the bits a store leaves"""
    a = v.atom() if isinstance(v, Lin) else None
    if a is not None and a.kind == 'fconst':
        return signed(pystruct.unpack('<Q', pystruct.pack('<d', a.args))[0], 64)
    return v


def fresh(name, w=64, lo=None, hi=None, align=1):
    return A(Atom('fresh', (), w, lo, hi, align, name))


def is_concrete(v):
    return type(v) is int


def signed(v, w):
    v &= (1 << w) - 1
    if w > 1 and v >> (w - 1):
        v -= 1 << w
    return v


class Region:
    __slots__ = ('e', 'dflt', 'ranges', 'owner')

    def __init__(self, dflt, owner):
        self.e = {}
        self.dflt = dflt
        self.ranges = ()
        self.owner = owner

    def copy(self, owner):
        r = Region(self.dflt, owner)
        r.e = dict(self.e)
        r.ranges = self.ranges
        return r


class Frame:
    __slots__ = ('fn', 'blk', 'i', 'regs', 'call', 'visits', 'varargs', 'mark')

    def __init__(self, fn, blk, regs, call):
        self.fn = fn
        self.blk = blk
        self.i = 0
        self.regs = regs
        self.call = call
        self.visits = {}
        self.varargs = None
        self.mark = None

    def copy(self):
        f = Frame(self.fn, self.blk, dict(self.regs), self.call)
        f.i = self.i
        f.visits = dict(self.visits)
        f.varargs = self.varargs
        f.mark = self.mark
        return f


class Raise(Exception):
    """end of a path inside a hook"""

    def __init__(self, kind='raise', val=None):
        self.kind = kind
        self.val = val


class Resume(Exception):
    """the path goes on elsewhere (a non-local jump)"""


class State:
    __slots__ = ('frames', 'mem', 'iv', 'ne', 'bools', 'ev', 'steps', 'x', 'owner', 'forks')
    owners = 0

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.iv = {}
        self.ne = {}
        self.bools = {}
        self.ev = None
        self.steps = 0
        self.x = {}
        self.forks = ()
        self._new_owner()

    def _new_owner(self):
        State.owners += 1
        self.owner = State.owners

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.iv = dict(self.iv)
        s.ne = dict(self.ne)
        s.bools = dict(self.bools)
        s.ev = self.ev
        s.steps = self.steps
        s.x = dict(self.x)
        s.forks = self.forks
        s._new_owner()
        self._new_owner()
        return s

    def log(self, *e):
        self.ev = (self.ev, e)

    def events(self, since=None):
        """what was logged (after the given earlier value of ev)"""
        out = []
        e = self.ev
        while e is not None and e is not since:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out

    # ------------------------------------------------------------- objects
    def new_obj(self, name, dflt='undef', align=16, size=None):
        a = Atom('obj', (), 64, 1, (1 << 47), align, name)
        a.meta = {'dflt': dflt, 'size': size}
        return A(a)

    def region(self, key, write=False):
        r = self.mem.get(key)
        if r is None:
            d = 'init'
            for a, k in key:
                if a.kind == 'obj' and k == 1:
                    d = a.meta['dflt'] if a.meta else 'init'
                    if callable(d):
                        d = d(self, key)
            r = Region(d, self.owner)
            if isinstance(d, dict):
                r.dflt = 'zero'
                r.e = dict(d)
            elif isinstance(d, tuple) and d[0] == 'entries':
                r.e = dict(d[1])
                r.dflt = 'zero'
            self.mem[key] = r
            return r
        if write and r.owner != self.owner:
            r = r.copy(self.owner)
            self.mem[key] = r
        return r

    # ------------------------------------------------------------- memory
    def load(self, ptr, size, off=0):
        if type(ptr) is int:
            raise Raise('crash', 'load from address %d' % (ptr + off))
        key = ptr.t
        o = ptr.c + off
        r = self.region(key)
        e = r.e.get(o)
        if e is not None and e[0] == size:
            return e[1]
        return self._load_slow(r, key, o, size)

    def _lookup_byte(self, r, key, o):
        """-> (value, index in value, size of value) for the byte at o, or None"""
        e = r.e.get(o)
        if e is not None:
            return e[1], 0, e[0]
        for d in range(1, 17):
            e = r.e.get(o - d)
            if e is not None:
                if e[0] > d:
                    return e[1], d, e[0]
        return None

    def _load_slow(self, r, key, o, size):
        # gather bytes
        parts = []
        i = 0
        any_entry = False
        while i < size:
            b = self._lookup_byte(r, key, o + i)
            if b is None:
                parts.append(None)
                i += 1
            else:
                any_entry = True
                v, k, s = b
                n = min(s - k, size - i)
                parts.append((v, k, s, n))
                i += n
        if not any_entry:
            v = self._default(r, key, o, size)
            if r.dflt not in ('zero',) and not isinstance(r.dflt, tuple):
                rr = self.region(key, True)
                rr.e[o] = (size, v)
            return v
        if len(parts) == 1 and parts[0] is not None:
            v, k, s, n = parts[0]
            return extract(v, k, s, size)
        # combine
        segs = []
        i = 0
        for p in parts:
            if p is None:
                segs.append((self._default(r, key, o + i, 1), 0, 1, 1))
                i += 1
            else:
                segs.append(p)
                i += p[3]
        return concat(segs, size)

    def _default(self, r, key, o, size):
        for lo, hi, src in reversed(r.ranges):
            if o >= lo and (hi is None or o + size <= hi):
                skey, delta, sreg = src
                if isinstance(skey, str):      # bulk
                    return op('bulk', size * 8, skey, o - lo)
                b = sreg.e.get(o + delta)
                if b is not None and b[0] == size:
                    return b[1]
                bb = self._lookup_byte(sreg, skey, o + delta)
                if bb is not None and bb[2] - bb[1] >= size:
                    return extract(bb[0], bb[1], bb[2], size)
                return self._default(sreg, skey, o + delta, size)
            if hi is not None and o < hi and o + size > lo or hi is None and o + size > lo:
                # straddles a copied range: by bytes
                segs = [(self._default(r, key, o + i, 1), 0, 1, 1) for i in range(size)]
                return concat(segs, size)
        d = r.dflt
        if d == 'zero':
            return 0
        if isinstance(d, tuple) and d[0] == 'bytes':
            bs = d[1]
            base = d[2] if len(d) > 2 else 0
            v = 0
            for i in range(size):
                k = o + i - base
                v |= (bs[k] if 0 <= k < len(bs) else 0) << (8 * i)
            return signed(v, 8 * size)
        if d == 'undef':
            a = _init_atom('undef', key, o, size)
            return A(a)
        return A(_init_atom('init', key, o, size))

    def store(self, ptr, size, val, off=0):
        if type(ptr) is int:
            raise Raise('crash', 'store to address %d' % (ptr + off))
        key = ptr.t
        o = ptr.c + off
        r = self.region(key, True)
        if r.owner != self.owner:
            r = r.copy(self.owner)
            self.mem[key] = r
        e = r.e.get(o)
        if e is None or e[0] != size:
            self._split(r, o, o + size)
        r.e[o] = (size, val)

    def _split(self, r, lo, hi):
        """remove entries in [lo,hi), keeping the parts outside"""
        ents = r.e
        # entry starting before lo
        for d in range(1, 17):
            e = ents.get(lo - d)
            if e is not None and e[0] > d:
                s, v = e
                del ents[lo - d]
                self._put_part(r, lo - d, v, 0, s, d)
                if lo - d + s > hi:
                    self._put_part(r, hi, v, hi - (lo - d), s, lo - d + s - hi)
        if hi - lo <= 64:
            rng = range(lo, hi)
        else:
            rng = [k for k in ents if lo <= k < hi]
        for k in list(rng):
            e = ents.get(k)
            if e is not None:
                s, v = e
                del ents[k]
                if k + s > hi:
                    self._put_part(r, hi, v, hi - k, s, k + s - hi)

    def _put_part(self, r, at, v, k, s, n):
        i = 0
        while i < n:
            m = n - i
            p = 8
            while p > m:
                p //= 2
            r.e[at + i] = (p, extract(v, k + i, s, p))
            i += p

    def memcpy(self, dst, src, n):
        if n == 0:
            return
        if type(dst) is int or type(src) is int:
            raise Raise('crash', 'memcpy with a NULL operand')
        sr = self.region(src.t)
        if type(n) is not int:
            snap = sr.copy(-1)
            dr = self.region(dst.t, True)
            if dr.owner != self.owner:
                dr = dr.copy(self.owner)
                self.mem[dst.t] = dr
            for k in [k for k in dr.e if k >= dst.c]:
                del dr.e[k]
            for k, (s, v) in snap.e.items():
                if k >= src.c and (k - src.c) < 4096:
                    dr.e[k - src.c + dst.c] = (s, v)
            dr.ranges = dr.ranges + ((dst.c, None, (src.t, src.c - dst.c, snap)),)
            return
        # only the copied window of the source matters
        lo, hi = src.c, src.c + n
        snap = Region(sr.dflt, -1)
        snap.ranges = sr.ranges
        if n <= 512:
            get = sr.e.get
            for k in range(lo - 16, hi):
                e = get(k)
                if e is not None and k + e[0] > lo:
                    snap.e[k] = e
        else:
            snap.e = {k: e for k, e in sr.e.items() if lo - 16 <= k < hi and k + e[0] > lo}
        tmp = snap.copy(-2)
        self._split(tmp, hi, hi + (1 << 40))
        self._split(tmp, lo - (1 << 40), lo)
        holes = []
        at = lo
        for k in sorted(tmp.e):
            if k > at:
                holes.append((at, k))
            at = max(at, k + tmp.e[k][0])
        if at < hi:
            holes.append((at, hi))
        if holes and n <= 64 and sr.dflt == 'undef':
            # what was never written, in the pieces members have
            for x, y in holes:
                while x < y:
                    p = next(p for p in (8, 4, 2, 1) if x % p == 0 and x + p <= y)
                    tmp.e[x] = (p, self._default(snap, src.t, x, p))
                    x += p
            holes = []
        dr = self.region(dst.t, True)
        if dr.owner != self.owner:
            dr = dr.copy(self.owner)
            self.mem[dst.t] = dr
        self._split(dr, dst.c, dst.c + n)
        for k, e in tmp.e.items():
            dr.e[k - lo + dst.c] = e
        if holes:
            end = dst.c + n
            dr.ranges = tuple(x for x in dr.ranges if x[0] < dst.c or x[1] is None or x[1] > end) + (
                (dst.c, end, (src.t, lo - dst.c, snap)),)

    def memset(self, dst, val, n):
        if n == 0:
            return
        r = self.region(dst.t, True)
        if r.owner != self.owner:
            r = r.copy(self.owner)
            self.mem[dst.t] = r
        if type(n) is int and type(val) is int:
            self._split(r, dst.c, dst.c + n)
            z = Region('zero' if val == 0 else ('bytes', bytes([val & 255]) * n, dst.c), -1)
            r.ranges = r.ranges + ((dst.c, dst.c + n, (dst.t, 0, z)),)
        else:
            for k in [k for k in r.e if k >= dst.c]:
                del r.e[k]
            if val == 0:
                z = Region('zero', -1)
                r.ranges = r.ranges + ((dst.c, None, (dst.t, 0, z)),)
            else:
                r.ranges = r.ranges + ((dst.c, None, ('memset%d' % id(r), 0, None)),)

    # ------------------------------------------------------------- facts
    def atom_iv(self, a):
        if a.kind == 'op' and a.args[0] == 'b2i':
            d = self.decide(a.args[1])
            if d is not None:
                return int(d), int(d)
        e = self.iv.get(((a, 1),))
        if e is None:
            return a.lo, a.hi
        return max(a.lo, e[0]), min(a.hi, e[1])

    def interval(self, v, deep=True):
        if type(v) is int:
            return v, v
        if not isinstance(v, Lin):
            return 0, 1
        t = v.t
        lo = hi = 0
        for a, k in t:
            l, h = self.atom_iv(a)
            if k > 0:
                lo += k * l
                hi += k * h
            else:
                lo += k * h
                hi += k * l
        if len(t) > 1:
            nt, sg, g = norm(t)
            e = self.iv.get(nt)
            if e is not None:
                l, h = e[0] * g, e[1] * g
                if sg < 0:
                    l, h = -h, -l
                lo = max(lo, l)
                hi = min(hi, h)
            elif deep and self.iv:
                d = dict(t)
                for kt, (l, h) in list(self.iv.items()):
                    if len(kt) < 2:
                        continue
                    for s in (1, -1):
                        ok = False
                        for a, k in kt:
                            if d.get(a) == k * s:
                                ok = True
                            elif a in d and (d[a] > 0) != (k * s > 0):
                                ok = False
                                break
                        if ok:
                            rest = add(lin(t, 0), lin(kt, 0), -s)
                            rl, rh = self.interval(rest, False)
                            if s > 0:
                                lo = max(lo, rl + l)
                                hi = min(hi, rh + h)
                            else:
                                lo = max(lo, rl - h)
                                hi = min(hi, rh - l)
        return lo + v.c, hi + v.c

    def decide(self, c):
        """True / False / None"""
        if type(c) is int:
            return c != 0
        if isinstance(c, Cond):
            if c.op == 'atom':
                b = self.bools.get(c.d)
                if b is None:
                    a = c.d
                    if isinstance(a, Atom):
                        lo, hi = self.atom_iv(a)
                        if lo == hi:
                            b = bool(lo)
                if b is None:
                    return None
                return b != c.neg
            d = c.d
            if type(d) is int:
                r = (d <= 0) if c.op == 'le' else (d == 0)
                return r != c.neg
            lo, hi = self.interval(d)
            if c.op == 'le':
                if hi <= 0:
                    return not c.neg
                if lo > 0:
                    return c.neg
                return None
            if lo > 0 or hi < 0:
                return c.neg
            if lo == hi == 0:
                return not c.neg
            nt, sg, g = norm(d.t)
            # g*sg*T + c == 0  ->  T == -c*sg/g
            if d.c % g:
                return c.neg
            v = -d.c * sg // g
            ex = self.ne.get(nt)
            if ex and v in ex:
                return c.neg
            if distinct_bases(d):
                return c.neg
            # alignment
            al = 0
            for a, k in d.t:
                al = _gcd(al, abs(k) * a.align)
            if al > 1 and d.c % al:
                return c.neg
            return None
        if isinstance(c, UCond):
            la, ha = self.interval(c.a)
            lb, hb = self.interval(c.b)
            if la >= 0 and lb >= 0:
                return self.decide(_ult(c))
            if la >= 0 and hb < 0:
                return not c.neg
            if ha < 0 and lb >= 0:
                return c.neg
            if ha < 0 and hb < 0:
                return self.decide(_ult(c))
            return None
        if isinstance(c, AndCond):
            l = self.decide(c.l)
            r = self.decide(c.r)
            if c.op == 'and':
                if l is False or r is False:
                    return False
                if l and r:
                    return True
                return None
            if l or r:
                return True
            if l is False and r is False:
                return False
            return None
        if isinstance(c, Lin):
            return self.decide(Cond('eq', c, True))
        raise TypeError(c)

    def assume(self, c, val):
        """list of states in which c == val (self may be one of them, refined in place)"""
        k = self.decide(c)
        if k is not None:
            return [self] if k == val else []
        if isinstance(c, Cond):
            neg = c.neg if val else not c.neg
            if c.op == 'atom':
                self.bools[c.d] = not neg
                if isinstance(c.d, Atom) and c.d.lo == 0 and c.d.hi == 1:
                    self.iv[((c.d, 1),)] = (int(not neg), int(not neg))
                return [self]
            d = c.d
            nt, sg, g = norm(d.t)
            if c.op == 'eq':
                v = -d.c * sg // g
                if neg:
                    self.ne[nt] = self.ne.get(nt, frozenset()) | {v}
                    # tighten bounds
                    lo, hi = self._cur(nt)
                    ch = False
                    ex = self.ne[nt]
                    while lo in ex and lo <= hi:
                        lo += 1
                        ch = True
                    while hi in ex and hi >= lo:
                        hi -= 1
                        ch = True
                    if ch:
                        self.iv[nt] = (lo, hi)
                        if lo > hi:
                            return []
                else:
                    self.iv[nt] = (v, v)
                    self._prop(nt)
                    self._drop_ops(nt)
                return [self]
            # le:  sg*g*T + c <= 0
            lo, hi = self._cur(nt)
            if not neg:
                # sg*g*T <= -c
                if sg > 0:
                    hi = min(hi, (-d.c) // g)
                else:
                    lo = max(lo, -((-d.c) // g))
            else:
                # sg*g*T >= 1 - c
                b = 1 - d.c
                if sg > 0:
                    lo = max(lo, -((-b) // g))
                else:
                    hi = min(hi, -(-((-b) // g)) if False else (-b) // g)
            ex = self.ne.get(nt)
            if ex:
                while lo in ex and lo <= hi:
                    lo += 1
                while hi in ex and hi >= lo:
                    hi -= 1
            if lo > hi:
                return []
            self.iv[nt] = (lo, hi)
            self._prop(nt)
            return [self]
        if isinstance(c, UCond):
            out = []
            for sa in (0, 1):
                for sb in (0, 1):
                    s = self.clone()
                    ok = True
                    for v, sgn in ((c.a, sa), (c.b, sb)):
                        r = s.assume(Cond('le', add(v, 1)), bool(sgn))
                        if not r:
                            ok = False
                            break
                        s = r[0]
                    if not ok:
                        continue
                    for s2 in s.assume(c if s.decide(c) is not None else _ult(c), val):
                        out.append(s2)
            return out
        if isinstance(c, AndCond):
            if (c.op == 'and') == val:
                out = []
                for s in self.assume(c.l, val):
                    out += s.assume(c.r, val)
                return out
            s2 = self.clone()
            out = self.assume(c.l, val)
            for s in s2.assume(c.l, not val):
                out += s.assume(c.r, val)
            return out
        if isinstance(c, Lin):
            return self.assume(Cond('eq', c, True), val)
        raise TypeError(c)

    def _cur(self, nt):
        e = self.iv.get(nt)
        l2, h2 = self.interval(lin(nt, 0))
        if e is None:
            return l2, h2
        return max(e[0], l2), min(e[1], h2)

    def _drop_ops(self, nt):
        pass

    def _prop(self, nt):
        """bounds of the single atoms of a relational fact"""
        if len(nt) != 2:
            return
        l, h = self.iv[nt]
        (a, ka), (b, kb) = nt
        for x, kx, y, ky in ((a, ka, b, kb), (b, kb, a, ka)):
            if abs(kx) != 1:
                continue
            yl, yh = self.atom_iv(y)
            if ky > 0:
                rl, rh = l - ky * yh, h - ky * yl
            else:
                rl, rh = l - ky * yl, h - ky * yh
            if kx < 0:
                rl, rh = -rh, -rl
            xl, xh = self.atom_iv(x)
            nl, nh = max(xl, rl), min(xh, rh)
            if nl > xl or nh < xh:
                self.iv[((x, 1),)] = (nl, nh)

    def const_of(self, v):
        """the single concrete value v can have here, or None"""
        if type(v) is int:
            return v
        if isinstance(v, Lin):
            lo, hi = self.interval(v)
            if lo == hi:
                return lo
        return None


def _ult(c):
    d = add(c.a, c.b, -1)
    return mk_le(add(d, 1) if c.strict else d, c.neg)


def mk_le(d, neg=False):
    if type(d) is int:
        return int((d <= 0) != neg)
    return Cond('le', d, neg)


def mk_eq(d, neg=False):
    if type(d) is int:
        return int((d == 0) != neg)
    t = d.t
    if len(t) == 1 and t[0][1] in (1, -1):
        a = t[0][0]
        if a.lo == 0 and a.hi == 1 and a.kind == 'op':
            # a boolean: the condition it stands for
            c = -d.c * t[0][1]
            if c not in (0, 1):
                return int(neg)
            pos = (c == 1) != neg
            if a.args[0] == 'b2i':
                return a.args[1] if pos else negate(a.args[1])
            if a.args[0][0] == 'f':
                return Cond('atom', a, not pos)
    return Cond('eq', d, neg)


def negate(c):
    if isinstance(c, Cond):
        return Cond(c.op, c.d, not c.neg)
    if isinstance(c, UCond):
        return UCond(c.a, c.b, c.strict, not c.neg, c.w)
    if isinstance(c, AndCond):
        return AndCond('or' if c.op == 'and' else 'and', negate(c.l), negate(c.r))
    if isinstance(c, int):
        return int(not c)
    return mk_eq(c)


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


_NORM = {}


def norm(t):
    r = _NORM.get(t)
    if r is None:
        g = 0
        for _, k in t:
            g = _gcd(g, abs(k))
        sg = 1 if t[0][1] > 0 else -1
        r = (tuple((a, k * sg // g) for a, k in t), sg, g)
        _NORM[t] = r
    return r


def distinct_bases(d):
    """the difference of two addresses in different objects is never 0"""
    objs = [(a, k) for a, k in d.t if a.kind in ('obj', 'fn')]
    if len(objs) == 1 and abs(objs[0][1]) == 1:
        o = objs[0][0]
        rest = [(a, k) for a, k in d.t if a is not o]
        if not rest:
            # &obj + c == 0
            return True
        if len(rest) == 1 and rest[0][1] == -objs[0][1]:
            a = rest[0][0]
            # a pointer read from memory set up before the object existed is not its address
            if o.kind == 'obj' and o.meta and o.meta.get('fresh') and a.kind in ('init', 'fresh') and a.id < o.id:
                return True
            if a.kind in ('init', 'fresh') and o.meta and o.meta.get('unaliased'):
                return True
        return False
    if len(objs) == 2 and objs[0][1] == -objs[1][1] and abs(objs[0][1]) == 1 and len(d.t) == 2:
        return True
    return False


_INITS = {}


def _init_atom(kind, key, o, size):
    k = (kind, key, o, size)
    a = _INITS.get(k)
    if a is None:
        a = Atom(kind, (key, o), size * 8)
        if kind == 'undef':
            a.name = 'undef[%s]' % show_addr(key, o)
        if a.w == 1:
            a.w = 8
        _INITS[k] = a
    return a


def reset_tables():
    """forget interned atoms (between independent analyses, to bound memory)"""
    _LIN.clear()
    _OPS.clear()
    _NORM.clear()
    _INITS.clear()
    _FC.clear()


def extract(v, k, s, n):
    """bytes [k, k+n) of the s-byte value v"""
    if k == 0 and s == n:
        return v
    if type(v) is int:
        return signed((v & ((1 << (8 * s)) - 1)) >> (8 * k), 8 * n)
    if isinstance(v, Lin):
        a = v.atom()
        if a is not None and a.lo == 0 and a.hi == 1:
            return v if k == 0 else 0
        if a is not None and a.kind in ('init', 'undef'):
            return A(_init_atom(a.kind, a.args[0], a.args[1] + k, n))
        if a is not None and a.kind == 'op' and a.args[0] == 'ext':
            return extract(a.args[1], a.args[2] + k, a.args[3], n)
        if a is not None and a.kind == 'op' and a.args[0] == 'concat':
            # bytes of a concatenation
            i = 0
            for (pv, pk, ps, pn) in a.args[1]:
                if i <= k and k + n <= i + pn:
                    return extract(pv, pk + (k - i), ps, n)
                i += pn
            if i >= k + n:
                return from_bytes(bytes_of_raw(v, s)[k:k + n], n)
    return op('ext', 8 * n, v, k, s)


def is_low_mask(b, w):
    b &= (1 << w) - 1
    return b & (b + 1) == 0


def bytes_of(st, v, n):
    """the n bytes of v: 0..255 constants or (value, index, size)"""
    if type(v) is int:
        return [(v >> (8 * k)) & 255 for k in range(n)]
    lo, hi = st.interval(v)
    if lo >= 0 and hi < 1 << (8 * (n - 1)):
        k = 1
        while hi >= 1 << (8 * k):
            k += 1
        return bytes_of_raw(v, n)[:k] + [0] * (n - k)
    return bytes_of_raw(v, n)


def bytes_of_raw(v, n):
    a = v.atom()
    if a is not None and a.kind == 'op':
        if a.args[0] == 'concat':
            out = []
            for pv, k, s, m in a.args[1]:
                for j in range(m):
                    if type(pv) is int:
                        out.append((pv >> (8 * (k + j))) & 255)
                    else:
                        out.append((pv, k + j, s))
            return (out + [0] * n)[:n]
        if a.args[0] == 'zext' and a.args[2] % 8 == 0 and isinstance(a.args[1], Lin):
            m = a.args[2] // 8
            return ([(a.args[1], k, m) for k in range(min(n, m))] + [0] * n)[:n]
        if a.args[0] == 'ext':
            return [(a.args[1], a.args[2] + k, a.args[3]) for k in range(n)]
    w = 8
    if a is not None:
        w = max(1, a.w // 8)
    return [(v, k, n) for k in range(n)]


def from_bytes(bs, n):
    segs = [(b, 0, 1, 1) if type(b) is int else (b[0], b[1], b[2], 1) for b in bs]
    # a single small value followed by zeros is that value
    nz = [k for k, b in enumerate(bs) if b != 0]
    if nz:
        last = nz[-1]
        head = bs[:last + 1]
        if all(type(b) is tuple for b in head) and all(b[0] is head[0][0] and b[1] == k and b[2] == head[0][2]
                                                       for k, b in enumerate(head)):
            v = head[0][0]
            if last + 1 == n or (isinstance(v, Lin) and
                                 sum(min(x.lo * c, x.hi * c) for x, c in v.t) + v.c >= 0 and
                                 sum(max(x.lo * c, x.hi * c) for x, c in v.t) + v.c < 1 << (8 * (last + 1))):
                return v
    return concat(segs, n)


def concat(segs, size):
    # all concrete
    if all(type(p[0]) is int for p in segs):
        v = 0
        i = 0
        for pv, k, s, n in segs:
            b = (pv & ((1 << (8 * s)) - 1)) >> (8 * k)
            v |= (b & ((1 << (8 * n)) - 1)) << (8 * i)
            i += n
        return signed(v, 8 * size)
    # normalise pieces of the same value
    parts = []
    for pv, k, s, n in segs:
        if isinstance(pv, Lin):
            a = pv.atom()
            if a is not None and a.kind == 'op' and a.args[0] == 'ext':
                pv, k, s = a.args[1], a.args[2] + k, a.args[3]
        if parts and parts[-1][0] is pv and parts[-1][2] == s and parts[-1][1] + parts[-1][3] == k:
            parts[-1] = (pv, parts[-1][1], s, parts[-1][3] + n)
        else:
            parts.append((pv, k, s, n))
    if len(parts) == 1 and parts[0][1] == 0 and parts[0][2] == size:
        return parts[0][0]
    # contiguous initial contents
    a0 = parts[0][0].atom() if isinstance(parts[0][0], Lin) else None
    if a0 is not None and a0.kind in ('init', 'undef'):
        ok = True
        base = a0.args[1] + parts[0][1]
        i = 0
        for pv, k, s, n in parts:
            a = pv.atom() if isinstance(pv, Lin) else None
            if a is None or a.kind != a0.kind or a.args[0] != a0.args[0] or a.args[1] + k != base + i:
                ok = False
                break
            i += n
        if ok:
            return A(_init_atom(a0.kind, a0.args[0], base, size))
    # low part followed by zeros is a zero extension
    return op('concat', 8 * size, tuple(parts))


class Result:
    __slots__ = ('kind', 'val', 'st', 'where')

    def __init__(self, kind, val, st, where=None):
        self.kind = kind
        self.val = val
        self.st = st
        self.where = where


DEADLINE = [None, None]     # end of the check, end of the current scenario (time.time())


def scenario(seconds):
    DEADLINE[1] = time.time() + seconds


class Limit(Exception):
    pass


class Engine:
    def __init__(self, mod, hooks=None, max_visits=40, max_steps=200000, max_paths=4000):
        self.m = mod
        self.hooks = dict(hooks or {})
        self.max_visits = max_visits
        self.max_frames = 60
        self.measure = None     # what a loop or recursion must advance
        self.ends = []
        self.max_steps = max_steps
        self.max_paths = max_paths
        self.gatoms = mod.__dict__.setdefault('gatoms', {})
        self.prepared = set()
        self.reached = set()
        self.nsteps = 0
        self.npaths = 0
        self.ncut = 0
        self.nforks = 0
        self.indirect = None     # hook(eng, st, target, args, inst)
        self.jumps = False       # longjmp continues at its setjmp
        self.on_load = None
        self.on_store = None
        self.on_block = None
        self.unknown = {}
        self.calls_seen = set()
        self.handlers = {k[3:]: getattr(self, k) for k in dir(self) if k.startswith('op_')}
        for b in IR.BIN:
            if not b.startswith('f'):
                self.handlers[b] = self._bin
            else:
                self.handlers[b] = self._fbin

    # ------------------------------------------------------------- globals
    def gptr(self, name, off=0):
        a = self.gatoms.get(name)
        if a is None:
            if name in self.m.funcs:
                a = Atom('fn', (name,), 64, 1, 1 << 47, 16, '&' + name)
            else:
                a = Atom('obj', (), 64, 1, 1 << 47, 16, '&' + name)
                g = self.m.globals.get(name)
                a.meta = {'dflt': self._ginit(g), 'size': g.ty.size if g else None, 'global': name}
            self.gatoms[name] = a
        return add(A(a), off)

    def _ginit(self, g):
        if g is None or g.init is None:
            return 'init'
        if isinstance(g.init, IR.Bytes):
            return ('bytes', g.init.b)
        ents = {}
        self._flat(g.ty, g.init, 0, ents)
        if not ents:
            return 'zero'
        return lambda st, key, e=ents: ('entries', {o: (s, self.conv(v, t)) for o, (s, v, t) in e.items()}) \
            if len(key) == 1 else 'init'

    def _flat(self, ty, v, off, out):
        if v is IR.ZERO_AGG or v == 0 and ty.k in ('struct', 'array'):
            return
        if isinstance(v, IR.Agg):
            if ty.k == 'struct':
                for o, (t, x) in zip(ty.offs, v.vals):
                    self._flat(t, x, off + o, out)
            else:
                for i, (t, x) in enumerate(v.vals):
                    self._flat(t, x, off + i * ty.el.size, out)
            return
        if isinstance(v, IR.Bytes):
            for i, b in enumerate(v.b):
                if b:
                    out[off + i] = (1, signed(b, 8), IR.int_t(8))
            return
        if v is IR.UNDEF:
            return
        out[off] = (ty.size, v, ty)

    def conv(self, v, ty=None):
        """IR constant -> abstract value"""
        if type(v) is int or type(v) is str:
            return v
        if isinstance(v, IR.GRef):
            return self.gptr(v.name, v.off)
        if isinstance(v, IR.FConst):
            return fconst(v.v)
        if v is IR.UNDEF:
            return fresh('undef', ty.w if ty is not None and ty.w else 64)
        if isinstance(v, IR.Agg):
            return AggV([self.conv(x, t) for t, x in v.vals])
        return v

    def prep(self, f):
        if f.name in self.prepared:
            return
        self.prepared.add(f.name)
        for b in f.order:
            for i in b.phis:
                i.a = {k: self._const(v, i.ty) for k, v in i.a.items()}
            for i in b.insts:
                if i.x is not None:
                    i.x = tuple(self._const(v, i.ty) for v in i.x)

    def _const(self, v, ty):
        if type(v) is str and v == IR.ZERO_AGG:
            return v if ty is None or ty.k not in ('struct', 'array') else v
        if isinstance(v, IR.GRef) or isinstance(v, Lin):
            return v     # resolved on use (module can be shared between engines)
        return v

    def val(self, st, fr, v, ty=None):
        t = type(v)
        if t is str:
            if v is IR.ZERO_AGG:
                return zero_of(ty)
            return fr.regs[v]
        if t is int:
            return v
        return self.conv(v, ty)

    # ------------------------------------------------------------- running
    def call_state(self, st, fname, args, call=None):
        f = self.m.funcs[fname]
        self.prep(f)
        regs = dict(zip(f.params, args))
        fr = Frame(f, f.entry, regs, call)
        if len(args) > len(f.params):
            fr.varargs = list(args[len(f.params):])
        if self.measure is not None:
            fr.mark = self.measure(st)
        st.frames.append(fr)
        self.reached.add(fname)
        return st

    def run(self, fname, args, st, base=None):
        """all results of calling fname in state st"""
        st = st.clone()
        st.frames = []
        st.x.pop('turn', None)
        self.call_state(st, fname, args)
        return self.explore([st])

    def explore(self, work):
        results = []
        while work:
            if len(results) + len(work) > self.max_paths:
                raise Limit('more than %d paths' % self.max_paths)
            for d in DEADLINE:
                if d and time.time() > d:
                    raise Limit('time')
            st = work.pop()
            r = self.step_path(st, work)
            if r is not None:
                self.npaths += 1
                if r.kind == 'cut':
                    self.ncut += 1
                results.append(r)
            if self.ends:
                self.npaths += len(self.ends)
                results += self.ends
                self.ends = []
        return results

    def step_path(self, st, work):
        handlers = self.handlers
        n = 0
        while True:
            fr = st.frames[-1]
            inst = fr.blk.insts[fr.i]
            n += 1
            st.steps += 1
            if st.steps > self.max_steps:
                self.nsteps += n
                return Result('cut', 'steps', st, self.where(st))
            try:
                r = handlers[inst.op](st, fr, inst)
            except Raise as e:
                self.nsteps += n
                return Result(e.kind, e.val, st, self.where(st))
            except Resume:
                continue
            except KeyError as e:
                if inst.op not in handlers:
                    raise NotImplementedError(inst.op)
                raise
            if r is not None:
                self.nsteps += n
                if isinstance(r, Result):
                    return r
                # list of states
                self.nforks += len(r) - 1 if len(r) > 1 else 0
                work.extend(r)
                return None

    def where(self, st):
        out = []
        for fr in st.frames:
            i = fr.blk.insts[min(fr.i, len(fr.blk.insts) - 1)]
            out.append((fr.fn.name, self.m.line(i)))
        return out

    def turning(self, st, fr, target, k):
        """a loop has used up its rounds; when a round leaves everything as it was it never ends"""
        if self.measure is not None:
            now = (self.measure(st), len(st.frames))
        else:
            now = ([(f.fn.name, f.blk.name, f.i, {r: x for r, x in f.regs.items()}) for f in st.frames[:-1]], fr.blk.name, dict(fr.regs),
                   {key: (dict(r.e), r.dflt, r.ranges) for key, r in st.mem.items()}, dict(st.x, turn=None, cut=None), dict(st.iv), dict(st.ne), dict(st.bools),
                   sum(1 for e in st.events() if e[0] in ('ext', 'indirect')))
        was = st.x.get('turn')
        at = (id(fr.fn), target, len(st.frames))
        if was is None:
            st.x['turn'] = (at, now)
            return
        if was[0] != at:
            if k > self.max_visits:
                raise Raise('cut', 'loop')
            return
        if was[1] == now and (self.measure is None or k > self.max_visits // 2):
            raise Raise('hang', 'never finishes')
        if was[1] != now and self.measure is not None or k > 5 and self.measure is None:
            raise Raise('cut', 'loop')

    def goto(self, st, fr, target):
        blk = fr.fn.blocks[target]
        v = fr.visits.get(target, 0) + 1
        fr.visits[target] = v
        if v > self.max_visits:
            self.turning(st, fr, target, v - self.max_visits)
        if blk.phis:
            src = fr.blk.name
            vals = [self.val(st, fr, p.a[src], p.ty) for p in blk.phis]
            for p, x in zip(blk.phis, vals):
                fr.regs[p.res] = x
        fr.blk = blk
        fr.i = 0
        if self.on_block:
            self.on_block(self, st, fr)

    # ------------------------------------------------------------- opcodes
    def op_br(self, st, fr, i):
        if not i.x:
            self.goto(st, fr, i.a[0])
            return None
        c = self.val(st, fr, i.x[0])
        d = st.decide(c)
        if d is None:
            return self.fork(st, c, lambda s, b: self.goto_in(s, i.a[0] if b else i.a[1]))
        self.goto(st, fr, i.a[0] if d else i.a[1])
        return None

    def goto_in(self, s, target):
        self.goto(s, s.frames[-1], target)

    def fork(self, st, c, cont):
        out = []
        loc = (st.frames[-1].fn.name, self.m.line(st.frames[-1].blk.insts[st.frames[-1].i]))
        for b in (True, False):
            base = st.clone()
            for s in base.assume(c, b):
                s.forks = s.forks + ((loc, c, b),)
                try:
                    cont(s, b)
                except Raise as e:
                    # loop bound hit while taking the branch
                    if e.kind == 'hang':
                        self.ends.append(Result(e.kind, e.val, s, self.where(s)))
                        continue
                    if e.kind == 'cut':
                        self.ncut += 1
                        s.x['cut'] = True
                        self.cut_states.append(s) if hasattr(self, 'cut_states') else None
                        continue
                    raise
                out.append(s)
        return out

    def op_switch(self, st, fr, i):
        v = self.val(st, fr, i.x[0])
        if not isinstance(v, (int, Lin)):
            v = self.b2i(st, v)
        k = st.const_of(v)
        d, cases = i.a
        if k is not None:
            for c, b in cases:
                if c == k or signed(c, i.ty.w) == signed(k, i.ty.w):
                    self.goto(st, fr, b)
                    return None
            self.goto(st, fr, d)
            return None
        out = []
        rest = st
        for c, b in cases:
            s = rest.clone()
            r = s.assume(mk_eq(add(v, -c)), True)
            for s2 in r:
                s2.forks = s2.forks + (((fr.fn.name, self.m.line(i)), ('case', v, c), True),)
                self.goto_in(s2, b)
                out.append(s2)
            r = rest.assume(mk_eq(add(v, -c)), False)
            if not r:
                rest = None
                break
            rest = r[0]
        if rest is not None:
            rest.forks = rest.forks + (((fr.fn.name, self.m.line(i)), ('case', v, 'default'), True),)
            self.goto_in(rest, d)
            out.append(rest)
        return out

    def op_ret(self, st, fr, i):
        v = self.val(st, fr, i.x[0], i.ty) if i.x else None
        return self.do_return(st, v)

    def do_return(self, st, v):
        fr = st.frames.pop()
        if not st.frames or fr.call == 'stop':
            return Result('ret', v, st)
        c = st.frames[-1]
        ci = c.blk.insts[c.i]
        if ci.res is not None:
            c.regs[ci.res] = v
        c.i += 1
        h = self.hooks.get(('ret', fr.fn.name))
        if h:
            h(self, st, v)
        return None

    def op_unreachable(self, st, fr, i):
        return Result('exit', 'unreachable', st, self.where(st))

    def op_load(self, st, fr, i):
        p = self.val(st, fr, i.x[0])
        if self.on_load:
            self.on_load(self, st, p, i.ty.size, i)
        if type(p) is not Lin:
            raise Raise('crash', 'load through %r' % (p,))
        if i.ty.k == 'struct':
            v = self.load_agg(st, p, i.ty)
        else:
            v = st.load(p, i.ty.size)
            if i.ty.k == 'int' and i.ty.w == 1:
                v = v if type(v) is int else op('tobit', 1, v, lo=0, hi=1)
            elif i.ty.k == 'double' and type(v) is int:
                v = fconst(pystruct.unpack('<d', pystruct.pack('<Q', v & ((1 << 64) - 1)))[0])
        fr.regs[i.res] = v
        fr.i += 1

    def load_agg(self, st, p, ty):
        if ty.k == 'struct':
            return AggV([self.load_agg(st, add(p, o), t) for o, t in zip(ty.offs, ty.el)])
        if ty.k == 'array':
            return AggV([self.load_agg(st, add(p, k * ty.el.size), ty.el) for k in range(ty.n)])
        return st.load(p, ty.size)

    def store_agg(self, st, p, ty, v):
        if isinstance(v, AggV):
            if ty.k == 'struct':
                for o, t, x in zip(ty.offs, ty.el, v.v):
                    self.store_agg(st, add(p, o), t, x)
            else:
                for k, x in enumerate(v.v):
                    self.store_agg(st, add(p, k * ty.el.size), ty.el, x)
            return
        st.store(p, ty.size, self.plain(st, v))

    def plain(self, st, v):
        """conditions are stored as 0/1 values"""
        if isinstance(v, (int, Lin, AggV)):
            return v
        return self.b2i(st, v)

    def b2i(self, st, c):
        d = st.decide(c)
        if d is not None:
            return int(d)
        if isinstance(c, Cond) and c.op == 'atom' and not c.neg and isinstance(c.d, Atom):
            return A(c.d)
        if isinstance(c, Cond) and c.op == 'eq' and isinstance(c.d, Lin) and len(c.d.t) == 1:
            a, k = c.d.t[0]
            if a.lo == 0 and a.hi == 1 and abs(k) == 1 and -c.d.c * k in (0, 1):
                pos = (-c.d.c * k == 1) != c.neg
                return A(a) if pos else add(1, A(a), -1)
        return op('b2i', 8, c, lo=0, hi=1)

    def op_store(self, st, fr, i):
        v = self.val(st, fr, i.x[0], i.ty)
        p = self.val(st, fr, i.x[1])
        if self.on_store:
            self.on_store(self, st, p, i.ty.size, v, i)
        if type(p) is not Lin:
            raise Raise('crash', 'store through %r' % (p,))
        self.store_agg(st, p, i.ty, v)
        fr.i += 1

    def op_getelementptr(self, st, fr, i):
        b = self.val(st, fr, i.x[0])
        r = add(b, i.a[0]) if i.a[0] else b
        for sc, x in zip(i.a[1], i.x[1:]):
            v = self.val(st, fr, x)
            if not isinstance(v, (int, Lin)):
                v = self.b2i(st, v)
            r = add(r, v, sc)
        fr.regs[i.res] = r
        fr.i += 1

    def op_alloca(self, st, fr, i):
        n = self.val(st, fr, i.x[0])
        fr.regs[i.res] = st.new_obj('%s.%s' % (fr.fn.name, i.res), 'undef', 16,
                                    i.ty.size * n if type(n) is int else None)
        fr.regs[i.res].t[0][0].meta['fresh'] = True
        fr.regs[i.res].t[0][0].meta['local'] = True
        fr.i += 1

    def op_phi(self, st, fr, i):
        raise AssertionError

    def op_freeze(self, st, fr, i):
        fr.regs[i.res] = self.val(st, fr, i.x[0])
        fr.i += 1

    def op_extractvalue(self, st, fr, i):
        v = self.val(st, fr, i.x[0], i.ty)
        for k in i.a:
            v = v.v[k] if isinstance(v, AggV) else op('field', 64, v, k)
        fr.regs[i.res] = v
        fr.i += 1

    def op_insertvalue(self, st, fr, i):
        v = self.val(st, fr, i.x[0], i.ty)
        w = self.val(st, fr, i.x[1])
        fr.regs[i.res] = self._ins(v, w, i.a, i.ty)
        fr.i += 1

    def _ins(self, v, w, ix, ty):
        n = len(ty.el) if ty.k == 'struct' else ty.n
        vals = list(v.v) if isinstance(v, AggV) else [0] * n
        if len(ix) == 1:
            vals[ix[0]] = w
        else:
            sub = ty.el[ix[0]] if ty.k == 'struct' else ty.el
            vals[ix[0]] = self._ins(vals[ix[0]], w, ix[1:], sub)
        return AggV(vals)

    def op_select(self, st, fr, i):
        c = self.val(st, fr, i.x[0])
        d = st.decide(c)
        if d is None:
            a = self.val(st, fr, i.x[1], i.ty)
            b = self.val(st, fr, i.x[2], i.ty)
            if i.ty.k == 'int' and i.ty.w == 1:
                # logical and / or
                if b == 0 and type(b) is int:
                    fr.regs[i.res] = AndCond('and', self.as_cond(st, c), self.as_cond(st, a))
                    fr.i += 1
                    return None
                if a == 1 and type(a) is int:
                    fr.regs[i.res] = AndCond('or', self.as_cond(st, c), self.as_cond(st, b))
                    fr.i += 1
                    return None

            def cont(s, t):
                f = s.frames[-1]
                f.regs[i.res] = a if t else b
                f.i += 1
            return self.fork(st, c, cont)
        fr.regs[i.res] = self.val(st, fr, i.x[1] if d else i.x[2], i.ty)
        fr.i += 1

    def as_cond(self, st, v):
        if isinstance(v, Lin):
            a = v.atom()
            if a is not None and a.kind == 'op' and a.args[0] == 'b2i':
                return a.args[1]
            return mk_eq(v, True)
        return v

    def op_icmp(self, st, fr, i):
        a = self.val(st, fr, i.x[0])
        b = self.val(st, fr, i.x[1])
        fr.regs[i.res] = self.icmp(st, i.a, a, b, i.ty.w)
        fr.i += 1

    def icmp(self, st, p, a, b, w):
        if not isinstance(a, (int, Lin)) or not isinstance(b, (int, Lin)):
            # comparison of booleans
            if isinstance(b, int) and p in ('eq', 'ne') and b in (0, 1, -1):
                want = (b != 0) == (p == 'eq')
                return a if want else self.negate(a)
            a = self.b2i(st, a)
            b = self.b2i(st, b)
        if type(a) is Lin and type(b) is int and b == 0 and p in ('eq', 'ne'):
            at = a.atom()
            if at is not None and at.kind == 'op':
                if at.args[0] == 'b2i':
                    c = at.args[1]
                    return self.negate(c) if p == 'eq' else c
                if at.args[0] in ('zext', 'sext', 'strcmp_eq'):
                    pass
        if p == 'eq' or p == 'ne':
            return mk_eq(add(a, b, -1), p == 'ne')
        if p[0] == 's':
            d = add(a, b, -1)
            if p == 'slt':
                return mk_le(add(d, 1))
            if p == 'sle':
                return mk_le(d)
            if p == 'sgt':
                return mk_le(d, True)
            return mk_le(add(d, 1), True)
        # unsigned
        if type(a) is int and type(b) is int:
            m = (1 << w) - 1
            a &= m
            b &= m
            return int({'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}[p])
        if p == 'ult':
            c = UCond(a, b, True, False, w)
        elif p == 'ule':
            c = UCond(a, b, False, False, w)
        elif p == 'ugt':
            c = UCond(a, b, False, True, w)
        else:
            c = UCond(a, b, True, True, w)
        la, _ = st.interval(a)
        lb, _ = st.interval(b)
        if la >= 0 and lb >= 0:
            return _ult(c)
        return c

    def negate(self, c):
        return negate(c)

    def op_fcmp(self, st, fr, i):
        a = self.val(st, fr, i.x[0])
        b = self.val(st, fr, i.x[1])
        p = i.a
        aa = a.atom() if isinstance(a, Lin) else None
        bb = b.atom() if isinstance(b, Lin) else None
        fr.i += 1
        if aa is not None and bb is not None and aa.kind == bb.kind == 'fconst':
            x, y = aa.args, bb.args
            nan = x != x or y != y
            t = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}.get(p[1:])
            fr.regs[i.res] = int(not nan if p == 'ord' else nan if p == 'uno' else p == 'true' if t is None else
                                 t and not nan if p[0] == 'o' else t or nan)
            return
        # canonical form: a < b, a <= b, a == b
        neg = False
        if p in ('ogt', 'oge', 'ugt', 'uge'):
            a, b = b, a
            p = p.replace('gt', 'lt').replace('ge', 'le')
        if p in ('une', 'one'):
            p = 'oeq'
            neg = True
        if p == 'oeq' and isinstance(a, Lin) and isinstance(b, Lin) and a.t and b.t and a.t[0][0].id > b.t[0][0].id:
            a, b = b, a
        at = op('f' + p, 1, a, b, lo=0, hi=1).t[0][0]
        fr.regs[i.res] = Cond('atom', at, neg)

    def op_fneg(self, st, fr, i):
        v = self.val(st, fr, i.x[0])
        at = v.atom() if isinstance(v, Lin) else None
        fr.regs[i.res] = fconst(-at.args) if at is not None and at.kind == 'fconst' else op('fneg', 64, v)
        fr.i += 1

    def _fbin(self, st, fr, i):
        a = self.val(st, fr, i.x[0])
        b = self.val(st, fr, i.x[1])
        fr.regs[i.res] = op(i.op, 64, a, b)
        fr.i += 1

    def _bin(self, st, fr, i):
        a = self.val(st, fr, i.x[0])
        b = self.val(st, fr, i.x[1])
        if i.op == 'shl' and 'insert' in i.res and type(b) is int and b % 8 == 0 and isinstance(a, Lin):
            n = i.ty.w // 8
            bs = [0] * (b // 8) + bytes_of(st, a, n)
            fr.regs[i.res] = from_bytes(bs[:n], n)
        else:
            fr.regs[i.res] = self.binop(st, i.op, a, b, i.ty.w, i.a)
        fr.i += 1

    def binop(self, st, o, a, b, w, flags=()):
        if w == 1 or not isinstance(a, (int, Lin)) or not isinstance(b, (int, Lin)):
            if o == 'xor' and isinstance(b, int) and b in (1, -1):
                return self.negate(a)
            if o in ('and', 'or'):
                a2, b2 = self.as_cond(st, a), self.as_cond(st, b)
                for x, y in ((a2, b2), (b2, a2)):
                    if isinstance(x, int):
                        if o == 'and':
                            return y if x else 0
                        return 1 if x else y
                return AndCond(o, a2, b2)
            if not isinstance(a, (int, Lin)):
                a = self.b2i(st, a)
            if not isinstance(b, (int, Lin)):
                b = self.b2i(st, b)
        if type(a) is int and type(b) is int:
            return concrete_bin(o, a, b, w)
        if o == 'add':
            return add(a, b)
        if o == 'sub':
            return add(a, b, -1)
        if o == 'mul':
            if type(a) is int:
                return mul(b, a)
            if type(b) is int:
                return mul(a, b)
            return op('mul', w, *sorted((a, b), key=lambda z: z.t[0][0].id))
        if o in ('shl', 'lshr', 'ashr') and type(b) is int and not 0 <= b < w:
            return fresh('shift', w)    # the result of an oversized shift is not defined
        if o == 'shl' and type(b) is int:
            return mul(a, 1 << b)
        if o in ('and', 'urem', 'srem', 'udiv', 'sdiv', 'lshr', 'ashr', 'or', 'xor'):
            if o in ('and', 'or', 'xor') and type(a) is int:
                a, b = b, a
            if type(b) is int:
                r = self._algn(st, o, a, b, w)
                if r is not None:
                    return r
        if o in ('and', 'or') and w % 8 == 0 and w > 8:
            n = w // 8
            r = None
            if o == 'and' and type(b) is int:
                mb = [(b >> (8 * k)) & 255 for k in range(n)]
                if all(x in (0, 255) for x in mb) and not is_low_mask(b, w):
                    ab = bytes_of(st, a, n)
                    r = from_bytes([ab[k] if mb[k] else 0 for k in range(n)], n)
            elif o == 'or':
                ab, bb = bytes_of(st, a, n), bytes_of(st, b, n)
                if all(x == 0 or y == 0 for x, y in zip(ab, bb)):
                    r = from_bytes([y if x == 0 else x for x, y in zip(ab, bb)], n)
            if r is not None:
                return r
        if o == 'lshr' and type(b) is int and b % 8 == 0 and w % 8 == 0 and 0 < b < w:
            at = a.atom()
            if at is not None and (at.kind in ('undef',) or at.kind == 'op' and at.args[0] == 'concat'):
                n = w // 8
                return from_bytes((bytes_of(st, a, n) + [0] * n)[b // 8:b // 8 + n], n)
        if o in ('and', 'or', 'xor') and type(b) is Lin and type(a) is Lin and a.t[0][0].id > b.t[0][0].id:
            a, b = b, a
        lo = hi = None
        if o == 'and' and type(b) is int and b >= 0:
            lo, hi = 0, b
        if o == 'urem' and type(b) is int and b > 0:
            lo, hi = 0, b - 1
        if o in ('lshr',) and type(b) is int and b > 0:
            lo, hi = 0, (1 << (w - b)) - 1
        if o == 'udiv' and type(b) is int and b > 1:
            lo, hi = 0, ((1 << w) - 1) // b
        if o == 'srem' and type(b) is int and b != 0:
            la, ha = st.interval(a)
            lo, hi = (0 if la >= 0 else -(abs(b) - 1)), abs(b) - 1
        if o in ('sdiv', 'udiv') and type(b) is int and b > 0:
            la, ha = st.interval(a)
            if la >= 0:
                lo, hi = la // b, ha // b
        return op(o, w, a, b, lo=lo, hi=hi)

    def _algn(self, st, o, a, b, w):
        # a is a Lin, b a constant
        if o == 'and':
            if b == -1 or b == (1 << w) - 1:
                return a
            if b == 0:
                return 0
            bb = b & ((1 << w) - 1)
            # low mask 2^k-1
            if bb & (bb + 1) == 0:
                m = bb + 1
                if all((c * x.align) % m == 0 for x, c in a.t):
                    return a.c % m
                lo, hi = st.interval(a)
                if lo >= 0 and hi < m:
                    return a
            nb = (~bb) & ((1 << w) - 1)
            if nb & (nb + 1) == 0:
                m = nb + 1
                if all((c * x.align) % m == 0 for x, c in a.t):
                    return lin(a.t, a.c - a.c % m)
            return None
        if o in ('urem', 'srem') and b > 0:
            if all((c * x.align) % b == 0 for x, c in a.t):
                lo, _ = st.interval(a)
                if lo >= 0 or a.c % b == 0:
                    return a.c % b
            lo, hi = st.interval(a)
            if lo >= 0 and hi < b:
                return a
        if o in ('udiv', 'sdiv') and b > 0:
            if b == 1:
                return a
            if all(c % b == 0 for x, c in a.t) and a.c % b == 0:
                return lin(tuple((x, c // b) for x, c in a.t), a.c // b)
        if o in ('lshr', 'ashr'):
            if b == 0:
                return a
            d = 1 << b
            if all(c % d == 0 for x, c in a.t) and a.c % d == 0:
                return lin(tuple((x, c // d) for x, c in a.t), a.c // d)
            lo, hi = st.interval(a)
            if lo >= 0 and hi < d:
                return 0
        if o in ('or', 'xor') and b == 0:
            return a
        if o == 'xor' and b in (-1,):
            return add(-1, a, -1)
        return None

    def op_trunc(self, st, fr, i):
        v = self.val(st, fr, i.x[0])
        fr.regs[i.res] = self.trunc(st, v, i.ty.w)
        fr.i += 1

    def trunc(self, st, v, w):
        if type(v) is int:
            return signed(v, w)
        if not isinstance(v, Lin):
            return v if w == 1 else self.b2i(st, v)
        if w == 1:
            a = v.atom()
            if a is not None and a.kind == 'op' and a.args[0] == 'concat' and a.w > 8:
                b = bytes_of_raw(v, a.w // 8)[0]
                return self.trunc(st, b if type(b) is int else extract(b[0], b[1], b[2], 1), 1)
            if a is not None and a.kind == 'op' and a.args[0] == 'ext' and a.w > 8:
                return self.trunc(st, extract(v, 0, a.w // 8, 1), 1)
            if a is not None and a.kind == 'op' and a.args[0] == 'b2i':
                return a.args[1]
            lo, hi = st.interval(v)
            if lo >= 0 and hi <= 1:
                if a is not None:
                    return mk_eq(v, True)
                return mk_eq(v, True)
            # a bool in memory is 0 or 1
            if a is not None and a.w == 8 and a.kind in ('init', 'fresh', 'undef', 'op'):
                return Cond('atom', a)
            return Cond('atom', op('bit', 1, v, lo=0, hi=1).t[0][0])
        lo, hi = st.interval(v)
        if lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)):
            return v
        a = v.atom()
        if a is not None and a.kind == 'op' and w % 8 == 0 and a.args[0] == 'concat':
            return from_bytes(bytes_of_raw(v, a.w // 8)[:w // 8], w // 8)
        if a is not None and a.kind == 'op' and w % 8 == 0 and a.args[0] == 'ext':
            return extract(v, 0, a.w // 8, w // 8)
        if a is not None and a.kind == 'op' and a.args[0] in ('zext', 'trunc'):
            x = a.args[1]
            if isinstance(x, Lin) and a.args[0] == 'trunc':
                return op('trunc', w, x)
            if a.args[0] == 'zext' and a.args[2] == w:
                return x
        if a is not None and a.kind == 'init':
            return A(_init_atom('init', a.args[0], a.args[1], w // 8)) if w >= 8 else op('trunc', w, v)
        return op('trunc', w, v)

    def op_zext(self, st, fr, i):
        v = self.val(st, fr, i.x[0])
        w = i.a.w
        fr.i += 1
        if type(v) is int:
            fr.regs[i.res] = v & ((1 << w) - 1)
            return
        if not isinstance(v, Lin):
            fr.regs[i.res] = self.b2i(st, v)
            return
        fr.regs[i.res] = self.zext(st, v, w)

    def zext(self, st, v, w):
        lo, hi = st.interval(v)
        if lo >= 0:
            return v
        a = v.atom()
        if a is not None and a.kind == 'op' and a.args[0] == 'trunc':
            x = a.args[1]
            l, h = st.interval(x)
            if l >= 0 and h < (1 << w):
                return x
        return op('zext', 64, v, w, lo=0, hi=(1 << w) - 1)

    def op_sext(self, st, fr, i):
        v = self.val(st, fr, i.x[0])
        fr.i += 1
        if not isinstance(v, (int, Lin)):
            b = self.b2i(st, v)
            v = mul(b, -1) if i.a.w == 1 else b
        elif i.a.w == 1:
            v = mul(v, -1)
        fr.regs[i.res] = v

    def op_ptrtoint(self, st, fr, i):
        v = self.val(st, fr, i.x[0])
        fr.regs[i.res] = self.trunc(st, v, i.ty.w) if i.ty.w < 64 else v
        fr.i += 1

    def op_inttoptr(self, st, fr, i):
        fr.regs[i.res] = self.val(st, fr, i.x[0])
        fr.i += 1

    def op_bitcast(self, st, fr, i):
        v = self.val(st, fr, i.x[0])
        if isinstance(v, Lin):
            a = v.atom()
            if i.ty.k == 'int' and a is not None and a.kind == 'fconst' and i.ty.w == 64:
                v = signed(pystruct.unpack('<Q', pystruct.pack('<d', a.args))[0], 64)
        elif type(v) is int and i.ty.k == 'double':
            v = fconst(pystruct.unpack('<d', pystruct.pack('<Q', v & ((1 << 64) - 1)))[0])
        fr.regs[i.res] = v
        fr.i += 1

    def op_sitofp(self, st, fr, i):
        v = self.val(st, fr, i.x[0])
        if type(v) is int:
            fr.regs[i.res] = fconst(float(v))
        else:
            fr.regs[i.res] = op('sitofp', 64, v)
        fr.i += 1

    def op_uitofp(self, st, fr, i):
        v = self.val(st, fr, i.x[0])
        if type(v) is int and v >= 0:
            fr.regs[i.res] = fconst(float(v))
        else:
            fr.regs[i.res] = op('uitofp', 64, v)
        fr.i += 1

    def op_fptosi(self, st, fr, i):
        v = self.val(st, fr, i.x[0])
        w = i.ty.w
        a = v.atom() if isinstance(v, Lin) else None
        r = None
        if a is not None and a.kind == 'fconst' and abs(a.args) < 2.0 ** (w - 1):
            r = int(a.args)
        elif a is not None and a.kind == 'op' and a.args[0] == 'sitofp' and isinstance(a.args[1], Lin):
            # exact when the integer fits the mantissa
            lo, hi = st.interval(a.args[1])
            m = min(1 << 53, (1 << (w - 1)) - 1)
            if -m <= lo and hi <= m:
                r = a.args[1]
        fr.regs[i.res] = op('fptosi', w, v) if r is None else r
        fr.i += 1

    op_fptoui = op_fptosi

    def op_fpext(self, st, fr, i):
        fr.regs[i.res] = op('fpext', 64, self.val(st, fr, i.x[0]))
        fr.i += 1

    def op_fptrunc(self, st, fr, i):
        fr.regs[i.res] = op('fptrunc', 32, self.val(st, fr, i.x[0]))
        fr.i += 1

    # ------------------------------------------------------------- calls
    def op_call(self, st, fr, i):
        callee = i.x[0]
        args = [self.val(st, fr, x, t) for x, t in zip(i.x[1:], i.a)]
        args = [self.plain(st, a) if not isinstance(a, (int, Lin, AggV)) else a for a in args]
        if isinstance(callee, IR.GRef):
            name = callee.name
        else:
            tv = self.val(st, fr, callee)
            a = tv.atom() if isinstance(tv, Lin) else None
            if a is not None and a.kind == 'fn':
                name = a.args[0]
            else:
                if type(tv) is int:
                    raise Raise('crash', 'call through NULL')
                if self.indirect is None:
                    st.log('indirect', tv, args)
                    return self.finish_call(st, fr, i, fresh('ret(%r)' % (tv,), i.ty.w or 64))
                r = self.indirect(self, st, tv, args, i)
                return self.finish_call(st, fr, i, r)
        h = self.hooks.get(name)
        if h is not None:
            r = h(self, st, args, i)
            if r is not INLINE:
                return self.finish_call(st, fr, i, r)
        f = self.m.funcs.get(name)
        if f is not None and not f.decl:
            if len(st.frames) > self.max_frames:
                if self.measure is not None:
                    m = self.measure(st)
                    if sum(1 for x in st.frames if x.fn is f and x.mark == m) > 15:
                        raise Raise('hang', 'calls itself without end')
                raise Raise('cut', 'call depth')
            self.call_state(st, name, args, i)
            return None
        b = BUILTINS.get(name)
        if b is None and name.startswith('llvm.'):
            b = BUILTINS.get('.'.join(name.split('.')[:2]))
        if b is not None:
            r = b(self, st, args, i)
            if r is not NOMODEL:
                return self.finish_call(st, fr, i, r)
        st.log('ext', name, tuple(args))
        self.unknown[name] = self.unknown.get(name, 0) + 1
        r = None
        if i.ty.k != 'void':
            r = fresh('%s()' % name, i.ty.w or 64) if i.ty.k not in ('struct',) else \
                AggV([fresh('%s().%d' % (name, k), t.w or 64) for k, t in enumerate(i.ty.el)])
        return self.finish_call(st, fr, i, r)

    def finish_call(self, st, fr, i, r):
        """r: value | None | Forks"""
        if isinstance(r, Forks):
            out = []
            for s, v in r.l:
                if isinstance(v, Raise):
                    s.log('end', v.kind)
                    self.pending.append(Result(v.kind, v.val, s, self.where(s))) if hasattr(self, 'pending') else None
                    continue
                f = s.frames[-1]
                if i.res is not None:
                    f.regs[i.res] = v
                f.i += 1
                out.append(s)
            return out
        if i.res is not None:
            fr.regs[i.res] = r
        fr.i += 1
        return None


class Forks:
    def __init__(self, l):
        self.l = l


INLINE = object()


def zero_of(ty):
    if ty is None:
        return 0
    if ty.k == 'struct':
        return AggV([zero_of(t) for t in ty.el])
    if ty.k == 'array':
        return AggV([zero_of(ty.el) for _ in range(ty.n)])
    return 0


def concrete_bin(o, a, b, w):
    m = (1 << w) - 1
    ua, ub = a & m, b & m
    if o == 'add':
        r = a + b
    elif o == 'sub':
        r = a - b
    elif o == 'mul':
        r = a * b
    elif o == 'and':
        r = ua & ub
    elif o == 'or':
        r = ua | ub
    elif o == 'xor':
        r = ua ^ ub
    elif o == 'shl':
        r = ua << ub if ub < w else 0
    elif o == 'lshr':
        r = ua >> ub if ub < w else 0
    elif o == 'ashr':
        r = a >> min(ub, w - 1)
    elif o in ('sdiv', 'srem', 'udiv', 'urem'):
        if b == 0:
            raise Raise('crash', 'division by zero')
        if o == 'udiv':
            r = ua // ub
        elif o == 'urem':
            r = ua % ub
        else:
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0):
                q = -q
            r = q if o == 'sdiv' else a - q * b
    else:
        raise NotImplementedError(o)
    if w == 1:
        return r & 1
    return signed(r, w)


# ----------------------------------------------------------------- builtins
def _bi_memcpy(e, st, a, i):
    st.log('memcpy', a[0], a[1], a[2])
    st.memcpy(a[0], a[1], a[2])
    return a[0]


def _bi_memset(e, st, a, i):
    st.log('memset', a[0], a[1], a[2])
    st.memset(a[0], a[1], a[2])
    return a[0]


def _exit(e, st, a, i):
    raise Raise('exit', 'exit')


def _assert(e, st, a, i):
    raise Raise('exit', 'assert')


def jump_back(e, st, buf, val=1):
    """continue at the setjmp which filled buf (only with Engine.jumps)"""
    saved = dict(st.x.get('jmpbufs', ())).get(buf)
    if saved is None:
        return False
    st.frames = [f.copy() for f in saved]
    fr = st.frames[-1]
    inst = fr.blk.insts[fr.i]
    if inst.res is not None:
        fr.regs[inst.res] = val
    fr.i += 1
    raise Resume()


def _longjmp(e, st, a, i):
    st.log('longjmp', a[0])
    if e.jumps:
        jump_back(e, st, a[0], a[1])
    raise Raise('raise', 'longjmp')


def cstring(e, st, p, maxlen=1 << 16):
    """the concrete NUL-terminated string at p, or None"""
    out = bytearray()
    if type(p) is not Lin:
        return None
    for k in range(maxlen):
        v = st.load(p, 1, k)
        if type(v) is not int:
            return None
        if v == 0:
            return bytes(out)
        out.append(v & 255)
    return None


def symlen(st, p):
    a = op('strlen', 64, p, lo=0, hi=(1 << 40))
    return a


def nonnull(*ps):
    if any(type(p) is int and p == 0 for p in ps):
        raise Raise('crash', 'a text is read through NULL')


def _strlen(e, st, a, i):
    nonnull(a[0])
    s = cstring(e, st, a[0])
    if s is not None:
        return len(s)
    st.log('strlen', a[0])
    return symlen(st, a[0])


def _strcmp(e, st, a, i):
    nonnull(*a[:2])
    if a[0] is a[1]:
        return 0
    x = cstring(e, st, a[0])
    y = cstring(e, st, a[1])
    if x is not None and y is not None:
        return (x > y) - (x < y)
    st.log('strcmp', a[0], a[1])
    p, q = a[0], a[1]
    kx = ('s', x) if x is not None else p
    ky = ('s', y) if y is not None else q
    if repr(kx) > repr(ky):
        kx, ky = ky, kx
    return op('strcmp', 32, kx, ky)


def _memcmp(e, st, a, i):
    st.log('memcmp', a[0], a[1], a[2])
    if a[0] is a[1]:
        return 0
    if type(a[2]) is int and a[2] <= 4096 and type(a[0]) is Lin and type(a[1]) is Lin:
        x = [st.load(a[0], 1, k) for k in range(a[2])]
        y = [st.load(a[1], 1, k) for k in range(a[2])]
        for u, v in zip(x, y):
            if type(u) is not int or type(v) is not int:
                break
            if u != v:
                return 1 if u & 255 > v & 255 else -1
        else:
            return 0
    return op('memcmp', 32, a[0], a[1], a[2])


def _abs(e, st, a, i):
    if type(a[0]) is int:
        return abs(a[0])
    return op('abs', i.ty.w, a[0], lo=0)


def _fmath(name):
    def f(e, st, a, i):
        return op(name, 64, *a)
    return f


def _nop(e, st, a, i):
    return None


def _setjmp(e, st, a, i):
    st.log('setjmp', a[0])
    if e.jumps:
        d = dict(st.x.get('jmpbufs', ()))
        d[a[0]] = tuple(f.copy() for f in st.frames)
        st.x['jmpbufs'] = tuple(d.items())
    return 0


def _expect(e, st, a, i):
    return a[0]


def _malloc(e, st, a, i):
    p = st.new_obj('malloc%d' % Atom.n, 'undef')
    p.t[0][0].meta['fresh'] = True
    p.t[0][0].meta['size'] = a[0]
    st.log('malloc', p, a[0])
    return p


def format_text(e, st, fmt, args):
    """the text of a printf-style format with known arguments, or None"""
    f = cstring(e, st, fmt)
    if f is None:
        return None
    out = bytearray()
    args = list(args)
    k = 0
    while k < len(f):
        c = f[k]
        if c != 37:
            out.append(c)
            k += 1
            continue
        k += 1
        if f[k:k + 1] == b'%':
            out.append(37)
            k += 1
            continue
        prec = None
        if f[k:k + 2] == b'.*':
            if not args or type(args[0]) is not int:
                return None
            prec = args.pop(0)
            k += 2
        while f[k:k + 1] in (b'l', b'z', b'h'):
            k += 1
        c = f[k:k + 1]
        k += 1
        if not args:
            return None
        v = args.pop(0)
        if c == b's':
            t = cstring(e, st, v)
            if t is None:
                return None
            out += t if prec is None else t[:prec]
        elif c in (b'd', b'i', b'u') and type(v) is int:
            out += b'%d' % v
        elif c == b'c' and type(v) is int:
            out.append(v & 255)
        else:
            return None
    return bytes(out)


def _snprintf(e, st, a, i):
    st.log('ext', 'snprintf', tuple(a))
    t = format_text(e, st, a[2], a[3:])
    if t is None or type(a[1]) is not int:
        return fresh('snprintf()', 32)
    if a[1] > 0:
        for k, b in enumerate(t[:a[1] - 1] + b'\0'):
            st.store(a[0], 1, signed(b, 8), k)
    return len(t)


NOMODEL = object()


def _va_start(e, st, a, i):
    p = st.new_obj('va', 'undef')
    p.t[0][0].meta['varargs'] = list(st.frames[-1].varargs or ())
    st.store(a[0], 8, p, 0)


def _va_copy(e, st, a, i):
    v = st.load(a[1], 8, 0)
    st.store(a[0], 8, v, 0)


def va_values(st, va):
    """the arguments a va_list stands for, or None"""
    v = st.load(va, 8, 0) if isinstance(va, Lin) else None
    at = v.atom() if isinstance(v, Lin) else None
    return at.meta.get('varargs') if at is not None and at.kind == 'obj' and at.meta else None


def _vsnprintf(e, st, a, i):
    vs = va_values(st, a[3])
    t = format_text(e, st, a[2], vs) if vs is not None else None
    if t is None or type(a[1]) is not int:
        return NOMODEL
    if a[1] > 0:
        for k, b in enumerate(t[:a[1] - 1] + b'\0'):
            st.store(a[0], 1, signed(b, 8), k)
    return len(t)


def _sprintf(e, st, a, i):
    t = format_text(e, st, a[1], a[2:])
    if t is None:
        return NOMODEL
    for k, b in enumerate(t + b'\0'):
        st.store(a[0], 1, signed(b, 8), k)
    return len(t)


def _strncmp(e, st, a, i):
    nonnull(*a[:2])
    x, y = cstring(e, st, a[0]), cstring(e, st, a[1])
    if x is None or y is None or type(a[2]) is not int:
        return NOMODEL
    x, y = (x + b'\0')[:a[2]], (y + b'\0')[:a[2]]
    return (x > y) - (x < y)


def _strfind(f):
    def g(e, st, a, i):
        x = cstring(e, st, a[0])
        y = a[1] if type(a[1]) is int else cstring(e, st, a[1])
        if x is None or y is None:
            return NOMODEL
        k = f(x, y)
        return 0 if k is None or k < 0 else add(a[0], k)
    return g


def _span(inside):
    def g(e, st, a, i):
        x, y = cstring(e, st, a[0]), cstring(e, st, a[1])
        if x is None or y is None:
            return NOMODEL
        return next((k for k, c in enumerate(x) if (c in y) != inside), len(x))
    return g


def _memchr(e, st, a, i):
    if type(a[2]) is not int or a[2] > 4096 or type(a[1]) is not int or type(a[0]) is not Lin:
        return NOMODEL
    for k in range(a[2]):
        v = st.load(a[0], 1, k)
        if type(v) is not int:
            return NOMODEL
        if v & 255 == a[1] & 255:
            return add(a[0], k)
    return 0


def _strnlen(e, st, a, i):
    if type(a[1]) is not int or type(a[0]) is not Lin:
        return NOMODEL
    for k in range(min(a[1], 4096)):
        v = st.load(a[0], 1, k)
        if type(v) is not int:
            return NOMODEL
        if v == 0:
            return k
    return a[1] if a[1] <= 4096 else NOMODEL


def _strncpy(e, st, a, i):
    if type(a[2]) is not int or a[2] > 4096 or type(a[1]) is not Lin:
        return NOMODEL
    end = False
    for k in range(a[2]):
        v = 0 if end else st.load(a[1], 1, k)
        if type(v) is not int:
            return NOMODEL
        end = end or v == 0
        st.store(a[0], 1, v, k)
    return a[0]


def _strncat(e, st, a, i):
    nonnull(*a[:2])
    s, t = cstring(e, st, a[0]), cstring(e, st, a[1])
    if s is None or t is None or type(a[2]) is not int:
        return NOMODEL
    for k, b in enumerate(t[:a[2]] + b'\0'):
        st.store(a[0], 1, signed(b, 8), len(s) + k)
    return a[0]


def _ctype(chars):
    def g(e, st, a, i):
        return int(a[0] in chars) if type(a[0]) is int else NOMODEL
    return g


def _tocase(up):
    def g(e, st, a, i):
        if type(a[0]) is not int:
            return NOMODEL
        return ord(chr(a[0]).upper() if up else chr(a[0]).lower()) if 0 <= a[0] < 128 else a[0]
    return g


def _strcpy(e, st, a, i):
    nonnull(*a[:2])
    t = cstring(e, st, a[1])
    st.log('ext', 'strcpy', tuple(a))
    if t is not None:
        for k, b in enumerate(t + b'\0'):
            st.store(a[0], 1, signed(b, 8), k)
    return a[0]


def _strcat(e, st, a, i):
    nonnull(*a[:2])
    s, t = cstring(e, st, a[0]), cstring(e, st, a[1])
    st.log('ext', 'strcat', tuple(a))
    if s is not None and t is not None:
        for k, b in enumerate(t + b'\0'):
            st.store(a[0], 1, signed(b, 8), len(s) + k)
    return a[0]


def _fpclass(e, st, a, i):
    at = a[0].atom() if isinstance(a[0], Lin) else None
    if at is None or at.kind != 'fconst' or type(a[1]) is not int:
        return op('fpclass', 1, a[0], a[1], lo=0, hi=1)
    x = at.args
    neg = math.copysign(1.0, x) < 0
    k = (1 if x != x else (2 if neg else 9) if math.isinf(x) else (5 if neg else 6) if x == 0 else
         (4 if neg else 7) if abs(x) < 2.0 ** -1022 else 3 if neg else 8)
    return int(bool(a[1] & (3 if k == 1 else 1 << k)))


BUILTINS = {
    'snprintf': _snprintf, 'strcpy': _strcpy, 'strcat': _strcat,
    'llvm.memcpy': _bi_memcpy, 'llvm.memmove': _bi_memcpy, 'memcpy': _bi_memcpy, 'memmove': _bi_memcpy,
    'llvm.memset': _bi_memset, 'memset': _bi_memset,
    'exit': _exit, 'abort': _exit, '__assert_fail': _assert,
    'longjmp': _longjmp, '_longjmp': _longjmp, 'siglongjmp': _longjmp,
    'setjmp': _setjmp, '_setjmp': _setjmp, '__sigsetjmp': _setjmp,
    'strlen': _strlen, 'strcmp': _strcmp, 'memcmp': _memcmp,
    'llvm.abs': _abs, 'llvm.floor': _fmath('floor'), 'llvm.ceil': _fmath('ceil'), 'floor': _fmath('floor'),
    'ceil': _fmath('ceil'), 'llvm.fabs': _fmath('fabs'), 'llvm.expect': _expect,
    'llvm.va_start': _va_start, 'llvm.va_end': _nop, 'llvm.va_copy': _va_copy,
    'vsnprintf': _vsnprintf, 'sprintf': _sprintf, 'strncmp': _strncmp, 'strnlen': _strnlen, 'strncpy': _strncpy, 'strncat': _strncat,
    'strchr': _strfind(lambda x, c: len(x) if c & 255 == 0 else x.find(bytes([c & 255]))),
    'strrchr': _strfind(lambda x, c: len(x) if c & 255 == 0 else x.rfind(bytes([c & 255]))),
    'strstr': _strfind(lambda x, y: x.find(y)), 'strpbrk': _strfind(lambda x, y: next((k for k, c in enumerate(x) if c in y), None)),
    'strspn': _span(True), 'strcspn': _span(False), 'memchr': _memchr, 'bcmp': _memcmp,
    'isdigit': _ctype(b'0123456789'), 'isalpha': _ctype(b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'),
    'isalnum': _ctype(b'0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'), 'isspace': _ctype(b' \t\n\v\f\r'),
    'tolower': _tocase(False), 'toupper': _tocase(True),
    'llvm.is': _fpclass,
    'llvm.dbg': _nop, 'llvm.lifetime': _nop, 'malloc': _malloc, 'llvm.assume': _nop,
    'llvm.stacksave': lambda e, st, a, i: fresh('sp'), 'llvm.stackrestore': _nop,
}
