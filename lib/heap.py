"""The host's allocator as the library sees it: ownership, lifetime and extent of every block.

Heap.install(engine) interprets calls through a context's alloc member.  Every block is an object of its own; what
happens to it (allocation, growth, release) is logged, and a use of a released block, a second release, the release of
something that was not allocated and an access outside a block are logged as ('bad', text)."""
from tiny import *


class Heap:
    def __init__(self, T, alloc=None, userdata=None, bounds=True, move=True):
        self.T = T
        self.alloc = fresh('host_alloc', 64, 4096, 1 << 46) if alloc is None else alloc
        self.userdata = fresh('host_userdata', 64) if userdata is None else userdata
        self.bounds = bounds
        self.move = move
        self.n = 0
        self.stop = False                  # end the path at the first misuse

    def context(self, st, p, struct, member='ctx'):
        """the context stored in p->member uses this allocator"""
        self.T.set(st, p, struct, member + '.alloc', self.alloc)
        self.T.set(st, p, struct, member + '.userdata', self.userdata)

    def block(self, st, name, size=None, dflt='init'):
        """a block which was allocated earlier"""
        p = st.new_obj(name, dflt)
        a = p.t[0][0]
        a.meta['heap'] = True
        a.meta['size'] = size
        st.x['live'] = st.x.get('live', frozenset()) | {a}
        return p

    def stretchy(self, st, name, items, isize, count=None, cap=None):
        """a stretchy buffer which was allocated earlier"""
        cap = (len(items) + 4) if cap is None else cap
        base = self.block(st, name, None, 'undef')
        p = add(base, 8)
        st.store(p, 4, cap, -8)
        st.store(p, 4, len(items) if count is None else count, -4)
        if type(cap) is int:
            base.t[0][0].meta['size'] = 8 + cap * isize
        for k, it in enumerate(items):
            for o, s, v in it:
                st.store(p, s, v, k * isize + o)
        return p

    def cstr(self, st, s, name=None):
        b = s.encode() + b'\0'
        p = self.block(st, name or repr(s), len(b), ('bytes', b))
        return p

    def base(self, v):
        """the heap object a pointer points to the start of, or None"""
        if type(v) is not Lin:
            return None
        a = v.atom()
        return a if a is not None and a.kind == 'obj' and a.meta and a.meta.get('heap') else None

    def owner(self, v):
        if type(v) is not Lin:
            return None
        for a, k in v.t:
            if a.kind == 'obj' and k == 1 and a.meta and a.meta.get('heap'):
                return a
        return None

    def bad(self, st, text):
        st.log('bad', text, st_where(self.en, st))
        if self.stop:
            raise E.Raise('bad', text)

    # ------------------------------------------------------------ the allocator
    def call(self, en, st, a, i):
        ptr, size, ud = (list(a) + [None] * 3)[:3]
        if ud is not self.userdata and not (ud == self.userdata):
            self.bad(st, 'the allocator is called with %r instead of the context\'s userdata' % (ud,))
        isnull = ptr == 0 if type(ptr) is int else None
        if isnull is None and self.base(ptr) is None:
            d = st.decide(E.mk_eq(ptr))
            if d is True:
                isnull = True
            else:
                own = self.owner(ptr)
                self.bad(st, 'the allocator is given %r, which %s' % (
                    ptr, 'is inside the block %s' % own.name if own else 'is not a block it returned'))
                if size == 0:
                    return 0
        if isnull:
            if size == 0:
                self.bad(st, 'the allocator is asked for 0 bytes')
                return 0
            return self.fresh(st, size, 'alloc')
        live = st.x.get('live', frozenset())
        atom = self.base(ptr)
        if atom is not None and atom not in live:
            self.bad(st, 'the released block %s is %s' % (atom.name, 'released again' if size == 0 else 'reallocated'))
        if type(size) is not int and st.decide(E.mk_eq(size)) is not False:
            lo, hi = st.interval(size)
            if lo <= 0 <= hi:
                self.bad(st, 'the block %r may be resized to 0 bytes, which releases it' % (ptr,))
        if size == 0:
            st.x['live'] = live - {atom}
            st.log('free', ptr)
            return 0
        if not self.move or atom is None:
            st.log('realloc', ptr, size, ptr)
            if atom is not None:
                st.x.setdefault('sizes', {})
                st.x['sizes'] = dict(st.x['sizes'])
                st.x['sizes'][atom] = size
            return ptr
        p = self.fresh(st, size, None)
        old = self.size(st, atom)
        n = old if type(old) is int else 1 << 20
        st.memcpy(p, ptr, n if type(size) is not int else min(n, size))
        st.x['live'] = st.x['live'] - {atom}
        st.log('realloc', ptr, size, p)
        return p

    def fresh(self, st, size, ev):
        self.n += 1
        p = st.new_obj('block%d' % self.n, 'undef')
        a = p.t[0][0]
        a.meta.update(heap=True, fresh=True, size=size)
        a.nonnull = True
        st.x['live'] = st.x.get('live', frozenset()) | {a}
        if ev:
            st.log(ev, p, size)
        return p

    def size(self, st, atom):
        return st.x.get('sizes', {}).get(atom, atom.meta.get('size'))

    # ------------------------------------------------------------ accesses
    def access(self, st, p, n, what):
        if type(p) is int:
            return
        a = None
        for x, k in p.t:
            if k == 1 and x.kind == 'obj' and x.meta:
                a = x
        if a is None:
            return
        if a.meta.get('heap') and a not in st.x.get('live', frozenset()):
            self.bad(st, '%s of the released block %s' % (what, a.name))
            return
        if not self.bounds:
            return
        size = self.size(st, a)
        if size is None:
            return
        off = add(p, A(a), -1)
        room = add(size, add(off, n), -1)
        for v, t in ((off, 'before the start of'), (room, 'beyond the end of')):
            if type(v) is int:
                if v < 0:
                    self.bad(st, '%s %s the block %s' % (what, t, a.name))
            else:
                d = st.decide(E.mk_le(add(v, 1)))      # v < 0 ?
                if d is True:
                    self.bad(st, '%s %s the block %s' % (what, t, a.name))
                elif d is None:
                    st.log('unbounded', t, a, v, what, st_where(self.en, st))

    def install(self, en):
        self.en = en
        prev = en.indirect

        def indirect(e, st, target, args, inst):
            if target is self.alloc:
                return self.call(e, st, args, inst)
            if prev:
                return prev(e, st, target, args, inst)
            st.log('indirect', target, tuple(args))
            if inst.ty.k == 'struct':
                return AggV([fresh('ret.%d' % k, t.w or 64) for k, t in enumerate(inst.ty.el)])
            return fresh('ret', inst.ty.w or 64)
        en.indirect = indirect

        def on_load(e, st, p, n, inst):
            self.access(st, p, n, 'a read')

        def on_store(e, st, p, n, v, inst):
            self.access(st, p, n, 'a write')
        en.on_load = on_load
        en.on_store = on_store

        def wrap(name, pairs):
            old = E.BUILTINS[name]

            def f(e, st, a, i):
                for k, n, what in pairs:
                    ln = a[n] if n is not None else 1
                    if ln != 0:
                        self.access(st, a[k], ln, what)
                return old(e, st, a, i)
            return f
        for nm, pairs in (('llvm.memcpy', ((0, 2, 'a copy'), (1, 2, 'a copy'))), ('llvm.memmove', ((0, 2, 'a copy'), (1, 2, 'a copy'))),
                          ('memcpy', ((0, 2, 'a copy'), (1, 2, 'a copy'))), ('memmove', ((0, 2, 'a copy'), (1, 2, 'a copy'))),
                          ('llvm.memset', ((0, 2, 'a fill'),)), ('memset', ((0, 2, 'a fill'),)),
                          ('strlen', ((0, None, 'a read'),)), ('strcmp', ((0, None, 'a read'), (1, None, 'a read'))),
                          ('memcmp', ((0, 2, 'a read'), (1, 2, 'a read')))):
            w = wrap(nm, pairs)
            for full in ([nm] if not nm.startswith('llvm.') else
                         [f for f in self.T.m.funcs if f == nm or f.startswith(nm + '.')]):
                if full not in en.hooks:
                    en.hooks[full] = w


def st_where(en, st):
    return en.where(st)
