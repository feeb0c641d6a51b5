"""What the virtual machine does for one instruction, derived from its execution function."""
from tiny import *


class VM:
    def __init__(self, T):
        self.T = T
        self.m = T.m
        self.ops = {k[len('TINY_OP_'):]: v for k, v in T.m.enums().items() if k.startswith('TINY_OP_')}
        if not self.ops:
            raise Missing('opcode enumeration')
        self.names = {v: k for k, v in self.ops.items()}
        self.vt = {k: v for k, v in T.m.enums().items() if k.startswith('TINY_VAL_')}
        T.fn('Tiny_ExecuteCycle')
        self.cycle = 'Tiny_ExecuteCycle'
        self.vsize = T.size('Tiny_Value')
        self.cache = {}

    def setup(self, residue):
        """an arbitrary thread about to execute the instruction at address 8q+residue"""
        T = self.T
        st = State()
        v = {}
        v['q'] = fresh('q', 64, 0, 1 << 20)
        v['code'] = st.new_obj('code', 'init')
        v['state'] = st.new_obj('state', 'init')
        v['thread'] = st.new_obj('thread', 'init')
        v['globals'] = st.new_obj('globals', 'init')
        v['fpcs'] = st.new_obj('functionPcs', 'init')
        v['ffs'] = st.new_obj('foreignFunctions', 'init')
        v['sp'] = fresh('sp', 32, 20, 90)
        v['fp'] = fresh('fp', 32, 10, 15)
        v['fc'] = fresh('fc', 32, 1, 60)
        v['pc'] = add(mul(v['q'], 8), residue)
        v['residue'] = residue
        th, sta = v['thread'], v['state']
        T.set(st, sta, 'Tiny_State', 'program', v['code'])
        T.set(st, sta, 'Tiny_State', 'functionPcs', v['fpcs'])
        T.set(st, sta, 'Tiny_State', 'foreignFunctions', v['ffs'])
        T.set(st, th, 'Tiny_StateThread', 'state', sta)
        T.set(st, th, 'Tiny_StateThread', 'globalVars', v['globals'])
        T.set(st, th, 'Tiny_StateThread', 'pc', v['pc'])
        T.set(st, th, 'Tiny_StateThread', 'sp', v['sp'])
        T.set(st, th, 'Tiny_StateThread', 'fp', v['fp'])
        T.set(st, th, 'Tiny_StateThread', 'fc', v['fc'])
        T.set(st, th, 'Tiny_StateThread', 'numObjects', 0)
        T.set(st, th, 'Tiny_StateThread', 'maxNumObjects', 8)
        return st, v

    def code_ptr(self, v, off):
        return add(add(v['code'], v['q'], 8), off)

    def run(self, opcode, residue, prepare=None, hooks=None):
        """paths of one cycle; each is (result, info)"""
        T = self.T
        st, v = self.setup(residue)
        st.store(self.code_ptr(v, residue), 1, E.signed(opcode, 8))
        if prepare:
            prepare(st, v)
        eng = Engine(self.m, hooks=hooks)
        codekey = self.code_ptr(v, 0).t
        self.v = v

        def indirect(en, s, target, args, inst):
            a = target.atom()
            if a is not None and a.kind == 'init':
                key, o = a.args
                base = [x for x, k in key if x.kind == 'obj']
                if base and A(base[0]) is v['thread'] and o == T.off('Tiny_StateThread', 'ctx.alloc'):
                    p = s.new_obj('heap%d' % E.Atom.n, 'undef')
                    p.t[0][0].meta['fresh'] = True
                    p.t[0][0].meta['size'] = args[1]
                    s.log('alloc', args[0], args[1], p)
                    return p
            s.log('foreign', target, tuple(args))
            if inst.ty.k == 'struct':
                return AggV([fresh('ret.%d' % k, t.w or 64) for k, t in enumerate(inst.ty.el)])
            return fresh('ret', inst.ty.w or 64)
        eng.indirect = indirect

        def on_load(en, s, p, size, inst):
            if type(p) is Lin and p.t == codekey:
                s.log('code', p.c, size)
        eng.on_load = on_load
        old = E.BUILTINS['llvm.memcpy']

        def mc(en, s, a, i):
            if type(a[1]) is Lin and a[1].t == codekey:
                s.log('code', a[1].c, a[2])
            return old(en, s, a, i)
        eng.hooks['llvm.memcpy.p0.p0.i64'] = mc
        eng.hooks['memcpy'] = mc
        res = eng.run(self.cycle, [v['thread']], st)
        self.eng = eng
        out = []
        for r in res:
            out.append((r, self.info(r, v)))
        return out, v

    def info(self, r, v):
        T = self.T
        s = r.st
        th = v['thread']
        d = {'kind': r.kind}
        for f in ('pc', 'sp', 'fp', 'fc'):
            d[f] = T.get(s, th, 'Tiny_StateThread', f)
        d['code'] = sorted({(e[1], e[2]) for e in s.events() if e[0] == 'code'})
        dpc = add(d['pc'], mul(v['q'], 8), -1)
        d['len'] = dpc - v['residue'] if type(dpc) is int else None
        return d

    # ------------------------------------------------------------- decode table
    def decode(self, opcode, residue):
        """(operands, length, kind) of an instruction: operands = [(offset from pc, size)],
        kind in next/jump/cond/call/ret/halt, or None when the opcode is not executable"""
        k = (opcode, residue)
        if k in self.cache:
            return self.cache[k]
        paths, v = self.run(opcode, residue)
        live = [(r, i) for r, i in paths if r.kind == 'ret']
        bad = [r for r, i in paths if r.kind in ('cut', 'crash')]
        if not live:
            self.cache[k] = None
            return None
        operands = set()
        lens = set()
        kinds = set()
        for r, i in live:
            for o, sz in i['code']:
                if not (o == residue and sz == 1):
                    operands.add((o - residue, sz))
            pc = i['pc']
            if i['len'] is not None:
                lens.add(i['len'])
                kinds.add('next')
            elif type(pc) is int and pc < 0:
                kinds.add('halt')
            else:
                src = self.pc_source(pc, v)
                kinds.add(src[0])
        res = {'operands': sorted(operands), 'lens': lens, 'kinds': kinds, 'paths': live, 'v': v, 'bad': bad}
        # where decoding ends for instructions which do not fall through
        end = 1
        for o, sz in operands:
            end = max(end, o + sz)
        res['end'] = end
        self.cache[k] = res
        return res

    def pc_source(self, pc, v):
        """where a new program counter comes from"""
        a = pc.atom() if isinstance(pc, Lin) else None
        while a is not None and a.kind == 'op' and a.args[0] in ('zext', 'trunc', 'ext'):
            x = a.args[1]
            a = x.atom() if isinstance(x, Lin) else None
        if a is not None and a.kind == 'init':
            key, o = a.args
            ks = {A(x): k for x, k in key}
            if v['code'] in ks:
                return ('jump', o)
            if v['fpcs'] in ks:
                return ('call', a)
            if v['thread'] in ks:
                return ('ret', a)
        return ('other', pc)
