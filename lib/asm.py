"""Assembling small programs for the virtual machine: where operands go is read off the machine itself (lib/vm.py)."""
from vm import *


class Asm:
    def __init__(self, vm):
        self.vm = vm
        self.data = []                     # (offset, size, value)
        self.pc = 0
        self.starts = []

    def label(self):
        return self.pc

    def op(self, name, *operands):
        vm = self.vm
        if name not in vm.ops:
            raise Missing('TINY_OP_' + name)
        d = vm.decode(vm.ops[name], self.pc % 8)
        if d is None:
            raise Missing('a meaning of TINY_OP_' + name)
        if len(d['operands']) != len(operands):
            raise Missing('%s with %d operands (it has %d)' % (name, len(operands), len(d['operands'])))
        self.starts.append(self.pc)
        self.data.append((self.pc, 1, E.signed(vm.ops[name], 8)))
        for (o, sz), v in zip(d['operands'], operands):
            self.data.append((self.pc + o, sz, E.signed(v, 8 * sz) if type(v) is int else v))
        self.pc += max(d['end'], max(d['lens'] or [0]))
        return self

    def put(self, st, code):
        for o, sz, v in self.data:
            st.store(code, sz, v, o)
