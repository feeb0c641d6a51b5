"""Emitted instructions are decoded as they were emitted."""
from codegen import *

LEVEL = 'other'
FLOOR = 3000
RULE = ('For every construct of the language, with symbolic operands and opaque sub-constructs, and for each of the 8 '
        'alignments of the code position, the bytes the emission functions append (abstract interpretation of their '
        'IR) are decoded with the operand table derived from the IR of the execution function: every opcode byte must '
        'be one the machine executes, every operand the machine reads must have been emitted completely, decoding must '
        'end exactly where the construct ends, operands of literals, variables, fields, constructors and calls must arrive with the value written, '
        ' and every program counter the machine can reach must be the first byte '
        'of an instruction.')


def run(T, C):
    out, stats, reached = run_all(T)
    # an operand that arrives with another value shows as the wrong meaning of a construct that only carries operands
    carriers = ('literal', 'variable', 'field', 'constructor', 'index', 'call', 'assign')
    out = [x if x[0] != 'meaning' or x[1] not in carriers else ('encode',) + tuple(x[1:]) for x in out]
    report(C, out, stats, reached, {'encode'})
