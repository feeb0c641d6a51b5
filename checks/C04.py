from codegen import *

LEVEL = 'other'
FLOOR = 1500
GROUPS_ = {'literal', 'variable', 'operator', 'field', 'other'}
RULE = ('For every operator and every pair of operand kinds the type rules admit, for literals (symbolic payload, full '
        'width), constants, variables, fields, casts and negations, compiled from opaque operands: the emitted code, '
        'interpreted abstractly by the IR of the execution function, evaluates each operand exactly once from left to '
        'right (&& and || and the conditional only the operands their outcome needs), and leaves a value whose type '
        'and payload term are those the language defines for the operand terms. Division of ints by zero is excluded.')


def run(T, C):
    out, stats, reached = run_all(T, groups=GROUPS_)
    report(C, out, stats, reached, {'meaning', 'encode', 'balance', 'reject'})
