from codegen import *

LEVEL = 'other'
FLOOR = 900
RULE = ('For every assignment operator, kind of target (global, local, parameter, fields of structs of up to 255, element '
        'through foreign and script accessors) and operand form: the path-sensitive analysis of the emitted code shows '
        'that the right side, the target object and the index are evaluated exactly once, that exactly the target '
        'cell is written (with the operator applied to the old value for compound forms) and that no other variable, '
        'field, stack slot or register changes.')


def run(T, C):
    out, stats, reached = run_all(T, groups={'assign'})
    report(C, out, stats, reached, {'meaning', 'encode', 'balance', 'reject'})
