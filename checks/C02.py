from codegen import *

LEVEL = 'other'
FLOOR = 3000
RULE = ('Stack-effect analysis: for every construct, alignment and path through its emitted code (abstract '
        'interpretation of the execution function over the emitted bytes) the height of the stack relative to the '
        'start is exactly +1 after an expression and 0 after a statement and before each sub-statement or condition, '
        'the frame registers are those of the start, and no stack slot, variable, frame or heap field outside the '
        'target of an assignment has changed.')


def run(T, C):
    out, stats, reached = run_all(T)
    report(C, out, stats, reached, {'balance'})
