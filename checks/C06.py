from codegen import *

LEVEL = 'other'
FLOOR = 400
RULE = ('For calls of foreign, variadic and script functions with 0-3 and up to 60 arguments (as expression and as statement), '
        'index accessors, constructors (positional and every order of three named fields, up to 60 fields) and function bodies with '
        'up to 255 locals and up to 100 parameters ending by falling off, return and return-value: the analysed code '
        'evaluates arguments in order, enters exactly the named function with exactly those values as parameters and '
        'null locals, yields its result, and on return restores the pc, frame and stack height of the caller.')


def run(T, C):
    out, stats, reached = run_all(T, groups={'call', 'function', 'constructor', 'index'})
    report(C, out, stats, reached, {'meaning', 'encode', 'balance', 'reject'})
