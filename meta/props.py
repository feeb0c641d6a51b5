"""The properties and how each is decided: properties.jsonl and MANIFEST.json are generated from here (python3 meta/props.py)."""
import json
import os

TINY, STD, LEX, DICT, ARR, ARENA, UTIL = ('tiny/src/tiny.c', 'tiny/src/std.c', 'tiny/src/lexer.c', 'tiny/src/dict.c',
                                          'tiny/src/array.c', 'tiny/src/arena.c', 'tiny/src/util.c')
ABS = 'path-sensitive abstract interpretation of the LLVM IR'
TRUST = 'Trusts the clang 18 front end, the IR semantics in lib/ir.py and lib/eng.py and the reference written in the check; '
P = []
NA = []


def prop(pid, title, statement, over, text, tests, files, mechanism, technique, note, thorough=False):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, tests=tests, files=files,
                  mechanism=mechanism, technique=technique, note=note, thorough=thorough))


def na(pid, title, statement, over, text, tests, files, mechanism, reason):
    NA.append(dict(id=pid, title=title, statement=statement, over=over, text=text, tests=tests, files=files,
                   mechanism=mechanism, reason=reason))


prop('C01', 'Compiled code is executed instruction by instruction as it was emitted',
     'For every language construct and whatever precedes it in the program, the bytes the compiler emits are read by the '
     'virtual machine as exactly the instructions and operands the compiler meant: every opcode is one the machine executes, '
     'every operand is complete and arrives with the value (and from the aligned position) it was written with, and control '
     'only ever reaches the first byte of an instruction.',
     ['programs'], 'all constructs of the language, all operand values, all code positions modulo the operand alignment',
     'The tests compile a few programs at the alignments they happen to have; a wrong padding or operand width shows only at '
     'some code positions and operand values.',
     [TINY], [('code generation and operand alignment', TINY + ': GenerateCode, Generate*, CompileExpr, CompileStatement'),
              ('instruction decoding', TINY + ': ExecuteCycle, ReadConstIndex, ReadInteger, ReadFloat')],
     'abstract interpretation of the emitter and of the executor; agreement of encoding and decoding per opcode and alignment',
     TRUST + 'constructs are composed from opaque parts, so nesting is covered by induction; operand counts are sampled up to '
     'three (see C07 for the limits).')

prop('C02', 'Evaluation keeps the value stack balanced',
     'Evaluating any expression leaves exactly one value on the stack above what was there before, executing any statement '
     'leaves the stack exactly as high as before, and neither disturbs values, variables, frames or objects other than the '
     'ones it is defined to write, on every path through the construct.',
     ['programs', 'inputs'], 'all constructs, all paths through them, all values of their parts',
     'A leaked or missing stack slot only shows when a construct repeats until the stack is exhausted or an enclosing '
     'expression holds a value below it; tests sample a few nestings.',
     [TINY], [('stack discipline of emitted code', TINY + ': CompileExpr, CompileStatement, CompileCall'),
              ('stack effect of each instruction', TINY + ': ExecuteCycle, DoPush, DoPop, DoPopIndir')],
     'stack-effect analysis: ' + ABS + ' of the executor over the symbolically emitted code',
     TRUST + 'sub-constructs are assumed to obey the property themselves (induction over the syntax); host functions are '
     'assumed not to touch the stack except through the interface.')

prop('C03', 'Control structures execute exactly the statements they should',
     'if/else, while, for, break, continue, return, blocks and the conditional operators evaluate their conditions and '
     'sub-statements in exactly the order and number the language defines for every sequence of condition outcomes, in any '
     'nesting; break and continue outside a loop are compile errors.',
     ['programs', 'inputs'], 'all control-structure shapes up to two nested loops, all sequences of condition outcomes up to the event bound',
     'The outcome sequences and nestings are unbounded; tests execute a handful of fixed loops.',
     [TINY], [('jump generation and patching', TINY + ': GenerateJump, CompileStatement, PatchBreakContinue'),
              ('jump execution', TINY + ': ExecuteCycle')],
     ABS + ' of emitter and executor, compared with a structural reference semantics',
     TRUST + 'each shape is followed for a bounded number of evaluations of its opaque parts.')

prop('C04', 'Expressions evaluate to what the language defines',
     'Every operator applied to every combination of operand types the type rules admit, every literal, constant, variable, '
     'field access, cast and negation yields the type and value the language defines, evaluating each operand exactly once '
     'from left to right and short-circuiting && and ||. Integer division by zero is outside the property.',
     ['programs', 'inputs'], 'all operators and operand type combinations, all operand values',
     'Operand values are 64 bits wide and the dispatch is on run-time types; tests use a few small values per operator.',
     [TINY], [('operator dispatch', TINY + ': CompileExpr'), ('operator execution', TINY + ': ExecuteCycle')],
     ABS + ' of emitter and executor, result terms compared with the defining term of each operator',
     TRUST + 'arithmetic is compared as terms over the operands (wrap-around integer and IEEE double operations of the IR).')

prop('C05', 'Assignments write exactly their target',
     'An assignment or compound assignment to a variable, struct field or element evaluates its right side exactly once and, '
     'unless it is compound, its target object and index exactly once; it stores the value of the right side (combined with the old value by the operator for compound '
     'forms) into exactly that target, and changes nothing else.',
     ['programs', 'inputs'], 'all assignment operators, target kinds and operand forms, all values',
     'Tests assign to a few variables and rarely look at the neighbours of the target.',
     [TINY], [('assignment compilation', TINY + ': CompileStatement, CompileGetLHS'),
              ('stores', TINY + ': ExecuteCycle')],
     ABS + ' of emitter and executor with a write-set (frame) comparison',
     TRUST + 'element access is decided for foreign and script accessor functions.')

prop('C06', 'Calls, functions and constructors pass values correctly',
     'A call evaluates its arguments once in order, enters exactly the named function with exactly those values as its '
     'parameters and with its other locals null, yields the value it returns, and on return the caller continues with its '
     'own frame and stack height restored; a constructor yields a new object whose every field holds the value given for it.',
     ['programs', 'inputs'], 'foreign, variadic and script functions with 0 to 3 arguments, positional and named constructors in every order, function bodies by form of return',
     'Depends on the combination of argument count, locals and position; tests use a few combinations.',
     [TINY], [('call compilation', TINY + ': CompileCall, CompileCallSymbolWithArgsPrepared'),
              ('frames', TINY + ': ExecuteCycle, DoPushIndir, DoPopIndir'),
              ('constructors', TINY + ': CompileExpr, NewStructObject')],
     ABS + ' of emitter and executor, frame and object contents compared per path',
     TRUST + 'argument counts above three follow the same loop; their encoding limit is C07.')

prop('C07', 'Programs that exceed an encoding limit are refused, never miscompiled',
     'Whenever a count or index of the program (call arguments, constructor arguments, locals, struct fields, literals, '
     'variables, functions) does not fit the operand that encodes it, compilation reports an error; every program that is '
     'accepted executes with the counts and values written in the source.',
     ['programs'], 'counts at and around every encoding boundary, all operand values',
     'The limits lie far above anything a test writes by hand.',
     [TINY], [('limit checks', TINY + ': CompileExpr, CompileCallSymbolWithArgsPrepared, CompileProgram, ParseStruct')],
     ABS + ' of the emitter at every encoding boundary, decoded with the operand table of the executor',
     TRUST + 'counts are enumerated at the power-of-two boundaries, values are symbolic over their whole width.')

prop('C08', 'The disassembler shows what the machine would execute',
     'For every instruction at every alignment, the disassembler names the instruction the machine would execute, shows the '
     'operands the machine would use, and advances by exactly the length of that instruction.',
     ['programs'], 'all opcodes, all alignments, all operand bytes', 'No test runs the disassembler.',
     [TINY], [('disassembly', TINY + ': Tiny_DisasmOne'), ('decoding', TINY + ': ExecuteCycle')],
     ABS + ' of two sibling decoders compared per opcode and alignment', TRUST + 'the text layout is not part of the property.')

prop('C09', 'The parser accepts exactly the language and builds its trees',
     'Every sentence of the grammar is parsed to the tree the grammar gives it, with the right operator precedence and '
     'associativity, declaring exactly the variables, functions, parameters and structs it declares with their indices, types '
     'and scopes; every token sequence that is not a sentence (wherever it ends) is reported as a compile error and never '
     'loops, crashes or yields a tree.',
     ['inputs', 'programs'], 'all productions and all one-token edits of them, with opaque sub-sentences',
     'Tests parse some dozens of programs and almost no malformed ones.',
     [TINY], [('recursive descent', TINY + ': ParseProgram, ParseStatement, ParseExpr, ParseFactor, ParseTypeL, ParseStruct, ParseFunc')],
     ABS + ' of each parsing function over token templates, compared with a reference grammar',
     TRUST + 'lists are followed up to three items; deeper sentences by induction over opaque sub-sentences.', True)

prop('C10', 'Names denote the right entity and declarations are checked',
     'A name refers to the innermost visible local, then a parameter, then a global or constant of that name, and a function or '
     'type name to the entity registered under exactly that name; a declaration is refused exactly when it conflicts with a '
     'visible one and otherwise creates one entity with the next free index; leaving a scope hides exactly the variables '
     'declared in it; using a name that denotes nothing is a compile error.',
     ['programs', 'histories'], 'all symbol tables of up to three entries per table with arbitrary names, kinds and scopes',
     'Depends on which names coincide and on scope nesting; tests use distinct names nearly everywhere.',
     [TINY], [('lookup', TINY + ': ReferenceVariable, ReferenceFunction, GetTagFromName'),
              ('declaration', TINY + ': DeclareGlobalVar, DeclareArgument, DeclareLocal, DeclareConst, DeclareFunction, OpenScope, CloseScope')],
     ABS + ' over symbol tables with uninterpreted name equality (every equality pattern is a path)',
     TRUST + 'tables of more than three entries behave as their elements do in the loop.')

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'more.py')).read())
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'declined.py')).read())


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
        for p in sorted(P + NA, key=lambda p: p['id']):
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['tests'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']]}}) + '\n')
    checks = []
    for p in P:
        c = {'property': p['id'], 'quick_cmd': 'python3 checks/run.py %s' % p['id'],
             'technique': 'static analysis: ' + p['technique'], 'level': 'other', 'level_note': p['note']}
        if p["thorough"]:
            c['thorough_cmd'] = 'VERIF_TIER=thorough python3 checks/run.py %s' % p['id']
        checks.append(c)
    m = {'version': 1, 'setup_cmd': 'python3 -m py_compile checks/*.py lib/*.py && clang-18 --version >/dev/null', 'checks': checks,
         'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA]}
    with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
