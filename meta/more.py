# further properties, executed by props.py
prop('C11', 'Operators and constructs accept exactly the types the rules admit',
     'Every operator, condition, index, field access, cast, constructor and call position accepts exactly the operand types the '
     'type rules admit and gives the resulting expression the type they define; a program in which an ill-typed expression '
     '(or an undeclared name) '
     'occurs in any position of any statement or expression is refused with a compile error.',
     ['programs'], 'all operators and typed constructs, all combinations of operand types, every position an expression can occur in',
     'The rules are a product of operators, types and positions; tests compile well-typed programs and a few ill-typed ones.',
     [TINY], [('type resolution', TINY + ': ResolveTypes'), ('type checks of code generation', TINY + ': CompileExpr, CompileStatement')],
     ABS + ' of the compiler\'s back half compared with a reference type system (type-judgement agreement)',
     TRUST + 'types are drawn from primitives, two structs, two foreign types and nullables, which are uniform in their names.')

prop('C12', 'Values only flow to places whose type accepts them',
     'A value is accepted in an assignment, argument, returned value, constructor field, index or element exactly when its type '
     'is assignable to the type declared there: the same type, any type but void to any, a type or its own nullable to the '
     'nullable type, and any only to any.',
     ['programs'], 'all pairs of source and destination type in every position in which a value flows to a typed place',
     'A hole in one position for one pair of types lets an object be used as another type at run time.',
     [TINY], [('assignability', TINY + ': CompareTags, IsTagAssignableTo, ResolveTypes, CompileStatement, CompileCall')],
     ABS + ' of the compiler\'s back half compared with the reference assignability relation',
     TRUST + 'types as in C11.')

prop('C13', 'Calls and constructors take exactly the arguments of their signature',
     'A call of a function with a fixed signature is refused unless it has exactly as many arguments as parameters, a call of a '
     'variadic function unless it has at least its fixed ones, a positional constructor unless it has one value per field, a '
     'named constructor unless it names each field exactly once; calls of unknown functions and uses of undefined structs are '
     'refused, and everything else is accepted.',
     ['programs'], 'kinds of function, 0-4 parameters, 0-6 arguments, constructors of 0-4 fields with every sequence of names',
     'A missing argument check reads below the frame at run time; tests call functions with the right number.',
     [TINY], [('arity checks', TINY + ': ResolveTypes, CompileCall, CompileExpr')],
     ABS + ' of the compiler\'s back half compared with the reference arity rules',
     TRUST + 'counts beyond those enumerated follow the same loops.')

prop('C14', 'Source text is split into the tokens of the language',
     'For every source text the lexer yields exactly the tokens of the language with their texts, values and line numbers: '
     'longest operators first, keywords only as whole words, literals with their escapes and full-width values, comments and '
     'white space skipped and lines counted; malformed literals and unknown characters are errors, and no byte beyond the '
     'terminating zero is ever read.',
     ['inputs'], 'all character classes the lexer distinguishes in one to three positions, and templates of every token form with edits and truncations',
     'Input is unbounded text; tests only lex a few well-formed programs.',
     [LEX], [('scanning', LEX + ': Tiny_GetToken')],
     'finite-state analysis: ' + ABS + ' of the lexer over the quotient of the alphabet by the character tests it performs',
     TRUST + 'longer tokens are loops over the classes covered.', True)

prop('C15', 'A failed compilation leaves the state as it was',
     'When a compilation fails at any point (syntax, names, types, limits, macros, code generation, initialisation checks), in a '
     'new or used state and also when it was started by a macro of another compilation, everything that was declared, compiled '
     'and recorded before is exactly as it was, nothing of the failed program remains declared or defined, what it allocated is '
     'released once, and the caller gets the reported error; any number of compilations can follow.',
     ['programs', 'histories', 'faults'], 'all points of failure, new and used states, any nesting level, any effect of the phases before the failure',
     'Tests compile a failing program in a fresh state and look at the message; what is left behind shows only in later '
     'compilations of the same state.',
     [TINY], [('recovery', TINY + ': Tiny_CompileString, ThrowCompileError'), ('release', TINY + ': Symbol_destroy')],
     ABS + ' of the entry point with setjmp/longjmp, parsing and code generation replaced by their whole effect (checked by a '
     'mod-ref analysis), ownership tracked per allocated block',
     TRUST + 'the effect of the phases is over-approximated, symbols of one of each kind stand for any number.')

prop('C16', 'A successful compilation extends the program and applies its macros',
     'A successful compilation keeps all earlier code and symbols in place, appends the code of the statements in order where the '
     'final halt was and ends with one halt; every macro named by a use statement runs once, in order, before types are '
     'resolved, with exactly the written arguments and alias; foreign functions bound before or by macros are in the table '
     'at their index; unknown or failing macros, too many macro arguments, structs left undefined and variables never '
     'initialised are errors; the lexer and parse tree are released.',
     ['programs', 'histories'], 'programs of opaque statements and macro uses in new and used states, every kind of symbol',
     'Tests use one macro once and rarely compile twice in one state.',
     [TINY], [('compilation', TINY + ': Tiny_CompileString, CompileState, CompileProgram'),
              ('final checks', TINY + ': CheckInitialized, BuildForeignFunctions')],
     ABS + ' of the entry point with opaque statements; event order and memory contents compared with the reference',
     TRUST + 'statements are opaque (their own compilation is C01-C13).')

prop('C17', 'Every error ends the compilation with a bounded message about the right place',
     'Every compile error, wherever it is detected, marks the result as an error, writes its message inside the message buffer '
     'and leaves the innermost compilation under way (the process when there is none), never returning to the code that found '
     'it; the message names the file and the line of the construct, shows the surrounding source lines with their '
     'numbers and marks the right one; message formats agree with their arguments; compilations started by the library itself '
     'have their result looked at; a source file that cannot be opened or read is an error, and one that can is compiled as '
     'read, closed and released.',
     ['programs', 'inputs'], 'all error reporters, all message formats, sources of every shape up to a dozen lines with every position, all paths of reading a file',
     'There are some eighty error sites; tests reach a few of them and never look at the message.',
     [TINY, UTIL], [('reporting', TINY + ': ThrowCompileError, ReportErrorL, ReportErrorSL, ReportErrorE, ReportErrorS'),
              ('formatting', UTIL + ': Tiny_FormatErrorV, Tiny_TranslatePosToLineNumber'), ('reading files', TINY + ': Tiny_CompileFile')],
     ABS + ' of the reporters, the formatter and file reading; format/argument type agreement and result-use lint at every call site',
     TRUST + 'sources longer than those enumerated follow the same loops.')

prop('C18', 'Positions and line records name the place in the source',
     'Every position in a source converts to the line and column it has, reading nothing outside the source; every program '
     'counter is attributed to the file and line of the last statement that begins at or before it (none when no line is '
     'recorded or the thread does not run); every compiled statement leaves exactly one record for its first instruction with its file and line, records '
     'stay in the order of the code and those of earlier statements are kept; the nodes of the parser carry a position and '
     'line inside the construct or, for binary expressions, parentheses and break, of the token right after it.',
     ['programs', 'inputs'], 'all short sources and positions, line tables of 0-9 symbolic records, every kind of statement in states with and without earlier records and file names',
     'Line tables are searched by bisection over program counters; tests look up a couple of lines.',
     ['tiny/src/pos.c', TINY], [('positions', 'tiny/src/pos.c: Tiny_PosToFriendlyPos'),
              ('line records', TINY + ': AddPCFileLineRecord, GetFileLineForPC, Tiny_GetExecutingFileLine, CompileStatement'),
              ('node positions', TINY + ': Expr_create, ParseValue, ParseStatement')],
     ABS + ' of position conversion, line lookup and statement compilation compared with the reference',
     TRUST + 'longer sources and tables follow the same loops.')

prop('C19', 'Collection keeps exactly what the program can still reach',
     'When an instruction collects, every object the thread can still reach - from its stack, global variables and return '
     'value, through struct fields of any shape including cycles, through the mark callbacks of natives, through arrays and '
     'dictionaries - stays allocated, listed and unmarked, and every other object is finalised exactly once with its '
     'address and context and then released with everything it owns; the object count is the length of the list. Nothing is '
     'released when no collection is due or by allocating an object; a new object is listed once, unmarked, with exactly the '
     'given contents. The end of a thread finalises and releases every object and the global variables.',
     ['programs', 'histories'], 'all graphs of up to three structs, all kinds of objects and roots, all instructions with objects in their operands, the library\'s containers after every way to fill them',
     'Collections happen when the object count passes a threshold; whether something is still reachable depends on the whole '
     'history of the program, of which tests run a few.',
     [TINY, 'tiny/src/std.c'], [('collector', TINY + ': GarbageCollect, MarkAll, Sweep, Tiny_ProtectFromGC, DeleteObject'),
              ('allocation', TINY + ': NewObject, Tiny_NewString, Tiny_NewNative'), ('containers', 'tiny/src/std.c: ArrayMark, DictProtectFromGC')],
     ABS + ' of every instruction and of the collector over heaps of every small shape, ownership tracked per allocated block; '
     'reachability computed independently on the abstract heap before and after',
     TRUST + 'larger heaps repeat the shapes covered (the collector looks at one object at a time).')

STD = 'tiny/src/std.c'
prop('C20', 'An array is a sequence',
     'Every array type bound by `use array` behaves as a sequence of values: construction from any number of arguments, '
     'length, reading and assigning by index (function and index syntax alike), push, pop, shift, insert, remove, clear, resize '
     'with and without a fill value give what the same operation on a sequence gives, for every length, amount of spare room and '
     'kind of value, keep all other elements, and touch no memory outside the array. An index or length outside the array '
     '(including one that differs from a valid one only in its upper half) stops the program, as do pop and shift of an empty array. '
     'Sorting covers exactly the elements and orders integers of the whole range.',
     ['inputs', 'histories'], 'all lengths up to four reached in six ways, all operations, all indexes around the bounds and at the limits of integers, long mixed histories',
     'Tests use small arrays with valid indexes; growth, shrinking and out-of-range accesses depend on the history of the array.',
     [STD, 'tiny/src/array.c', 'tiny/src/stretchy_buffer.h'], [('operations', 'tiny/src/array.c'), ('bindings', STD + ': ArrayMacroFunction, Lib_Array*'), ('order', STD + ': CompareInts')],
     ABS + ' of every bound function over arrays of every small length and capacity, compared with a sequence; bounds of every access tracked per block',
     TRUST + 'longer arrays run the same loops; the C library\'s qsort sorts.')

prop('C21', 'A dictionary is a map',
     'Every dictionary type behaves as a map from keys to values: after any history of construction, put, replacement, removal '
     'and clear, looking a key up gives the value put last or null, exists tells whether it is there, and keys and values list '
     'every entry once and in the same order, whatever keys collide, probe into each other or wrap around the end of the table, and '
     'across growth. Equal values are the same key (a text in any representation, positive and negative zero, two objects of '
     'one native), different ones are not; an odd number of constructor arguments stops the program; no memory outside the table '
     'is touched.',
     ['inputs', 'histories'], 'all histories on a table that does not grow (by induction over every valid arrangement of up to four entries in eight places), histories in five collision patterns, clusters of seven with every removal, growth at the limit, all kinds of keys',
     'Whether an entry survives a removal depends on which keys collided in which order; tests insert a few strings.',
     [STD, 'tiny/src/dict.c'], [('table', 'tiny/src/dict.c: DictSet, DictGet, DictRemove, Grow, HashValue'), ('bindings', STD + ': Lib_Dict*, CreateDict')],
     ABS + ' of every bound function over histories with colliding keys, compared with a map; hash/equality agreement on symbolic values; induction over all table states of a bounded size',
     TRUST + 'tables beyond 128 buckets follow the same code.')

prop('C22', 'A host can start, step, call into and inspect a thread without disturbing it',
     'An initialised thread is done, empty, has a null result and uses the given state and context; starting it puts it at the '
     'beginning with every global variable null, and starting again keeps the variables; running executes instructions until '
     'the program ends and afterwards nothing. Calling a function from the host - on a thread that was never started, between two '
     'steps, or from inside a native function - runs exactly that function with exactly the given arguments in order, returns '
     'its result, and leaves program counter, stack, frames, return value and other global variables as they were, also when '
     'objects are collected on the way. Native functions receive their arguments in order and on the stack. Looking a global '
     'variable or function up gives its index or -1; reading and writing a global variable touches exactly that one; an index '
     'that names none stops the program.',
     ['programs', 'histories'], 'threads in seven states, functions of every shape with up to four arguments, nested and re-entrant calls, every small index and the extremes, symbol tables with symbols of every kind',
     'Host calls interrupt a program at arbitrary points of its stack and collection state; tests call a function or two from rest.',
     [TINY, STD], [('threads', TINY + ': Tiny_InitThreadWithContext, Tiny_StartThread, AllocGlobals, ExecuteCycle, Tiny_Run'),
              ('host calls', TINY + ': Tiny_CallFunction, Tiny_GetGlobal, Tiny_SetGlobal'), ('lookup', TINY + ': Tiny_GetGlobalIndex, Tiny_GetFunctionIndex'),
              ('re-entry', STD + ': CallFunction')],
     ABS + ' of the host interface over small machine programs with opaque values; the thread before and after compared field by field, slot by slot',
     TRUST + 'instructions themselves are C01-C06.')

prop('C23', 'Values keep their type and payload, and equality is what it says',
     'A value made from a boolean, integer, float, text or address has that type and exactly that payload; every accessor '
     'returns the payload of the types it is for and the neutral result for all others, never treating another type\'s payload '
     'as its own; a struct field index outside the struct stops the program. Two values are equal exactly when both are null, '
     'equal booleans, integers or floats, texts of the same bytes in whatever representation (compared by length, not by '
     'terminator), natives of the same address, the same light address or the same struct; values of different types are never equal.',
     ['inputs'], 'every constructor and accessor on every kind of value with opaque payload; every ordered pair of some seventy values',
     'Tests compare a few strings and numbers; representations, lengths and mixed kinds are what goes wrong.',
     [TINY, 'tiny/include/tiny.h'], [('accessors', 'tiny/include/tiny.h; ' + TINY + ': Tiny_ToString, Tiny_StringLen, Tiny_ToAddr, Tiny_GetProp, Tiny_GetField'),
              ('equality', TINY + ': Tiny_AreValuesEqual'), ('constructors', TINY + ': Tiny_New*')],
     ABS + ' of the value functions (the inline ones included) on opaque payloads, compared with the definition',
     TRUST + 'longer texts run the same comparison.')

prop('C24', 'Library functions keep to their signatures',
     'Every function of the standard library (strings, numbers, files, input and output, i64, arrays, dictionaries) is bound '
     'under its documented signature and, called with any values of the types it declares - every representation and length of '
     'text, any number of further arguments for ... - reads only the arguments it was given and only as the types they have, '
     'returns a value of the declared type, does not alter the texts it is given, reads and writes no memory outside its own '
     'blocks and its arguments, closes every file it opens, and neither loses memory nor releases it twice, whether or not files can '
     'be opened and whatever is read from them.',
     ['inputs'], 'every native function, every kind and representation of each argument, up to three further arguments, files that open and that do not, input of every length around the buffer sizes',
     'Tests call most functions once with ordinary arguments and never look at failed files, empty input, or unusual representations of text.',
     [STD], [('functions', STD + ': Lib_*, Strcat, Lib_Input, Lib_Printf, Lib_ReadFile'), ('bindings', STD + ': Tiny_BindStandard*, Tiny_BindI64')],
     'signature conformance of native functions: ' + ABS + ' of each with arguments of its declared types, accessor uses and results checked against the types, ownership tracked per block',
     TRUST + 'the C library functions used are modelled by what they read, write and return; known findings: functions whose declared result admits no null but which give null on failure.')

prop('C25', 'Running a program changes nothing it shares',
     'Executing instructions, calling functions, collecting garbage, running library functions, inspecting and destroying a thread '
     'never write to the state the thread runs in - its code, constant texts, symbols, tables and counters - nor to any variable of '
     'the library, nor use C library functions with hidden state; so threads of one state cannot disturb each other, a state can '
     'be run again and again, and the whole library, compiler included, keeps nothing outside the states and threads it is given.',
     ['schedules', 'histories'], 'every write of every function reachable from a running thread, through any chain of calls, for any interleaving of threads',
     'Interference between threads shows under particular interleavings only; the tests run one thread at a time.',
     [TINY, STD, 'tiny/src/array.c', 'tiny/src/dict.c', UTIL], [('thread functions', TINY + ': every function with a Tiny_StateThread parameter'), ('natives', STD)],
     'interprocedural ownership (points-to root) and effect analysis of every write reachable from a thread; guard-sensitive treatment of the static primitive types',
     'Trusts the clang 18 front end, debug-info types and the C library\'s documented writes; host callbacks and allocators are assumed not to write to the state.')

prop('C26', 'Text, number, file and output functions compute what they say',
     'strlen, stridx, strchr, substr and strcat work on every text by its length, embedded terminators included, and an index or '
     'range outside the text stops the program; number functions convert every int exactly in both directions (str_to_int, stoi, ntos, '
     'int_to_str, the i64 functions), parse the longest number at the front of a text and clamp at the limits; floor and ceil are exact; '
     'the *_to_json functions give JSON that denotes the value; printf writes its format with each conversion replaced by its own '
     'argument, in order, and with %q every value in its documented form (arrays element by element); too few arguments stop the program; '
     'input gives exactly the next line of any length; read_file gives exactly the contents of the file, write_file leaves exactly the '
     'text in it, and fopen/fread/fwrite/fseek/fsize/fclose work at the exact position and with the exact amount asked for; no argument is altered.',
     ['inputs', 'histories'], 'texts of every representation with lengths around each buffer size, indexes and numbers around every limit, every conversion over every kind of value, sequences of file operations',
     'Tests call each function with a friendly argument; buffer sizes, representations and limits are where they go wrong.',
     [STD], [('functions', STD + ': Strlen, Stridx, Strchr, Lib_Substr, Strcat, Lib_Ntos, Lib_Stoi, Lib_Printf, Print, Lib_Input, Lib_ReadFile, Lib_WriteFile, Lib_F*'),
             ('i64', STD + ': Lib_I64*'), ('json', STD + ': Lib_PrimitiveToJson')],
     ABS + ' of every bound function on known arguments over a model of the C library (formatting, number parsing, a file system), compared with the definition',
     TRUST + 'the C library\'s own formatting and parsing is modelled, so its digits are not examined; printf %s of a text with embedded terminators is left open.')

prop('C27', 'Memory comes from the allocator it belongs to and goes back to it exactly once',
     'Nothing but the default allocator uses the C library\'s allocation; every other allocation, growth and release goes through the '
     'context of the state or thread it is for, with that context\'s userdata, and what runs on a thread never uses the state\'s context. '
     'The default allocator releases for size zero and otherwise gives a block of the asked size that keeps its contents. Whatever is '
     'bound to a state, every block it allocates is owned by the state, and deleting the state - with symbols of every kind, texts, code and '
     'tables - releases every one of them exactly once and touches none afterwards. Memory handed out while compiling is aligned, disjoint, '
     'inside its block and released as a whole; growing buffers keep their elements.',
     ['histories', 'inputs'], 'all functions (call graph and access paths); deletion of states with every kind of symbol with up to three parts; binding histories; arena requests of every opaque size and all short sequences of boundary sizes',
     'A test with a tracking allocator sees only the programs it compiles; symbols with unusual parts and boundary sizes leak or overlap unnoticed.',
     [TINY, STD, 'tiny/src/arena.c', UTIL, 'tiny/src/stretchy_buffer.h'],
     [('states', TINY + ': Tiny_CreateStateWithContext, Tiny_DeleteState, Symbol_destroy'), ('arena', 'tiny/src/arena.c'), ('wrappers', UTIL + ': TMalloc, TRealloc, TFree'),
      ('default allocator', TINY + ': Tiny_DefaultContext')],
     'call-graph and access-path rules; ownership analysis (' + ABS + ' with per-block typestate) of creation, binding and deletion',
     TRUST + 'allocation failure is not considered; threads are C19, native functions C24, compilations C15 and C16.')

prop('C29', 'What the host binds is exactly what it declared',
     'A signature given to Tiny_BindFunction is read completely: the function gets that name, exactly those parameter and result types '
     '(nullable, registered, defined and not yet defined ones included), variadic exactly when it ends in ..., the next number and the '
     'given callback; a bare name accepts anything. Registering a type makes it (or the undefined struct of that name) an opaque type '
     'once; constants have the given type and exact value, equal texts share one entry; macros have their callback. Nothing else in the '
     'state changes. Malformed signatures and names already taken by the same kind of thing stop the program instead of binding '
     'something. Looking a type, function, constant or text up finds exactly the entity of that kind and name, or none.',
     ['inputs', 'histories'], 'signatures of every shape with up to eight parameters over all kinds of types, malformed ones, all binding functions on states holding every kind of symbol',
     'Tests bind a few well-formed signatures; nullable, unknown and repeated names are not tried.',
     [TINY], [('bindings', TINY + ': Tiny_BindFunction, BindFunction, Tiny_RegisterType, Tiny_BindConst*, DeclareConst, RegisterString, Tiny_BindMacro'),
              ('types', TINY + ': ParseTypeL, GetTagFromName, GetOrCreateNullable'), ('lookup', TINY + ': Tiny_Find*Symbol, Tiny_GetStringFromConstIndex')],
     ABS + ' of the host interface; the symbol table compared with the declaration',
     TRUST + 'text after a complete signature and missing commas are left open.')

prop('C28', 'Exhausted stacks and values of the wrong kind stop the program',
     'An instruction or host call whose result does not fit the value stack or the call frames, a condition that is not a boolean, a field '
     'access on something that is not a struct or does not have that field, a return without a caller and a byte that is no instruction end '
     'the program by a failed assertion before anything outside the operands of the instruction is read or written. What does fit is executed: '
     'the stack and the frames can be used up to the last entry, and whatever kinds of values any other instruction meets, it touches only '
     'its operands and result. Integer division by zero is left to the platform.',
     ['programs', 'inputs'], 'every opcode and every byte that is none, every height of stack and frames around empty and full, every kind (pairs of kinds) of operands, field indexes around every limit',
     'Tests never fill a stack; an unchecked limit overwrites the frames next to it and shows, if at all, much later.',
     [TINY], [('stack and frame limits', TINY + ': DoPush, DoPushIndir, DoPopIndir, ExecuteCycle (PUSH_NULL_N)'), ('kinds of operands', TINY + ': ExpectBool, ExecuteCycle (STRUCT_GET, STRUCT_SET)'),
              ('host calls', TINY + ': Tiny_CallFunction')],
     ABS + ' of the execution of one instruction at every limit, with a frame (write-set) comparison of the whole thread',
     TRUST + 'asserts are compiled in, as in the repository\'s build; instructions are those compiled code contains at heights compiled code reaches (C02).')

prop('C30', 'What the library\'s macros generate denotes what they promise',
     '`use array("T") as A` adds the type A and its functions with exactly the types that A and T give, and nothing else. `use delegate("f") as d` '
     'makes a type for the signature of f, shared by functions of the same signature and by no others, d() gives a delegate that denotes exactly f, '
     'and the call function passes its arguments on in order and gives the result with its type. `use json("S")` makes a serializer giving an object '
     'with every field of S once, in order, under its own name, each through the serializer of its type, making those of nested structs once and '
     'before they are used. Using a macro again adds nothing. Wrong or unknown arguments, too large or self-containing structs, signatures that do '
     'not fit and failing compilations are errors with a bounded message, never wrong code.',
     ['programs', 'inputs'], 'signatures with up to twelve parameters over all kinds of types, pairs of signatures whose names run together, structs of every shape up to three levels, up to 255 fields, names around every buffer size',
     'Tests use each macro on one or two types; the generated text is only as right as its corner cases.',
     [STD], [('array', STD + ': ArrayMacroFunction'), ('delegate', STD + ': DelegateMacroFunction'), ('json', STD + ': JsonMacroFunction, BindJsonSerializerForType, AppendFormat')],
     'analysis of staged code: ' + ABS + ' of the generators, their output parsed and evaluated symbolically and compared with the definition',
     TRUST + 'the generated text is parsed by a small parser of the check; delegates of native functions and nullable parameter types are left open.')
