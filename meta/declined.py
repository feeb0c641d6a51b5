ALLSRC = [TINY, STD, LEX, DICT, ARR]

na('C31', 'Programs of any nesting depth and objects of any chain length are handled',
   'Compiling a program of any nesting depth and collecting a chain of objects of any length never exhausts the stack of the process that hosts the library.',
   ['programs', 'inputs'], 'all programs and all object graphs', 'Tests nest a few levels.',
   [TINY], [('recursive descent and recursive marking', TINY + ': ParseExpr, ParseStatement, CompileExpr, Tiny_ProtectFromGC')],
   'The depth of the recursion is a quantity of the input and the room for it one of the platform; no static argument bounds it, and with recursive descent and recursive '
   'marking it does not hold for every input (a chain of some hundred thousand structs exhausts an 8 MB stack). That the recursion itself terminates - marking sets the mark before it descends - is part of C19, '
   'that each parsing function consumes a token before it recurses part of C09.')

na('C32', 'A failing allocation is survived or reported',
   'When the allocator of a context returns NULL, the operation that asked for memory fails in a defined way and leaves the state and thread usable.',
   ['inputs'], 'every allocation of every operation', 'The tests\' allocators never fail.',
   [TINY, STD, UTIL], [('allocation wrappers', UTIL + ': TMalloc, TRealloc')],
   'The library has no notion of a failed allocation: no caller of TMalloc or TRealloc looks at the result, so there is no rule of the code base to check, only one to invent; a '
   'check would report every allocation site of the unchanged tree.')

na('C33', 'Floats are written and read with the digits of the C library',
   'The text of a float (ntos, printf, the JSON functions) reads back as the nearest float the format allows, and number literals denote the nearest float.',
   ['inputs'], 'all floats and all digit strings', 'Tests use a few short decimals.',
   [STD, LEX], [('formatting', STD + ': Lib_Ntos, Lib_Printf'), ('parsing', LEX + ': GetToken, strtod')],
   'Which digits come out is decided inside the C library (snprintf and strtod); what this code decides - which conversion gets which argument, of which type, with which room - is '
   'checked by C14, C17, C24 and C26. The numerical round trip itself is not visible in the code.')

na('C34', 'Running time and memory stay proportional to the work of the program',
   'Compilation takes time roughly linear in the source, dictionary operations and array appends constant amortised time, and collections a bounded share of the running time.',
   ['programs', 'inputs'], 'all programs and inputs', 'Tests measure nothing.',
   [TINY, DICT, ARR], [('growth and thresholds', TINY + ': GarbageCollect; ' + DICT + ': Grow; ' + ARR + ': ArrayPush')],
   'Timing and amortised cost quantify over run-time quantities. (The structural parts that also matter for correctness - the collection threshold, growth keeping all entries - are in C19, C20, C21.)')

na('C35', 'A misused host interface is diagnosed',
   'A host that breaks the contract of the C interface (using a deleted state, running a thread of another state, binding while a thread runs, giving strings that are not terminated) is stopped with a diagnosis.',
   ['histories'], 'all host programs', 'Tests use the interface correctly.',
   ['tiny/include/tiny.h', TINY], [('host interface', 'tiny/include/tiny.h')],
   'The host program is not part of the repository and the library keeps no record from which a wrong call could be told from a right one; the misuse that the code does recognise (bad '
   'signatures, indexes that name nothing, wrong kinds of values) is in C22, C23, C28 and C29.')
