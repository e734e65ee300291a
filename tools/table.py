prop('P01', 'Integer arithmetic computes the mathematically defined machine result',
     'In a compiled program every integer operation (+ - * / % << >> & | ^ ~ unary minus, compound assignments, ++ and --) on every integer type yields the two\'s-complement result of its operand type, for mixed operand types after conversion to the wider type, whatever kind of place (local, global, parameter, element, member, dereference, alias) the operands live in. Assigning one object leaves its neighbours unchanged.',
     ['inputs', 'programs'], 'for every pair of operand values (all 2^128 for the 64 bit types) and every operator, type and operand location in the program family',
     'A test runs a handful of constants; operand size, sign or scratch register mistakes in the generated code show only for particular bit patterns.',
     [ASM, 'src/compiler/parser/typechecker.c'], [('asm_gen_expr: arithmetic selection', ASM), ('asm_load/asm_store/asm_cast', ASM), ('implicit conversions', 'src/compiler/parser/typechecker.c')],
     note='All operand values, for the listed program family (about 2200 functions); executable code as emitted by the default backend; floats elsewhere.')
prop('P02', 'Comparisons, logical operators and conditional expressions are exact',
     'Every comparison on integers, chars, bools and pointers yields exactly the order of its operand type. && and || evaluate the right operand only if the left one does not decide, conditional expressions evaluate exactly one branch, and the value used by if, while, !, assignment or a call argument is the same truth value; operators can be nested arbitrarily.',
     ['inputs', 'programs'], 'for every operand value and every assignment of truth values to nested conditions',
     'Wrong signedness or a wrong jump target appears only for particular operand values or for one combination of truth values in a nested condition.',
     [ASM], [('comparison and jump selection', ASM + ' asm_gen_expr'), ('short-circuit code', ASM + ' ND_AND/ND_OR/ND_TERNARY/ND_ELSE_EXPR')],
     note='All operand values; expression trees up to depth 3 (fixed shapes and seeded random ones); char is compared as signed.')
prop('P03', 'Floating point arithmetic and comparison follow IEEE 754',
     'f32, f64 and f80 operations in a compiled program give the IEEE 754 result (round to nearest) of the written operands in the written order, through any kind of place, including for infinities, signed zeros and NaN. Comparisons with NaN are false except !=. Mixed integer/float operands are converted to the float type.',
     ['inputs', 'programs'], 'for every bit pattern of the operands',
     'Operand order, NaN and signed zero mistakes do not show on the few ordinary numbers a test uses.',
     [ASM], [('SSE and x87 code selection', ASM + ' asm_gen_expr'), ('float push/pop', ASM + ' asm_pushf/asm_popf')],
     note='All values of all operands, NaN payloads not distinguished; f80 as a 15/64 bit float in canonical encoding; u64 mixed with floats is in the conversions property.')
prop('P04', 'Conversions preserve the value or truncate as defined',
     'A cast between any two of the primitive types (integers, bool, char, f32, f64, f80, pointers, enums, aliases) gives the truncated, sign- or zero-extended, or correctly rounded value; a float whose truncated value fits the target integer type converts to that value. Converting to bool gives 0 or 1 according to whether the value is zero.',
     ['inputs', 'programs'], 'for every source value, for all pairs of primitive types',
     'A wrong extension or a conversion through a narrower type changes only values outside the narrow range.',
     [ASM], [('cast table', ASM + ' cast_table'), ('asm_cast', ASM)],
     note='All source values in the defined range; NaN to bool and out-of-range floats are outside the claim.')
prop('P05', 'Statements execute in the written order and the right number of times',
     'if, while, do-while, do-unless, loop, for, range-based for and match run exactly the statements their conditions select, in order; break leaves the innermost loop or match, continue proceeds with the next iteration, and ret leaves the function from any nesting, with conditions and match subjects of every scalar type. A match without a matching case and without default does nothing.',
     ['inputs', 'programs'], 'for every truth assignment of the conditions, every match subject and loop limits within the unrolling, in all pairwise nestings of statements',
     'Wrong labels, stack imbalance and wrong jump conditions show only for one nesting of statements taken along one particular path.',
     [ASM, 'src/compiler/parser/parser.c'], [('asm_gen_stmt', ASM), ('statement parser', 'src/compiler/parser/parser.c'), ('typecheck_match/typecheck_for_range', 'src/compiler/parser/typechecker.c')],
     note='Programs: each statement with each escape, pairwise nestings and seeded random nestings up to depth 4; loops of at most 3 or 4 iterations, all input values.')
prop('P06', 'Calls pass every argument and result unchanged',
     'Whatever the signature (any mix and number of integers, floats, pointers, long doubles and structs, in registers or on the stack) every parameter has the value of its argument and the caller receives the returned value, struct or not, leaving the caller\'s other variables unchanged, and the stack is aligned to 16 bytes at every call. This holds for direct calls, calls through function pointers held in variables, members, elements or results, nested and recursive calls, pipes, lambdas and variadic functions read with va_arg.',
     ['inputs', 'programs'], 'for every value of every argument, for systematic and seeded random signatures of up to 16 parameters',
     'A test calls a few functions with few arguments; register assignment and stack layout mistakes show only for particular combinations of parameter types and positions.',
     [ASM, 'src/compiler/parser/parser.c', 'src/std/utils.csp'], [('asm_push_args/asm_pop_args', ASM), ('asm_gen_function prologue', ASM), ('struct return', ASM + ' asm_copy_struct_reg/asm_copy_struct_mem/asm_copy_ret_buffer'), ('va_arg', 'src/std/utils.csp'), ('parse_pipe', 'src/compiler/parser/parser.c')],
     note='About 1900 call shapes, all argument values (NaN payloads not distinguished); structs as variadic arguments and recursion through a lambda\'s enclosing function are outside the claim.')
prop('P07', 'Reads give the value last written to exactly that place',
     'Whatever the access path (members, elements counted from the front or the back, pointers, pointer arithmetic, whole-object copies, literals, unpacking, unions, embedded structs, tuples) a read yields the value last written to that object and a write changes nothing else. sizeof, alignof, len, member addresses and pointer differences follow the layout rules, and uninitialised global objects are zero.',
     ['inputs', 'programs'], 'for every stored value and every index within bounds, of every integer type, in systematic access shapes and seeded random programs',
     'Offset, size and copy mistakes show only for particular combinations of types, nesting and index expressions; what gets overwritten is rarely what a test looks at.',
     [ASM, 'src/compiler/parser/validator.c', 'src/compiler/ast/types.c'], [('asm_gen_addr/asm_gen_index', ASM), ('asm_load/asm_store', ASM), ('array and struct literals', ASM + ' ND_ARRAY/ND_STRUCT/ND_ASSIGN'), ('pointer arithmetic', ASM + ' asm_scale_ptr_offset'), ('type sizes and member offsets', 'src/compiler/parser/validator.c get_type_size')],
     note='About 5000 functions: arrays of 2 to 8 elements, types nested up to depth 3.')
prop('P08', 'Names denote the innermost declaration, defer and with clean up',
     'Every name denotes the innermost declaration in scope (block, argument, loop variable, closure, namespace, using) or the one its qualification names, and whatever is named at any one place is part of the program; an inner declaration never disturbs an outer variable of that name, and locals without initial value are zero whenever their block is entered. Deferred statements run exactly once at every exit of the function, in the order written, and leave its result unchanged whatever its type. A with statement runs its body and then the exit function of the type exactly once if the resource is there, otherwise the else branch.',
     ['inputs', 'programs'], 'for every input and every path through seeded random trees of nested scopes that reuse the same names with different types, and through every kind of scope, exit and result type, seeded trees of namespaces, and a function, global or function pointer used at one single place of every kind',
     'A wrong slot or scope shows only where two declarations of a name, or two variables sharing memory, are live on the same path with different values; a clobbered result only for particular types and deferred code.',
     ['src/compiler/parser/validator.c', ASM], [('scope_resolve_ident/enter_*_scope', 'src/compiler/parser/validator.c'), ('asm_assign_lvar_offsets, asm_init_zero', ASM), ('asm_gen_defer', ASM), ('ND_WITH', ASM)],
     note='500 functions at quick: 96 random scope trees of depth 3 with loops of two iterations, 27 shapes of single scopes, 115 of defer, 9 of with, 29 of namespaces, 60 seeded namespace trees, 153 single uses. Out of claim: uses before the declaration in the same block, leaving a with body by ret/break.')
prop('P11', 'Closures take any parameters and share their creator\'s variables',
     'A closure receives arguments and returns results of every type like a function does, wherever its value is kept and by whomever it is called. It reads and writes the very variables and arguments of the function that created it (seeing later changes, and making its own visible), while its own parameters and locals are its own, and calling it disturbs neither its caller nor other closures.',
     ['inputs', 'programs'], 'for all argument and captured values, in systematic and seeded random signatures (up to 12 parameters) and in every way of nesting, storing and passing closures listed in the design',
     'Register and stack passing differ per signature, and frames are mixed up only for particular nestings, depths of the stack and callers; example closures have one or two integer parameters and are called where they are defined.',
     [ASM, 'src/compiler/parser/parser.c'], [('asm_gen_lambda', ASM), ('ND_LAMBDA', ASM), ('asm_gen_function_call', ASM)],
     note='600 closures; up to 12 parameters, structures up to 48 bytes, nesting up to 3. Out of claim: closures called after their creator returned, recursion of a closure.')
prop('P14', 'Calls through interfaces reach the implementation of the object\'s type',
     'A call of an interface\'s function on a value of a dynamic type runs exactly the implementation that was written for the type of the object it was made from, whatever the number and order of the functions, implementing types and interfaces. The implementation gets the address of that very object as its first argument (reads and writes concern the object itself) and every further argument unchanged, and its result arrives unchanged. This holds wherever the dynamic value is kept and however it got there: parameter, local, global, member, array element, result, choice between two, closure.',
     ['inputs', 'programs'], 'for all contents of the objects and all argument values, in every position of interfaces with up to nine functions, every type of argument, result and object, and seeded random interfaces, implementations and ways of keeping the value',
     'No test uses interfaces; which slot of a table is used, which type\'s table is attached and how the object\'s address travels depend on the set of declarations in the program and on the kind of place that holds the value.',
     [ASM, 'src/compiler/ast/vtable.c', 'src/compiler/parser/typechecker.c'], [('asm_gen_vtable_member_addr/get_vtable_index', ASM), ('asm_gen_vtable', ASM), ('vtable_get', 'src/compiler/ast/vtable.c'), ('implicit_cast', 'src/compiler/parser/typechecker.c')],
     note='600 calls; up to 9 functions per interface, 3 implementing types, 8 arguments. Out of claim: calls through pointers to dynamic values, functions without implementation, long double arguments.')
LEX = 'src/compiler/lexer/lexer.c'
SNAP = 'symbolic execution of the compiler\'s own compiled C code from the memory state that the real front end leaves, with SMT (z3), against an independent reference; counterexamples replayed natively'
prop('P13', 'Source text is read as the tokens of the documented grammar',
     'The lexer splits every text into exactly the tokens of the lexical grammar: words, keywords, macro calls, decimal, hexadecimal, octal and binary numbers with their values, strings and characters with their escapes, the longest possible operators, symbols, nested comments and line comments. Each token carries the text or value written there and the line where it lies, however long it is and whatever follows it (also the end of the file), and text that is no token is reported as an error.',
     ['inputs'], 'for every byte (1 to 254) at one or two positions in a systematic set of texts, up to four positions of selected characters, every keyword with a byte replaced or added, and tokens around every size at which a buffer grows',
     'What follows a token decides where it ends, so almost every pair of characters is a case of its own; quotes behind several backslashes, comments inside comments, tokens at the end of the file and tokens longer than a buffer are all absent from ordinary programs.',
     [LEX, 'src/compiler/lexer/token.c', 'src/compiler/io/file.c'], [('lexer_next_token', LEX), ('lexer_get_str/lexer_get_char', LEX), ('lexer_get_int/lexer_get_decimal', LEX), ('lexer_skip_comment', LEX), ('init_token', 'src/compiler/lexer/token.c')],
     level='other', technique=SNAP,
     note='257 texts of up to 6 lines and about 110 bytes, every token compared; heap blocks are guarded. The buffer for tokens starts with 32 bytes instead of 8192 (hook). Out of claim: columns, bytes 0 and 255, line lengths beyond the texts.')
PP = 'src/compiler/preprocessor/preprocessor.c'
prop('P15', 'Macro calls are replaced by exactly the tokens of the definition',
     'A macro call is replaced by the body of the macro that has its name and its number of arguments, with the tokens of the arguments in place of the parameters, macro calls in arguments and bodies expanded as well, identifiers around `@` joined and the line of the call in place of `__line__`. Arguments are separated by the commas that lie in no brackets. All other tokens stay as they are and in order, definitions and earlier calls are not changed by a call, and calls of unknown macros, with a wrong number of arguments, second definitions, unusable operands of `@`, unclosed brackets and endless recursion are reported as errors.',
     ['inputs', 'programs'], 'for every choice of up to five tokens (identifiers, parameters, macro calls, commas, brackets, operators, keywords, numbers, `@`) at systematic positions of definitions, bodies, calls and arguments',
     'Tests use a handful of macros; what a call expands to depends on the combination of parameters, nested calls, brackets and overloads, and a call that damages the definition shows only at the next call.',
     [PP, 'src/compiler/preprocessor/stdmacros.c', 'src/compiler/lexer/token.c'], [('parse_macro_def', PP), ('parse_macro_call', PP), ('expand_macro_call', PP), ('find_macro/find_macro_arg', PP)],
     level='other', technique=SNAP,
     note='Token sequences of up to 60 tokens, 3 macros, 3 parameters, up to 10 expansions for one call (limit set to 9). Out of claim: calls whose arguments are all empty but more than one, mismatched kinds of brackets, imports, column numbers.')
STD = 'src/std/'
prop('P20', 'C string functions mean what string.h says',
     'The functions of std::c_str (length, copy, concatenation, comparison, searching, spans, tokenising, reversing) return and store exactly what the C functions of the same name do, for every terminated string. They read and write no byte outside of the given strings and bounds, and they leave everything else unchanged.',
     ['inputs'], 'for every content and length of the strings, every character, count and alignment within the bounds, and every sequence of tokeniser calls',
     'Off-by-one mistakes, empty strings, repeated delimiters, characters above 127, terminators at the bound and unaligned word-wise scanning are exactly what the few example strings of a test do not contain.',
     [STD + 'c_str.csp', STD + 'memory.csp'], [('strspn/strcspn/strtok/strsep', STD + 'c_str.csp'), ('memchr word-wise scan', STD + 'c_str.csp'), ('strcpy/strcat families', STD + 'c_str.csp')],
     note='Strings up to 5 to 10 bytes (memchr 17 bytes at every alignment), compiled machine code of the library; character codes 0..255; tokeniser histories of 3 calls.')
prop('P21', 'Allocated memory is usable, disjoint and kept by realloc',
     'alloc, calloc and realloc of std::memory give nil or a block of the requested size that overlaps no other live block; calloc is zeroed, realloc keeps the common prefix, free releases exactly its block, and impossible requests give nil. copy, move, eq, set, zero and is_zero act on exactly the given n bytes, move also for overlapping ranges. An arena gives aligned, disjoint blocks, the same ones again after reset, and free returns all its regions.',
     ['inputs', 'fault_sequences'], 'for every size around the page boundary, every content, every overlap distance and every size whose product overflows or whose mapping fails',
     'Allocation failure, size overflow and reads past an old block do not occur in a test run; overlapping moves are right for most distances by luck.',
     [STD + 'memory.csp', STD + 'syscall.csp', STD + 'arena.csp'], [('alloc/calloc/realloc/free', STD + 'memory.csp'), ('copy/move/eq/set/zero/ptr_overlap', STD + 'memory.csp'), ('arena::alloc/reset/free', STD + 'arena.csp')],
     note='mmap and munmap are modelled (zeroed pages, ENOMEM above 1 TB); data of up to 6 bytes for the byte functions, block sizes near 1, 4088 and 8192 bytes.')
prop('P22', 'Vectors and strings hold what their history of operations says',
     'After any sequence of adding, inserting, removing, popping and copying, a std::vec has the size and elements of the corresponding list, whatever its element type and initial capacity. A std::string has the text that its initialisation, appends and concatenations spell, and its queries (size, contains, equal, find, substr, trim) answer for exactly that text.',
     ['histories', 'inputs'], 'for every history of 3 to 5 operations with every position and value, and across capacity and page growth',
     'Capacity bookkeeping mistakes show only after a particular sequence of operations crosses a growth step, and then as silent loss of elements.',
     [STD + 'vec.csp', STD + 'string.csp', STD + 'memory.csp', STD + 'utils.csp'], [('vec __internal_add/insert/erase/pop/copy, reallocate', STD + 'vec.csp'), ('string init/append/concat/substr/trim', STD + 'string.csp')],
     note='Histories of up to 4 vector operations (element types i32, i64, u8) and 3 string operations on strings of up to 2 characters; growth runs with up to 40 elements and across a page.')
prop('P19', 'Numbers survive conversion to text and back',
     'from_int and from_uint of std::c_str write the shortest numeral of the number in the given base, with a minus sign exactly for negative numbers in base 10, terminated, touching no byte behind it. from_f32 and from_f64 write sign, whole part and the asked number of truncated fraction digits; to_i32 and to_i64 return the number that the leading spaces, sign and digits of a text spell.',
     ['inputs'], 'for every number in windows around zero, powers of ten and the limits of the types, in bases 2 to 36, and every text up to the bound',
     'The extreme values, bases other than ten and bits of floating point numbers that matter are not those of the few sample numbers a test prints.',
     [STD + 'c_str.csp'], [('from_int/from_uint/from_f32/from_f64', STD + 'c_str.csp'), ('to_i32/to_i64', STD + 'c_str.csp')],
     note='Integers in windows (10 to 1200 wide) around 0, 10^4, 10^5, 10^15, 2^31, 2^32, 2^63 and 2^64, all of 64 bits in base 8, masks in base 16; texts of up to 5 characters and at the type limits; floats with few free mantissa bits and up to 2 fraction digits.')
prop('P23', 'A map returns exactly what was last put under a key',
     'After any sequence of puts and gets on a std::hashmap, each key yields the value put last under it, or a zero value when it was never put, whether or not keys collide and the map has grown in between; the list of values has one entry per key. String keys are compared by content, and keys and values of any sizes and alignments are kept unchanged.',
     ['histories', 'inputs'], 'for every history of up to 3 operations over every combination of colliding and distinct keys and all values, and across growth',
     'Lost entries need particular keys that collide in the hash, put in a particular order.',
     [STD + 'hashmap.csp'], [('hashmap_put/hashmap_get and resizing', STD + 'hashmap.csp')],
     note='Histories of 3 operations over 2 to 3 keys (i32, i64, i16, u8; values u8 to i64), growth runs with 34 and more keys, string keys of up to 3 characters; a key equal to zero is a known finding.')
prop('P24', 'Arithmetic, bit, character and array helpers compute what they say',
     'The helper functions and macros of the standard library compute the mathematical or C function they name, for every argument: abs, div, mod, pow, min, max, the character classes and case conversions, byte swaps and network order, the string hash, bit setting and testing, swap, either, range, sums, first and last elements, optional values and type limits.',
     ['inputs'], 'for every argument value of every listed helper within the bounds',
     'Wrong masks, signedness and operator precedence in such one-line helpers give right results for the usual arguments and wrong ones for others.',
     [STD + 'math.csp', STD + 'character.csp', STD + 'algorithm.csp', STD + 'utils.csp', STD + 'array.csp', STD + 'option.csp', STD + 'types.csp'],
     [('std::math', STD + 'math.csp'), ('std::character', STD + 'character.csp'), ('std::algorithm', STD + 'algorithm.csp'), ('macros', STD + 'utils.csp, ' + STD + 'array.csp, ' + STD + 'option.csp')],
     note='All argument values; mod with a list of divisors (and all pairs below 32 and 8), pow with exponents 0 to 5, hashes of up to 5 bytes, arrays of 3 elements.')
prop('P26', 'Dates, delays, random sequences and UUIDs are right',
     'std::time::get gives the Gregorian date and time of day of the kernel clock, also on kernels without clock_gettime, and delays request exactly the given milliseconds. The generator of std::random yields the sequence of its seed and degree, resumes exactly when states are switched, and stays within 0 to 2^31 - 1; UUIDs serialize to and parse from their canonical text without loss.',
     ['inputs', 'histories', 'fault_sequences'], 'for every clock value in the windows, every seed, every state size and every UUID',
     'Calendar mistakes show only around month ends and leap years, clock faults do not occur in a test run, and states lying outside of their array damage memory that a test does not look at.',
     [STD + 'time.csp', STD + 'random.csp', STD + 'algorithm.csp', STD + 'syscall.csp'], [('time::get', STD + 'time.csp'), ('clock::get_time and its fallback', STD + 'time.csp'), ('rand/seed/init_state/set_state', STD + 'random.csp'), ('uuid', STD + 'algorithm.csp')],
     note='System calls are answered from a script with symbolic results. Every second around leap days and year ends of 7 windows, every day of 4 years (thorough: 1970 to 2110); sequences of 6 numbers and past one wrap of the state.')
prop('P28', 'Command line flags call their handlers with the given values',
     'std::flags::parse calls, for every argument in order, the handler of the first flag with exactly that name: plain flags without a value, string, bool and int flags with the next argument converted to that type. An argument that is no flag, a missing value and a bool that is neither true nor false end the parsing with an error, and the handlers called before stay called. --help prints every flag with its kind of value and description; args::shift takes arguments off one by one.',
     ['inputs'], 'for every command line of up to four arguments of up to three characters (thorough: five) and sets of one to five flags of all kinds',
     'There is no test of flags.csp; names that are prefixes of others, values that look like flags and missing values at the end need particular command lines.',
     [STD + 'flags.csp', STD + 'string.csp', STD + 'c_str.csp'], [('flags::parse', STD + 'flags.csp'), ('handle_help', STD + 'flags.csp'), ('args::shift', STD + 'flags.csp'), ('string::equal', STD + 'string.csp')],
     note='Values of int flags that are not a sign and digits are left to the conversion property; the text of error messages is not checked.')
PARS = 'src/compiler/parser/parser.c'
prop('P27', 'Formatted output is the text the format describes',
     'std::fmt::format and the printf functions of std::io give exactly the format string with each directive (%i %u %U %l %x %o %p %b %c %C %s %S %e %%) replaced by the text of the next argument, in order, whatever the values, the number of arguments and the length of the text. fmt::time does the same for the parts of a point in time. printf, puts, putc and their variants write all of that text, once and in order, to the stream that they name.',
     ['inputs'], 'for every string, character and bool, every number in windows around zero, changes of length and the limits of its type, and every format of four characters from `%cbiz`',
     'Tests print a few fixed lines and look at the exit code; wrong arguments after an unusual directive, unsigned numbers above 2^31, control characters and text for another stream go unnoticed.',
     [STD + 'fmt.csp', STD + 'io.csp', STD + 'string.csp', STD + 'c_str.csp'], [('va_format and __internal::fmt', STD + 'fmt.csp'), ('fmt_time, time', STD + 'fmt.csp'), ('vfprintf, write, fputs', STD + 'io.csp')],
     note='Strings of up to 5 characters, up to 9 arguments and about 40 characters of text; %f and %d are left to the conversion property (P19), %t and %E not covered.')
prop('P09', 'Expressions group by precedence and associativity',
     'An expression written without parentheses means the same as its fully parenthesised form under the language\'s precedence table: assignment, pipe, custom operators, logical or, logical and, infix call and else, cast, bitwise or, xor, and, equality, ordering, shifts, sums, products, remainder, prefix operators, powers, postfix operators, from weakest to strongest. Binary operators of one level group from the left, assignments from the right, and parentheses always win.',
     ['programs', 'inputs'], 'for every pair of operators in both groupings, triples, prefix and postfix neighbours, flat chains and random trees, for all values of the variables',
     'A wrong grouping gives the right value for many operand values and only concerns particular neighbours of operators, of which there are hundreds.',
     [PARS], [('precedence table and parse_expr', PARS), ('parse_num_op/parse_bool_op/parse_unary/parse_cast/parse_ternary/parse_else_expr/parse_pipe/parse_assignment', PARS)],
     note='Every pair of 13 integer, 6 comparison and 2 logical operators, casts, ternaries, pipes, custom and infix-call operators; quick takes a quarter of the 1000 triples, flat chains of 4 to 7 operators and 300 random trees of depth up to 4; operands are i32, i64 and bool.')
INTP = 'src/compiler/interpreter/interpreter.c'
prop('P10', 'Values computed at compile time are the ones the program would compute',
     'The initial value of a global, a constant, an enumeration value or an array size written as an expression equals what the same expression computes at run time: arithmetic, comparisons, logic, conversions, ternaries and calls of [constexpr] functions with any control flow and recursion. The object then holds that value in the representation of its declared type, at the right place of arrays and structs.',
     ['programs', 'inputs'], 'for generated expressions and [constexpr] functions over every scalar type, for all values of the literals in them, and for every element of generated global arrays and structs',
     'A second evaluator inside the compiler has its own conversion and control-flow rules; the tests define a handful of small positive integer constants.',
     [INTP], [('interpreter_eval_expr, eval_stmt, call_fn', INTP), ('value conversions', 'src/compiler/interpreter/value.c'), ('eval_constexpr, const_i64, const_u64', 'src/compiler/optimizer/constexpr.c'), ('gen_relocation', 'src/compiler/codegen/asm/relocation.c')],
     note='The compiler\'s own interpreter and data emitter are executed symbolically (machine code built from the C sources) from the state the real front end left for a program whose literals are then made symbolic; loops in [constexpr] functions run at most 3 times, recursion up to depth 7. 80-bit floats, addresses and functions as constants are outside the claim; quick takes an eighth of the nested control-flow combinations.')
CGEN = 'src/compiler/codegen/transpiler/c_codegen.c'
prop('P12', 'The C backend gives programs the same meaning as the assembly backend',
     'A program translated with `-b C` and compiled by gcc with the options that cspc passes computes what the language defines: integer arithmetic wraps around, comparisons, conversions and floating-point operations give the results of the assembly backend, conditions, loops, match, calls and recursion take the same path, and array accesses, from-back indices and pointer arithmetic reach the same element.',
     ['programs', 'inputs'], 'for every generated program of the arithmetic, comparison, conversion, control-flow and array families, for all values of its variables',
     'The repository has no test of the C backend at all; missing parentheses, casts and C undefined behaviour depend on operand types and extreme values.',
     [CGEN], [('expressions', 'c_gen_expr, c_gen_index2 in ' + CGEN), ('statements', 'c_gen_stmt in ' + CGEN), ('gcc options', 'c_gen_code in ' + CGEN)],
     note='The generated C is compiled by the command cspc itself builds (wrapped to link a static executable at -O0) and its machine code is executed symbolically; structures, long doubles, trees of floating-point operations, division by constants and the library are outside the claim.')
