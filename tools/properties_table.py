NOTYET = set()
NA = {}
TSTS = "the suite asserts a handful of hand-picked values per construct"
DT = "bounded exhaustive enumeration of programs, run on the real compiler and compared state by state with a reference"

prop("C01", "Integer arithmetic follows C for every operator, type and operand",
 "A compiled program computes, for every integer operator (arithmetic, bitwise, shift, comparison, logical, assignment and increment forms) and every combination of integer operand types, the value the C standard prescribes after promotions and usual arithmetic conversions. This holds whether operands are constants, locals, globals, parameters or memory reached through pointers.",
 ["inputs", "programs"], "all operator x operand-type pairs x operand values (boundary set) x operand locations",
 TSTS + "; signedness, width and constant-operand combinations number in the thousands and most are never executed.",
 [CG, TY, PA], [("integer code generation", "codegen.c gen_expr"), ("usual arithmetic conversion", "type.c add_type"), ("compound assignment rewriting", "parser/parser.c to_assign")],
 DT, REF + "values also recomputed by an independent Python model of C integers. Covers all type pairs and operators within the boundary value set; values outside it are not executed.")

prop("C02", "Conversions between arithmetic types preserve or reduce values as C says",
 "Whenever a value is converted - by cast, assignment, argument passing, return, initialisation or usual conversions - between any two arithmetic types (integers of every width and sign, _Bool, float, double), the result is the one C prescribes. A value held in a narrow object always reads back within that type's range.",
 ["inputs", "programs"], "all ordered pairs and chains of arithmetic types x boundary values x conversion contexts",
 TSTS + "; conversion chains and contexts such as returns through narrow types are hardly touched.",
 [CG, TY], [("conversion table", "codegen.c cast"), ("implicit conversion insertion", "type.c add_type, parser/parser.c funcall")], DT,
 REF + "out-of-range float to integer conversions are undefined and not explored.")

prop("C03", "Floating-point operations follow IEEE 754 as C requires",
 "float and double arithmetic, comparisons (including with NaN, infinities and signed zero), conditions and conversions give the IEEE 754 result in the type C prescribes.",
 ["inputs", "programs"], "all operators x float/double/mixed operand pairs x special values",
 TSTS + "; NaN and signed-zero comparisons and mixed operands are not covered.",
 [CG, TY], [("floating-point code generation", "codegen.c gen_expr"), ("float operand conversion", "type.c")], DT,
 REF + "no fused operations; long double is out of scope.")

prop("C04", "Every expression has the type C gives it",
 "The type of every expression, as observed through sizeof, _Generic, typeof and the behaviour of enclosing operators, is the one C prescribes: for literals with suffixes, promotions, conditionals, pointer arithmetic, member access, calls and arbitrarily nested declarators.",
 ["programs"], "all unary/binary/ternary/assignment forms over the arithmetic types, pointer/array/struct/function forms, declarator nestings to depth 4",
 TSTS + "; the type lattice is combinatorial.",
 [TY, PA, DE, TK], [("type assignment", "type.c add_type"), ("declarator parsing", "parser/declarator.c"), ("literal typing", "tokenize.c")], DT,
 REF + "types of &array and of sizeof on objects with flexible tails are fixed by the project's own suite and not observed.")

prop("C05", "Constant expressions equal their run-time values",
 "A constant expression - in an array dimension, case label, enumerator, static initialiser, bit-field width or #if - has exactly the value the same expression would have at run time with its C type (or in intmax_t for #if), and non-constant or undefined ones (division by zero) are diagnosed instead of miscompiled.",
 ["programs"], "all expression shapes up to the depth bound x operators x literal types x constant contexts",
 TSTS + "; folding code duplicates code generation, and the two can drift apart anywhere in the operator/type space.",
 [DE, CO, IN, PP], [("constant folding", "parser/common.c and parser/declarator.c eval"), ("#if evaluation", "preprocessor/preprocess.c")], DT,
 REF + "plus the Python integer model.")

prop("C06", "Struct and union layout follows the platform ABI",
 "Size, alignment and the offset (and bit position) of every member of every struct and union - including bit-fields, unnamed and zero-width bit-fields, nested, anonymous, packed, aligned and flexible members - equal those of the platform's C ABI, so objects can be shared with code from other compilers.",
 ["programs"], "all member sequences up to length 2 over 40 member forms (3 over a core; more in thorough), struct/union, packed, aligned, anonymous, flexible",
 TSTS + "; layout is a function of arbitrary member sequences.",
 [DE], [("offset assignment", "parser/declarator.c struct_decl, union_decl"), ("attributes", "parser/declarator.c attribute_list")], DT,
 REF + "bit-fields inside packed structs are not covered.")

prop("C07", "Bit-field reads and writes are exact and disturb nothing else",
 "Storing to a bit-field keeps exactly the low bits that fit, reading yields them with the sign of the declared type, the value of the assignment is the stored value, and no access changes any other bit of the object; the same holds for static initialisation.",
 ["inputs", "programs"], "every declared type x every width x positions x operators x operand values x neighbouring contents",
 TSTS + "; widths, positions and neighbours form a large product.",
 [CG, IN, TY], [("bit-field extraction and insertion", "codegen.c ND_MEMBER, ND_ASSIGN"), ("static bit-field data", "parser/initializer.c write_gvar_data")], DT,
 REF + "enum and packed bit-fields excluded; fields wider than int are not mixed into arithmetic where gcc uses exact-width types.")

prop("C08", "Initialisers set exactly the specified parts and zero the rest",
 "For every aggregate, an initialiser list with any mix of nested braces, brace elision, designators, ranges, strings and trailing commas assigns each value to the element C designates, sets the size of incomplete arrays, and zeroes everything else; static and automatic objects get the same contents.",
 ["programs"], "28 aggregate types x all initialiser lists up to the item bound; scalars x conversions; run-time values; large objects",
 TSTS + "; the grammar of lists is unbounded and order-sensitive.",
 [IN, CG], [("initialiser parsing", "parser/initializer.c initializer2, designation"), ("static data emission", "parser/initializer.c write_gvar_data, codegen.c emit_data"), ("automatic initialisation", "parser/initializer.c create_lvar_init")], DT,
 REF + "re-initialising a whole aggregate with braces after some of its parts is fixed by the project's suite to keep unmentioned parts and is not observed.")

prop("C10", "Control flow reaches exactly the statements C prescribes, in order",
 "Any nesting of if, for, while, do, switch (case, ranges, default, fallthrough), break, continue, goto, computed goto, labels, return and the short-circuit and conditional operators executes exactly the sequence of statements and conditions C prescribes, for every value of the controlling expressions.",
 ["programs", "inputs"], "all statement nestings to the depth bound x all jump placements x controlling values of every type",
 TSTS + "; break/continue/goto targets depend on arbitrary nestings.",
 [PA, CG], [("statement parsing and jump resolution", "parser/parser.c stmt, resolve_goto_labels"), ("branches", "codegen.c gen_stmt")], DT,
 REF + "a trace of every executed statement and condition is compared, so an extra, missing or reordered one is seen.")

prop("C11", "Side effects happen exactly once and where C sequences them",
 "Each operand with side effects is evaluated exactly once - in compound assignment, increment, member and array access, conditional operators, statement expressions, initialisers and calls - and not at all where C says it is unevaluated (sizeof, typeof, _Generic, the other arm of ?:, the skipped operand of && and ||). Sequence points are respected.",
 ["programs"], "every lvalue form x every assigning operator x value types; all expression trees over the sequencing operators to the depth bound",
 TSTS + "; operators are desugared into trees that can duplicate or drop an operand.",
 [PA, IN, CG], [("compound assignment and increment desugaring", "parser/parser.c to_assign, new_inc_dec"), ("unevaluated operands", "parser/parser.c primary"), ("sequencing", "codegen.c gen_expr")], DT,
 REF + "programs whose evaluation order C leaves unspecified are not generated.")

prop("C12", "Every identifier denotes the innermost visible declaration",
 "An identifier, tag, enumerator, typedef name, label or member always denotes the declaration C scoping selects - innermost block, correct name space, from its declaration on, with tags completed or shadowed as C says - and each block-scope object is a distinct object with its own storage duration.",
 ["programs"], "all nestings of scopes to the depth bound x all kinds of declaration of one name x use positions",
 TSTS + "; shadowing between kinds of declaration and at every nesting level is hardly exercised.",
 [SC, DE, PA], [("scope chain", "parser/scope.c"), ("tag declarations", "parser/declarator.c struct_decl, enum_specifier"), ("typedef detection", "parser/declarator.c is_typename")], DT,
 REF + "block-scope extern redeclarations with a different type are not generated (undefined).")

prop("C13", "Calls interoperate with code from other compilers for every signature",
 "Every value passed to or returned from a function - integers of any width, float, double, long double, pointers, structs and unions of any size and content - arrives intact, in the registers or stack slots the platform ABI assigns, whatever the number and mix of arguments and whichever side toycc compiled. The callee gets its own copy, and the caller's objects are not changed.",
 ["programs"], "all signatures of 1-2 parameters over 45 types, 3 over a core, every type at every register/stack position, all int/float interleavings, every return type, every toycc/gcc mix of caller and callee",
 TSTS + "; almost all call toycc code from toycc code, where both sides can be wrong in the same way.",
 [CG, PA], [("argument classification", "codegen.c assign_arg, flatten"), ("call sequence", "codegen.c gen_funcall"), ("parameter storage", "codegen.c store_params, assign_lvar_offsets"), ("struct results", "codegen.c copy_ret_buffer, copy_struct_reg, copy_struct_mem")], DT,
 REF + "a struct whose only other member is a zero-width bit-field is not covered (the ABI changed between compiler versions).")

prop("C14", "Generated code keeps the machine contract at every instruction",
 "While any compiled function runs, at every instruction: nothing below the stack pointer or above its own frame and arguments is accessed, every access is naturally aligned, sp is 16-byte aligned at each call, callee-saved integer and floating registers, sp, gp and tp are preserved across every call, the stack does not grow with the number of jumps executed, and no result depends on registers or memory the ABI leaves undefined - including when statement expressions, alloca, variable length arrays and jumps occur while other operands are pending.",
 ["programs", "schedules"], "every instruction of every program of nine enumerated families, under three fill patterns of everything undefined",
 TSTS + "; stray stack accesses, lost registers and misalignment usually do not change a test's output.",
 [CG, PA], [("prologue and epilogue", "codegen.c emit_text"), ("pending temporaries", "codegen.c push, pop, reset_sp"), ("call sequence", "codegen.c gen_funcall"), ("alloca", "codegen.c builtin_alloca")],
 "explicit-state execution of the generated machine code on a model of RV64GC with invariants checked after every instruction; model traces replayed under qemu",
 "The machine model (lib/rvmc.c) is trusted up to its replay against qemu; helper functions are hostile stand-ins that clobber all caller-saved state.", observe=["machine state after every instruction of the compiled program"])

prop("C15", "Variadic functions receive every argument list intact",
 "A variadic function gets exactly the argument values its caller passed - of any type, size and alignment, at any position, after any named parameters - whether the list is read directly, forwarded as a va_list, copied at any point or restarted, and whichever side toycc or another compiler (or the C library) compiled.",
 ["programs"], "all pairs of 29 argument types (triples over a core) after 1-10 named parameters, six ways of reading the list, up to 100 arguments, every toycc/gcc mix",
 TSTS + "; argument slots depend on the whole preceding list.",
 [CG, PA, "include/stdarg.h"], [("register save area", "codegen.c store_params, emit_text"), ("va_arg", "include/stdarg.h"), ("variadic promotions", "parser/parser.c funcall")], DT,
 REF + "arguments read with an incompatible type are undefined and not generated.")

prop("C30", "Atomic operations are indivisible and sequentially consistent",
 "Every operation on an _Atomic object - reads, assignments, compound assignments, increments, exchange, compare-exchange, fetch operations and flags, for every scalar type and size, whether the object is a variable, member, element or reached through a pointer - takes effect indivisibly: under every interleaving of threads (and spurious store-conditional failure) the outcomes are those of some sequential order, neighbouring objects are undisturbed, and on weakly ordered memory atomic accesses, fences and locks built from them order surrounding accesses. Run alone, each operation has the value and effect C gives it.",
 ["schedules", "programs"], "all interleavings of two and three threads over all pairs of operations x types x locations; litmus shapes under a weak memory model",
 TSTS + " and one race of four threads; a lost update needs a particular interleaving, and reordering does not occur under the emulator.",
 [CG, PA, TY, "include/stdatomic.h"], [("compare-and-swap and exchange", "codegen.c gen_cas, gen_exch"), ("atomic compound assignment", "parser/parser.c to_atomic_assign"), ("ordering of atomic accesses", "codegen.c load, store"), ("library names", "include/stdatomic.h")],
 "stateless-to-explicit-state exploration of the compiled machine code: every interleaving of shared accesses, visited-state hashing, plus a machine with store buffers and stale reads for weakly ordered behaviour; outcome sets compared with the reference compiler's",
 "Outcome sets are compared with those of gcc's code explored the same way under sequential consistency; the weak model is validated on gcc's code. Atomic structs and long double are out of scope.", observe=["set of final states over all interleavings of the compiled code"])

GE = "Oracle: the host gcc preprocessor (gcc -E) and an independent Python expander, trusted where both agree; "
prop("C17", "Macro expansion yields exactly the tokens the standard prescribes",
 "For every set of macro definitions and every invocation - object- and function-like, nested, self- and mutually recursive, variadic (including __VA_OPT__ and the GNU comma form), stringizing, pasting, with empty, missing, parenthesised or macro arguments, spread over lines or between files - the token sequence after preprocessing is the one C prescribes, and malformed invocations are diagnosed.",
 ["programs"], "all programs of up to 3 macros with bodies over a token alphabet up to the length bound x all invocation shapes",
 TSTS + "; rescanning, hide sets, prescan of arguments and empty arguments interact in unboundedly many ways.",
 [PP, TK], [("expansion and hide sets", "preprocessor/preprocess.c expand_macro"), ("arguments", "preprocessor/preprocess.c read_macro_args"), ("substitution, # and ##", "preprocessor/preprocess.c subst, stringize, paste")], DT,
 GE + "cases in which the standard leaves the result unspecified (nested expansion crossing the end of a replacement; order of several ##) are excluded.", observe=["tokens printed by toycc -E", "behaviour of the compiled program"])

prop("C18", "Conditional inclusion selects exactly the groups C selects",
 "For every nesting of #if, #ifdef, #ifndef, #elif, #else, #endif around any text, exactly the groups C selects are processed: a skipped group has no effect whatever it contains, conditions are evaluated as C says (defined, undefined identifiers as 0, macro expansion, intmax_t/uintmax_t arithmetic, only when needed), and ill-formed sequences are diagnosed.",
 ["programs"], "all directive sequences up to length 6 x truth values; all kinds of skipped text; all #if expressions up to the depth bound over boundary operands",
 TSTS + "; directive nesting is a pushdown state space.",
 [PP, TK], [("conditional stack", "preprocessor/preprocess.c preprocess, skip_cond_incl"), ("condition evaluation", "preprocessor/preprocess.c eval_const_expr")], DT,
 GE + "a Python pushdown model of conditional inclusion predicts each result as well. Shifts by out-of-range counts are not generated.", observe=["tokens printed by toycc -E"])

prop("C19", "The symbol table answers every history of updates and lookups correctly",
 "After any sequence of put, get and delete on the compiler's hash table - with colliding keys, re-inserted and deleted keys, prefixes of one another, and across every rehash - a lookup returns the value last stored under exactly that key, or nothing. Hence macros, keywords, typedef and tag names are found whatever names surround them.",
 ["histories"], "all operation histories up to the depth bound over key sets with chosen collisions, and growth to every rehash threshold",
 "the suite's own hash table test runs one fixed history with distinct keys.",
 [HM], [("probing, tombstones and rehash", "hashmap.c get_entry, get_or_insert_entry, rehash")],
 "explicit-state enumeration of all operation histories on the real hash table linked into the harness, against an association-list model, and macro histories through the real compiler",
 "keys are chosen through the table's own hash function so that they collide; the table is reached through its public functions only.", observe=["results of hashmap_get", "tokens printed by toycc -E"])

prop("C20", "#include reads the file C's search rules select, as often as they say",
 "For every arrangement of directories, -I and -idirafter options, nested and macro-built includes, #include_next, -include, symbolic links and missing files, each #include reads the file the search order selects; a file is skipped as already included only if #pragma once or an include guard that encloses all of it and is still defined makes that unobservable.",
 ["programs", "inputs"], "all placements of a header in the search directories x include forms x option orders; all guard shapes x histories of #define/#undef between inclusions",
 TSTS + "; the include-guard optimisation and include cache are only sound under conditions tests do not vary.",
 [PP, MN], [("search", "preprocessor/preprocess.c search_include_paths, search_include_next"), ("guard detection", "preprocessor/preprocess.c detect_include_guard"), ("search path order", "main.c parse_args")], DT,
 GE + "-I directories are not searched twice in the reference (gcc drops duplicates), which is not observable here.", observe=["tokens printed by toycc -E"])

prop("C21", "Literals denote the value and type C gives their spelling",
 "Every integer, floating, character and string literal - any base, suffix, prefix, escape sequence, UTF-8, UTF-16 or UTF-32 content, concatenation and nearest-value rounding - has exactly the value, type and array length C prescribes, and a misspelt one is diagnosed instead of being read as something else.",
 ["inputs"], "all spellings up to the length bound over the literal alphabets x suffixes x prefixes; boundary numbers around every type limit and rounding boundary; every code point class",
 TSTS + "; spellings are an infinite language and the interesting ones sit at type limits, rounding ties and encoding boundaries.",
 [TK, "unicode.c"], [("numbers", "tokenize.c convert_pp_int, convert_pp_number"), ("escapes and strings", "tokenize.c read_escaped_char, read_string_literal, read_utf16_string_literal"), ("encodings", "unicode.c encode_utf8, decode_utf8")], DT,
 REF + "multi-character constants, digits beyond 64-bit long double precision and the dialect's own acceptances are not observed.", observe=["values, sizes and _Generic types in the compiled program"])

prop("C22", "Every token, diagnostic and debug line carries its true source position",
 "__LINE__, __FILE__, diagnostics, line markers and the .loc records of generated code name the physical file and line each token came from, after any mix of includes, macros spread over lines, #line directives, conditional groups, comments and line endings; each instruction can be traced to the statement that caused it.",
 ["programs"], "all sequences of line-affecting constructs up to the length bound x the position of a probe or an error",
 TSTS + "; a position is a function of everything before it.",
 [TK, PP, CG], [("line counting", "tokenize.c add_line_numbers, verror_at"), ("#line and markers", "preprocessor/preprocess.c read_line_marker"), ("line records", "codegen.c gen_stmt, gen_expr")], DT,
 GE + "tokens after a backslash-newline are numbered by the line on which the logical line starts and are not observed.", observe=["tokens printed by toycc -E", "diagnostics", ".file and .loc directives"])

prop("C23", "Spelling-only differences in layout never change the meaning of a program",
 "White space, comments, backslash-newlines at any position, line endings (LF, CRLF, CR), a missing final newline, a byte-order mark and universal character names change nothing: two sources that differ only in those produce the same tokens, and token boundaries follow the longest-match rule for every adjacent pair.",
 ["inputs"], "all pairs and triples of tokens x all separators; a splice at every byte position of a corpus; all short strings over the layout alphabet",
 TSTS + "; the tokeniser's edge cases are at every position of every source.",
 [TK], [("splices and line endings", "tokenize.c remove_backslash_newline, canonicalize_newline"), ("longest match", "tokenize.c read_punct, tokenize"), ("universal character names", "tokenize.c convert_universal_chars")], DT,
 GE + "a metamorphic comparison of toycc with itself where both spellings must agree. Digraphs and trigraphs are not part of the dialect.", observe=["tokens printed by toycc -E"])

prop("C24", "Every input ends in output or a diagnostic: no crash, hang or memory error",
 "Whatever bytes toycc is given - well-formed or not, however deeply nested, in any C source, header or command line position - it ends in bounded time either with status 0 and a complete output, or with a non-zero status and a message that names the problem. It never crashes, reads or writes outside its objects, dereferences null, overflows, loops, aborts on an internal assertion, or fails silently.",
 ["inputs"], "all token sequences up to length 3 or 4 over 19 alphabets (one per grammar area, preprocessor and lexer included), every one-token deletion, insertion, replacement and truncation of a feature corpus, truncation of headers, and nesting depths",
 "the suite feeds the compiler well-formed programs only; a crash needs one particular malformed or unusual input.",
 [TK, PP, PA, CG], [("tokeniser", "tokenize.c tokenize"), ("directives and expansion", "preprocessor/preprocess.c preprocess2"), ("declarations", "parser/declarator.c declarator"), ("expressions and statements", "parser/parser.c parse"), ("diagnostics", "tokenize.c verror_at")],
 "bounded exhaustive enumeration of inputs executed in forked copies of the compiler built from /repo's sources with address and undefined-behaviour sanitizers; each end state is classified",
 "Inputs outside the alphabets and lengths are not executed. Resource exhaustion (nesting of many thousands of levels, gigabyte inputs) is bounded by the host and not claimed.", observe=["exit status, messages, sanitizer reports, time"])

prop("C25", "Ill-formed programs are rejected and well-formed ones accepted",
 "A program that breaks the grammar or a constraint of C - wrong operand kinds for an operator, context or initialiser, undeclared names, unknown members, wrong argument counts, assignments to non-lvalues, duplicate labels, cases, definitions or parameters, break, continue, case and goto without a target, bad constant expressions, bad array sizes, bit-field widths and designators, unbalanced or unterminated constructs and malformed directives - is reported and produces no output; a well-formed program is accepted. Outside the claim: const, completeness in places that need no size, identity of struct and pointer types, implicit int, repeated storage classes, comparison of redeclared types, names redeclared as or from typedef names or enumerators, duplicate members, enumerators or tags, operands of sizeof, and GNU extensions.",
 ["programs", "inputs"], "all operators and contexts x all pairs of operand kinds, all token sequences up to length 3 over 17 alphabets, all one-token edits of a feature corpus, and a list of constraints x surrounding statements, all lists of up to 3 declarators x places, all forms of parameters and pairs of them x places",
 "the suite contains no program that must be rejected.",
 [PA, TY, PP, TK], [("operand checks", "type.c add_type, parser/parser.c new_add, new_sub"), ("declarations and scopes", "parser/parser.c declaration, parser/scope.c"), ("initialisers", "parser/initializer.c"), ("directives", "preprocessor/preprocess.c preprocess2")], DT,
 "Oracle: the installed gcc in gnu17 mode, its errors (not warnings) filtered to the classes the statement claims; a program is well-formed for the oracle only if gcc -pedantic is silent about it.", observe=["exit status and messages of toycc"])

prop("C26", "Success is reported only for complete output, and failures leave no debris",
 "toycc exits 0 only if every requested output was written completely and every stage it ran succeeded. If anything fails - a compiler, assembler or linker stage ending with any status or signal, a subprocess that cannot start, or any system call of the driver or compiler failing - it exits non-zero, runs no later stage, leaves no partial output file under a requested name and removes all its temporary files.",
 ["fault_sequences", "crash_points"], "every stage x every way of ending; every system call of driver and compiler x its error codes, one at a time; unreadable and unwritable places",
 TSTS + "; none of the suite's runs has a failing stage, full disk or failing system call.",
 [MN, TK, CG], [("stage control", "main.c run_subprocess, cc1, assemble, run_linker"), ("temporary files", "main.c create_tmpfile, cleanup"), ("reading and writing", "tokenize.c read_file, main.c open_file")],
 "exhaustive single-fault enumeration on the real driver: every stage outcome through stand-in stages, and every system call index x errno through strace injection, judged against the fault-free run",
 "One fault per run. The assembler and linker are trusted to report their own failures. Killing the driver itself with SIGKILL is not covered.", observe=["exit status, messages and directory contents after each run"])

prop("C27", "Command-line options produce exactly the outputs they name",
 "For every combination and order of -c, -S, -E, -o, -x, -D, -U, -I, -l, -L, -static, -shared, -include, dependency options and any number of C, assembly, object, archive and library inputs, toycc writes exactly the files a C compiler driver would write, under those names, from those inputs in that order, and rejects combinations that cannot be honoured without writing anything.",
 ["inputs"], "all combinations of mode, output option, and input lists up to length 3, option positions and -x placements",
 "the suite's driver script checks a couple of dozen fixed command lines.",
 [MN], [("option parsing", "main.c parse_args"), ("input dispatch", "main.c main, get_file_type, replace_extn"), ("linking", "main.c run_linker")],
 "bounded exhaustive enumeration of command lines on the real driver; files written and linker inputs compared with the reference driver",
 "Oracle: the installed gcc driver's set of files written, and the content class of each file. Command lines the drivers define differently (unused linker inputs with -c -o) are excluded.", observe=["files written, exit status, contents"])

prop("C28", "Dependency output lists every file read, in a form make accepts",
 "The rules written by -M, -MD, -MMD, -MF, -MT, -MQ and -MP name the right target and exactly the files whose change could change the output, once each, quoted so that make reads back the same names, and do not disturb the other outputs.",
 ["inputs"], "all subsets and orders of the dependency options x modes x include graphs x file names over the characters make treats specially",
 "the suite checks one header and one target name; stale builds are silent.",
 [MN, PP], [("rule output", "main.c print_dependencies"), ("quoting", "main.c quote_makefile"), ("files read", "tokenize.c get_input_files")],
 "bounded exhaustive enumeration of option sets, include graphs and names; each rule file is parsed by real make and compared with the reference compiler's",
 "Oracle: gcc's dependency output as read back by GNU make.", observe=["dependency files, as read by make"])

prop("C34", "Compiling preprocessed output is the same as compiling the source",
 "The text written by -E, compiled again, gives the same tokens, program and diagnostics as the source: adjacent tokens never merge or split, strings and line starts survive, preprocessing is idempotent, and nothing in the text is mistaken for a directive.",
 ["programs"], "all adjacent token pairs produced directly, by expansion, by pasting and by stringizing; whole corpus files",
 TSTS + "; gluing depends on which two tokens happen to meet after expansion.",
 [MN, PP], [("token printing", "main.c print_tokens"), ("spacing of expansion results", "preprocessor/preprocess.c expand_macro, subst")], DT,
 GE + "toycc's own re-reading of its output is the metamorphic oracle.", observe=["tokens printed by toycc -E, and generated code"])

prop("C35", "Predefined macros and headers describe the implementation truthfully",
 "Every macro toycc predefines and every macro and type of the headers it provides (float.h, stdalign.h, stdarg.h, stdatomic.h, stdbool.h, stddef.h, stdnoreturn.h) has the value and type that describes what compiled programs really do on the target (sizes, ranges, signedness, alignments, precisions), in #if, in constant initialisers and at run time; the headers of the platform's C library compile, in every order and repetition, and describe the same types and values as in code from other compilers.",
 ["programs", "configurations"], "every macro the platform's reference compiler predefines; every macro and type of 36 headers in 3 uses; all ordered pairs of headers with the first included again; all triples of the bundled headers",
 "the suite includes the headers but looks at none of their values; a program that trusts a wrong limit or type fails far away.",
 ["preprocessor/predefined_macro.c", "include/*.h", PP, DE], [("predefined macros", "preprocessor/predefined_macro.c init_macros"), ("bundled headers", "include/float.h, stddef.h, stdatomic.h, stdarg.h"), ("inclusion", "preprocessor/preprocess.c include_file")], 
 "exhaustive enumeration of the finite space of macros, header types, uses and inclusion sequences; every point compiled, run and compared with the reference", 
 "Oracle: the installed riscv64 gcc -fsigned-char with the same C library; macros that identify the compiler or features toycc does not claim are not compared.", observe=["values, types, sizes and alignments printed by compiled programs"])

prop("C09", "Pointers, arrays and whole-object copies touch exactly the bytes C says",
 "Pointer arithmetic, subscripting, pointer difference and comparison scale by the element type for every index type and value; every load and store through any access path reaches exactly the designated element or member, at any offset and in frames and objects of any size; struct and union copies (assignment, argument, result, initialiser, conditional, statement expression) move exactly the object's bytes and nothing else.",
 ["programs", "inputs"], "element types x index types x values x forms; all copy sizes to 40 bytes and around every immediate limit up to 33000; member offsets and frame sizes around every immediate limit; arrays to 4 dimensions",
 TSTS + "; addressing code has size and offset thresholds (registers, 12-bit immediates) that small tests never reach.",
 [CG, PA], [("pointer scaling", "parser/parser.c new_add, new_sub"), ("addresses", "codegen.c gen_addr"), ("copies", "codegen.c store, copy_struct_mem")], DT,
 REF + "the type of &array is fixed by the project's suite to be a pointer to the element and is not observed.")

prop("C16", "Variable-length arrays and alloca keep their size, contents and lifetime",
 "A variable-length array has the size its bounds had when it was declared, once evaluated, in every dimension; typedefs, typeof, sizeof, casts and pointer arithmetic use that size; run-time allocated objects are disjoint from all others and keep their contents until they die, whatever declarations, alloca calls, loops, jumps, calls with pending temporaries and recursion come in between.",
 ["programs", "histories"], "all mixes of fixed and run-time dimensions up to 3, as objects and as parameters; all histories of allocation forms up to length 3 (4 in thorough) with every live region checked after every step",
 TSTS + "; overlap depends on the history of allocations and on temporaries pending at that moment.",
 [PA, DE, CG], [("size computation", "parser/declarator.c compute_vla_size"), ("scaling by run-time sizes", "parser/parser.c new_add, new_sub"), ("stack adjustment", "codegen.c builtin_alloca")], DT,
 REF + "variably modified parameters are not part of the dialect; storage is reclaimed only at function return; alloca's result is only required to be 8-byte aligned (fixed by the project's suite).")

prop("C29", "Units define exactly the symbols their declarations call for, so they link",
 "For every sequence of declarations of a name, the object file defines, references or omits the symbol as C prescribes, with the right binding, type, size, alignment, section kind and contents (tentative, extern, static, inline, thread-local, common), for every name including those the assembler reserves; units from toycc and another compiler link and run together in static, PIE and shared programs.",
 ["programs", "configurations"], "all sequences of up to 3 declarations (4 in thorough) over 5 families of 10-17 forms x -fcommon/-fno-common; 85 further definitions; assembler-reserved names; two-unit programs x compiler mixes x link modes",
 TSTS + "; linkage depends on the whole sequence of declarations and on the other units of the program.",
 [CG, PA, DE], [("linkage of declarations", "parser/parser.c function, global_variable"), ("tentative definitions", "parser/parser.c scan_globals"), ("symbol emission", "codegen.c emit_data, emit_text")], DT,
 "Oracle: the symbol tables, sections and run-time behaviour of the installed riscv64 gcc's objects. Sequences whose behaviour C leaves undefined are excluded.", observe=["ELF symbol tables and sections", "behaviour of linked programs under qemu-riscv64"])

prop("C31", "Every thread has its own copy of each thread-local object",
 "A _Thread_local object exists once per thread with its declared initial value, whatever its type, size, linkage, place in the thread's block or access path; a write by one thread is seen by no other except through a pointer; units of either compiler share thread-local objects in static, PIE and shared-library programs.",
 ["schedules", "programs"], "all histories of up to 3 steps (4 in thorough) over 8 operations and 3 concurrently live threads x object kinds; types x access forms; block offsets up to 70000; two-unit programs x link modes x all 27 three-step schedules",
 "the suite has one thread-local test with two threads; a wrong model, offset or initial image shows only in other threads, large blocks or shared libraries.",
 [CG, PA], [("thread-local addressing", "codegen.c gen_addr"), ("thread-local data", "codegen.c emit_data"), ("declarations", "parser/parser.c declspec")],
 "exhaustive enumeration of schedules and operation histories under a controlled scheduler on real threads, compared step by step with a reference",
 REF + "steps are atomic: data races inside a step are C30's subject.")

prop("C33", "Every object is aligned as declared and overlaps no other object",
 "Each local, static, global, thread-local, parameter, result temporary and compound literal is placed at an address that is a multiple of its type's alignment and of every _Alignas or aligned attribute on it, and shares no byte with any other live object, in every function, nesting and recursion depth.",
 ["programs"], "all sequences of up to 3 objects over 26 forms (3 over a core) as locals in recursion, statics, globals and nested blocks; all parameter lists up to 3 over 9 types",
 TSTS + "; placement depends on everything else in the frame or section.",
 [CG, DE, PA], [("frame layout", "codegen.c assign_lvar_offsets"), ("over-aligned locals", "codegen.c local_addr"), ("section alignment", "codegen.c emit_data")], DT,
 "Oracle: address arithmetic in the program itself (remainder zero, no overlap, contents undisturbed), cross-checked by the riscv64 gcc build of the same program.")

prop("C32", "toycc is deterministic, and the same compiler when compiled by itself",
 "The output, messages and exit status of a compilation depend on the input text, the headers it reads and the options only: not on memory contents, environment, directory, standard input, earlier runs or the other inputs of the command. toycc compiles its own sources, and the compiler so obtained produces the same bytes, messages and status for every input.",
 ["programs", "configurations"], "the self-compiled compiler on its own sources, the suite's sources, arithmetic-heavy inputs x flags, malformed inputs and the program batches enumerated by the other checks; 13 environments x inputs x modes; all ordered lists of 2 or 3 inputs",
 "the suite runs only the natively built compiler, once per input, in one environment.",
 [MN, TK, PA, CG, PP, HM], [("whole compiler", "main.c cc1"), ("allocation and tables", "hashmap.c, string.c"), ("constant evaluation", "parser/common.c eval")],
 "bounded exhaustive enumeration of inputs and environments; two builds of the real compiler (host and self-compiled under emulation) are compared byte for byte",
 "long double constants and out-of-range floating conversions, where the host's arithmetic differs from the target's, are excluded. In quick, each check's program batches are taken in order up to 1.5 MB.", observe=["assembly and preprocessed text, messages and exit status"])
