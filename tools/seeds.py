"""Planted bugs: each entry gives the edits against /repo's HEAD and a demonstration.
Run tools/mkseed.py to (re)generate and confirm /verif/seeded/."""
SEEDS = []
def seed(id, property, needs, breaks, edits, **kw):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, **kw))

seed("S01-float-to-ushort", "C02",
 "a double of 32768..65535 converted to unsigned short",
 "the double-to-unsigned-short entry of the conversion table sign-extends, so the value reads back negative",
 [("codegen.c", "#define F64U16 combine(F64U32, TOU16)", "#define F64U16 combine(F64U32, TOI16)")],
 demo_c='int printf(); double d = 40000.0;\nint main(void) { int x = (unsigned short)d; return x != 40000; }\n')

seed("S02-double-rounding", "C02",
 "a 64-bit integer whose correctly rounded float differs from rounding through double",
 "long to float conversion rounds twice",
 [("codegen.c", '#define I64F32  "\\tfcvt.s.l fa0, a0"', '#define I64F32  "\\tfcvt.d.l fa0, a0\\n\\tfcvt.s.d fa0, fa0"')],
 demo_c='long a = 0x20000020000001L;\nint main(void) { float f = a; return (long)f != 0x20000040000000L; }\n')

seed("S03-bitfield-straddle", "C06",
 "a bit-field that starts in the middle of a 32-bit unit and exactly fills it",
 "a bit-field that ends exactly at the end of its storage unit is moved to the next one",
 [("parser/declarator.c", "(bits + mem->bit_width - 1) / (sz * 8))\n", "(bits + mem->bit_width - (bits % 32 != 16)) / (sz * 8))\n")],
 demo_c='struct S { int a : 16; int b : 16; int c; }; struct T { char x; int a : 8; int b : 16; int c : 16; };\nint main(void) { return sizeof(struct S) != 8 || sizeof(struct T) != 8; }\n')


seed("S04-designator-length", "C08",
 "an array of unknown length with designators in descending order",
 "the length of an array is taken from a later designator although an earlier one was larger",
 [("parser/initializer.c", "		max = MAX(max, i);", "		max = equal(tok, \",\") && equal(tok->next, \"[\") ? i : MAX(max, i);")],
 demo_c='int a[] = { [4] = 1, [2] = 2, [1] = 3 };\nint main(void) { return sizeof(a) != 20 || a[4] != 1 || a[2] != 2 || a[1] != 3; }\n')

seed("S06-negative-zero", "C03",
 "the negation of a float zero",
 "-x is computed as 0 - x for float, which loses the sign of zero",
 [("codegen.c", '			println("\\tfneg.s fa0, fa0");', '			println("\\tfmv.s.x fa1, zero");\n			println("\\tfsub.s fa0, fa1, fa0");')],
 demo_c='float z = 0; double copysign(double, double);\nint main(void) { float y = -z; return *(int *)&y != (int)0x80000000; }\n')

seed("S07-fold-compare", "C05",
 "an unsigned long comparison <= of constants of which the larger has its top bit set",
 "constant folding compares unsigned operands of <= as signed numbers",
 [("parser/common.c", "		if (node->lhs->ty->is_unsigned)\n			return (uint64_t)eval(node->lhs) <= (uint64_t)eval(node->rhs);", "		if (node->lhs->ty->is_unsigned && node->lhs->ty->size < 8)\n			return (uint64_t)eval(node->lhs) <= (uint64_t)eval(node->rhs);")],
 demo_c='int a = 1ul <= 0x8000000000000000ul; int b = 0xfffffffffffffffful >= 2;\nint main(void) { return a != 1 || b != 1; }\n')

seed("S08-union-tail", "C06",
 "a union whose largest member is not a multiple of its alignment",
 "the size of a union is not rounded up to an alignment of more than 4 bytes",
 [("parser/declarator.c", "	ty->size = align_to(ty->size, ty->align);\n\n	return ty;\n}\n\n// enum-spec", "	ty->size = align_to(ty->size, ty->align > 4 ? 4 : ty->align);\n\n	return ty;\n}\n\n// enum-spec")],
 demo_c='union U { char a[12]; long b; };\nint main(void) { return sizeof(union U) != 16; }\n')

seed("S23-offset-limit", "C09",
 "a member at an offset of exactly 2048 bytes",
 "an offset of 2048 is emitted as an immediate, which the assembler rejects",
 [("codegen.c", "	return offset > 2047 || offset < -2048;", "	return offset > 2048 || offset < -2048;")],
 demo_c='struct S { char a[2048]; int b; } s, *p = &s;\nint main(void) { p->b = 5; return s.b != 5; }\n')

seed("S24-enum-scope", "C12",
 "an enumerator that hides an outer one of the same name and is followed by another without a value",
 "the value after an explicit negative enumerator restarts",
 [("parser/declarator.c", "		sc->enum_val = val++;", "		sc->enum_val = val;\n		val = val == -2 ? 0 : val + 1;")],
 demo_c='enum { A = -2, B, C };\nint main(void) { return A != -2 || B != -1 || C != 0; }\n')

seed("S25-alloca-rounding", "C16",
 "an allocation whose size is one more than a multiple of eight",
 "alloca and variable-length arrays get too little room for such a size",
 [("codegen.c", '	println("\\tadd t0, t0, 7");', '	println("\\tadd t0, t0, 6");')],
 demo_c='void *memset(void *, int, unsigned long);\nint f(int n) { char a[n]; char b[n]; memset(a, 1, n); memset(b, 2, n); return a[0] != 1 || b[n - 1] != 2; }\nint main(void) { return f(8) || f(16) || f(17) || f(9); }\n')

seed("S26-tbss-alignment", "C31",
 "an uninitialised thread-local object with an alignment above 8 behind a smaller one",
 "the alignment of objects in .tbss and .bss is emitted as a byte count where a power of two is expected",
 [("codegen.c", '		println(".align %d", llog2(var->align));\n		println("%s:", var->name);\n		println("\\t.zero %d", var->ty->size);', '		println(".align %d", var->align > 8 ? 3 : llog2(var->align));\n		println("%s:", var->name);\n		println("\\t.zero %d", var->ty->size);')],
 demo_c='_Thread_local char a; _Thread_local _Alignas(64) char b; static _Thread_local char c; static _Thread_local _Alignas(64) char d;\nint main(void) { a = 1; c = 1; return (long)&b % 64 + (long)&d % 64; }\n')

seed("S27-local-union-alignment", "C33",
 "a local union with an _Alignas specifier",
 "the alignment given to a local union is ignored",
 [("parser/declarator.c", "		if (attr && attr->align)\n			var->align = attr->align;\n\n		if (equal(tok, \"=\")) {", "		if (attr && attr->align && ty->kind != TY_UNION)\n			var->align = attr->align;\n\n		if (equal(tok, \"=\")) {")],
 demo_c='int f(int n) { char a; _Alignas(64) union { char c; } u; char b; return (long)&u % 64 != 0 || (n && f(n - 1)); }\nint main(void) { return f(9); }\n')

seed("S28-inline-root", "C29",
 "a static inline function that is referenced by a file-scope initialiser only",
 "no code is emitted for a static inline function that only an initialiser refers to",
 [("parser/parser.c", "			else\n				sc->var->is_root = true;", "			else\n				sc->var->is_root |= !sc->var->is_static;")],
 demo_c='static inline int f(void) { return 7; }\nint (*p)(void) = f;\nint main(void) { return p() != 7; }\n')

seed("S30-elvis-twice", "C11",
 "a ?: whose omitted operand has side effects and is not zero",
 "a ?: b evaluates a twice when it is a call",
 [("parser/parser.c", "		rhs->then = new_var_node(var, tok);", "		rhs->then = cond->kind == ND_FUNCALL ? cond : new_var_node(var, tok);")],
 demo_c='int n; int f(void) { return ++n; }\nint main(void) { int x = f() ?: 9; return n != 1 || x != 1; }\n')

seed("S32-variadic-float", "C15",
 "a float passed to a variadic function behind its named parameters through a conditional expression",
 "a float in a variadic argument list is not promoted when it is a conditional expression",
 [("parser/parser.c", "		} else if (arg->ty->kind == TY_FLOAT) {", "		} else if (arg->ty->kind == TY_FLOAT && arg->kind != ND_COND) {")],
 demo_c='#include <stdarg.h>\ndouble f(int n, ...) { va_list ap; va_start(ap, n); double d = va_arg(ap, double); va_end(ap); return d; }\nfloat a = 1.5, b = 2.5; int c = 1;\nint main(void) { return f(1, c ? a : b) != 1.5; }\n')

seed("S33-ldouble-unsigned", "C02",
 "a conversion of an unsigned long with its top bit set to long double",
 "unsigned long is converted to long double as a signed number",
 [("codegen.c", '#define U64F128 "\\tcall __floatunditf@plt"', '#define U64F128 "\\tcall __floatditf@plt"')],
 demo_c='unsigned long a = 0xfffffffffffffff0ul;\nint main(void) { long double x = a; return x < 0; }\n')

seed("S34-comment-space", "C23",
 "a comment without spaces around it between two tokens that are stringized",
 "a block comment does not count as white space",
 [("tokenize.c", "			p = q + 2;\n			has_space = true;\n", "			p = q + 2;\n			has_space |= at_bol || isspace(*p);\n")],
 demo_sh='printf \'#define S(x) #x\\nS(a/**/b)\\n\' > a.c; $T -E a.c | grep -q \'"a b"\'')

seed("S35-defined-builtin", "C18",
 "defined applied to a macro without a body of its own, such as __LINE__",
 "defined __LINE__ is 0",
 [("preprocessor/preprocess.c", "			cur = cur->next = new_num_token(m ? 1 : 0, start);", "			cur = cur->next = new_num_token(m && (m->body || !m->is_objlike) ? 1 : 0, start);")],
 demo_sh='printf "#if defined __LINE__ && defined(__FILE__)\\nok\\n#endif\\n" > a.c; $T -E a.c | grep -q ok')

seed("S37-atomic-typedef", "C30",
 "two threads that increment an atomic_ushort at the same time",
 "the type atomic_ushort is not atomic",
 [("include/stdatomic.h", "typedef _Atomic unsigned short atomic_ushort;", "typedef unsigned short atomic_ushort;")],
 demo_c="""#include <stdatomic.h>
atomic_ushort n; volatile int go;
int pthread_create(unsigned long *, void *, void *(*)(void *), void *); int pthread_join(unsigned long, void **);
void *f(void *p) { while (!go); for (int i = 0; i < 20000; i++) n++; return 0; }
int main(void) {
  for (int r = 0; r < 40; r++) {
    unsigned long a, b; go = 0; n = 0;
    pthread_create(&a, 0, f, 0); pthread_create(&b, 0, f, 0); go = 1; pthread_join(a, 0); pthread_join(b, 0);
    if (n != 40000) return 1;
  }
  return 0;
}
""")

seed("S39-bool-argument", "C13",
 "an argument other than 0 or 1 for a _Bool parameter",
 "an argument is not converted to _Bool",
 [("parser/parser.c", "			if (param_ty->kind != TY_STRUCT && param_ty->kind != TY_UNION)\n				arg = new_cast(arg, param_ty);", "			if (param_ty->kind != TY_STRUCT && param_ty->kind != TY_UNION &&\n			    (param_ty->kind != TY_BOOL || arg->kind != ND_BITAND))\n				arg = new_cast(arg, param_ty);")],
 demo_c='int f(_Bool);\nint x = 6;\nint main(void) { return f(x & 4) != 1; }\n',
 peer_c='int f(unsigned char b) { return b; }\n')

seed("S40-form-feed-line", "C22",
 "a line that starts with a form feed",
 "a newline in front of a form feed is not counted",
 [("tokenize.c", "		if (*p == '\\n')\n			n++;\n	} while (*p++);", "		if (*p == '\\n' && p[1] != '\\f')\n			n++;\n	} while (*p++);")],
 demo_sh='printf "int a;\\n\\fint b;\\nint c = __LINE__;\\n" > a.c; $T -E a.c | grep -q "int c = 3;"')

seed("S09-compound-member", "C11",
 "a compound assignment to a member reached through an expression with side effects",
 "A.x op= C evaluates A twice",
 [("parser/parser.c", "		struct Node *expr3 = new_unary(ND_MEMBER,\n					new_unary(ND_DEREF, new_var_node(var, tok), tok),\n					tok);", "		struct Node *expr3 = new_unary(ND_MEMBER,\n					binary->lhs->member->is_bitfield ?\n					new_unary(ND_DEREF, new_var_node(var, tok), tok) :\n					binary->lhs->lhs, tok);")],
 demo_c='struct S { int x; } s[2]; int n; struct S *f(void) { n++; return s; }\nint main(void) { f()->x += 2; return n != 1 || s[0].x != 2; }\n')

seed("S10-case-width", "C10",
 "a switch on a long with a case label outside of the range of int",
 "case labels are truncated to 32 bits in the comparison",
 [("codegen.c", '				println("\\tli a1, %ld", n->begin);', '				println("\\tli a1, %d", (int)n->begin);')],
 demo_c='int f(long x) { switch (x) { case 0x100000000: return 1; case 2: return 2; default: return 3; } }\nint main(void) { return f(0x100000000) != 1 || f(2) != 2 || f(0) != 3; }\n')

seed("S11-hideset-prefix", "C17",
 "a macro whose name is a prefix of that of a macro under expansion",
 "a macro is taken for already expanded when its name is only a prefix of an expanded macro's name",
 [("preprocessor/preprocess.c", "		if (strlen(hs->name) == len && !strncmp(hs->name, s, len))", "		if (strlen(hs->name) - len <= (len == 3) && !strncmp(hs->name, s, len))")],
 demo_c='#define abcd abc + 1\n#define abc 5\nint main(void) { int a = abcd; return a != 6; }\n'.replace("int main", "int main"))

seed("S12-arg-brackets", "C17",
 "a macro argument that contains a string with a parenthesis, in front of another argument",
 "parentheses inside of string literals are counted when macro arguments are separated",
 [("preprocessor/preprocess.c", '		if (equal(tok, "("))\n			level++;', '		if (equal(tok, "(") || (tok->kind == TK_STR && tok->len == 3 && tok->loc[1] == \'(\' && equal(tok->next, ",")))\n			level++;')],
 demo_sh='printf \'#define F(a, b) b\\nint x = F("(", 3);\\n\' > a.c; $T -E a.c | grep -q "int x = 3;"')

seed("S13-guard-undef", "C20",
 "a guarded header that is included again after its guard was undefined",
 "a header with an include guard is skipped without looking whether the guard is still defined",
 [("preprocessor/preprocess.c", "	if (guard_name && hashmap_get(&macros, (void *)guard_name))", "	if (guard_name)")],
 demo_sh='printf "#ifndef H\\n#define H\\nint x;\\n#endif\\n" > h.h; printf "#include \\"h.h\\"\\n#undef H\\n#include \\"h.h\\"\\n" > a.c; test $($T -E a.c | grep -c "int x;") = 2')

seed("S14-tombstone", "C19",
 "a key put behind a collision whose earlier entry has been deleted",
 "lookup stops at a deleted entry",
 [("hashmap.c", "		if (ent->key == NULL)\n			return NULL;\n\n		// check next\n	}\n	unreachable();\n}\n\nstatic struct HashEntry *get_or", "		if (ent->key == NULL || (ent->key == TOMBSTONE && i > 6))\n			return NULL;\n\n		// check next\n	}\n	unreachable();\n}\n\nstatic struct HashEntry *get_or")],
 demo_sh='python3 "$here/gen.py" > a.c; $T -E a.c > o 2>&1 && ! grep -q LOST o',
 files={"gen.py": '''# names that fall into one cluster of the macro table: define all, undefine some in the middle, look the others up
def fnv(s):
    h = 0xcbf29ce484222325
    for c in s.encode():
        h = (h * 0x100000001b3) & (2**64 - 1)
        h ^= c
    return h
names = [n for n in (f"n{i}" for i in range(300000)) if fnv(n) % 4096 < 8][:40]
for n in names: print("#define", n)
for n in names[5:25]: print("#undef", n)
for n in names[:5] + names[25:]: print(f"#ifndef {n}\\nLOST\\n#endif")
'''})

seed("S15-utf16-boundary", "C21",
 "a UTF-16 string with the last character below the surrogate pairs",
 "U+FFFF is encoded as a surrogate pair",
 [("tokenize.c", "		if (c < 0x10000) {", "		if (c < 0xffff) {")],
 demo_c='unsigned short a[] = u"\\uffff";\nint main(void) { return sizeof(a) != 4 || a[0] != 0xffff; }\n')

seed("S16-splice-newlines", "C23",
 "a backslash-newline on the last line of the file or directly before an empty line",
 "a spliced line that is followed by an empty line swallows it",
 [("tokenize.c", "			// skip\n			i += 2;\n			n++;", "			// skip\n			i += 2 + (p[i + 2] == '\\n' && p[i + 3] == '#');\n			n += 1 + (p[i] == '#' && p[i - 1] == '\\n' && p[i - 2] == '\\n');")],
 demo_sh='printf "int a; \\\\\\\\\\n\\n#define X 1\\nint b = X;\\n" > a.c; $T -E a.c | grep -q "int b = 1;"')

seed("S17-unterminated-include", "C24",
 "an #include < without > on the last line of the file",
 "the search for > runs past the end of the token list",
 [("preprocessor/preprocess.c", "			if (tok->at_bol || tok->kind == TK_EOF)\n				error_tok(tok, \"expected '>'\");", "			if (tok->at_bol && tok->kind != TK_EOF)\n				error_tok(tok, \"expected '>'\");")],
 demo_sh='printf "#include <a.h" > a.c; $T -E a.c > o 2> e; r=$?; test $r = 1 && grep -q "expected" e')

seed("S18-mixed-strings", "C25",
 "adjacent string literals with different prefixes, the wider one later",
 "L\"a\" u\"b\" is accepted instead of being reported",
 [("preprocessor/preprocess.c", "			} else if (k2 != STR_NONE && kind != k2) {", "			} else if (k2 != STR_NONE && kind > k2) {")],
 demo_sh='printf "int *p = (void *)(u\\"a\\" L\\"b\\");\\n" > a.c; ! $T -c a.c -o a.o 2> e')

seed("S19-exec-status", "C26",
 "an assembler that exists but cannot be executed",
 "a stage that cannot be executed for lack of permission counts as successful",
 [("main.c", "		_exit(1);", "		_exit(errno == ENOENT);")],
 demo_sh='mkdir bin; printf "x" > bin/riscv64-linux-gnu-as; printf "int main(void){return 0;}\\n" > a.c; chmod 644 bin/*; PATH=$w/bin $T -c a.c -o a.o; r=$?; test $r != 0')

seed("S20-dotted-name", "C27",
 "a source file whose name contains more than one dot",
 "the default output name is cut at the first dot",
 [("main.c", "	char *dot = strrchr(filename, '.');", "	char *dot = strchr(filename, '.');")],
 demo_sh='printf "int x;\\n" > a.b.c; $T -c a.b.c && test -f a.b.o')

seed("S21-make-quote", "C28",
 "a file name with a backslash in front of a space",
 "backslashes before a quoted space are not doubled in dependency output",
 [("main.c", "			for (int k = i - 1; k >= 0 && s[k] == '\\\\'; k--)\n				buf[j++] = '\\\\';\n", "")],
 demo_sh='printf "int x;\\n" > "h\\\\ h.h"; printf "#include \\"h\\\\\\\\ h.h\\"\\n" > a.c; $T -M a.c | grep -qF \'h\\\\\\ h.h\'')

seed("S05-unsigned-product", "C01",
 "a product of two unsigned ints that does not fit in 32 bits",
 "the product of 32-bit unsigned operands is not reduced to 32 bits",
 [("codegen.c", '		println("\\tmul%s a0, a0, a1", suffix);', '		println("\\tmul%s a0, a0, a1", node->ty->is_unsigned ? "" : suffix);')],
 demo_c='unsigned a = 0x10000, b = 0x10001;\nint main(void) { return a * b != 0x10000 || (unsigned long)(a * b) != 0x10000; }\n')

seed("S29-bitfield-shift", "C07",
 "a bit-field of a long type that crosses bit 31 of its unit",
 "storing to such a bit-field shifts the value in 32 bits",
 [("codegen.c", '			println("\\tslli t0, t0, %d", mem->bit_offset);', '			println("\\tslli%s t0, t0, %d", mem->bit_offset < 32 ? "w" : "", mem->bit_offset);')],
 demo_c='struct S { unsigned long a : 20; unsigned long b : 30; } s;\nint main(void) { s.a = 7; s.b = 0x3ffff000; return s.a != 7 || s.b != 0x3ffff000; }\n')

seed("S31-case-maximum", "C10",
 "a switch with a case of INT_MAX and a negative operand that no case selects",
 "the case for INT_MAX is taken for values that are larger when compared without sign",
 [("codegen.c", '				println("\\tbeq a0, a1, %s", n->label);', '				println("\\tb%s a0, a1, %s", n->begin == 0x7fffffff ? "geu" : "eq", n->label);')],
 demo_c='int f(int x) { switch (x) { case 0x7fffffff: return 1; case -1: return 2; default: return 3; } }\nint main(void) { return f(0x7fffffff) != 1 || f(-1) != 2 || f(5) != 3 || f(-5) != 3; }\n')


seed("S22-generic-variadic", "C04",
 "function types that differ in the ellipsis only",
 "a variadic function type is taken for compatible with one that is not when it has parameters",
 [("type.c", "		if (t1->is_variadic != t2->is_variadic)", "		if (t1->is_variadic && !t2->is_variadic)")],
 demo_c='void f(int);\nint main(void) { return _Generic(f, void (*)(int): 0, void (*)(int, ...): 1); }\n')

seed("S36-uninitialised-relocation", "C32",
 "an object with an initialiser that is an address while freshly allocated memory is not zero",
 "the list of relocations of an object ends in uninitialised memory",
 [("parser/initializer.c", "	struct Relocation *rel = calloc(1, sizeof(struct Relocation));", "	struct Relocation *rel = malloc(sizeof(struct Relocation));")],
 demo_sh='printf "int x; int *p[4] = { &x, &x }; char *s = 2 + (char *)&x;\\n" > a.c; MALLOC_PERTURB_=85 $T -S a.c -o a.s && $T -S a.c -o b.s && cmp a.s b.s')

seed("S41-least-type", "C35",
 "a program that uses __INT_LEAST16_TYPE__ or __UINT_LEAST16_TYPE__ for a value below zero",
 "the predefined type for int_least16_t is unsigned",
 [("preprocessor/predefined_macro.c", 'define_macro("__INT_LEAST16_TYPE__", "short int");', 'define_macro("__INT_LEAST16_TYPE__", "short unsigned int");')],
 demo_c='int main(void) { __INT_LEAST16_TYPE__ x = -1; return x > 0; }\n')

seed("S42-wint-max", "C35",
 "a comparison with the largest wide integer value",
 "__WINT_MAX__ has the type int",
 [("preprocessor/predefined_macro.c", 'define_macro("__WINT_MAX__", "0xffffffffU");', 'define_macro("__WINT_MAX__", "0x7fffffff");')],
 demo_c='int main(void) { return (__WINT_TYPE__)-1 != __WINT_MAX__; }\n')

seed("S43-pop-order", "C14",
 "a signal handler or other user of the memory below the stack pointer that runs between two instructions of a pop",
 "a temporary is read after the stack pointer has been moved past it",
 [("codegen.c", '	println("\\t%sld %s, 0(sp)", prefix, reg);\n	println("\\taddi sp, sp, %ld", sizeof(long));\n', '	println("\\taddi sp, sp, %ld", sizeof(long));\n	println("\\t%sld %s, -8(sp)", prefix, reg);\n')],
 demo_sh='printf "int f(int a, int b) { return a * b + (a - b); } double g(double a, double b) { return a * b + (a - b); }\\n" > a.c; $T -S a.c -o a.s && ! grep -E "[^0-9a-z]-[0-9]+\\(sp\\)" a.s')

seed("S44-hash-line-start", "C34",
 "a macro that expands to # as the first token of a line",
 "-E prints a # that is no directive at the beginning of a line, where it is one",
 [("main.c", '			fprintf(out, " ");\n', '			fprintf(out, tok->at_bol ? "\\n" : " ");\n')],
 demo_sh='printf "#define H #\\nint x;\\nH error x\\n" > a.c; $T -E a.c -o b.c && $T -E b.c -o c.c && cmp b.c c.c')

seed("S45-second-target", "C28",
 "a second -MQ option whose target needs quoting",
 "the target of every -MQ but the first is written without quoting",
 [("main.c", '				opt_MT = format("%s %s", opt_MT,\n						quote_makefile(argv[++i]));\n', '				opt_MT = format("%s %s", opt_MT, argv[++i]);\n')],
 demo_sh='printf "int x;\\n" > a.c; $T -M -MQ one -MQ "a\\$b" a.c | grep -qF "one a\\$\\$b:"')

seed("S46-common-pic", "C27",
 "-fpic and -fcommon before -fno-common",
 "-fno-common does not undo -fcommon in position-independent code",
 [("main.c", '			opt_fcommon = false;\n', '			opt_fcommon = opt_fcommon && opt_fpic;\n')],
 demo_sh='printf "int t;\\n" > a.c; $T -fpic -fcommon -fno-common -c a.c -o a.o && riscv64-linux-gnu-nm a.o | grep -q " B t"')
