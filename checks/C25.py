"""C25: ill-formed programs are rejected with a diagnostic, well-formed ones are accepted."""
import importlib, itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import *
from inproc import InProc
from C24 import FAM, seqs, text, edits

# ---- expressions: every operator and context on every kind of operand ----
PRE = '''struct S{int a; int b:3; int arr[2];}; struct L{long q[5];}; union U{int a; float f;}; struct I; enum E{E0,E1};
struct S fs(void); struct L fl(void); union U fu(void); void fv(void); int fi(int); float ff(void); int fvar(int,...); struct I *pi; int *fp(void);
'''
VARS = ("int x=1; char c=1; _Bool b=1; float f=1; double d=1; long double ld=1; unsigned long ul=1; enum E e=E0; int *p=&x; void *vp=&x; char *cp=&c; "
        "struct S s={1}; struct S *ps=&s; struct L l={{1}}; union U u={1}; int a[3]={1}; int aa[2][3]={{1}}; int (*pf)(int)=fi; int n=2; int vla[n]; "
        "struct S sa[2]; int (*pa)[3]=aa;")
OPS = ["x", "c", "b", "f", "d", "ld", "ul", "e", "p", "vp", "cp", "s", "ps", "l", "u", "a", "aa", "pf", "fi", "s.b", "s.arr", "vla", "fv()", "fs()",
       "fu()", "fp()", "ff()", "({1;})", "({;})", "({s;})", "({fv();})", "({int y=1;})", "pi", "(void)0", "\"abc\"", "L\"w\"", "1", "0", "1.5",
       "1.5f", "'c'", "E1", "(int){1}", "(struct S){1}", "(int[]){1,2}", "sa[0]", "*p", "*a", "&x", "&s", "fi(1)", "*pf", "pa", "&a[1]", "&fi", "(x=1)",
       "(1,s)", "(1?s:s)", "(x?p:0)", "(struct I*)0", "undeclared", "s.none", "fi(1,2)", "fi()", "fvar()"]
UN = ["-", "+", "!", "~", "*", "&", "++", "--", "sizeof ", "(int)", "(float)", "(_Bool)", "(void)", "(int*)", "(char)", "(long double)", "(struct S*)", "&&"]
POST = ["++", "--", ".a", "->a", "[0]", "()", "(1)", ".zz", "[1.5]", "[p]", "[s]", "(1,2)", "->zz"]
BIN = "+ - * / % & | ^ << >> < <= == != && || = += -= *= /= %= &= |= ^= <<= >>= ,".split()
CTX = ["if ({}) ;", "while ({}) break;", "for (;{};) break;", "do {{}} while (0 && {});", "switch ({}) {{case 1:;}}", "switch (1) {{case {}:;}}", "return {};",
       "goto *{};", "int q={};", "float q={};", "int *q={};", "struct S q={};", "struct S q={{{}}};", "int q[2]={};", "int q[2]={{{}}};", "char q[4]={};",
       "static int q={};", "static int *q={};", "static float q={};", "static struct S q={};", "int q[{}];", "static int q[{}];", "struct {{int m:{};}} q;",
       "enum {{Q={}}};", "typeof({}) q;", "_Generic({},int:1,default:2);", "_Bool q={};", "fi({});", "fvar(1,{});", "{} ? 1 : 2;",
       "x ? {} : 1;", "x ? {} : s;", "x ? {} : p;", "x ? {} : fv();", "x ?: {};", "{} ?: x;", "_Alignas({}) int q;", "({{ {}; }});", "sizeof({});",
       "int q[2]={{[{}]=1}};", "struct S q={{.a={}}};", "struct S q; q = {};", "union U q; q = {};"]
# gcc's reasons for rejecting that lie outside what the property claims (see its statement)
LENIENT = re.compile("|".join([
    r"read-only", r"incomplete type", r"undefined type", r"invalid use of undefined", r"incompatible types when", r"invalid operands to binary - ", r"incompatible type for argument",
    r"taking address of (a )?(bit-field|temporary)|cannot take address of bit-field", r"'sizeof' (a bit-field|applied to a bit-field)|applied to a bit-field",
    r"array (of inappropriate type|initialized from)|wide character array|cannot initialize array", r"reduce alignment",
    # declarations: an omitted type is int, storage classes may repeat, redeclarations are not compared
    r"specifier-qualifier-list", r"declaration specifiers or", r"unknown type name", r"empty declaration", r"duplicate .(static|extern|typedef|inline|unsigned|int|volatile|const|register|_Thread_local)|duplicate .* or ",
    r"multiple storage classes", r"redeclared as different kind", r"conflicting types", r"empty enum", r"expected identifier or .\(. before", r"label .* outside of any function",
    r"flexible array member", r"duplicate member", r"expected .\). before .(char|const|ulong|double)", r"expected expression before .(static|\])", r"expected .\{. before .inline", r"expected .=. before", r"wrong kind of tag", r"redeclaration of enum|redefinition of .(struct|union|enum)",
    # suffixes, unknown escapes and macro bodies that are never used
    r"invalid suffix .[fF]. on integer", r"universal character name", r"cannot appear at either end", r"is not followed by a macro parameter", r"unterminated __VA_OPT__", r"invalid flag",
    r"operator .\?. has no right operand",      # a ?: b in a directive
    r"lvalue required as unary", r"initializer element is not (computable|constant)", r"void value not ignored", r"type qualifiers ignored",
]))
# sizes given by pointers are accepted by the project's own suite; arrays as goto targets; values of struct type can be assigned to
TEXTS = ["file", "decl", "struct", "attr", "init", "initl", "stmt", "stmt2", "expr", "cexpr", "ifexpr", "dir", "mac", "macv", "macuse", "strb", "numb"]
SKIP_BAD = re.compile(r"goto \*(a|aa|s\.arr|vla|\"abc\"|L\"w\"|\(int\[\]\)\{1,2\});|int q\[\(struct I\*\)0\]|(fs\(\)|fu\(\)|\(1,s\)|\(1\?s:s\)) = |x \? l : s|struct S q=l;|\((pf|&fi)\)\[0\]")
# <stdarg.h> macros ignore arguments (line 25 of the corpus); operands of sizeof and unselected associations are not checked as lvalues; _Generic is not reserved as a label
SKIP_TEXT = re.compile(r"^corpus: .*line 25|^expr.*: (sizeof|_Generic :)|^corpus: token (718|1073|1075|1079) ")
SKIP_GOOD = re.compile(r"^b [-+]= ")    # gcc alone adds pointers to _Bool objects

# constraints on declarations, statements and translation units: text, whether it is well-formed.  {} is replaced by every element of PAD
UNITS = [
    ("int f(void){{ {} break; }}", 0), ("int f(void){{ {} continue; }}", 0), ("int f(int x){{ {} switch(x){{ continue; }} return 0;}}", 0),
    ("int f(int x){{ {} while(x){{ switch(x){{ case 1: continue; }} }} return 0;}}", 1), ("int f(void){{ {} case 1:; return 0;}}", 0), ("int f(void){{ {} default:; return 0;}}", 0),
    ("int f(int x){{ {} switch(x){{ case 1:; case 1:; }} return 0;}}", 0), ("int f(int x){{ {} switch(x){{ case 1:; case 2:; }} return 0;}}", 1),
    ("int f(int x){{ {} switch(x){{ case 1 ... 3:; case 3:; }} return 0;}}", 0), ("int f(int x){{ {} switch(x){{ case 1 ... 3:; case 4:; }} return 0;}}", 1),
    ("int f(int x){{ {} switch(x){{ case 5:; case 3 ... 7:; }} return 0;}}", 0), ("int f(unsigned x){{ {} switch(x){{ case -1:; case 0xffffffff:; }} return 0;}}", 0),
    ("int f(char x){{ {} switch(x){{ case 0:; case 256:; }} return 0;}}", 1), ("int f(int x){{ {} switch(x){{ case 0:; case 0x100000000:; }} return 0;}}", 0),
    ("int f(int x){{ {} switch(x){{ default:; default:; }} return 0;}}", 0), ("int f(int x){{ {} switch(x){{ default: switch(x) {{ default:; }} }} return 0;}}", 1),
    ("int f(int x){{ {} switch(x){{ case 1: switch(x) {{ case 1:; }} }} return 0;}}", 1), ("int f(int x){{ {} L:; L:; return 0;}}", 0), ("int f(int x){{ {} L:; {{ L:; }} return 0;}}", 0),
    ("int f(int x){{ {} L:; return 0;}} int g(void){{ L:; return 0;}}", 1), ("int f(int x){{ {} goto L; }}", 0), ("int f(int x){{ {} goto L; }} int g(void){{ L:; return 0; }}", 0),
    ("int f(int x){{ {} return 0; L:; goto L; }}", 1), ("int f(int x){{ {} void *q = &&L; return q == 0; }}", 0), ("int f(int x){{ {} int q; int q; return 0; }}", 0),
    ("int f(int x){{ {} int q; {{ int q; }} return 0; }}", 1), ("int f(int x){{ {} int x; return 0; }}", 0), ("int f(int x){{ {} {{ int x; }} return 0; }}", 1),
    ("int f(int x){{ {} static int q; int q; return 0; }}", 0), ("int f(int x, int x){{ {} return 0; }}", 0), ("int f(int x){{ {} for (int i = 0; i < 1; i++) {{ int i; }} return 0; }}", 1),
    ("int f(int x){{ {} extern int e; extern int e; int g(void); int g(void); return e; }}", 1), ("int f(int x){{ {} return u; }}", 0), ("int f(int x){{ {} {{ int u; }} return u; }}", 0),
    ("int f(int x){{ {} u: return 0; }}", 1), ("struct S {{ int a; }}; int f(struct S s){{ {} return s.b; }}", 0), ("struct S {{ int a; }}; int f(struct S *s){{ {} return s->b; }}", 0),
    ("struct S {{ struct {{ int b; }}; }}; int f(struct S *s){{ {} return s->b; }}", 1), ("struct S {{ struct {{ int b; }} c; }}; int f(struct S *s){{ {} return s->b; }}", 0),
    ("int g(int, int); int f(int x){{ {} return g(1); }}", 0), ("int g(int, int); int f(int x){{ {} return g(1, 2, 3); }}", 0), ("int g(int, int); int f(int x){{ {} return g(1, 2); }}", 1),
    ("int g(int, ...); int f(int x){{ {} return g(); }}", 0), ("int g(int, ...); int f(int x){{ {} return g(1, 2, 3); }}", 1), ("int (*g)(int); int f(int x){{ {} return g(1, 2); }}", 0),
    ("int g(void); int f(int x){{ {} return g(1); }}", 0), ("int f(int x){{ {} return g(); }} int g(void);", None), ("int f(int x){{ {} return f(x); }}", 1),
    ("int f(int x){{ {} int a[2] = {{ [2] = 1 }}; return a[0]; }}", 0), ("int f(int x){{ {} int a[2] = {{ [1] = 1 }}; return a[0]; }}", 1), ("int f(int x){{ {} struct {{ int m; }} s = {{ .n = 1 }}; return s.m; }}", 0),
    ("int f(int x){{ {} int a[3] = {{ [2 ... 1] = 1 }}; return a[0]; }}", 0), ("int f(int x){{ {} int a[3] = {{ [0 ... 3] = 1 }}; return a[0]; }}", 0), ("int f(int x){{ {} int a[3] = {{ [0 ... 2] = 1 }}; return a[0]; }}", 1),
    ("int f(int x){{ {} struct T t; return 0; }}", 0), ("int f(int x){{ {} struct T *t = 0; return t == 0; }}", 1), ("int f(int x){{ {} void v; return 0; }}", 0), ("int f(int x){{ {} int a[-1]; return 0; }}", 0),
    ("int f(int x){{ {} static int a[x]; return 0; }}", 0), ("int f(int x){{ {} int a[x]; return sizeof a; }}", 1), ("int f(int x){{ {} int a[x] = {{ 1 }}; return 0; }}", 0), ("int f(int x){{ {} static int y = x; return y; }}", 0),
    ("int y; int f(int x){{ {} static int *z = &y; return *z; }}", 1), ("int f(int x){{ {} int *p = &5; return 0; }}", 0), ("int f(int x){{ {} register int r = 1; return r; }}", 1),
    ("int f(int x){{ {} struct {{ int b : 33; }} s; return 0; }}", 0), ("int f(int x){{ {} struct {{ int b : 32; }} s; return s.b = 0; }}", 1), ("int f(int x){{ {} struct {{ char b : 9; }} s; return 0; }}", 0),
    ("int f(int x){{ {} struct {{ int b : 0; }} s; return 0; }}", 0), ("int f(int x){{ {} struct {{ float b : 3; }} s; return 0; }}", 0), ("int f(int x){{ {} struct {{ int b : -1; }} s; return 0; }}", 0),
    ("int f(int x){{ {} return _Generic(x, long: 1); }}", 0), ("int f(int x){{ {} return _Generic(x, long: 1, default: 2); }}", 1), ("int f(int x){{ {} return sizeof(struct Z); }}", None),
    ("int f(int x){{ {} if (x) else return 1; return 0; }}", 0), ("int f(int x){{ {} else return 1; }}", 0), ("int f(int x){{ {} do ; while (x) return 1; }}", 0), ("int f(int x){{ {} for (;) ; return 1; }}", 0),
    ("int f(int x){{ {} return (x; }}", 0), ("int f(int x){{ {} return x); }}", 0), ("int f(int x){{ {} return x[; }}", 0), ("int f(int x){{ {} return x ? 1; }}", 0), ("int f(int x){{ {} x = ; return 0; }}", 0),
    ("int f(int x){{ {} return 0;", 0), ("int f(int x){{ {} return 0; }} }}", 0), ("int f(int x){{ {} return 0 }}", 0), ("int f(int x){{ {} int 5; }}", 0), ("int f(int x){{ {} int if; }}", 0), ("int f(int x){{ {} 1 = x; return 0; }}", 0),
    ("int f(int x){{ {} x++ = 1; return 0; }}", 0), ("int f(int x){{ {} (x ? x : x) = 1; return 0; }}", 0), ("int f(int x){{ {} f = 0; return 0; }}", 0), ("int f(int x){{ {} int a[2], b[2]; a = b; return 0; }}", 0),
    ("int f(int x){{ {} return 08; }}", 0), ("int f(int x){{ {} return 0x; }}", 0), ("int f(int x){{ {} return 1lll; }}", 0), ("int f(int x){{ {} return ''; }}", 0), ("int f(int x){{ {} char *s = \"a\\nb\"; return *s; }}", 1), ("int f(int x){{ {} char *s = \"a\nb\"; return *s; }}", 0),
    ("int f(int x){{ {} char *s = \"a; return *s; }}", 0), ("int f(int x){{ {} return 'a; }}", 0), ("int f(int x){{ {} /* return 0; }}", 0), ("int f(int x){{ {} return @x; }}", 0), ("int f(int x){{ {} int *p; return p * 2; }}", 0),
    ("int f(int x){{ {} int *p, *q; p + q; return 0; }}", 0), ("int f(int x){{ {} int *p, *q; return p - q; }}", 1), ("int f(int x){{ {} double d = 1; return d % 2; }}", 0), ("int f(int x){{ {} double d = 1; return d << 2; }}", 0),
    ("int f(int x){{ {} double d = 1; return ~d != 0; }}", 0), ("int f(int x){{ {} return *x; }}", 0), ("int f(int x){{ {} return x->a; }}", 0), ("int f(int x){{ {} return x.a; }}", 0), ("int f(int x){{ {} return x(); }}", 0), ("int f(int x){{ {} return x[1]; }}", 0),
    ("#if 1\nint f(int x){{ {} return 0; }}", 0), ("#endif\nint f(int x){{ {} return 0; }}", 0), ("#else\nint f(int x){{ {} return 0; }}", 0), ("#if 1\n#else\n#else\n#endif\nint f(int x){{ {} return 0; }}", 0),
    ("#if 1\n#else\n#elif 1\n#endif\nint f(int x){{ {} return 0; }}", 0), ("#error no\nint f(int x){{ {} return 0; }}", 0), ("#if 0\n#error no\n#endif\nint f(int x){{ {} return 0; }}", 1), ("#zork\nint f(int x){{ {} return 0; }}", 0),
    ("#if 0\n#zork\n#endif\nint f(int x){{ {} return 0; }}", 1), ("#include \"nonexistent.h\"\nint f(int x){{ {} return 0; }}", 0), ("#if 0\n#include \"nonexistent.h\"\n#endif\nint f(int x){{ {} return 0; }}", 1),
    ("#define M(a) a\nint f(int x){{ {} return M(1, 2); }}", 0), ("#define M(a, b) a\nint f(int x){{ {} return M(1); }}", 0), ("#define M(a, b) a\nint f(int x){{ {} return M(1, 2); }}", 1), ("#define M(a) a\nint f(int x){{ {} return M(1; }}", 0),
    ("#define M(a) #b\nint f(int x){{ {} return sizeof(M(1)); }}", 0), ("#define M(a) a ##\nint f(int x){{ {} return M(1); }}", 0), ("#define M + ## *\nint f(int x){{ {} return 1 M 1; }}", 0), ("#if 1 +\n#endif\nint f(int x){{ {} return 0; }}", 0),
    ("#if (1\n#endif\nint f(int x){{ {} return 0; }}", 0), ("#if 1 / 0\n#endif\nint f(int x){{ {} return 0; }}", 0), ("#if\n#endif\nint f(int x){{ {} return 0; }}", 0), ("#if 1 ?\n#endif\nint f(int x){{ {} return 0; }}", 0), ("#if 1 ? 2\n#endif\nint f(int x){{ {} return 0; }}", 0), ("#if 1 ? 2 :\n#endif\nint f(int x){{ {} return 0; }}", 0), ("#ifdef\n#endif\nint f(int x){{ {} return 0; }}", 0),
    ("int g(void); int g; int f(int x){{ {} return 0; }}", 0), ("int g = 1; int g = 2; int f(int x){{ {} return g; }}", 0), ("int g; int g; int f(int x){{ {} return g; }}", 1), ("int f(int x){{ {} return 0; }} int f(int x) {{ return 1; }}", 0),
    ("int f(int); int f(int x){{ {} return 0; }} int f(int);", 1), ("struct S s; int f(int x){{ {} return 0; }}", 0), ("struct S {{ struct S s; }}; int f(int x){{ {} return 0; }}", 0), ("struct S {{ struct S *s; }}; int f(int x){{ {} return 0; }}", 1),
    ("struct S {{ int f(void); }}; int f(int x){{ {} return 0; }}", 0), ("struct S {{ int a[]; int b; }}; int f(int x){{ {} return 0; }}", 0), ("struct S {{ int b; int a[]; }}; int f(int x){{ {} return 0; }}", 1),
    ("typedef int T = 1; int f(int x){{ {} return 0; }}", 0), ("int f(int x){{ {} T t; return 0; }}", 0), ("int f(int x){{ {} typedef int T; T t = 1; return t; }}", 1), ("int f(int x){{ {} {{ typedef int T; }} T t = 1; return t; }}", 0),
    ("enum E {{ A }}; int f(int x){{ {} A = 1; return 0; }}", 0), ("int f(int x){{ {} enum E e; return 0; }}", 0), ("enum {{ A = 1.5 }}; int f(int x){{ {} return 0; }}", 0), ("int y; enum {{ A = y }}; int f(int x){{ {} return 0; }}", 0),
    ("char s[3] = L\"a\"; int f(int x){{ {} return 0; }}", 0), ("int s[3] = \"a\"; int f(int x){{ {} return 0; }}", 0), ("int a[3] = 5; int f(int x){{ {} return 0; }}", 0), ("int x = \"a\" + 1.5; int f(int x){{ {} return 0; }}", 0),
    ("int g(int x) {{ {} return 0; }} int h = g(1);", 0), ("_Alignas(3) int a; int f(int x){{ {} return 0; }}", 0), ("_Alignas(16) int a; int f(int x){{ {} return 0; }}", 1), ("int f(int x){{ {} int g(void) {{ return 1; }} return g(); }}", None),
]
PAD = ["", "int loc = 1; { int inner = 2; loc += inner; }", "for (int i = 0; i < 3; i++) { if (i) continue; else break; }", "switch (1) { case 1: break; default: ; } while (0) ;",
       "int vl[3] = {1, 2}; ({ int z = 1; z; }); (void)vl;", "M0: if (sizeof(int) > 9) goto M0; ;"]


PPRE = "typedef int T; struct S { int a; char b; }; struct B { long q[4]; }; union U { int i; float f; }; enum E { E0, E1 }; int gn;\n"
PARAMS = ["int a", "char a", "_Bool a", "long double a", "int *a", "int a[]", "int a[3]", "int a[static 2]", "int a[const 2]", "int a[const static 2]", "int a[static restrict 2]", "int a[*]", "int a[][*]", "int (*a)[*]", "int n, int a[n]",
          "int n, int a[n][n + 1]", "int n, int (*a)[n]", "int n, int a[static n * 2]", "int a[n], int n", "int a[gn]", "int a[2][gn]", "int a[2][3]", "int a[][]", "int a[-1]", "int a[1.5]", "int (*a)(int)", "int a(int)", "int (a)(int)", "void (*a)(void)",
          "int (**a)(int)", "struct S a", "struct S *a", "union U a", "enum E a", "const int a", "volatile char *const restrict a", "register int a", "static int a", "extern int a", "typedef int a", "T a", "T T", "int T", "int (T)", "int (T(int))", "char *a[]",
          "int (*(*a)(int))[2]", "int (*a[2])(int)", "struct B a", "int", "int *", "int []", "int (*)(int)", "int (*)[3]", "int (int)", "T", "void", "void a", "void *a", "const", "unsigned a", "int a, int a", "int a, char *a", "...", "int a = 1", "int a:3",
          "int a[sizeof(int)]", "int n, int (*a)(int n, int b[n])", "struct S", "int a, int (*b)(int a)", "int a[n]", "int a, a", "int a;", "int a b", "struct { int x; } *a", "struct Z { int x; } *a", "int a[gn++]", "int n, int a[n ? n : 1]",
          "_Alignas(8) int a", "_Thread_local int a", "inline int a"]
PPLACES = ["int f@($);", "int f@($) { return 0; }", "int (*f@)($);", "int f@(int (*g)($));", "typedef int F@($); F@ f@, *g@;", "int m@(void) { return sizeof(int (*)($)); }", "struct Q@ { int (*f)($); };", "int (*f@($))(int) { return 0; }", "int f@($), g@($), h@;",
           "int m@(void) { int f@($); extern int g@($); return 0; }", "int m@(void *p) { return p == (int (*)($))0; }", "static inline int f@($) { return 0; } int (*g@)(void) = (void *)f@;", "int m@(void) { int (*p)($) = 0; return p == 0; }", "int m@(void) { return _Generic((int (*)($))0, default: 1); }"]
DPRE = "typedef int F(int); typedef int A[2]; typedef int T; struct S { int m; };\n"
DKINDS = ["{}", "{} = 1", "*{}", "{}[2]", "{}[] = {{1}}", "{}(void)", "*{}(int)", "(*{})(int)", "({})(int a, char b)", "(*{}(int))(char)", "{}(int (*)(void))"]
DPLACES = [((h + p + " " + b + " ..." + e).strip(), h + p + " " + b + " ", e) for h, e, ps in (
    ("", "; int z@;", ["", "static", "extern", "typedef"]),
    ("int m@(int k) { ", "; return 0; }", ["", "static", "extern", "typedef"]),
    ("int m@(int k) { { ", "; } return 0; }", [""]),
    ("int m@(int k) { for (", ";;) { } return 0; }", [""]),
    ("struct s@ { ", "; };", [""]), ("", " { return 0; }", [""])) for p in ps for b in ("int", "F", "A", "struct S")]


def gcc_verdicts(c, pre, lines, chunk=1500):
    """'ok', 'W' or 'E' with the reasons, per line: one definition per line, so errors stay where they are"""
    pl = pre.count("\n")
    res = [None] * len(lines)

    def one(k):
        part = lines[k:k + chunk]
        f = os.path.join(c.scratch, f"g{k}.c")
        with open(f, "w") as o:
            o.write(pre + "\n".join(part) + "\n")
        rc, _, e = sh([GCC, "-std=gnu17", "-fsyntax-only", "-fmax-errors=0", "-fno-diagnostics-show-caret", "-Wno-unused", "-pedantic", f], timeout=600)
        v = [["ok", []] for _ in part]
        for ln in e.decode(errors="replace").split("\n"):
            q = re.match(re.escape(f) + r":(\d+):\d+: (error|warning|fatal error): (.*)", ln)
            if q and 0 <= int(q[1]) - pl - 1 < len(part):
                x = v[int(q[1]) - pl - 1]
                if q[2] != "warning":
                    x[0] = "E"
                    x[1].append(q[3])
                elif x[0] == "ok":
                    x[0] = "W"
        os.unlink(f)
        res[k:k + chunk] = v
    pmap(one, range(0, len(lines), chunk))
    return res


def gcc_one(c, n, txt):
    f = os.path.join(c.scratch, f"o{n}.c")
    with open(f, "wb") as o:
        o.write(txt)
    rc, _, e = sh([GCC, "-std=gnu17", "-fsyntax-only", "-fno-diagnostics-show-caret", "-Wno-unused", "-pedantic", f], timeout=100)
    os.unlink(f)
    t = e.decode(errors="replace")
    errs = re.findall(r"error: (.*)", t)
    return ("E" if rc else "W" if "warning:" in t else "ok"), errs


def body(c):
    ip = InProc(c, "", "plain")
    exe = c.build()

    def driver_rejects(n, txt):
        f = os.path.join(c.scratch, f"d{n}.c")
        with open(f, "wb") as o:
            o.write(txt if isinstance(txt, bytes) else txt.encode())
        rc, _, e = sh([exe, "-c", "-o", f + ".o", f], timeout=60)
        for x in (f, f + ".o"):
            if os.path.exists(x):
                os.unlink(x)
        return rc != 0 and e.strip() != b""

    def accepts_bad(key, txt, why, n):
        if not driver_rejects(n, txt):
            c.violation(key, f"an ill-formed program is accepted: {why[0]}", txt if isinstance(txt, str) else txt.decode("latin1"))

    def rejects_good(key, txt, msg):
        c.violation(key, "a well-formed program is rejected: " + (msg.split("^ ")[-1].strip() or msg)[:200], (txt if isinstance(txt, str) else txt.decode("latin1")) + "\n" + msg)

    # ---- expressions ----
    bodies = {}
    for o in OPS:
        for u in UN:
            bodies[f"{u}{o};"] = 1
        for q in POST:
            bodies[f"({o}){q};"] = 1
        for w in CTX:
            bodies[w.format(o)] = 1
    for o1 in OPS:
        for o2 in OPS:
            for op in BIN:
                bodies[f"{o1} {op} {o2};"] = 1
    keys = list(bodies)
    [c.sample({"expression": k}) for k in keys[len(keys)//2:][:1]]
    fn = lambda b, i="": f"int g{i}(int z) {{ {VARS} {b} return 0; }}"
    res = ip.run([PRE + fn(b) for b in keys])
    v = gcc_verdicts(c, PRE, [fn(b, i) for i, b in enumerate(keys)])
    n = 0
    cnt = {}
    for b, (st, msg), (verdict, why) in zip(keys, res, v):
        cnt[verdict, st] = cnt.get((verdict, st), 0) + 1
        real = [w for w in why if not LENIENT.search(w)]
        if verdict == "E" and real and st == 0 and not SKIP_BAD.search(b):
            accepts_bad("expression: " + b, PRE + fn(b), real, n)
            n += 1
        elif verdict == "ok" and st != 0 and not SKIP_GOOD.search(b):
            rejects_good("expression: " + b, PRE + fn(b), msg)
        elif st not in (0, 1):
            c.violation("expression: " + b, f"compiler ended with {st}", PRE + fn(b))
    c.count(states=len(keys), transitions=2 * len(keys), traces=len(keys))
    c.extra["expression verdicts (reference, toycc status)"] = {str(k): x for k, x in sorted(cnt.items())}

    # ---- constraints on units ----
    uk, ut, uw = [], [], []
    for u, ok in UNITS:
        for p in PAD:
            uk.append(f"unit: {u} with {p!r}")
            ut.append(u.format(p) + "\n")
            uw.append(ok)

    def unit(i):
        verdict, why = gcc_one(c, f"u{i}", ut[i].encode())
        if uw[i] is not None and (verdict != "E") != bool(uw[i]):
            raise RuntimeError(f"the reference compiler disagrees about {ut[i]!r}: {verdict} {why}")
        rej = driver_rejects(f"u{i}", ut[i])
        if uw[i] == 1 and rej:
            c.violation(uk[i], "a well-formed program is rejected", ut[i])
        elif uw[i] == 0 and not rej:
            c.violation(uk[i], f"an ill-formed program is accepted: {why[0]}", ut[i])
    pmap(unit, range(len(ut)))
    c.count(states=len(ut), transitions=2 * len(ut), traces=len(ut))
    # ---- parameters: every form, alone and after every other, in every place a parameter list can stand ----
    pk, pt = [], []
    for place in PPLACES:
        for ps in itertools.product(PARAMS, repeat=1):
            pk.append(ps), pt.append(place)
        if place in PPLACES[:2]:
            for a, b in itertools.product(PARAMS, repeat=2):
                if "void" not in (a, b) and a != "...":
                    pk.append((a, b)), pt.append(place)
    dt = [pl.replace("$", ", ".join(re.sub(r"\b(a|n)\b", lambda q: q[1] + str(j), x) for j, x in enumerate(ps))).replace("@", str(i)) for i, (ps, pl) in enumerate(zip(pk, pt))]
    dk = [f"parameters: {pl}: {', '.join(ps)}" for ps, pl in zip(pk, pt)]
    res = ip.run([PPRE + t for t in dt])
    cnt = {}
    for n, (k, t, (st, msg), (verdict, why)) in enumerate(zip(dk, dt, res, gcc_verdicts(c, PPRE, dt))):
        cnt[verdict, st] = cnt.get((verdict, st), 0) + 1
        real = [w for w in why if not LENIENT.search(w)]
        if verdict == "E" and real and st == 0:
            accepts_bad(k, PPRE + t, real, f"pl{n}")
        elif verdict == "ok" and st != 0:
            rejects_good(k, PPRE + t, msg)
    c.count(states=len(dk), transitions=2 * len(dk), traces=len(dk))
    c.extra["parameters (reference, toycc status)"] = {str(k): x for k, x in sorted(cnt.items())}
    # ---- lists of declarators: every sequence of kinds of declarators in every place ----
    dk, dt = [], []
    for place, pre, post in DPLACES:
        for m in (1, 2, 3):
            for kinds in itertools.product(DKINDS, repeat=m):
                for same in ((False, True) if m == 2 else (False,)):
                    dk.append(f"declarators: {place}: {', '.join(kinds)}{' of one name' if same else ''}")
                    i = len(dt)
                    dt.append(pre.replace("@", str(i)) + ", ".join(k.format(f"n{i}_{0 if same else j}") for j, k in enumerate(kinds)) + post)
    res = ip.run([DPRE + t for t in dt])
    cnt = {}
    for n, (k, t, (st, msg), (verdict, why)) in enumerate(zip(dk, dt, res, gcc_verdicts(c, DPRE, dt))):
        cnt[verdict, st] = cnt.get((verdict, st), 0) + 1
        real = [w for w in why if not LENIENT.search(w)]
        if verdict == "E" and real and st == 0:
            accepts_bad(k, DPRE + t, real, f"dl{n}")
        elif verdict == "ok" and st != 0:
            rejects_good(k, DPRE + t, msg)
    c.count(states=len(dk), transitions=2 * len(dk), traces=len(dk))
    c.extra["lists of declarators (reference, toycc status)"] = {str(k): x for k, x in sorted(cnt.items())}
    # ---- token sequences and one-token edits ----
    def texts(name, cases, both):
        res = ip.run([t for _, t in cases])
        todo = [(i, k, t, r) for i, ((k, t), r) in enumerate(zip(cases, res)) if r[0] == 0 or both]

        def one(x):
            i, k, t, (st, msg) = x
            tb = t if isinstance(t, bytes) else t.encode("latin1")
            verdict, why = gcc_one(c, f"{name}{i}".replace(" ", ""), tb)
            real = [w for w in why[:1] if not LENIENT.search(w)]     # later ones may follow from the first
            if verdict == "E" and real and st == 0 and not SKIP_TEXT.search(f"{name}: {k}"):
                accepts_bad(f"{name}: {k}"[:300], t, real, f"{name}{i}".replace(" ", ""))
            elif verdict == "ok" and st != 0:
                rejects_good(f"{name}: {k}"[:300], t, msg)
        pmap(one, todo)
        c.count(states=len(cases), transitions=len(cases) + len(todo), traces=len(cases))
        c.extra.setdefault("families", {})[name] = [len(cases), len(todo)]
    for fam in ([] if os.environ.get('C25_FAST') else TEXTS):
        n = 3
        texts(fam, [(s, text(fam, s)) for s in seqs(fam, n)], c.thorough)
        texts(fam + " short", [(s, text(fam, s)) for s in seqs(fam, 2)], True)
    src = open(os.path.join(VERIF, "lib", "corpus", "features.c"), encoding="utf-8").read()
    repl = ["(", ")", ";", "1", "*", "x"] if not c.thorough else ["(", ")", "{", "}", ";", ",", "1", "*", "struct", "x", "[", "]", "=", "int", "\"s\"", ".", "0", "void", "sizeof", "-", "&", "1.5", "T", "j", "p"]
    texts("corpus", [(k, t.encode()) for k, t in edits(src, repl)], c.thorough)


if __name__ == "__main__":
    main("C25", body)
