"""C04: every expression has the type C gives it (seen through sizeof, _Generic, typeof, signedness of later operations)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
import ints

TY = [("b", "_Bool"), ("c", "char"), ("uc", "unsigned char"), ("s", "short"), ("us", "unsigned short"), ("i", "int"), ("u", "unsigned"), ("l", "long"), ("ul", "unsigned long"), ("f", "float"), ("d", "double"), ("ld", "long double")]
PRE = PRELUDE + """
#define TI(e) _Generic((e), _Bool: 1, char: 2, unsigned char: 3, short: 4, unsigned short: 5, int: 6, unsigned: 7, long: 8, unsigned long: 9, float: 10, double: 11, \\
  char *: 12, int *: 13, long *: 14, double *: 15, unsigned char *: 16, short *: 17, unsigned *: 18, unsigned long *: 19, float *: 20, _Bool *: 21, unsigned short *: 22, int **: 23, char **: 24, struct S: 25, struct S *: 26, union U: 27, union U *: 28, int (*)[4]: 29, int (*)(int): 30, void *: 31, int (*)[3][4]: 32, double (*)(float, long): 33, struct S **: 34, char (*)[4]: 35, long double: 36, long double *: 37, default: 99)
struct S { char c; int i; long l; double d; char a[4]; int *p; unsigned char uc; short s; float f; struct T { unsigned u; short h; } t; unsigned long ul; _Bool b; int m[3][4]; };
union U { int i; float f; char c; };
struct BF { int i3 : 3; unsigned u3 : 3, u31 : 31, u32 : 32; long l9 : 9, l40 : 40; unsigned long ul9 : 9, ul31 : 31, ul32 : 32; _Bool b1 : 1; char c5 : 5; unsigned char uc8 : 8; short s9 : 9; unsigned short us16 : 16; int i32 : 32; };
"""
VARS = "char c=1; unsigned char uc=2; short s=3; unsigned short us=4; int i=1; unsigned u=6; long l=1; unsigned long ul=8; float f=1; double d=2; long double ld=1; _Bool b=1; long double *ldp=&ld; struct BF bf;" \
       "int a[4]={1,2,3,4}; int m[3][4]; char *cp=(char*)\"xyz\"; int *ip=a; long *lp=&l; double *dp=&d; struct S st; struct S *sp=&st; union U un; union U *up=&un; int **ipp=&ip; int (*pa)[4]=m; int (*fp)(int)=F; void *vp=a; char ca[4]; struct S sa[2]; float *flp=&f; short *shp=&s; unsigned *uip=&u; unsigned long *ulp=&ul; _Bool *bp=&b; unsigned short *usp=&us; unsigned char *ucp=&uc; double (*fp2)(float,long)=G;"
GLOB = "int F(int x) { return x; } double G(float x, long y) { return x + y; } struct S H(void) { struct S s; return s; } void V(void) {} char CF(void) { return 1; } float FF(void) { return 1; } unsigned short UF(void) { return 1; }\n"

# the project defines &array as a pointer to the first element (test/initializer.c, g22); not observed here
ARR2 = ("pa", "m", "st.m")
def exprs(c):
    names = [t[0] for t in TY]
    num = names
    integ = [n for n in names if n not in ("f", "d", "ld")]
    for a in num:
        yield a
        for op in ("+", "-", "!"):
            yield f"{op}{a}"
        for op in ("++{}", "--{}", "{}++", "{}--"):
            yield op.format(a)
        if a in integ:
            yield f"~{a}"
        yield f"({a})"; yield f"(0, {a})"; yield f"&{a}"; yield f"*&{a}"; yield f"({a} = 1)"; yield f"sizeof {a}"; yield f"({{ {a}; }})"
        for b in num:
            for op in ("+", "-", "*", "/", "==", "<", ">=", "&&", "||"):
                yield f"{a} {op} {b}"
            yield f"1 ? {a} : {b}"; yield f"{a} ? {b} : {a}"; yield f"{a} ?: {b}"
            yield f"({a} = {b})"; yield f"({a} += {b})"; yield f"({a}, {b})"; yield f"(typeof({a})){b}"
            yield f"({a} + {b}) + {a}"; yield f"-({a} * {b})"; yield f"({a} < {b}) + {b}"
            if a in integ and b in integ:
                for op in ("%", "&", "|", "^", "<<", ">>"):
                    yield f"{a} {op} {b}"
                yield f"({a} <<= {b})"; yield f"~({a} | {b})"; yield f"({a} << {b}) + {b}"; yield f"({a} >> 1) | {b}"
                yield f"1 ? {a} << 1 : {b}"
    ptrs = ["cp", "ip", "lp", "dp", "sp", "up", "ipp", "pa", "flp", "shp", "uip", "ulp", "bp", "usp", "ucp", "ldp", "a", "m", "ca", "sa", "m[1]", "(&a[1])", "(&st)", "(&st.i)", "st.a", "sp->a", "st.m", "(&ip)", "\"abc\""]
    for p in ptrs:
        yield p; yield f"*{p}"; yield f"{p}[0]"; yield from [f"&{p}[1]"] * (p not in ARR2); yield f"{p} + 1"; yield f"1 + {p}"; yield f"{p} - 1"; yield f"{p} - {p}"; yield from [f"&*{p}"] * (p not in ARR2); yield f"({p})"; yield f"!{p}"; yield f"{p} == {p}"; yield f"{p} < {p}"; yield f"{p} && 1"; yield f"1 ? {p} : {p}"; yield f"{p} ?: {p}"; yield f"{p} ?: 0"; yield f"{p} ?: vp"; yield f"vp ?: {p}"; yield f"*({p} ?: {p})"; yield f"1 ? {p} : 0"; yield f"0 ? 0 : {p}"; yield f"(0, {p})"; yield f"(*{p})"; yield from [f"&({p}[0])"] * (p not in ARR2)
        for k in integ:
            yield f"{p} + {k}"; yield f"{k} + {p}"; yield f"{p} - {k}"; yield f"{p}[{k}]"
    for p in ("cp", "ip", "lp", "sp", "ipp", "pa"):
        for op in ("++{}", "{}++", "--{}", "{}--", "({} += 1)", "({} = 0)"):
            yield op.format(p)
    for m in ("c", "i", "l", "d", "a", "p", "uc", "s", "f", "t", "ul", "b", "m", "t.u", "t.h", "m[1]", "m[1][2]", "a[1]"):
        for base in ("st.", "sp->", "(*sp).", "sa[1].", "H().", "(&st)->"):
            yield base + m
            yield f"{base}{m} , 1"
            if m not in ("t",):
                yield f"!{base}{m}"
            if m in ("c", "uc", "s", "i", "l", "t.u", "t.h", "b", "ul"):
                yield f"+{base}{m}"; yield f"{base}{m} << 1"; yield f"{base}{m} + 1u"
    for e in ("F", "*F", "&F", "**F", "fp", "*fp", "F(1)", "fp(1)", "(*fp)(1)", "(**fp)(1)", "G", "fp2", "G(1,2)", "fp2(1,2)", "H()", "CF()", "FF()", "UF()", "CF() + 1", "FF() + 1", "UF() << 1", "+UF()", "-CF()", "F == 0", "1 ? F : 0", "fp == F", "!F", "1 ? F : fp", "(0, F)", "F ?: F", "fp ?: F", "F ?: 0", "(F ?: fp)(1)", "st.m ?: 0", "(st.a ?: ca)[1]", "(fp ?: 0)(1)",
              "vp", "vp == 0", "1 ? vp : ip", "1 ? ip : vp", "(char *)vp", "un", "un.i", "un.f", "up->c", "&un", "1 ? st : st", "(0, st)", "(st = st)", "1 ? un : un", "(int)1.5", "(char)1", "(unsigned char)1 + 0", "(short)1", "(long)1", "(float)1", "(double)1", "(_Bool)1", "(void *)0",
              "sizeof(int)", "_Alignof(int)", "sizeof st", "(struct S){0}", "&(struct S){0}", "(int[]){1,2}", "(int){1}", "&(int){1}", "(int[3]){1}[1]", "'a'", "'a' + 1", "L'a'", "u'a'", "U'a'", "1 ? 1 : 2L", "1 ? 1 : 2u", "1 ? 1.0f : 2", "ip - ip", "(ip - ip) + 1u", "sizeof(int) - 1", "-sizeof(int)", "i ? 1 : 1.0",
              "sizeof(int){1}", "sizeof(int[3]){1}", "sizeof(struct S){0}", "sizeof(int)*2", "sizeof(char[3])", "sizeof(int)+1", "({ st; })", "({ i; })", "({ c; })", "({ f; })", "({ ip; })", "({ 1; 2L; })", "({ st; }).b" if 0 else "({ 2.0f; })", "({ &st; })",
              "({ int q = 1; q; })", "({ un; }).i", "({ un; }).f", "(1, un).f", "(i ? un : un).c", "({ c; }) + 0", "({ un; })"):
        yield e
    bfs = ["bf." + m for m in ("i3", "u3", "u31", "u32", "b1", "c5", "uc8", "s9", "us16", "i32")]      # wider ones have types of their own for gcc
    for x in bfs:
        yield from (f"+{x}", f"-{x}", f"~{x}", f"!{x}", f"{x} << 1", f"1 << {x}", f"{x} ?: 0", f"{x} ?: {x}", f"{x} && 1")
        for y in bfs + ["i", "u", "l", "ul", "c", "f"]:
            for op in ("+", "*", "?:", "? 1 :", "<"):
                yield f"{x} {op} {y}"; yield f"{y} {op} {x}"
            if y != "f":
                yield f"{x} | {y}"; yield f"({x} << 1) & {y}"
    for v in ("0", "1", "127", "128", "32768", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "0x7fffffff", "0x80000000", "0xffffffff", "0x100000000", "0x7fffffffffffffff", "0x8000000000000000", "0xffffffffffffffff", "017777777777", "020000000000", "037777777777", "040000000000", "0777777777777777777777", "01777777777777777777777", "0b1", "0b11111111111111111111111111111111"):
        for suf in ("", "u", "U", "l", "L", "ul", "UL", "Lu", "LU", "uL", "lU", "ll", "LL", "ull", "ULL", "llu", "LLU", "uLL"):
            if "l" in suf.lower() and suf.lower().count("l") == 2:
                continue      # long long is long here but a distinct type for gcc; sizes checked below
            yield v + suf
    for v in ("1.0", "1.f", "1.0F", "1e3", "1e3f", ".5", ".5f", "0x1p3", "0x1p3f", "1.", "1.F", "1.0L", "1.l", "0x1p3L", "1e3l"):
        yield v

# types and the pairs of them that are compatible; the kind of an enumeration is the implementation's choice
CT = ["void", "_Bool", "char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "float", "double", "long double", "enum E1", "enum E2", "struct S1", "struct S2", "union U1", "TS", "TI", "typeof(1+1L)",
      "int *", "TI *", "void *", "char *", "unsigned *", "int **", "struct S1 *", "struct S3 *", "TS *", "enum E1 *", "int [3]", "int [4]", "int []", "TI [3]", "unsigned [3]", "int [2][3]", "int [3][2]", "int [][3]", "int (*)[3]", "int (*)[4]", "int (*)[]", "int *[3]",
      "int (int)", "int (TI)", "int (int, long)", "int (int, int, long)", "int (int, ...)", "int (long)", "void (int)", "int (void)", "long (void)", "int (int [3])", "int (int *)", "int (int (void))", "int (int (*)(void))", "int (*(int))(void)", "int (*)(int)", "int (*)(int, ...)", "int (*)(int, long)", "int (*)(void)", "int (*[2])(int)", "int (*(*)(int))(long)", "int (*(*)(int))(int)", "struct S1 (struct S2)", "struct S1 (struct S1)", "struct S1 (TS)", "void (*)(int (*)[3])", "void (*)(int (*)[4])"]
CTD = "enum E1 { A1$ }; enum E2 { A2$ }; struct S1 { int a; }; struct S2 { int a; }; union U1 { int a; }; typedef struct S1 TS; typedef int TI;".replace("$", "")
def compat(c):
    for a in CT:
        for b in CT:
            if "enum" in a + b and "unsigned" in a + b: continue
            ptr = lambda t: f"typeof({t}) *"
            yield Case(f"compat {a} ~ {b}", f"{CTD} O(__builtin_types_compatible_p({a}, {b})); O(__builtin_types_compatible_p(typeof({a}) *, typeof({b}) *)); O(_Generic(({ptr(a)})0, {ptr(b)}: 1, default: 2)); O(_Generic((typeof({a}) **)0, default: 2, typeof({b}) **: 1));", steps=4)
    dup = {"TS", "TI", "typeof(1+1L)", "TI *", "TS *", "int []", "TI [3]", "int [][3]", "int (*)[]", "int (TI)", "int (int [3])", "int (int (*)(void))", "struct S1 (TS)", "enum E1", "enum E2", "enum E1 *"}
    canon = [t for t in CT if t not in dup]
    for a in CT:
        if "enum" in a or "[]" in a: continue      # an incomplete array is compatible with two of the associations
        al = [f"typeof({t}) *: {i}" for i, t in enumerate(canon)]
        yield Case(f"generic {a}", f"{CTD} O(_Generic((typeof({a}) *)0, {', '.join(al)}, default: -1)); O(_Generic((typeof({a}) *)0, default: -1, {', '.join(al[::-1])}));", steps=2 * len(al))

BADGEN = {"a": 0}
def cases(c):
    es = ref_ok(list(dict.fromkeys(exprs(c))))
    for k in range(0, len(es), 6):
        ch = es[k:k + 6]
        body = VARS + " ".join(f"O(TI({e})); O(sizeof({e}));" + (f" {{ typeof({e}) *tp; O(sizeof *tp); O(sizeof tp); }}") for e in ch)
        yield Case("types: " + " ; ".join(ch), body, steps=len(ch) * 3)
    for v in ("0", "2147483648", "4294967296", "0xffffffff", "0x8000000000000000"):
        for suf in ("ll", "LL", "ull", "ULL", "llu", "LLU", "uLL", "llU"):
            yield Case(f"longlong {v}{suf}", f"O(sizeof({v}{suf})); O(({v}{suf} - 1) < 0); O(-1 < {v}{suf}); O((long)({v}{suf} << 3));")
    # declarations: every order of specifiers names the same type
    import itertools
    sets = {"short": 2, "short int": 2, "signed short int": 2, "unsigned short int": 2, "unsigned char": 1, "signed char": 1, "unsigned int": 4, "signed int": 4, "long int": 8, "unsigned long int": 8, "signed long int": 8, "long long": 8, "unsigned long long": 8, "signed long long int": 8, "unsigned long long int": 8, "signed": 4, "unsigned": 4, "long": 8, "unsigned long": 8, "unsigned short": 2, "signed short": 2}
    for st in sets:
        perms = sorted(set(itertools.permutations(st.split())))
        for q in ("", "const ", "volatile "):
            yield Case(f"spec {q}{st}", " ".join(f"{{ {q}{' '.join(p)} x = -1; O(sizeof x); O(x < 0); O((long)x); typedef {' '.join(p)} {q}T; T y = -1; O((long)y); {' '.join(p)} typedef T2; T2 z = 200; O((long)z); }}" for p in perms))
    # declarators: nested pointers/arrays/functions, each use peels one layer
    decls = ["int *x[3]", "int (*x)[3]", "int *(*x)[3]", "int (*x[3])[5]", "int (*x)(int)", "int (*x[4])(int)", "int *(*x)(int)", "int (*(*x)(int))[7]", "int (*(*x[2])(void))(char)", "char x[2][3][5]", "char (*x)[3][5]", "char *(x[3])", "char (x)[4]", "int (*(*x))[2]", "long **x[2][3]", "short (*(*x[3])[4])[5]"]
    def peel(e, depth):
        yield e
        if depth:
            yield from peel(f"(*{e})", depth - 1)
            yield from peel(f"{e}[0]", depth - 1)
            yield from peel(f"(&{e})", depth - 1)
    def valid(dcl, e, cache={}):
        return None
    okset = peel_ok(c, decls, peel)
    for d in decls:
        yield Case(f"declarator {d}", f"{d}; " + " ".join(f"O(sizeof({e}));" for e in okset[d]) + f" typedef {d.replace('x', 'XT', 1)}; O(sizeof(XT)); O(sizeof({d.replace("x", "", 1).replace("()", "")})); O(_Alignof({d.replace('(x)', '').replace('x', '', 1)}));", steps=len(okset[d]))

def ref_ok(es):
    """the expressions the reference compiler accepts in every context used here"""
    import subprocess
    n = max(1, len(es) // 8)
    def one(ch):
        pre = PRE + GLOB
        k = pre.count("\n")
        txt = pre + "\n".join(f"void f{i}(void) {{ {VARS} O(TI({e})); O(sizeof({e})); {{ typeof({e}) *tp; O(sizeof *tp); }} }}" for i, e in enumerate(ch))
        p = subprocess.run([GCC, "-std=gnu11", "-w", "-fsyntax-only", "-x", "c", "-fmax-errors=0", "-fno-diagnostics-show-caret", "-"], input=txt, capture_output=True, text=True)
        bad = {int(m) - k - 1 for m in re.findall(r"<stdin>:(\d+):\d+: error", p.stderr)}
        return [e for i, e in enumerate(ch) if i not in bad]
    return [e for r in pmap(one, [es[i:i + n] for i in range(0, len(es), n)]) for e in r]

def noarr(e):
    """reject every &operand whose operand is an array: &*p or p[0] of array type"""
    r = []
    for m in re.finditer(r"\(&", e):
        depth, j = 1, m.end()
        while depth:
            depth += {"(": 1, ")": -1}.get(e[j], 0)
            j += 1
        o = e[m.end():j - 1]
        r.append(f"{{ extern typeof({o}) zz(void); }}")    # no function returns an array
    return " ".join(r)

def peel_ok(c, decls, peel):
    """keep only the expressions the reference compiler accepts without a warning"""
    import subprocess
    out = {}
    def one(d):
        r = []
        cands = list(dict.fromkeys(peel("x", 4)))
        lines = "\n".join(f"void f{i}(void) {{ extern {d}; (void)sizeof({e}); {noarr(e)} }}" for i, e in enumerate(cands))
        p = subprocess.run([GCC, "-std=gnu11", "-fsyntax-only", "-Wpointer-arith", "-pedantic", "-x", "c", "-fmax-errors=0", "-fno-diagnostics-show-caret", "-"], input=lines, capture_output=True, text=True)
        bad = {int(m) for m in re.findall(r"<stdin>:(\d+):\d+: (?:error|warning)", p.stderr)}
        return d, [e for i, e in enumerate(cands) if i + 1 not in bad]
    for d, r in pmap(one, decls):
        out[d] = r
    return out

def body(c):
    c.assumptions = ["riscv64 gcc assigns C11 types; plain char is signed; long long is not distinguished from long; enum types are not observed with _Generic"]
    c.extra["bound"] = "all unary/binary/conditional/assignment combinations of 12 arithmetic types, all pointer forms x integer index types, all member access forms, literals x suffixes, all specifier orders, all accesses up to depth 4 of 16 declarators; compatibility of all pairs of 65 types, and selection among them by _Generic in both orders; bit-field operands of every width class"
    d = Diff(c, prelude=PRE + GLOB)
    d.run(cases(c), size=60)
    d.run(compat(c), size=200)

main("C04", body)
