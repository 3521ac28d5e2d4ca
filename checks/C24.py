"""C24: every input ends in a finished output or a diagnostic: no crash, memory error, hang or silent failure."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
from inproc import InProc, UBSAN, ASAN

# name: (token alphabet, text around the sequence, separator)
FAM = {
    "file": ("int * x ( ) [ ] { } , ; = 1 : struct union enum typedef static extern inline void T ... _Alignas __attribute__ typeof \"s\" const".split(),
             "typedef int T;\n%s\n", " "),
    "decl": ("int * x ( ) [ ] { } , = 1 : struct S enum static n T ... void const packed".split(),
             "typedef int T; struct S{int a;};int f(int n){ %s ; return 0; }\n", " "),
    "struct": ("int * x ( ) [ ] { } , ; 1 : 3 0 struct union T -1 99 _Alignas(8) enum".split(),
               "typedef int T; struct Q { %s };struct Q q; int z=sizeof(struct Q);\n", " "),
    "attr": ("__attribute__ (( )) packed aligned ( 8 ) , x struct S { int a ; } -1 0 \"s\"".split(),
             "%s ; int z;\n", " "),
    "init": ("{ } , . a b [ ] = 1 0 ... \"s\" x -1 & ( )".split(),
             "struct S{int a; char b[2]; struct {int c,d;} e; union {int g; char h;};}; int x; struct S s[2] = { %s };\n", " "),
    "initl": ("{ } , . a b [ ] = 1 0 ... \"s\" x -1 99999999999 2147483647".split(),
              "struct S{int a; char b[2]; struct {int c,d;} e; union {int g; char h;};}; int x; int f(void) { struct S s[2] = { %s }; char u[]=\"a\"; return s[0].a; }\n", " "),
    "stmt": ("if else for while do switch case default break continue return goto L : ; ( ) { } 1 x * && int".split(),
             "int x; int f(int n){ %s ; }\n", " "),
    "stmt2": ("if(x) else for(;;) while(x) do switch(x) case 1: default: break; continue; return; goto L; L: ; { } ({ }); &&L asm(\"\");".split(" "),
              "int x; int f(int n){ %s }\n", " "),
    "expr": ("x p s f 1 1.0 \"s\" + - * & ! ~ ++ -- ( ) [ ] . , ? : = += << == && -> a sizeof (int) (struct S) _Generic".split(),
             "struct S{int a;} s; int x, *p; int f(int); int g(void) { %s ; }\n", " "),
    "cexpr": ("x p 1 0 1.0 \"s\" + - * / % & ( ) [ ] . ? : << && a sizeof (int) (char*)".split(),
              "struct S{int a;} s; int x, *p; long g = %s ; int h[] = { %s };\n", " "),
    "builtin": ("__builtin_types_compatible_p __builtin_compare_and_swap __builtin_atomic_exchange _Generic ( ) , : int default x &x 1 * alloca __func__".split(),
                "int x; int g(void) { return %s ; }\n", " "),
    "dir": ("# define undef if ifdef ifndef elif else endif include line error pragma M ( ) , ... ## 1 \n \"f\" < > defined once __VA_ARGS__ __VA_OPT__ \\".split(" "),
            "#define M M\n# %s\n", " "),
    "ifexpr": ("1 0 x ( ) + - * / % ? : , defined && || ! << == 'a' \"s\" 1.0 M F".split(" "),
               "#define M M\n#define F(x) x\n#if %s\nint a;\n#else\nint b;\n#endif\n", " "),
    "mac": ("M F ( ) , # ## \n#define x 1 __VA_ARGS__ \"s\" ...".split(" "), "#define F(x) %s\nF(1) F(F) F\n", " "),
    "macv": ("__VA_OPT__ ( ) __VA_ARGS__ , # ## x ... 1 )(".split(" "), "#define F(x,...) %s\nF(1) F(1,2) F() F(,) F\n", " "),
    "macuse": ("F G ( ) , \n # ## O x \"s\" #define #undef F( #if\u00201".replace("\u0020", " ").split(" "),
               "#define F(x,y) x y G\n#define G(...) #__VA_ARGS__ F\n#define O O F\n%s\n", " "),
    "byte": (list("\"'\\/*\n\r u8LU0x.e+_a$@#\x80\xc3\xa9\xff\0"), "%s", ""),
    "strb": (list("\"'\\x0u8nU%\n\x80\xc3\xe2\xa9"), "char *s = \"%s;\n", ""),
    "numb": (list("0x1b.eEpPuUlLfF+-_a'"), "double d = %s;\n", ""),
}
QUICK = {"file": 3, "decl": 3, "struct": 3, "attr": 3, "init": 3, "initl": 3, "stmt": 3, "stmt2": 3, "expr": 3, "cexpr": 3, "builtin": 3, "dir": 3,
         "ifexpr": 3, "mac": 4, "macv": 4, "macuse": 4, "byte": 3, "strb": 4, "numb": 4}
DEEP = {"mac": 5, "macv": 5, "macuse": 5, "strb": 5, "numb": 5}


def seqs(fam, n):
    a, t, sep = FAM[fam]
    for k in range(n + 1):
        for s in itertools.product(a, repeat=k):
            yield sep.join(s)


def text(fam, s):
    t = FAM[fam][1]
    return t.replace("%s", s)


def deep(ns):
    """one construct nested or repeated n times"""
    for n in ns:
        yield f"paren {n}", "int x=" + "(" * n + "1" + ")" * n + ";"
        yield f"open parens {n}", "int x=" + "(" * n
        yield f"unary {n}", "int x=" + "- " * n + "1;"
        yield f"sum {n}", "int y; int f(void){return y" + "+y" * n + ";}"
        yield f"constant sum {n}", "int x=1" + "+1" * n + ";"
        yield f"comma {n}", "int f(void){return 1" + ",1" * n + ";}"
        yield f"right conditional {n}", "int x=" + "1?2:" * n + "3;"
        yield f"middle conditional {n}", "int x=" + "1?" * n + "3" + ":4" * n + ";"
        yield f"blocks {n}", "int f(void){" + "{" * n + "}" * n + "return 0;}"
        yield f"if {n}", "int f(void){" + "if(1)" * n + ";return 0;}"
        yield f"else {n}", "int f(void){" + "if(1);else " * n + ";return 0;}"
        yield f"loops {n}", "int f(void){" + "for(;;)while(1)do " * n + ";" + "while(0);" * n + "return 0;}"
        yield f"pointers {n}", "int " + "*" * n + "p;"
        yield f"arrays {n}", "extern int a" + "[1]" * n + ";int z=sizeof(a);"
        yield f"declarator parens {n}", "int " + "(" * n + "x" + ")" * n + ";"
        yield f"abstract parens {n}", "int z=sizeof(int " + "(" * n + "*" + ")" * n + ");"
        yield f"function pointers {n}", "int " + "(*" * n + "x" + ")(void)" * n + ";"
        yield f"nested structs {n}", "struct {" * n + "int a;" + "} b;" * n
        yield f"scalar braces {n}", "int x=" + "{" * n + "1" + "}" * n + ";"
        yield f"casts {n}", "int x=" + "(int)" * n + "1;"
        yield f"cast parens {n}", "int x=" + "(int)(" * n + "1" + ")" * n + ";"
        yield f"sizeof {n}", "int x=" + "sizeof " * n + "1;"
        yield f"statement expressions {n}", "int f(void){return " + "({" * n + "1;" + "});" * (n - 1) + "});}"
        yield f"calls {n}", "int g(int);int f(void){return " + "g(" * n + "1" + ")" * n + ";}"
        yield f"arguments {n}", "int g(int,...);int f(void){return g(1" + ",1" * n + ");}"
        yield f"macro chain {n}", "#define A0 1\n" + "".join(f"#define A{i + 1} A{i}\n" for i in range(n)) + f"int x=A{n};"
        yield f"macro arguments {n}", "#define F(x) x\nint x=" + "F(" * n + "1" + ")" * n + ";"
        yield f"#if taken {n}", "#if 1\n" * n + "int x;\n" + "#endif\n" * n
        yield f"#if skipped {n}", "#if 0\n" * n + "int x;\n" + "#endif\n" * n
        yield f"strings {n}", "char *s=" + '"a" ' * n + ";"
        yield f"identifier {n}", "int " + "a" * n + ";"
        yield f"fraction {n}", "double d=1." + "1" * n + ";"
        yield f"integer {n}", "double d=" + "1" * n + ";"
        yield f"exponent {n}", "double d=1e" + "1" * n + ";"
        yield f"cases {n}", "int f(int x){switch(x){" + "".join(f"case {i}:" for i in range(n)) + ";}return 0;}"
        yield f"enumerators {n}", "enum{" + ",".join(f"E{i}" for i in range(n)) + "};"
        yield f"parameters {n}", "int f(" + ",".join(f"int a{i}" for i in range(n)) + "){return a0;}"
        yield f"members {n}", "struct S{" + "".join(f"int a{i};" for i in range(n)) + "}s={1};"
        yield f"typedefs {n}", "typedef int T0;" + "".join(f"typedef T{i} *T{i + 1};" for i in range(n)) + f"T{n} x;"
        yield f"comment {n}", "/*" + "a" * n + "*/" + "//" + "b" * n + "\nint x;"
        yield f"assignments {n}", "int x;int f(void){" + "x=" * n + "1;return 0;}"
        yield f"subscripts {n}", "int *p;int f(void){return " + "p[" * n + "1" + "]" * n + ";}"
        yield f"generic {n}", "int x=" + "_Generic(1,int:" * n + "1" + ")" * n + ";"
        yield f"typeof {n}", "typeof(" * n + "int" + ")" * n + " x;"
        yield f"gotos {n}", "int f(void){" + "".join(f"goto L{i};L{i}:;" for i in range(n)) + "return 0;}"
        yield f"flat initialiser {n}", "int a[]={" + "1," * n + "};"
        yield f"splices {n}", "int x" + "\\\n" * n + ";"
        yield f"string parens {n}", "char s[]=" + "(" * n + '"a"' + ")" * n + ";"
        yield f"macro parameters {n}", "#define F(" + ",".join(f"a{i}" for i in range(n)) + ") a0\nint x=F(" + ",".join("1" for i in range(n)) + ");"
        yield f"pastes {n}", "#define F(a) a" + "##a" * n + "\nint x=F(1);" if n < 400 else "int x;"
        m = min(n, 400)
        yield f"struct chain {n}", "".join(f"struct S{i}{{struct S{i - 1} a;}};" if i else "struct S0{int a;};" for i in range(m)) + f"struct S{m - 1} s={{1}};int f(void){{struct S{m - 1} t={{1}};return 0;}}"


TOKRE = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|[A-Za-z_]\w*|\.?\d[\w.]*|\.\.\.|<<=|>>=|->|\+\+|--|<<|>>|[-+*/%&|^=<>!]=|&&|\|\||##|\n|.')


def edits(src, repl):
    """(name, text): every truncation, deletion, duplication, exchange and replacement of one token"""
    toks = [(m.start(), m.end()) for m in TOKRE.finditer(src) if not re.match(r"[ \t]", m[0])]
    for i, (a, b) in enumerate(toks):
        ln = src.count("\n", 0, a) + 1
        t = src[a:b]
        yield f"cut before token {i} ({t!r} line {ln})", src[:a]
        yield f"token {i} ({t!r} line {ln}) deleted", src[:a] + src[b:]
        yield f"token {i} ({t!r} line {ln}) doubled", src[:b] + " " + src[a:]
        if i + 1 < len(toks):
            c, d = toks[i + 1]
            yield f"token {i} ({t!r} line {ln}) exchanged with the next", src[:a] + src[c:d] + src[b:c] + src[a:b] + src[d:]
        for r in repl:
            if r != t:
                yield f"token {i} ({t!r} line {ln}) replaced by {r!r}", src[:a] + " " + r + " " + src[b:]


def sane(st, msg):
    """the two permitted endings"""
    return st == 0 or (st == 1 and msg.strip() != "")


def explain(st, msg):
    if st in (98, 99):
        m = re.search(r"runtime error: [^\n]*|ERROR: AddressSanitizer: [^\n]*", msg)
        f = re.findall(r"#\d+ 0x\w+ in (\w+) ", msg)
        return f"memory error: {m[0] if m else msg[:200]} in {' < '.join([x for x in f if not x.startswith('__')][:4])}"
    if st == -24 or st == -14:
        return "the compiler did not finish within its time limit"
    if st < 0:
        return f"the compiler was killed by signal {-st}"
    return f"exit status {st} with {'no message' if not msg.strip() else 'message ' + msg[:200]!r}"


def body(c):
    ub = InProc(c, UBSAN, "ub")
    asan = InProc(c, ASAN, "asan")

    def judge(ip, name, cases, limit=5):
        """cases: [(key, bytes or text)]"""
        for i in range(0, len(cases), 100000):
            part = cases[i:i + 100000]
            if time.time() > c.deadline:
                c.extra["capped"] = True
                return
            res = ip.run([t for _, t in part], limit=limit)
            for (k, t), (st, msg) in zip(part, res):
                if not sane(st, msg):
                    st2, msg2 = asan.run([t], limit=4 * limit)[0]
                    if not sane(st2, msg2):
                        st, msg = st2, msg2
                    else:
                        st, msg = ip.run([t], limit=4 * limit)[0]
                    if not sane(st, msg):
                        c.violation(f"{name}: {k}"[:300], explain(st, msg), (t if isinstance(t, str) else t.decode("latin1"))[:20000] + "\n\n" + msg[:3000])
            c.count(states=len(part), transitions=sum(len(t) for _, t in part) // 4, traces=len(part))
            acc = sum(r[0] == 0 for r in res)
            with c.lock:
                c.extra.setdefault("families", {}).setdefault(name, [0, 0])
                c.extra["families"][name][0] += len(part)
                c.extra["families"][name][1] += acc

    for fam in FAM:
        n = QUICK[fam] if not c.thorough else DEEP.get(fam, 4)
        it = ((s, text(fam, s)) for s in seqs(fam, n))
        while True:
            part = list(itertools.islice(it, 200000))
            if not part:
                break
            judge(ub, fam, part)
        judge(asan, fam + " (asan)", [(s, text(fam, s)) for s in seqs(fam, 3 if c.thorough else 2)])
        c.sample({"family": fam, "text": text(fam, list(itertools.islice(seqs(fam, 2), 30))[-1])})
    src = open(os.path.join(VERIF, "lib", "corpus", "features.c"), encoding="utf-8").read()
    if asan.run([src.encode()])[0][0] != 0:
        print("note: the feature corpus itself is not accepted", file=sys.stderr)
    repl = ["(", ")", "{", "}", ";", ",", "1", "*", "struct", "x", "\n"]
    if c.thorough:
        repl += ["[", "]", "=", "int", "\"s\"", ".", "...", "#", "?", ":", "0", "void", "typedef", "sizeof", "case", "-", "&", "'a'", "1.5", "enum", "T", "S", "j", "p", "static", "\n#define", "\n#if", "\n#else", "\n#endif", "\n#include", "##", "__VA_ARGS__", "return", "goto", "if", "99999999999"]
    judge(asan, "corpus", [(k, t.encode()) for k, t in edits(src, repl)])
    raw = src.encode()
    judge(asan, "corpus bytes", [(f"first {i} bytes", raw[:i]) for i in range(len(raw))])
    judge(ub, "corpus bytes", [(f"byte {i} replaced by {b}", raw[:i] + b + raw[i + 1:]) for i in range(len(raw)) for b in (b"\n", b'"', b"\\", b"\0", b"\xff", b"#")])
    # the supported depth: far beyond what the standard's minimum limits and ordinary generators need
    ns = [1, 2, 3, 5, 8, 16, 31, 64, 127, 256, 511, 1000] if not c.thorough else list(range(1, 130)) + [200, 255, 256, 257, 400, 511, 512, 513, 700, 1000, 1500, 2000]
    judge(ub, "depth", list(deep(ns)), limit=10)
    c.extra["bounds"] = {"sequence length per family": QUICK if not c.thorough else DEEP, "nesting": max(ns)}
    c.assumptions = ["nesting deeper than the bound may exhaust the host stack", "one input file at a time, no faults in the environment (C26)"]


if __name__ == "__main__":
    main("C24", body)
