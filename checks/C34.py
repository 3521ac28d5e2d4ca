"""C34: preprocessing with -E and compiling its output is the same as compiling directly."""
import glob, itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
from pp import lex

TOKS = ["x", "1", ".5", "1e", "0x1p", ".", "...", "+", "-", "*", "/", "%", "<", ">", "=", "&", "|", "!", "^", "~", "#", "##", ":", "?", ",", ";", "(", ")", "[", "]", "{", "}", "++", "--", "->", "<<", ">>", "<=", ">=", "==", "!=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=", "&&", "||", '"s"', 'L"s"', "u8", "u", "U", "L", "'c'", "L'c'", "é", "_", "if", "e1", "1.", "0x"]


class Runner:
    def __init__(self, c):
        self.c, self.toycc = c, c.build()
        self.seq = itertools.count()

    def dir(self):
        d = os.path.join(self.c.scratch, "d%d" % next(self.seq))
        os.makedirs(d)
        return d

    def asm(self, d, src, flags=(), cwd=None):
        rc, o, e = sh([self.toycc] + list(flags) + ["-S", "-o", os.path.join(d, "o.s"), src], cwd=cwd or d)
        if rc != 0:
            return None, e.decode(errors="replace")[-300:]
        return [l for l in open(os.path.join(d, "o.s"), errors="replace").read().split("\n") if not re.match(r"\s*\.(loc|file)\b", l)], ""

    def program(self, key, src, flags=(), cwd=None):
        """direct compilation against -E and compilation"""
        for attempt in range(5):
            bad, t = [], int(time.time())
            self.program1(key, src, flags, cwd, lambda *a: bad.append(a))
            if not bad or t == int(time.time()):
                break             # __TIME__ differs when a second passes in between
        for b in bad:
            self.c.violation(*b)

    def program1(self, key, src, flags, cwd, violation):
        d = self.dir()
        try:
            a, e = self.asm(d, src, flags, cwd)
            out = os.path.join(d, "pre.c")
            rc, o, e2 = sh([self.toycc] + list(flags) + ["-E", "-o", out, src], cwd=cwd or d)
            if rc != 0:
                if a is not None:
                    violation(key, f"compiles but does not preprocess: {e2.decode(errors='replace')[-200:]}", src)
                return
            rc, o, e2 = sh([self.toycc] + list(flags) + ["-E", src], cwd=cwd or d)
            if rc != 0 or o.decode(errors="replace") != open(out, errors="replace").read():
                violation(key, "-E prints something else on standard output than into a file", src)
            b, e2 = self.asm(d, out, (), cwd)
            if a is not None and b is None:
                violation(key, f"the preprocessed program is rejected: {e2}", open(out, errors="replace").read()[-3000:])
            elif a != b:
                i = next(i for i, (x, y) in enumerate(itertools.zip_longest(a or [], b or [])) if x != y)
                violation(key, f"the preprocessed program compiles differently (line {i}: {(a or [''])[i:i + 1]} and {(b or [''])[i:i + 1]})", open(out, errors="replace").read()[-3000:])
            # preprocessing again changes nothing
            rc, o, e2 = sh([self.toycc, "-E", out], cwd=cwd or d)
            if rc != 0 or [x for x, _ in lex(o.decode(errors="replace"))] != [x for x, _ in lex(open(out, errors="replace").read())]:
                violation(key + "/twice", "preprocessing a preprocessed text changes it", open(out, errors="replace").read()[-3000:])
            self.c.count(1, 3, 1)
        finally:
            shutil.rmtree(d, True)

    def tokens(self, cases):
        """the printed text must be read back as the tokens that were printed"""
        if time.time() > self.c.deadline:
            self.c.extra["capped"] = True
            return
        d = self.dir()
        try:
            txt = "#define E\n#define I(x) x\n#define CAT(a,b) a b\n" + "".join(f"{t}\nvfm {i} ;\n" for i, (_, t, _) in enumerate(cases))
            src = os.path.join(d, "p.c")
            open(src, "w").write(txt)
            rc, o, e = sh([self.toycc, "-E", src], cwd=d)
            res, cur, k = {}, [], 0
            toks = [x for x, _ in lex(o.decode(errors="replace"))]
            while k < len(toks):
                if toks[k] == "vfm" and k + 2 < len(toks) and toks[k + 2] == ";":
                    res[int(toks[k + 1])] = cur
                    cur, k = [], k + 3
                else:
                    cur.append(toks[k])
                    k += 1
            for i, (key, t, want) in enumerate(cases):
                if res.get(i) != want:
                    self.c.violation(key, f"printed so that it reads {res.get(i)}, expected {want} (rc={rc} {e.decode(errors='replace')[-100:]})", t)
            self.c.count(len(cases), len(cases), len(cases))
        finally:
            shutil.rmtree(d, True)

    def lines(self, cases):
        d = self.dir()
        try:
            for key, t, want in cases:
                src, out = os.path.join(d, "p.c"), os.path.join(d, "o.c")
                open(src, "w").write("#define E\n#define I(x) x\n#define CAT(a,b) a b\n#define H #\n#define W(...) H __VA_ARGS__\n" + t)
                rc, o, e = sh([self.toycc, "-E", "-o", out, src], cwd=d)
                got = [x for x, _ in lex(open(out, errors="replace").read())] if rc == 0 else None
                rc2, o2, e2 = sh([self.toycc, "-E", out], cwd=d) if rc == 0 else (0, b"", b"")
                again = [x for x, _ in lex(o2.decode(errors="replace"))] if rc2 == 0 else None
                if got != want:
                    self.c.violation(key, f"printed so that it reads {got}, expected {want} (rc={rc} {e.decode(errors='replace')[-100:]})", t)
                elif again != want:
                    self.c.violation(key, f"the output reads {again} when it is preprocessed again, expected {want} (rc={rc2} {e2.decode(errors='replace')[-100:]})", t)
                self.c.count(1, 2, 1)
        finally:
            shutil.rmtree(d, True)


PROGRAMS = {
 "empty": "", "neg": "#define N -1\nint x = -N; int y = - -1; int z = 5 -N;\n", "plus": "#define P +\nint a = 1; int f(void) { return a P+a; }\n", "arrow": "#define G >\nint f(int a, int b) { return a G b; }\n", "shift": "#define L <\nint f(int a) { return a L (a L a); }\n",
 "str": "#define S \"a\"\nchar *p = S S\"b\";\n", "num": "#define D .5\ndouble d[] = {1 D};\n".replace("1 D", "D"), "hash": "#define STR(x) #x\nchar *p = STR(#x \"a\\n\" 'c');\n", "paste": "#define C(a,b) a##b\nint C(x,1) = C(0x,f) + C(1,2);\n",
 "line": "int a = __LINE__;\n\n\nint b = __LINE__; char *f = __FILE__;\n#line 50 \"z.c\"\nint c = __LINE__ * 0;\n", "va": "#define V(...) f(__VA_ARGS__)\nint f(); int g(void) { return V(1,2,\"a,b\"); }\n".replace("int f();", "int f(int a, ...);"),
 "bol": "#define H #\nint x;\nint y\n;\n", "cond": "#if 0\nint a\n#elif 1\nint b;\n#endif\nint\n#ifdef X\nc\n#else\nd\n#endif\n;\n", "wide": "int a[] = L\"あ\" \"b\"; unsigned short b[] = u\"\\u3042\"; char c[] = u8\"é\";\n", "attr": "struct S { char a; int b; } __attribute__((packed)) s;\n", "sizeof": "int a = sizeof(int[3]) + _Alignof(long);\n",
 "stdarg": "#include <stdarg.h>\nint f(int n, ...) { va_list ap; va_start(ap, n); int x = va_arg(ap, int); va_end(ap); return x; }\n", "stddef": "#include <stddef.h>\n#include <stdbool.h>\nsize_t n = offsetof(struct { char a; long b; }, b); bool t = true;\n", "stdatomic": "#include <stdatomic.h>\natomic_int a; int f(void) { return atomic_fetch_add(&a, 1); }\n",
 "goto": "int f(void) { static void *t[] = { &&a, &&b }; goto *t[0]; a: return 1; b: return 2; }\n", "cmt": "int/**/a/**/=/**/1/**/-/**/-1;\n", "dd": "int f(int a, int b) { return a- --b + a-- - b + a+ ++b; }\n", "div": "int f(int *p, int a) { return a/ *p; }\n", "float": "double a = 1.e5, b = 1e+5, c = .1e-5; float g = 1.f; int h = 0xe+1;\n".replace("0xe+1", "0xe +1"),
}


def check(c):
    r = Runner(c)
    # 1. every pair and triple of tokens, brought together by macros in every way
    pairs = []
    for a in TOKS:
        for b in TOKS:
            if a == "#" or b == "#" and False:
                continue
            w = [a, b]
            if a in (",",) or b in (",",) or "(" in w or ")" in w:
                forms = [("E", f"{a} E {b}"), ("EE", f"q {a} E E {b} q")]
            else:
                forms = [("E", f"q {a} E {b}"), ("I", f"q I({a})I({b})"), ("C", f"q CAT({a},{b})"), ("i", f"q I({a}){b}")]
                if a[0] not in "0123456789." or True:
                    forms.append(("j", f"q I( {a})I( {b}) q"))
            for fn, t in forms:
                want = [x for x, _ in lex(" ".join(t.replace("CAT(", "I(").split()))]
                want = (["q"] if t.startswith("q") else []) + w + (["q"] if t.endswith("q") else [])
                # an adjacent identifier in front of "(" is not a macro call here
                if fn == "i" and (lex(f"){b}")[0][0] != ")"):
                    continue
                pairs.append((f"pair/{fn}/{a} {b}", t, want))
    small = ["x", "1", ".", "+", "-", "<", ">", "=", "&", "|", "/", "*", "#", '"s"', "e1", "1e", "...", "->"]
    n3 = small if not c.thorough else TOKS[:40]
    for t3 in itertools.product(n3, repeat=3):
        if any(x in ",()" for x in t3):
            continue
        pairs.append((f"triple/{' '.join(t3)}", "q " + "".join(f"I({x})" for x in t3), ["q"] + list(t3)))
    pmap(r.tokens, [pairs[i:i + 500] for i in range(0, len(pairs), 500)])
    c.sample({"case": pairs[5][0], "source": pairs[5][1]})
    # 2. whole programs, among them the project's own sources and tests
    jobs = []
    pd = os.path.join(c.scratch, "progs")
    os.makedirs(pd)
    for k, t in PROGRAMS.items():
        open(os.path.join(pd, k + ".c"), "w").write(t)
        jobs.append((f"prog/{k}", os.path.join(pd, k + ".c"), (), pd))
    src = c.tree()
    for f in sorted(glob.glob(os.path.join(src, "test", "*.c"))):
        jobs.append((f"test/{os.path.basename(f)}", f, ("-Itest", "-I" + os.path.join(src, "test")), src))
    for f in sorted(glob.glob(os.path.join(src, "*.c")) + glob.glob(os.path.join(src, "*", "*.c"))):
        if "/test/" not in f and "/output/" not in f:
            jobs.append((f"self/{os.path.relpath(f, src)}", f, ("-I" + src, "-I" + src + "/parser", "-I" + src + "/preprocessor"), src))
    # fragments of expressions: every operator sequence the language has, with macros for its operands
    exprs = []
    for un1, b, un2 in itertools.product(("", "-", "+", "~", "!", "*&", "--", "++"), ("+", "-", "*", "/", "%", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&", "|", "^", "&&", "||", ",", "?a:"), ("", "-", "+", "~", "!", "*&", "--", "++")):
        exprs.append(f"{un1}A E{b}E {un2}B")
    for i in range(0, len(exprs), 100):
        t = "#define A a\n#define B b\n#define E\n" + "".join(f"long f{j}(long a, long b) {{ return {x}; }}\n" for j, x in enumerate(exprs[i:i + 100]))
        open(os.path.join(pd, f"ex{i}.c"), "w").write(t)
        jobs.append((f"expr/{i}", os.path.join(pd, f"ex{i}.c"), (), pd))
    pmap(lambda j: r.program(*j), jobs)
    # 3. a # that a macro puts in front of a line starts no directive, now or when the output is read again
    # (a text whose very first token is such a # cannot be written as text: it is left out)
    lines = []
    for pos, (pre, wpre) in {"later": ("int a;\n", ["int", "a", ";"]), "gap": ("int a;\n\n\n", ["int", "a", ";"]), "same": ("int a; ", ["int", "a", ";"]), "indent": ("int a;\n  ", ["int", "a", ";"])}.items():
        for d in ("define q 1", "undef q", "include q", "if 0", "ifdef q", "ifndef q", "elif 1", "else", "endif", "error q", "warning q", "line 5", "pragma once", "pragma q", "q", "", "1", "# q"):
            for fn, f in {"H": "H {}", "E": "E # {}", "I": "I(#) {}", "IH": "I(H) {}", "EH": "E H {}", "N": "E\nH {}", "CAT": "CAT(#,) {}", "W": "W({})", "M": "I(\nH {}\n)"}.items():
                for end, wend in (("\n", []), ("\nint q;\n", ["int", "q", ";"])):
                    if "," in d:
                        continue
                    lines.append((f"line/{pos}/{fn}/{d}/{len(wend)}", pre + f.replace("{}", d) + end, wpre + ["#"] + [x for x, _ in lex(d)] + wend))
    pmap(r.lines, [lines[i:i + 60] for i in range(0, len(lines), 60)])
    c.assumptions += ["two assembly texts that differ only in .loc and .file lines are the same program", "the lexer in lib/pp.py splits a text as C does"]


main("C34", check)
