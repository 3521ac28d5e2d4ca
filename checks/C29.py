"""C29: a translation unit defines exactly the external objects and functions that its declarations define, with their
size, alignment, initial value and linkage, so that units link as C prescribes."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
import elf

# ---- family 1: every sequence of declarations of one name, and uses of it ----
OBJ = {"e": "extern int x$;", "t": "int x$;", "s": "static int x$;", "i": "int x$ = 7;", "S": "static int x$ = 9;", "E": "extern int x$ = 5;", "u": "int u$@(void) { return x$; }",
       "b": "int b$@(void) { extern int x$; return x$; }", "p": "int *p$@ = &x$;", "z": "long z$@ = sizeof x$;", "l": "int l$@(void) { int x$ = 3; static int y$ = 6; { extern int x$; x$ = 4; } return x$ + y$; }", "A": "_Alignas(16) int x$;", "P": "static int *q$@ = &x$; int **r$@(void) { return &q$@; }"}
ARR = {"e": "extern short x$[];", "t": "short x$[];", "T": "short x$[5];", "x": "extern short x$[5];", "i": "short x$[] = { 1, 2, 3, 4, 5 };", "I": "short x$[5] = { 4 };", "s": "static short x$[5];", "u": "int u$@(void) { return x$[1]; }", "b": "int b$@(void) { extern short x$[]; return x$[2]; }", "p": "short *p$@ = x$ + 2;",
       "z": "long z$@ = sizeof(x$);", "E": "extern short x$[] = { 7, 8, 9, 10, 11 };"}
TLS = {"e": "extern _Thread_local int x$;", "t": "_Thread_local int x$;", "s": "static _Thread_local int x$;", "i": "_Thread_local int x$ = 7;", "S": "static _Thread_local int x$ = 9;", "u": "int u$@(void) { return x$; }", "b": "int b$@(void) { extern _Thread_local int x$; return x$; }",
       "z": "long z$@ = sizeof x$;", "l": "int *l$@(void) { static _Thread_local int x$ = 3; return &x$; }", "E": "extern _Thread_local int x$ = 4;"}
FUN = {"d": "int x$(void);", "e": "extern int x$(void);", "s": "static int x$(void);", "D": "int x$(void) { return 1; }", "S": "static int x$(void) { return 2; }", "i": "inline int x$(void) { return 3; }", "I": "static inline int x$(void) { return 4; }", "E": "extern inline int x$(void) { return 5; }", "j": "inline int x$(void);", "J": "static inline int x$(void);",
       "u": "int u$@(void) { return x$(); }", "b": "int b$@(void) { int x$(void); return x$(); }", "p": "int (*p$@)(void) = x$;", "o": "static inline int o$@(void) { return 8; }", "v": "static inline int v$@(void) { return x$(); }", "w": "int (*w$@[2])(void) = { 0, &x$ };", "V": "static int V$@(void) { return x$(); } int W$@(void) { return V$@(); }"}
STR = {"f": "struct T$;", "e": "extern struct T$ x$;", "t": "struct T$ x$;", "d": "struct T$ { int a; char c[6]; };", "i": "struct T$ x$ = { 3 };", "s": "static struct T$ x$;", "p": "struct T$ *p$@ = &x$;", "u": "void *u$@(void) { return &x$; }", "D": "typedef struct T$ TT$@; extern TT$@ x$;", "b": "void *b$@(void) { extern struct T$ x$; return &x$; }"}
FAMS = {"obj": OBJ, "arr": ARR, "tls": TLS, "fun": FUN, "str": STR}

class K:
    __slots__ = ("key", "text", "flags")
    def __init__(self, key, text, flags): self.key, self.text, self.flags = key, text, flags

def cases(c):
    for fam, items in FAMS.items():
        n = 4 if c.thorough else 3
        for L in range(1, n + 1):
            for q in itertools.product(items, repeat=L):
                if fam == "fun":
                    # 'static' after a declaration without it, and an inline definition after a declaration in a block only, are undefined
                    ext = [i for i, a in enumerate(q) if a in "deDiEjb"]
                    if ext and any(a in "sSIJ" for a in q[ext[0]:]) and not any(a in "sSIJ" for a in q[:ext[0]]): continue
                    if "b" in q and any(a in "ij" for a in q[q.index("b"):]) and not any(a in "deDEsSIJ" for a in q): continue
                for cm in (["-fno-common"], ["-fcommon"]):
                    yield K(f"{fam} {''.join(q)} {cm[0]}", " ".join(items[a].replace("@", f"_{i}_") for i, a in enumerate(q)), cm)

# further forms of definition, one object or function each
OTHER = ["char x$ = -1;", "_Bool x$ = 7;", "float x$ = 1.5;", "double x$ = -2;", "long double x$ = 3;", "long x$[2] = { 1 };", "int x$[0];", "struct { } x$;", "struct { char a; long b; } x$ = { 1, 2 };", "struct { int a : 3, b : 9; } x$ = { -1, 100 };",
         "union { char c[5]; int i; } x$ = { \"ab\" };", "char x$[] = \"hello\";", "char *x$ = \"hello\";", "int y$[4]; int *x$ = y$ + 3, *z$ = &y$[1];", "extern int y$; int *x$ = &y$ + 2;", "int f$(void); int (*x$)(void) = f$;", "int y$ = 4; int *x$[3] = { &y$, 0, &y$ + 1 };", "struct S$ { struct S$ *n; int v; } x$ = { &x$, 4 };",
         "struct S$ { int a; int b[3]; } y$; int *x$ = y$.b + 2; int *w$ = &y$.b[1];", "int x$, y$ = 2, *z$ = &x$;", "static int y$; int *x$ = &y$;", "int *x$ = (int[]){ 1, 2, 3 };", "struct S$ { int a; char c[]; } x$ = { 1, { 2, 3, 4 } };", "enum { A$, B$ = 9 } x$ = B$;", "_Alignas(64) char x$;", "_Alignas(128) char x$ = 3; char y$ = 4; _Alignas(8) char z$[3];", "_Alignas(long) char x$; _Alignas(1) char y$;",
         "int f$(void) { static int n = 5; return n++; } int g$(void) { static int n; return n++; }", "int f$(void) { static _Alignas(64) int n; return (long)&n % 64; }", "int x$; int f$(void) { return x$; } static int y$; int g$(void) { return y$; }", "int (f$)(void) { return 1; } int *(g$)(void) { return 0; } int (*h$(void))(void) { return f$; }", "typedef int F$(void); F$ f$; int f$(void) { return 3; } F$ *p$ = f$;", "typedef int F$(void); extern F$ f$; int g$(void) { return f$(); }",
         "static int f$(void); int g$(void) { return f$(); } static int f$(void) { return 7; }", "int f$(void) { return f$(); }", "static int f$(int n) { return n ? f$(n - 1) : 0; }", "static inline int a$(void) { return 1; } static inline int b$(void) { return 2; } int (*p$)(void) = a$; static inline int c$(void) { return a$(); }", "static inline int a$(void); static inline int b$(void) { return a$(); } static inline int a$(void) { return 4; } int c$(void) { return b$(); }",
         "static inline int a$(int n); static inline int b$(int n) { return n ? a$(n - 1) : 1; } static inline int a$(int n) { return b$(n); } int c$(void) { return a$(3); }", "static inline int a$(void) { return 1; } int g$(void) { static int (*p)(void) = a$; return p(); }", "static inline int a$(void) { return 1; } int g$(void) { return sizeof(a$()); }", "static inline int a$(void) { return 1; } struct { int (*f)(void); } x$[2] = { { 0 }, { a$ } };", "static inline int a$(void) { return 1; } int g$(void) { int (*p)(void) = a$; { int a$ = 3; return p() + a$; } }",
         "static inline int a$(void) { return 1; } static int (*p$)(void) = a$; int g$(void) { return p$(); }", "inline int f$(void) { return 1; } extern int f$(void); int g$(void) { return f$(); }", "extern int f$(void); inline int f$(void) { return 1; }", "inline int f$(void); int f$(void) { return 1; }", "inline int f$(void) { return 1; } inline int f$(void); int g$(void) { return f$(); }", "extern inline int f$(void); inline int f$(void) { return 2; }", "_Noreturn void f$(void) { for (;;); }", "extern int x$; int x$ = 3; extern int x$;",
         "extern int x$[]; int g$(void) { return x$[1]; } int x$[3]; long z$ = sizeof x$;", "int x$[]; int x$[7];", "int x$[7]; int x$[]; long z$ = sizeof x$;", "extern int x$[]; int x$[] = { 1, 2 }; extern int x$[]; long z$ = sizeof x$;", "int x$[2][3]; extern int x$[][3]; long z$ = sizeof x$;", "_Alignas(32) extern int x$; int x$;", "extern int x$; _Alignas(32) int x$ = 2;", "_Thread_local _Alignas(32) int x$; _Thread_local char y$ = 1; _Thread_local long z$[3];", "static _Thread_local int x$[3] = { 1, 2 }; int *g$(void) { return x$ + 1; }", "const int x$ = 3; volatile int y$; const char *const z$ = \"q\";",
         "int x$ asm$; ".replace(" asm$", ""), "void f$(void) { extern int y$; extern int y$; y$ = 1; }", "void f$(void) { int g$(void); { int g$(void); g$(); } }", "int f$(void) { extern int f$(void); return f$(); }", "int a0$, sp$ = 2; int zero$(void) { return sp$; }", "typedef int I$; I$ x$, *y$ = &x$; extern I$ z$;", "struct S$; struct S$ *x$; struct S$ { int a; } y$; struct S$ *z$ = &y$;", "int x$ = sizeof(int[3]), y$ = _Alignof(long);", "char x$[3] = \"abc\", y$[5] = \"a\\0b\";", "unsigned short x$[] = u\"xy\"; unsigned y$[] = U\"z\"; int z$[] = L\"w\";", "char x$[] = u8\"\\u00e9\";"]
NAMES = "a0 a7 t0 s0 fp sp ra gp tp zero x0 x1 x31 fa0 ft0 fs11 f31 pc add addi mv li la lla call ret j b bne ld sd lw lui auipc nop not neg and or xor mul div fadd fld csrr rdcycle ecall fence eq ne lt gt hi lo pcrel_hi got global local data text bss byte word quad size type align section file loc zero_ mod shl shr set option L l _ __ _L dot v0 ".split()

def others(c):
    for i, t in enumerate(OTHER):
        for cm in (["-fno-common"], ["-fcommon"]):
            yield K(f"form {i} {t[:50]} {cm[0]}", t, cm)

def sizes(c):
    """every form of definition at every size around the powers of two"""
    for k in range(0, 27):
        for z in sorted({1 << k, (1 << k) - 1, (1 << k) + 1}):
            for i, t in enumerate(("char x$[Z];", "static char x$[Z]; void *u$(void) { return x$; }", "extern char x$[]; void *u$(void) { return x$ + Z - 1; } char x$[Z];", "struct { char c[Z]; } x$; struct { long l; char c[Z]; } y$;", "_Thread_local char x$[Z]; void *u$(void) { return x$ + Z / 2; }", "char x$[Z] = { 1 };", "void *u$(void) { static char q[Z]; return q; }", "_Alignas(64) short x$[Z];", "_Thread_local char x$[Z] = { 3 };")):
                if not z or "{ 1 }" in t and z > 1 << 12 or "{ 3 }" in t and z > 1 << 10 or "Alignas" in t and k > 20: continue
                for cm in (["-fno-common"], ["-fcommon"]):
                    yield K(f"size {z} {i} {cm[0]}", t.replace("Z", str(z)), cm)

def required(text, name):
    """the strictest alignment that a declaration of the object asks for"""
    r = 1
    for d in re.split(r"[;{}]", text):
        if re.search(r"\b" + re.escape(name) + r"\b", d):
            for a in re.findall(r"_Alignas\((\w+)\)", d): r = max(r, int(a) if a.isdigit() else 8)
    return r

def table(o, names):
    r = {}
    for y in o.sym:
        if y[0] in names and y[2] != 3 and y[2] != 4:
            r[y[0]] = y
    return r

def view(o, y):
    """what a symbol amounts to for other units"""
    if y is None: return ("absent",)
    bind, kind, shn = y[1], y[2], y[3]
    if shn == 0: return ("undefined",)
    w = {0: "local", 1: "global"}.get(bind, f"bind{bind}")
    if shn == 0xfff2: return (w, "common", y[5])
    if kind == 2: return (w, "function")
    s = o.sec[shn]
    k = "thread-local" if s[2] & 0x400 else "function" if s[2] & 4 else "object"
    return (w, k, y[5]) + o.data(y)

class Link:
    def __init__(self, c):
        self.c, self.toycc = c, c.build()
        self.seq = itertools.count()

    def gcc(self, ks, d, text):
        """compile with the reference compiler, dropping the cases it rejects"""
        live = list(range(len(ks)))
        while True:
            p = os.path.join(d, "g.c")
            open(p, "w").write("".join((text(i) if i in set(live) else "") + "\n" for i in range(len(ks))))
            rc, o, e = sh([GCC] + [f for f in GCC_FLAGS if f not in ("-fno-common", "-w")] + ks[0].flags + ["-Werror=implicit-function-declaration", "-c", p, "-o", os.path.join(d, "g.o")], cwd=d, timeout=120)
            if rc == 0: return live
            bad = {int(m) - 1 for m in re.findall(rb"g\.c:(\d+):\d+: error", e)}
            if not bad: raise RuntimeError(e.decode()[:2000])
            live = [i for i in live if i not in bad]

    def batch(self, ks):
        d = os.path.join(self.c.scratch, "l%d" % next(self.seq)); os.makedirs(d)
        try:
            text = lambda i: ks[i].text.replace("$", f"_{i}")
            live = self.gcc(ks, d, text)
            if not live: return
            self.toy(ks, live, d, text)
        finally:
            shutil.rmtree(d, True)

    def toy(self, ks, live, d, text):
        p = os.path.join(d, "t.c")
        open(p, "w").write("".join(text(i) + "\n" for i in live))
        rc, o, e = sh([self.toycc] + ks[0].flags + ["-c", p, "-o", os.path.join(d, "t.o")], cwd=d, timeout=120)
        if rc != 0:
            if len(live) == 1:
                self.c.violation(ks[live[0]].key, "rejects or mis-assembles a valid unit: " + e.decode(errors="replace")[:300], self.replay(ks[live[0]]))
                return
            m = len(live) // 2
            self.toy(ks, live[:m], d, text); self.toy(ks, live[m:], d, text)
            return
        g, t = elf.Obj(os.path.join(d, "g.o")), elf.Obj(os.path.join(d, "t.o"))
        names = {n for i in live for n in re.findall(r"[A-Za-z_]\w*_%d\b" % i + r"|[A-Za-z]\w*_%d_\d_" % i, text(i))}
        G, T = table(g, names), table(t, names)
        for i in live:
            tx = text(i)
            for n in sorted(set(re.findall(r"[A-Za-z_]\w*_%d\b|[A-Za-z]\w*_%d_\d_" % (i, i), tx))):
                a, b = view(g, G.get(n)), view(t, T.get(n))
                m = self.judge(n, a, b, tx, t, T.get(n), i)
                if m:
                    self.c.violation(ks[i].key, f"{n.replace(f'_{i}', '')}: {m}", self.replay(ks[i]))
                    break
        self.c.count(states=len(live), transitions=sum(len(ks[i].key.split()[1]) if ks[i].key[:4] != "form" else 1 for i in live), traces=len(live))
        self.c.sample(ks[live[-1]].key)

    def replay(self, k):
        return f"# {' '.join(k.flags)}; compare the symbol tables (readelf -sW) of toycc -c and riscv64-linux-gnu-gcc -std=gnu11 -c\n{k.text.replace('$', '')}"

    def judge(self, n, g, t, text, o, y, i):
        strip = lambda v: tuple(sorted((a, b if "_%d" % i in b else "local", c) for a, b, c in v))
        if t[0] == "undefined" and g[0] != "undefined": return f"is left undefined; the reference has it {g[0]}"
        if g[0] == "global" or t[0] == "global":
            if g[:2] != t[:2]: return f"is {' '.join(map(str, t[:2]))}; the reference has it {' '.join(map(str, g[:2]))}"
            if len(g) > 2 and g[2] != t[2]: return f"has size {t[2]}; the reference has {g[2]}"
            if len(g) > 3 and g[3] != t[3]: return f"has initial bytes {t[3].hex()}; the reference has {g[3].hex()}"
            if len(g) > 4 and strip(g[4]) != strip(t[4]): return f"has initial pointers {t[4]}; the reference has {g[4]}"
        elif g[0] == "undefined" and t[0] == "absent":
            return "is not referenced; the reference leaves it undefined"
        elif g[0] == "undefined" and t[0] == "local" and "inline" not in text: return "is local; the reference leaves it undefined"
        elif g[0] == "local" and t[0] == "local" and g[1] == t[1] != "function":
            if g[2:4] != t[2:4]: return f"is a local object of {t[2]} bytes {t[3].hex()}; the reference has {g[2]} {g[3].hex()}"
        elif g[0] == "local" and t[0] == "local" and g[1] != t[1]: return f"is a local {t[1]}; the reference has a local {g[1]}"
        if y and y[3] not in (0, 0xfff2) and y[2] != 2:
            a = required(text, n)
            if y[4] % a or o.sec[y[3]][8] < a: return f"is not aligned to {a}"
        if y and y[3] == 0xfff2 and y[4] % required(text, n): return f"common symbol is not aligned to {required(text, n)}"
        return None

# ---- family 2: two units that share a name, compiled by any mix of the compilers, linked and run ----
class Units(PairDiff):
    """decls: 'caller text @@ peer text'"""
    def text(self, cases):
        parts = [self.prelude]
        for i, k in enumerate(cases):
            parts.append(k.decls.split("@@")[0].replace("$", f"_{i}") + " void vf_case%d(void){ %s }" % (i, k.body.replace("$", f"_{i}")))
        return "\n".join(parts) + "\n"
    def peer_text(self, cases):
        return "\n".join([self.prelude, self.peer_prelude] + [k.decls.split("@@")[1].replace("$", f"_{i}") for i, k in enumerate(cases)]) + "\n"

TY = {"char": ("char x$", "-3"), "short": ("short x$", "-300"), "int": ("int x$", "70000"), "long": ("long x$", "-5000000000"), "float": ("float x$", "1.5f"), "double": ("double x$", "-0.25"), "bool": ("_Bool x$", "1"), "ptr": ("char *x$", "\"str\""), "arr": ("short x$[5]", "{ 1, 2, 3 }"), "arr2": ("int x$[2][3]", "{ { 1 }, { 4, 5 } }"),
      "struct": ("struct { int a; char c[3]; long l; } x$", "{ 1, \"a\", 9 }"), "bits": ("struct { int a : 3, b : 20; } x$", "{ -1, 4000 }"), "union": ("union { int i; char c[6]; } x$", "{ 0x1234 }"), "ld": ("long double x$", "2.5L"), "fp": ("int (*x$)(void)", "0"), "small": ("struct { char c; } x$", "{ 5 }")}
def units(c):
    obs = "OB((void *)&x$, sizeof x$);"
    for n, (d, v) in TY.items():
        o = "OS((char *)x$ ? x$ : \"0\");" if n == "ptr" else obs if n != "ld" else "OD((double)x$);"
        for pre in ("", "_Thread_local "):
            dp = d if n != "struct" and n != "bits" and n != "union" and n != "small" else re.sub(r"^(struct|union) \{", r"\1 S$ {", d)
            ext = f"extern {pre}{dp};"
            bump = {"ptr": "x$ = \"other\";", "fp": "x$ = (void *)16;", "arr": "x$[4] = 77;", "arr2": "x$[1][2] = 78;", "struct": "x$.l = 5; x$.c[1] = 'z';", "bits": "x$.b = -1;", "union": "x$.c[2] = 3;", "small": "x$.c++;"}.get(n, "x$ = x$ + 1;" if n != "bool" else "x$ = !x$;")
            for form, dfn in (("init", f"{pre}{dp} = {v};"), ("tentative", f"{pre}{dp};"), ("externinit", f"extern {pre}{dp} = {v};"), ("late", f"{ext} void *y$(void) {{ return &x$; }} {pre}{re.sub(r'S[$] {.*}', 'S$', dp)} = {v};")):
                for where in ("peer defines", "caller defines"):
                    a = f"{ext} void g$(void);" if where[0] == "p" else f"{dfn} void g$(void);"
                    b = (dfn if where[0] == "p" else ext) + f" void g$(void) {{ {o} {bump} {o} }}"
                    yield Case(f"unit {pre}{n} {form} {where}", f"{o} {bump} {o} g$(); {o} g$(); {o}", f"{a}@@{b}", steps=6)
            if n in ("int", "arr", "struct", "long", "char"):
                # an object of internal linkage on one side does not clash with an external one on the other
                for sa, sb in (("static ", ""), ("", "static "), ("static ", "static ")):
                    yield Case(f"internal {pre}{n} {sa or '-'}{sb or '-'}", f"{obs} {bump} {obs} g$(); {obs}", f"{sa}{pre}{dp} = {v}; void g$(void);@@{sb}{pre}{dp}; void g$(void) {{ {obs} {bump} {obs} }}", steps=6)
    F = {"plain": ("int f$(int x);", "int f$(int x) { return x * 3; }"), "static": ("static int f$(int x) { return x - 1; }", "int f$(int x) { return x + 1; }"), "inline": ("int f$(int x);", "extern inline int f$(int x) { return x + 2; }"), "inlineboth": ("static inline int f$(int x) { return x * 7; }", "static inline int f$(int x) { return x * 8; }"),
         "inlineextern": ("int f$(int x);", "inline int f$(int x) { return x + 4; } extern int f$(int x);"), "block": ("", "int f$(int x) { return x + 9; }"), "addr": ("int f$(int x); int (*p$)(int) = f$;", "int f$(int x) { return x + 10; }"), "struct": ("struct S$ { long a[4]; }; int f$(int); struct S$ h$(struct S$);", "struct S$ { long a[4]; }; int f$(int x) { return x; } struct S$ h$(struct S$ s) { s.a[3]++; return s; }")}
    for n, (a, b) in F.items():
        body = {"block": "int f$(int); O(f$(4)); { int f$(int x); O(f$(5)); }", "addr": "O(p$(3)); O(p$ == f$); O(q$(p$));", "struct": "struct S$ s = { { 1, 2, 3, 4 } }; s = h$(h$(s)); O(s.a[3]); O(f$(3));"}.get(n, "O(f$(6)); int (*p)(int) = f$; O(p(7)); O(g$(8));")
        a2 = a + " int g$(int); int q$(int (*p)(int));"
        b2 = b + " int g$(int x) { return f$(x) * 100; } int q$(int (*p)(int)) { return p == f$; }"
        yield Case(f"function {n}", body, f"{a2}@@{b2}", steps=3)
        if n not in ("static", "inlineboth", "block", "addr", "struct"):
            yield Case(f"function {n} reversed", "O(g$(8)); O(f$(2));", f"{b} int g$(int);@@{a} int g$(int x) {{ return f$(x) * 100; }}", steps=3)

def names(c):
    """objects and functions whose names mean something to the assembler"""
    for n in NAMES:
        yield Case(f"name object {n}", f"O({n}$); {n}$ = 5; O({n}$); O(*&{n}$); {{ int *p = &{n}$; *p = 6; }} O({n}$);", f"int {n}$ = 3;", steps=3)

def body(c):
    L = Link(c)
    by = {}
    for k in itertools.chain(cases(c), others(c), sizes(c)): by.setdefault(tuple(k.flags), []).append(k)
    chunks = [v[i:i + 150] for v in by.values() for i in range(0, len(v), 150)]
    pmap(L.batch, chunks)
    # the names as they stand, one unit each
    raw = [K(f"name {n} {t}", t.replace("N", n), fl) for n in NAMES for t in ("int N = 3; int f(void) { N = 4; return N; } int *p = &N;", "int N(void) { return 3; } int f(void) { return N(); } int (*p)(void) = N;", "static int N; int f(void) { return N; }", "_Thread_local int N = 1; int f(void) { return N; }") for fl in ([], ["-fPIC"], ["-fcommon"])]
    pmap(L.batch1, raw)
    # how the units are compiled and linked: statically, as a (non-)position-independent executable, against a shared library
    for fl, link, shared in (([], ["-static"], False), (["-fPIC"], ["-static"], False), (["-fPIC"], ["-pie"], False), ([], ["-no-pie"], False), ([], ["-pie"], False), (["-fPIC"], ["-pie"], True), (["-fPIC"], ["-no-pie"], True)):
        u = Units(c, toycc_flags=fl, gcc_flags=fl, link=link, shared=shared)
        ks = list(units(c))
        for k in ks: k.key = " ".join([k.key] + fl + link + ["shared"] * shared)
        u.run(ks, size=60)
    c.extra["bounds"] = f"all sequences of up to {4 if c.thorough else 3} declarations, definitions and uses over {', '.join(f'{len(v)} {k}' for k, v in FAMS.items())} forms of one name, under -fcommon and -fno-common; {len(OTHER)} further units; 9 forms of definition x every size 2^k, 2^k+-1 up to 2^26; {len(NAMES)} names known to the assembler; {len(TY)} object types x definition form x storage duration x defining unit x every mix of the compilers, linked and run, with and without -fPIC, statically, dynamically, and with one unit as a shared library"

def batch1(self, k):
    """one unit with global names: assembles to the same symbols as the reference, and to instructions that reach them"""
    d = os.path.join(self.c.scratch, "n%d" % next(self.seq)); os.makedirs(d)
    try:
        p = os.path.join(d, "u.c"); open(p, "w").write(k.text + "\n")
        mainf = os.path.join(d, "m.c")
        rc, o, e = sh([GCC] + GCC_FLAGS[:-1] + k.flags + ["-c", p, "-o", d + "/g.o"], cwd=d)
        if rc != 0: return           # not a valid name for the reference either
        rc, o, e = sh([self.toycc] + k.flags + ["-c", p, "-o", d + "/t.o"], cwd=d)
        if rc != 0:
            self.c.violation(k.key, "rejects or mis-assembles a valid unit: " + e.decode(errors="replace")[:300], self.replay(k)); return
        open(mainf, "w").write("int f(void); void exit(int); int main(void) { return f(); }\n")
        res = []
        for w in "gt":
            rc, o, e = sh([GCC, "-static", mainf, f"{d}/{w}.o", "-o", f"{d}/{w}"], cwd=d)
            if rc != 0: res.append("link failed: " + e.decode(errors="replace")[-200:]); continue
            rc, o, e = sh(QEMU + [f"{d}/{w}"], cwd=d, timeout=30)
            res.append(rc)
        if isinstance(res[0], str): return       # clashes with the C library
        if res[0] != res[1]: self.c.violation(k.key, f"gives {res[1]}; the reference gives {res[0]}", self.replay(k))
        self.c.count(states=1, transitions=1, traces=1)
    finally:
        shutil.rmtree(d, True)
Link.batch1 = batch1
main("C29", body)
