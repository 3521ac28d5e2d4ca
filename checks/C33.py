"""C33: every object is placed at an address that satisfies its alignment and overlaps nothing else."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

PRE = PRELUDE + """
static unsigned char *reg[64]; static long rlen[64]; static int nreg;
static void fill(void *p, long n) { unsigned char *q = p; int k = nreg; reg[nreg] = q; rlen[nreg++] = n; for (long i = 0; i < n; i++) q[i] = i * 7 + k * 31 + 1; }
static int chk(void) { int bad = 0; for (int r = 0; r < nreg; r++) for (long i = 0; i < rlen[r]; i++) if (reg[r][i] != (unsigned char)(i * 7 + r * 31 + 1)) bad++; return bad; }
static int lap(void) { int n = 0; for (int a = 0; a < nreg; a++) for (int b = 0; b < a; b++) if (reg[a] < reg[b] + rlen[b] && reg[b] < reg[a] + rlen[a]) n++; return n; }
static int id(int x) { return x; }
static long mod(void *p, long a) { return (long)p % a; }
"""
# object forms: (declaration with name @, natural alignment)
OBJ = {"c": ("char @", 1), "s": ("short @", 2), "i": ("int @", 4), "l": ("long @", 8), "d": ("double @", 8), "f": ("float @", 4), "e": ("long double @", 16), "p": ("void *@", 8), "C": ("char @[3]", 1), "L": ("long @[2]", 8), "E": ("long double @[2]", 16), "S": ("struct { char a; short b; } @", 2), "T": ("struct { char a[5]; } @", 1),
       "D": ("struct { char a; long double b; } @", 16), "U": ("union { char a[9]; int i; } @", 4), "P": ("struct { char a; int b; } __attribute__((packed)) @", 1),
       "2": ("_Alignas(16) char @", 16), "3": ("_Alignas(32) int @", 32), "4": ("_Alignas(64) char @[5]", 64), "5": ("_Alignas(128) double @", 128), "6": ("_Alignas(long) char @", 8), "7": ("_Alignas(4096) short @", 4096), "8": ("_Alignas(256) struct { char a[7]; } @", 256),
       "B": ("struct { char z; _Alignas(32) struct { char a; }; } @", 32), "F": ("union { char z; _Alignas(64) union { char a; short b; }; } @", 64), "G": ("struct { char z; struct { char y; struct { _Alignas(16) char a; }; }; } @", 16),
       "9": ("struct { char z; _Alignas(64) char a; } @", 64), "0": ("_Alignas(16) struct { long a[3]; } @", 16), "A": ("struct __attribute__((aligned(32))) { char a; } @", 32)}
CORE = "cldeC2457P9"
FILES = "csiledfpCLESTDUP2345678 90ABFG".replace(" ", "")

def local(q, stor=""):
    """all objects of a sequence in one function, with recursion: aligned, disjoint, undisturbed"""
    t = "".join(stor + OBJ[o][0].replace("@", f"v{k}") + ";" for k, o in enumerate(q))
    t += "int base = nreg;" + "".join(f"O(mod(&v{k}, {OBJ[o][1]})); O(_Alignof(v{k})); fill(&v{k}, sizeof v{k});" for k, o in enumerate(q)) + "O(lap()); O(chk());"
    return t

# objects of run-time size, between others; alloca aligns to 8 bytes (the project's suite fixes that)
RUN = {"v": ("char @[id(3)]", 1), "w": ("short @[id(3)]", 2), "x": ("long double @[id(2)]", 16), "y": ("_Alignas(64) char @[id(5)]", 64), "z": ("struct Sa @[id(2)]", 32), "m": ("double @[id(2)][id(3)]", 8), "n": ("_Alignas(16) char @[id(3)][2]", 16), "t": ("typeof(int[id(3)]) _Alignas(32) @", 32), "q": ("char *(@[id(3)])", 8), "u": ("union { char a; int b; } @[id(1)]", 4), "0": ("alloca 0", 8), "1": ("alloca 1", 8), "9": ("alloca 9", 8), "c": OBJ["c"], "e": OBJ["e"], "3": OBJ["3"]}
def runtime(c):
    for L in range(1, 4):
        for q in itertools.product(RUN if L < 3 or c.thorough else "vwxyzt1ce", repeat=L):
            if not set(q) - set("ce3"): continue
            t, u = "int base = nreg;", ""
            for k, o in enumerate(q):
                d, al = RUN[o]
                if d.startswith("alloca"):
                    t += f"char *v{k} = alloca(id({d[7:]})); O(mod(v{k}, 8)); fill(v{k}, {d[7:]});"
                else:
                    t += d.replace("@", f"v{k}") + f"; O(mod(&v{k}, {al})); O(_Alignof(v{k})); O(sizeof v{k}); fill(&v{k}, sizeof v{k});"
            yield Case(f"run time {''.join(q)}", "nreg = 0; O(f$(0)); nreg = 0; for (int i = 0; i < 2; i++) { int sb = nreg; " + t.replace("int base", "int base2") + " O(lap()); O(chk()); nreg = sb; }",
                       f"static int f$(int n) {{ {t} O(lap()); O(chk()); if (n < 2) O(n + f$(n + 1)); O(chk()); nreg = base; return n; }}", steps=2 * L + 2)

def cases(c):
    n = 3
    for L in range(1, n + 1):
        for q in itertools.product(FILES if L < 3 else (CORE if not c.thorough else "csldeCDU234579A"), repeat=L):
            t = local(q)
            yield Case(f"local {''.join(q)}", "nreg = 0; O(f$(0)); nreg = 0; O(g$(1, 2, 3, 4, 5, 6, 7, 8, 9, 1.5, 10));",
                       f"static int f$(int n) {{ {t} if (n < 2) O(f$(n + 1)); O(chk()); nreg = base; return n; }} static int g$(int a, long b, int c, int d, int e, int f, int g, int h, int i, double j, char k) {{ char odd[id(1) ? 3 : 0]; {t} O(f$(1)); O(a + b + c + d + e + f + g + h + i + j + k); O(chk()); nreg = base; return a; }}", steps=2 * L + 2)
            if L < 3:
                yield Case(f"static {''.join(q)}", "nreg = 0; O(f$());", f"static int f$(void) {{ {local(q, 'static ')} return 1; }}", steps=L)
                # file scope, initialised and not
                g = "".join(OBJ[o][0].replace("@", f"v{k}$") + ";" for k, o in enumerate(q)) + "".join("static " + OBJ[o][0].replace("@", f"w{k}$") + (" = { 1 }" if o in "CLESTDUP4890ABFG" else " = 1" if o != "p" else " = 0") + ";" for k, o in enumerate(q))
                yield Case(f"global {''.join(q)}", "nreg = 0; " + "".join(f"O(mod(&v{k}$, {OBJ[o][1]})); fill(&v{k}$, sizeof v{k}$); O(mod(&w{k}$, {OBJ[o][1]})); fill(&w{k}$, sizeof w{k}$);" for k, o in enumerate(q)) + "O(lap()); O(chk());", g, steps=2 * L)
                # objects of nested blocks, and with run-time sized ones between them
                b = "int base = nreg;"
                for k, o in enumerate(q):
                    b += "{ " + OBJ[o][0].replace("@", f"v{k}") + f"; char y{k}[id({k} * 7 + 1)]; " + f"O(mod(&v{k}, {OBJ[o][1]})); fill(&v{k}, sizeof v{k}); fill(y{k}, sizeof y{k});"
                yield Case(f"blocks {''.join(q)}", f"nreg = 0; {b} O(lap()); O(chk()); nreg = base; {'}' * len(q)}", steps=2 * L)
            if L == 2:
                # compound literals and initialised objects
                t = "".join(OBJ[o][0].replace("@", f"v{k}") + (" = { 5 }" if o in "CLESTDUP4890ABFG" else " = 5" if o != "p" else " = 0") + ";" for k, o in enumerate(q))
                yield Case(f"init {''.join(q)}", t + "".join(f"O(mod(&v{k}, {OBJ[o][1]}));" + (f"O((long)v{k} == {0 if o == 'p' else 5});" if o not in "CLESTDUP4890ABFG" else f"O(*(signed char *)&v{k});" if o not in "LED0" else "") for k, o in enumerate(q)), steps=L)

# parameters and results of over-aligned and ordinary types: the callee's copy must be aligned too
PT = {"c": ("char", "3", 1), "l": ("long", "4", 8), "d": ("double", "1.5", 8), "e": ("long double", "2.5L", 16), "S": ("struct Ss", "(struct Ss){ 1, 2 }", 2), "B": ("struct Sb", "(struct Sb){ { 1, 2, 3 } }", 8), "A": ("struct Sa", "(struct Sa){ 7, 8 }", 32), "Z": ("struct Sz", "(struct Sz){ { 1, 2 }, 9 }", 64), "E": ("struct Se", "(struct Se){ 2.5L }", 16)}
TYPES = "struct Ss { char a; short b; }; struct Sb { long a[3]; }; struct Sa { _Alignas(32) int a; int b; }; struct Sz { _Alignas(64) char a[70]; int b; }; struct Se { long double a; };"
def params(c):
    for L in (1, 2, 3) if not c.thorough else (1, 2, 3, 4):
        for q in itertools.product(PT, repeat=L):
            ps = ", ".join(f"{PT[o][0]} p{k}" for k, o in enumerate(q))
            use = "".join(f"O(mod(&p{k}, {PT[o][2]}));" + {"c": f"O(p{k});", "l": f"O(p{k});", "d": f"O(p{k} * 2);", "e": f"O(p{k} * 2);", "S": f"O(p{k}.a + p{k}.b * 10);", "B": f"O(p{k}.a[0] + p{k}.a[2] * 10);", "A": f"O(p{k}.a + p{k}.b * 10);", "Z": f"O(p{k}.a[1] + p{k}.b * 10);", "E": f"O(p{k}.a * 2);"}[o] for k, o in enumerate(q))
            yield Case(f"params {''.join(q)}", f"O(f$({', '.join(PT[o][1] for o in q)})); char odd = 1; O(f$({', '.join(PT[o][1] for o in q)}) + odd);", f"static int f$({ps}) {{ char x = 5; {use} return x; }}", steps=L)
    for o, (ty, v, al) in PT.items():
        if o in "cld": continue
        get = {"e": "O(r * 2);", "S": "O(r.a + r.b);", "B": "O(r.a[1]);", "A": "O(r.a + r.b * 10);", "Z": "O(r.a[1] + r.b * 10);", "E": "O(r.a * 2);"}[o]
        yield Case(f"result {o}", f"char odd = 2; {ty} r = f$(1); {get} O(mod(&r, {al})); r = f$(2); {get} {ty} s = g$(r); r = s; {get} O(odd); {ty} *p = &({ty}){{ 0 }}; O(mod(p, {al})); {ty} v[3]; O(mod(&v[1], {al})); O((char *)&v[2] - (char *)v); v[1] = f$(3); r = v[1]; {get}", f"static {ty} f$(int n) {{ char c = 1; {ty} r = {v}; O(mod(&r, {al})); O(c); return r; }} static {ty} g$({ty} a) {{ char c = 1; O(mod(&a, {al})); {ty} b = a; return b; }}", steps=6)

# every kind of object x every way of asking for an alignment x every place an object may live
KIND = {"_Bool": "_Bool @", "char": "char @", "short": "unsigned short @", "int": "int @", "long": "long @", "float": "float @", "double": "double @", "long double": "long double @", "pointer": "char *@", "function pointer": "int (*@)(int)", "pointer to array": "int (*@)[3]", "enum": "enum { EA$_# } @", "named enum": "enum Eg @", "array": "char @[3]", "array of array": "short @[3][2]", "array of pointers": "char *@[3]", "array of struct": "struct Ss @[2]", "array of union": "union Ug @[2]",
        "struct": "struct { char a[3]; } @", "named struct": "struct Ss @", "struct with bits": "struct { int a : 3; int b : 9; } @", "union": "union { char a[3]; short b; } @", "named union": "union Ug @", "packed struct": "struct __attribute__((packed)) { char a; int b; } @", "typedef": "Tg @", "typedef of array": "Ta @", "typedef of union": "Tu @", "typeof": "typeof(struct Ss) @"}
KTYPES = "enum Eg { EGA, EGB }; union Ug { char a[5]; short b; }; typedef char Tg; typedef char Ta[3]; typedef union { char c; short d; } Tu;"
ASK = {"16": ("_Alignas(16)", 16), "64": ("_Alignas(64)", 64), "512": ("_Alignas(512)", 512), "type": ("_Alignas(long double)", 16), "two": ("_Alignas(8) _Alignas(32)", 32), "two, larger first": ("_Alignas(128) _Alignas(8)", 128), "expression": ("_Alignas(sizeof(long) * 8)", 64), "struct type": ("_Alignas(struct Al)", 64), "none": ("", 1)}
def asks(c):
    n = 0
    for kn, kd in KIND.items():
        for an, (at, al) in ASK.items():
            for after in (0, 1):
                # the specifier before or after the type specifier
                def decl(name, pre=""):
                    nonlocal n
                    n += 1
                    h, tl = kd.replace("#", str(n)).split("@")
                    i = len(h.rstrip("(* ")) if after else 0
                    return f"{pre} {h[:i]} {at} {h[i:]}{name}{tl}"
                if after and not at: continue
                u = lambda nm: f"O(mod(&{nm}, {al})); O(_Alignof({nm})); O(sizeof {nm}); fill(&{nm}, sizeof {nm});"
                f = f"static int f$(int k) {{ char o1 = 1; {decl('a')}; char o2 = 2; {decl('b')}; int base = nreg; {u('a')} {u('b')} {{ char o3 = 3; {decl('a')}; {u('a')} if (k) O(f$(k - 1)); O(o3); }} O(lap()); O(chk()); nreg = base; return o1 + o2; }}"
                yield Case(f"ask local: {kn}, {an}{', after the type' * after}", "nreg = 0; O(f$(2));", f, steps=6)
                f = f"static int f$(int k) {{ static char o1 = 1; {decl('a', 'static')}; static char o2 = 2; {decl('b', 'static')}; {u('a')} {u('b')} O(lap()); O(chk()); return o1 + o2; }}"
                yield Case(f"ask static: {kn}, {an}{', after the type' * after}", "nreg = 0; O(f$(2));", f, steps=2)
                g = f"char o1$ = 1; {decl('a$')}; char o2$ = 2; {decl('b$', 'static')}; static char o3$ = 3; {decl('t$', 'static _Thread_local')}; _Thread_local char o4$ = 1; {decl('w$', '_Thread_local')};"
                yield Case(f"ask file scope: {kn}, {an}{', after the type' * after}", "nreg = 0; " + "".join(u(x) for x in ("a$", "b$", "t$", "w$")) + " O(lap()); O(chk()); O(o1$ + o2$ + o3$ + o4$);", g, steps=4)

def body(c):
    d = Diff(c, prelude=PRE + TYPES)
    # the reference compiler's own placement is not observed, only whether the remainder is zero: it is by-reference copies
    # of over-aligned parameters that it leaves under-aligned, so for those the expected remainders are computed here
    d.run((k for k in params(c) if not any(x in k.key.split()[1] for x in "AZ")), size=120)
    d.run(cases(c), size=60)
    Diff(c, prelude=PRE + TYPES + KTYPES + "struct Al { _Alignas(64) char a; };").run(asks(c), size=60)
    Diff(c, prelude=PRE + TYPES + "\n#ifdef REFERENCE\n#define alloca __builtin_alloca\n#endif\n", gcc_flags=["-DREFERENCE"]).run(runtime(c), size=60)
    over(c, d)
    c.extra["bounds"] = f"all sequences of up to 3 objects over {len(OBJ)} forms (3 over a core of {len(CORE)}) as locals in recursion, statics, globals, nested blocks with run-time arrays between; all parameter lists up to {4 if c.thorough else 3} over {len(PT)} types; results and compound literals; {len(KIND)} kinds of object x {len(ASK)} ways of asking for an alignment (before and after the type) as locals in recursion and nested blocks, statics, globals and thread-locals; sequences of up to 3 over {len(RUN)} forms of run-time sized and other objects"

def over(c, d):
    """parameter lists with over-aligned members: expected values come from the texts themselves"""
    # make the reference unit agree with C by letting it align its own copies
    o = Diff(c, prelude=PRE.replace("static long mod(void *p, long a) { return (long)p % a; }", "#ifdef REFERENCE\nstatic long mod(void *p, long a) { return 0; }\n#else\nstatic long mod(void *p, long a) { return (long)p % a; }\n#endif") + TYPES, gcc_flags=["-DREFERENCE"])
    o.run((k for k in params(c) if any(x in k.key.split()[1] for x in "AZ")), size=120)
main("C33", body)
