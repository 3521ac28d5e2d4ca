"""C31: each thread has its own copy of every thread-local object, with the initial value, for every access path."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

# the scheduler: step i of a history runs on thread th[i] (0 is the main thread), all threads alive throughout
HELPER = r"""
#include <pthread.h>
#include <semaphore.h>
static sem_t go[3], done; static void (*cur)(int); static int arg[3], quit;
static void *work(void *p) { long t = (long)p; for (;;) { while (sem_wait(&go[t])); if (quit) return 0; cur(arg[t]); sem_post(&done); } }
void vf_sched(int n, const int *th, void (*step)(int)) {
  pthread_t id[3]; cur = step; quit = 0; sem_init(&done, 0, 0);
  for (long t = 1; t < 3; t++) { sem_init(&go[t], 0, 0); pthread_create(&id[t], 0, work, (void *)t); }
  for (int i = 0; i < n; i++) if (!th[i]) step(i); else { arg[th[i]] = i; sem_post(&go[th[i]]); while (sem_wait(&done)); }
  quit = 1; for (int t = 1; t < 3; t++) { sem_post(&go[t]); pthread_join(id[t], 0); }
}
"""
PRE = PRELUDE + "void vf_sched(int, const int *, void (*)(int)); static void *vf_pub;\n"

# ---- family 1: histories of operations on a thread-local object, over all assignments of steps to three threads ----
OPS = {"r": "O({x});", "w": "{x} = {i} + 40;", "i": "O({x}++);", "a": "vf_pub = &{x};", "p": "O(*(int *)vf_pub);", "P": "*(int *)vf_pub += 100;", "q": "O(vf_pub == &{x});", "s": "O(s$());"}
STOR = {"static init": ("static _Thread_local int x$ = 7;", "x$"), "static zero": ("static _Thread_local int x$;", "x$"), "global init": ("_Thread_local int x$ = 9;", "x$"), "common": ("_Thread_local int x$;", "x$"), "extern later": ("extern _Thread_local int x$;", "x$"),
        "member": ("static _Thread_local struct { char c[9]; int m[3]; } x$ = { \"ab\", { 1, 2, 3 } };", "x$.m[1]"), "pointer": ("static _Thread_local int *y$; static int *t$(void) { static _Thread_local int z = 6; if (!y$) y$ = &z; return y$; }", "(*t$())")}
def histories(c):
    n = 4 if c.thorough else 3
    for L in range(1, n + 1):
        for th in itertools.product((0, 1, 2), repeat=L):
            if [t for t in dict.fromkeys(th) if t] not in ([], [1], [1, 2]): continue     # the two workers are symmetric
            for q in itertools.product(OPS, repeat=L):
                if any(o in "pPq" and "a" not in q[:k] for k, o in enumerate(q)): continue
                if "a" in q and L < n and not any(o in "pPq" for o in q): continue
                if L == 4 and len(set(q)) < 3: continue
                for sn, (d, x) in STOR.items():
                    if L == n and sn not in ("static init", "common", "member"): continue
                    if c.thorough and L == n and sn != "static init": continue
                    sub = lambda s, k: s.replace("{x}", x).replace("{i}", str(k))
                    body = "switch (k) { " + " ".join(f"case {k}: {{ {sub(OPS[o], k)} break; }}" for k, o in enumerate(q)) + " }"
                    yield Case(f"hist {sn} {''.join(q)} on {th}", f"static const int th[] = {{ {', '.join(map(str, th))} }}; vf_sched({L}, th, step$);",
                               f"{d} static int s$(void) {{ static _Thread_local int n = 2; static int m; return n++ * 10 + ++m; }} static void step$(int k) {{ {body} }} {'_Thread_local int x$ = 3;' if sn == 'extern later' else ''}", steps=L)

# ---- family 2: types, access forms and places in the thread's block ----
TY = {"char": ("c", "'q'"), "signed char": ("c", "-3"), "_Bool": ("c", "1"), "short": ("s", "-300"), "unsigned": ("i", "4000000000u"), "int": ("i", "-5"), "long": ("l", "1L << 40"), "float": ("f", "1.5f"), "double": ("d", "-2.5"), "long double": ("e", "3.25L"), "char *": ("p", "\"hey\""), "int (*)(void)": ("F", "0")}
FORMS = ["O({x});", "O(*&{x});", "{x} = 3; O({x});", "{x} += 2; O({x});", "O({x}++); O({x});", "O(--{x});", "O(-{x}); O(!{x});", "O({x} ? 4 : 5);", "O(f$({x}, {x}));", "typeof({x}) *p = &{x}; *p = 6; O({x}); O(p == &{x});", "typeof({x}) v = {x}; v = {x} = 2; O(v);", "O(sizeof {x}); O({x} == {x});", "if ({x}) O(1); while ({x}) {{ {x} = 0; }} O({x});", "for ({x} = 0; {x} < 3; {x}++) O({x});", "O(({x}, {x})); O({x} && {x}); O({x} || 0);", "O({x} * 2 + 1 - {x} * {x});", "switch ((int){x}) {{ case 1: O(9); break; default: O(8); }}"]
def forms(c):
    for t, (k, v) in TY.items():
        if k in "pF": continue
        for init in (0, 1):
            for st in ("static ", ""):
                for f in FORMS:
                    if f.startswith("switch") and k == "e" or f.startswith("for") and t == "_Bool": continue
                    g = f.format(x="x$")
                    yield Case(f"form {st}{t} {init} {f[:40]}", "static const int th[] = { 1, 0, 2, 1 }; vf_sched(4, th, step$);", f"static long f$({t} a, {t} b) {{ return a * 3 + b; }} {st}_Thread_local {t} x${' = ' + v if init else ''}; static void step$(int k) {{ {g} }}", steps=4)
    for pad in (0, 1, 7, 100, 1000, 2000, 2030, 2040, 2047, 2048, 2049, 2056, 4000, 4090, 4096, 4104, 8192, 20000, 70000):
        for z in ("", " = { 1 }"):
            yield Case(f"place {pad} {z}", "static const int th[] = { 1, 0, 2, 1 }; vf_sched(4, th, step$);",
                       f"static _Thread_local char pad$[{pad + 1}]{z}; static _Thread_local int x$ = 5, y$; static _Thread_local struct {{ char c[{pad + 1}]; long m; int n[4]; }} s$ = {{ {{ 0 }}, 9, {{ 1, 2 }} }}; static void step$(int k) {{ O(x$++); O(y$ += 3); O(pad$[{pad}]++); O(pad$[0]); O(s$.m++); O(s$.n[1] -= 4); s$.c[{pad}]++; O(s$.c[{pad}]); int *p = &s$.n[2]; *p += 7; O(s$.n[2]); O((char *)&s$.m - (char *)&s$); }}", steps=4)
    OT = {"array": ("static _Thread_local int x$[5] = { 1, [3] = 4 };", "for (int i = 0; i < 5; i++) O(x$[i] += i); int *p = x$ + 2; O(p[1]); O(sizeof x$);"), "string": ("static _Thread_local char x$[] = \"hello\";", "O(x$[1]++); O(x$[5]); O(sizeof x$);"), "pointer": ("static int g$ = 4; static _Thread_local int *x$ = &g$;", "O(*x$); ++*x$; static int h; if (k == 1) x$ = &h; O(x$ == &g$);"),
          "struct copy": ("struct S$ { int a; char c[20]; }; static _Thread_local struct S$ x$ = { 3, \"abc\" }, y$;", "struct S$ z = x$; y$ = z; y$.c[1]++; x$ = y$; O(x$.a++ + x$.c[1] + y$.c[1] + z.c[1]); O(y$.c[19]);"), "bit-field": ("static _Thread_local struct { int a : 3; unsigned b : 7; } x$ = { -2, 100 };", "O(x$.a++); O(x$.b += 9); O(x$.a + x$.b);"), "union": ("static _Thread_local union { int i; char c[4]; } x$ = { 0x01020304 };", "O(x$.c[1]++); O(x$.i);"),
          "static local": ("static int f$(void) { static _Thread_local int n = 5; static _Thread_local char z; z++; return n++ * 10 + z; } static int g$(void) { static _Thread_local int n; return ++n; }", "O(f$()); O(g$()); O(f$());"), "two levels": ("static _Thread_local int x$ = 1; static int rec$(int n) { x$ += n; if (!n) return x$; int r = rec$(n - 1); return r + x$; }", "O(rec$(3)); O(x$);"), "function pointer": ("static int one$(void) { return 1; } static int two$(void) { return 2; } static _Thread_local int (*x$)(void) = one$;", "O(x$()); x$ = two$; O(x$());"),
          "block extern": ("_Thread_local int x$ = 6;", "{ extern _Thread_local int x$; O(x$++); } O(x$);"), "shadow": ("static _Thread_local int x$ = 6;", "{ int x$ = 3; O(x$); } O(x$++); { static int x$ = 2; O(x$++); }"), "aligned": ("static _Thread_local char a$ = 1; static _Thread_local _Alignas(64) int x$ = 2; static _Thread_local _Alignas(32) char z$;", "O((long)&x$ % 64); O((long)&z$ % 32); O(x$++ + a$++ + z$++);"), "many": (" ".join(f"static _Thread_local {t} v{i}${' = ' + str(i) if i % 3 else ''};" for i, t in enumerate(["char", "long", "short", "int", "double"] * 8)), "long s = 0; " + " ".join(f"s = s * 3 + v{i}$; v{i}$ += {i};" for i in range(40)) + " O(s);"),
          "in expression": ("static _Thread_local int x$ = 2; static int f$(int a, int b, int c) { return a + b * 10 + c * 100; }", "O(f$(x$, f$(x$, 1, x$), x$ + 1)); O(x$ ? x$ * x$ : x$); int a[3] = { x$, x$ + 1 }; O(a[1]); O(a[x$]);"), "over a call": ("static _Thread_local int x$ = 2; static int f$(void) { return x$ += 5; }", "O(f$()); O(f$() * 2); O(x$); int r = f$(); x$ += r; O(x$);"), "atomic": ("static _Thread_local _Atomic int x$ = 2;", "O(x$ += 3); O(x$++); O(x$);")}
    for k, (d, b) in OT.items():
        for th in itertools.product((0, 1, 2), repeat=3):
            yield Case(f"object {k} {th}", f"static const int th[] = {{ {', '.join(map(str, th))} }}; vf_sched(3, th, step$);", f"{d} static void step$(int k) {{ {b} }}", steps=3)

# ---- family 3: the object and its users in different units, of either compiler, in every kind of program ----
PAIR = {"int": ("extern _Thread_local int x$; int *px$(void); int rx$(void);", "_Thread_local int x$ = 6; int *px$(void) { return &x$; } int rx$(void) { return x$ *= 2; }", "O(x$++); O(rx$()); O(px$() == &x$); *px$() += 3; O(x$);"),
        "tentative": ("extern _Thread_local int x$; int *px$(void); int rx$(void);", "_Thread_local int x$; int *px$(void) { return &x$; } int rx$(void) { return x$ += 2; }", "O(x$++); O(rx$()); O(px$() == &x$); *px$() += 3; O(x$);"),
        "array": ("extern _Thread_local short x$[]; short *px$(void); int rx$(int);", "_Thread_local short x$[5000] = { 1, 2, 3, 4 }; short *px$(void) { return x$ + 2; } int rx$(int i) { return x$[i]++; }", "O(x$[1]); O(rx$(3)); O(px$() == &x$[2]); x$[4999] = 8; O(px$()[4997]); O(x$[3]);"),
        "struct": ("struct S$ { char a[2100]; int b; }; extern _Thread_local struct S$ x$; int *px$(void);", "_Thread_local struct S$ x$ = { \"x\", 5 }; int *px$(void) { return &x$.b; }", "O(x$.b++); O(px$() == &x$.b); O(x$.a[0]); ++*px$(); O(x$.b); x$.a[2099] = 3; O(((char *)px$())[-1]);"),
        "both define static": ("int rx$(void);", "static _Thread_local int x$ = 3; int rx$(void) { return x$++; }", "static _Thread_local int x$ = 70; O(x$++); O(rx$()); O(x$);"),
        "double": ("extern _Thread_local double x$; double rx$(double);", "_Thread_local double x$ = 1.5; double rx$(double y) { return x$ += y; }", "O(rx$(2) * 4); O(x$ * 4); x$ = 0.25; O(rx$(x$) * 4);")}
def pairs(c, mode):
    for k, (decl, peer, b) in PAIR.items():
        for th in itertools.product((0, 1, 2), repeat=3):
            yield Case(f"pair {k} {th} {mode}", f"vf_th3({', '.join(map(str, th))}, step$);", decl + f" static void step$(int k) {{ {b} }}", ref=peer, steps=3)

def body(c):
    d = Diff(c, prelude=PRE, helper=HELPER, libs=["-pthread"])
    fs = list(forms(c))
    d.run((k for k in fs if not k.key.startswith('place')), size=80)
    d.run((k for k in fs if k.key.startswith('place')), size=6)
    d.run(histories(c), size=250)
    H = HELPER + "void vf_th3(int a, int b, int c, void (*f)(int)) { int t[3] = { a, b, c }; vf_sched(3, t, f); }\n"
    for mode, fl, link, shared in (("static", [], ["-static"], False), ("pie", ["-fPIC"], ["-pie"], False), ("shared", ["-fPIC"], ["-pie"], True), ("static pic", ["-fPIC"], ["-static"], False)):
        p = PairDiff(c, prelude=PRELUDE + "void vf_th3(int, int, int, void (*)(int));\n", helper=H, libs=["-pthread"], link=link, shared=shared, toycc_flags=fl, gcc_flags=fl)
        p.run(pairs(c, mode), size=60)
    c.extra["bounds"] = f"all histories of up to {4 if c.thorough else 3} steps over {len(OPS)} operations and 3 concurrently live threads (two of them symmetric) x {len(STOR)} kinds of object; {len(TY) - 2} types x {len(FORMS)} access forms; offsets up to 70000 bytes in the thread block; {len(PAIR)} two-unit programs x compiler mixes x static, PIE and shared-library programs x all 27 schedules"
main("C31", body)
