"""C10: statements execute in exactly the order C prescribes, for every control-flow shape and every run of its conditions."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
import exprs

# run(f, k): every outcome of the first k condition tests / switch values; T logs; fuel bounds every run
HELPER = r"""
#include <setjmp.h>
void O(long);
static jmp_buf jb; static long in, n, fuel;
static void spend(void) { if (--fuel < 0) { O(-99); longjmp(jb, 1); } }
void T(int k) { spend(); O(k); }
int C(void) { spend(); int r = in & 1; in >>= 1; O(1000 + r); return r; }
int V(void) { spend(); int r = in & 3; in >>= 2; O(2000 + r); return r; }
long VL(void) { return V(); }
void run(int (*f)(void), int k) { for (long i = 0; i < 1L << k; i++) { in = i; fuel = 3 * k + 8; if (!setjmp(jb)) O(3000 + f()); } }
void runv(int (*f)(long), const long *v, int n) { for (int i = 0; i < n; i++) { fuel = 60; in = 0x55; if (!setjmp(jb)) O(3000 + f(v[i])); } }
"""
PRE = PRELUDE + "void T(int); int C(void); int V(void); long VL(void); void run(int (*)(void), int); void runv(int (*)(long), const long *, int);\n"

def memo(f):
    d = {}
    def g(*a):
        if a not in d: d[a] = list(f(*a))
        return d[a]
    return g

# statements of exactly n nodes; lp: inside a loop; br: break allowed; cs: case labels allowed
@memo
def st(n, lp, br, cs):
    if n == 1:
        yield "T(#);"
        yield "return #;"
        yield "goto A;"
        yield "goto Z;"
        if br: yield "break;"
        if lp: yield "continue;"
        return
    for s in st(n - 1, lp, br, cs):
        yield f"if (C()) {s}"
    for s in st(n - 1, True, True, cs):
        yield f"while (C()) {s}"
        yield f"do {s} while (C());"
        yield f"for (T(#); C(); T(#)) {s}"
        yield f"for (;; T(#)) {s}"
    for s in st(n - 1, lp, True, True):
        yield f"switch (V()) {{ case 1: {s} }}"
        yield f"switch (V()) {{ T(#); default: {s} case 0: T(#); }}"
        yield f"switch (V()) {{ case 0 ... 1: {s} default: T(#); case 3: T(#); }}"
    for s in st(n - 1, lp, True, False):
        yield f"switch (V()) case 2: {s}"
    if cs:
        for s in st(n - 1, lp, br, False):
            yield f"case 2: {s}"     # a label of the enclosing switch, wherever it is nested
    for i in range(1, n - 1):
        for a in st(i, lp, br, cs):
            for b in st(n - 1 - i, lp, br, cs and "case 2" not in a):
                if n <= 4:
                    yield f"if (C()) {a} else {b}"
                if not a.startswith(("return", "goto", "break", "continue")) or "case" in b:
                    yield f"{{ {a} {b} }}"

def number(s):
    out, k = [], 1
    for p in s.split("#"):
        out.append(p); out.append(str(k)); k += 1
    return "".join(out[:-1])

def cases(c):
    N = 5 if c.thorough else 4
    K = 6
    for n in range(1, N + 1):
        for i, s in enumerate(st(n, False, False, False)):
            t = number(s)
            yield Case(f"tree{n}.{i} {s}", f"run(f$, {K});", f"int f$(void) {{ T(91); A: T(92); {t} T(93); Z: T(94); return 95; }}", steps=1 << K)

def switches(c):
    # every subset of a value pool as labels, in ascending and descending order, default at each position, every control type
    pool = {"int": ["0", "1", "-1", "2147483647", "-2147483647-1"], "unsigned": ["0", "1", "4294967295u", "2147483648u", "0x7fffffff"],
            "char": ["0", "-1", "127", "-128", "65"], "unsigned char": ["0", "255", "128", "127", "1"], "short": ["0", "-1", "32767", "-32768", "255"],
            "unsigned short": ["0", "65535", "32768", "32767", "255"], "long": ["0", "-1", "4294967295", "4294967296", "-9223372036854775807L-1"],
            "unsigned long": ["0", "18446744073709551615u", "9223372036854775808u", "4294967296", "4294967295"], "_Bool": ["0", "1"],
            "enum E": ["0", "1", "2", "3", "7"], "long long": ["0", "-1", "2147483648", "9223372036854775807", "-2147483649"]}
    vals = ["0", "1", "-1", "2", "3", "7", "65", "127", "128", "-128", "-129", "255", "256", "32767", "-32768", "65535", "65536", "2147483647", "2147483648", "-2147483648L", "4294967295", "4294967296",
            "-4294967296L", "9223372036854775807", "-9223372036854775807L-1", "4294967297", "-2147483649L"]
    for ty, p in pool.items():
        for r in range(0, len(p) + 1):
            for sub in itertools.combinations(range(len(p)), r):
                for rev in ((False, True) if r > 1 else (False,)):
                    ls = [p[i] for i in (sub[::-1] if rev else sub)]
                    for dpos in [None] + sorted({0, r // 2, r}):
                        for fall in ((0, 1) if r else (0,)):
                            b = []
                            for j in range(r + 1):
                                if dpos == j:
                                    b.append("default: T(77);" + ("" if fall else " break;"))
                                if j < r:
                                    b.append(f"case {ls[j]}: T({j});" + ("" if fall else " break;"))
                            yield Case(f"switch {ty} {','.join(ls)} d{dpos} f{fall}", f"static const long v[] = {{ {', '.join(vals)} }}; runv(f$, v, {len(vals)});",
                                       f"enum E$ {{ EA$, EB$ = 7 }}; int f$(long v) {{ {ty + ('$' if ty[:4] == 'enum' else '')} x = v; switch (x) {{ {' '.join(b)} }} return 5; }}", steps=len(vals))
    # case ranges: every pair of bounds, signed and unsigned controls
    for ty, p in pool.items():
        if ty == "_Bool" or ty.startswith("enum"): continue
        num = sorted(((eval(x.rstrip("uL").replace("L", "")), x) for x in p))
        for i in range(len(num)):
            for j in range(i, len(num)):
                oth = [x for k, (v, x) in enumerate(num) if not i <= k <= j]
                yield Case(f"range {ty} {num[i][1]}...{num[j][1]}", f"static const long v[] = {{ {', '.join(vals)} }}; runv(f$, v, {len(vals)});",
                           f"int f$(long v) {{ {ty} x = v; switch (x) {{ " + " ".join(f"case {o}: T({k + 10}); break;" for k, o in enumerate(oth)) + f" case {num[i][1]} ... {num[j][1]}: T(1); break; default: T(2); }} return 5; }}", steps=len(vals))

def shapes(c):
    K = 6
    fn = lambda b: f"int f$(void) {{ {b} return 95; }}"
    S = {
     "duff": "int n = V(), i = 0; n += V() * 4; switch (n & 3) { case 0: do { i++; T(1); case 3: T(2); case 2: T(3); case 1: T(4); } while (i++ < (n >> 2)); } return i;",
     "case in if": "switch (V()) { case 0: if (C()) { case 1: T(1); } else { case 2: T(2); } T(3); } T(4);",
     "case in loop": "switch (V()) { case 0: while (C()) { case 1: T(1); if (C()) break; case 2: T(2); continue; case 3: T(3); } T(4); } T(5);",
     "nested switch": "switch (V()) { case 0: switch (V()) { case 0: T(1); break; default: T(2); case 1: T(3); } case 1: T(4); break; default: switch (V()) default: T(5); T(6); }",
     "switch continue": "for (int i = 0; i < 3; i++) { switch (V()) { case 0: continue; case 1: break; default: T(9); } T(i); }",
     "loop in switch break": "switch (V()) { case 0: for (;;) { T(1); if (C()) break; } T(2); break; case 1: do { T(3); if (C()) continue; T(4); } while (C()); default: T(5); }",
     "goto into loop": "int i = 0; if (C()) goto in; for (; i < 3; i++) { T(1); in: T(2); if (C()) continue; T(3); }",
     "goto into block": "int i = 7; if (C()) goto in; { int i; i = 3; T(i); in: T(2); } T(i);",
     "goto out": "for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { if (C()) goto out; T(10 * i + j); } T(88); out: T(89);",
     "goto back": "int n = 0; again: T(n); if (n++ < 3 && C()) goto again; T(50);",
     "goto chain": "goto a; b: T(2); goto c; a: T(1); goto b; d: T(4); return 4; c: T(3); goto d;",
     "computed": "static void *t[] = { &&a, &&b, &&c, &&d }; int n = 0; goto *t[V()]; a: T(1); b: T(2); c: T(3); if (n++ < 2) goto *t[V()]; d: T(4);",
     "computed ptr": "void *p = C() ? &&x : &&y; int n = 0; l: goto *p; x: T(1); p = &&y; if (n++ < 2) goto l; y: T(2);",
     "empty bodies": "while (C()); do; while (C()); for (; C(); ); if (C()); else; switch (V()); switch (V()) {} switch (V()) default:; {} ; T(1);",
     "dangling else": "if (C()) if (C()) T(1); else T(2); T(3); if (C()) { if (C()) T(4); } else T(5); if (C()) while (C()) if (C()) T(6); else T(7);",
     "else if": "if (C()) T(1); else if (C()) T(2); else if (C()) T(3); else T(4);",
     "for scopes": "int i = 9; for (int i = 0; i < 2; i++) { int i = 5; T(i); i++; T(i); } T(i); for (i = 0; C(); i++) T(i); T(i);",
     "for decl cond": "for (int a = 0, b = 4; a < b; a++, b--) { if (C()) continue; T(a * 10 + b); } for (;;) { if (C()) break; else { if (C()) return 7; } }",
     "do continue": "int n = 0; do { if (C()) continue; T(1); } while (n++ < 3 && C()); T(n);",
     "while comma": "int i = 0; while (T(1), i++ < 3) if (C()) continue; else T(2);",
     "label same as var": "int x = 1; if (C()) goto x; x = 2; x: T(x);",
     "labels in a row": "if (C()) goto b; a: b: c: T(1); if (C()) return 2; switch (V()) { case 0: case 1: case 2: l: T(3); default: break; } T(4);",
     "label end": "if (C()) goto e; T(1); e: ;",
     "return void": "void (*p)(int) = T; if (C()) p(1); else (*p)(2); if (C()) return C() ? 1 : 2; T(3);",
     "stmt expr flow": "int x = ({ int y = 3; if (C()) y = 4; else y = 5; y; }); T(x); T(({ switch (V()) { case 0: x = 1; break; default: x = 2; } x; })); for (int i = ({ T(8); 0; }); i < ({ T(7); 2; }); i += ({ T(6); 1; })) T(i);",
     "stmt expr return": "int x = 1; x += ({ if (C()) return 40; 2; }); T(x); x = 3 + ({ if (C()) goto z; 4; }); T(x); z: T(x);",
     "stmt expr break": "for (int i = 0; i < 3; i++) { T(i); int k = ({ if (C()) break; if (C()) continue; 5; }); T(k); }",
     "arg return": "int a[2]; a[0] = 1; a[({ if (C()) return 3; 1; })] = 2; T(a[0] + a[1]); T(({ T(1); if (C()) goto q; 2; })); q: T(3);",
     "nested fn labels": "int i = 0; L1: if (i++ < 2) { L2: if (C()) goto L1; if (i++ < 4) goto L2; } T(i);",
     "switch decl": "switch (V()) { int x; case 0: x = 3; T(x); break; case 1: { int x = 4; T(x); } default: x = 6; T(x); }",
     "switch long bits": "long l = VL(); switch (l << 32) { case 0: T(1); break; case 4294967296: T(2); break; case 8589934592: T(3); break; default: T(4); } switch (l | 0x100000000) { case 0 ... 3: T(5); break; case 0x100000000 ... 0x100000001: T(6); break; default: T(7); }",
     "switch narrow expr": "unsigned char u = V() + 254; switch (u) { case 254: T(1); break; case 255: T(2); break; case 0: T(3); break; case 1: T(4); } switch (u + 1) { case 255: T(5); break; case 256: T(6); break; case 1: T(7); break; case 2: T(8); }",
     "switch side effects": "int n = 0; switch (n++ + V()) { case 0: case 1: T(n); break; default: T(n + 10); } T(n);",
     "case enum const": "enum { P = 1, Q = P + 1, R = Q << 1 }; switch (V()) { case P: T(1); break; case Q: T(2); break; case R - 1: T(3); break; case sizeof(char) - 1: T(4); }",
     "case char": "switch (V() + 'a') { case 'a': T(1); case 'b': T(2); break; case 'c' ... 'd': T(3); }",
     "while assign": "int x; while ((x = V()) != 3) T(x); T(9);",
     "cond types": "double d = C(); float f = C(); char *p = C() ? \"x\" : 0; long l = (long)C() << 40; unsigned char u = C(); if (d) T(1); if (f) T(2); if (p) T(3); if (l) T(4); if (u) T(5); if (!d) T(6); if (!l) T(7); while (d) { T(8); d = 0; } do { l = 0; } while (l); for (; p; p = 0) T(9); T(d ? 1 : 2); T(l ? 1 : 2); T(f && p); T(f || p); if (0.1) T(10); if (-0.0) T(11); if (1e-320) T(12);",
    }
    for k, b in S.items():
        yield Case(f"shape {k}", f"run(f$, {K if not c.thorough else 10});", fn(b), steps=1 << K)
    # nesting depth and breadth sweeps
    for d in (1, 2, 3, 5, 8, 20, 60):
        yield Case(f"nest if {d}", "run(f$, 4);", fn(" ".join(f"if (C() + 1) {{ T({i});" for i in range(d)) + "}" * d).replace("C() + 1", "1"))
        yield Case(f"nest loops {d}", "run(f$, 4);", fn(" ".join(f"for (int i{i} = 0; i{i} < 1; i{i}++) {{" for i in range(d)) + " T(1); if (C()) continue; T(2);" + "}" * d))
        yield Case(f"nest switch {d}", "run(f$, 4);", fn(" ".join(f"switch ({i}) {{ default: T(0); case {i}:" for i in range(d)) + " T(1); if (C()) break; T(2);" + " T(3); break; }" * d))
        yield Case(f"many labels {d}", "run(f$, 4);", fn(f"int n = V(); again: switch (n) {{ " + " ".join(f"case {i}: T({i}); if (C()) goto l{(i * 7 + 3) % (2 * d)};" for i in range(2 * d)) + " } return 3; " + " ".join(f"l{i}: T({100 + i}); if (C()) return {i};" for i in range(2 * d))))
    # bodies longer than a conditional branch can span
    for sz in (50, 300, 700, 1500):
        fill = "x = x * 3 + 1; " * sz
        for k, b in {"if": f"if (C()) {{ {fill} }} T(1);", "ifelse": f"if (C()) {{ {fill} }} else {{ {fill} x++; }}", "while": f"while (C()) {{ {fill} }}", "do": f"do {{ {fill} }} while (C());", "for": f"for (;C();x++) {{ {fill} if (C()) continue; if (C()) break; }}",
                     "switch": f"switch (V()) {{ case 0: {fill} break; case 1: x += 7; break; default: x++; }}", "range": f"switch (V()) {{ case 0: {fill} case 1 ... 2: x += 7; break; }}", "goto": f"if (C()) goto e; {fill} e: T(2);", "cond": f"x += C() ? ({{ {fill} x; }}) : 3;", "and": f"x += C() && ({{ {fill} x; }});", "or": f"x += C() || ({{ {fill} x; }});", "return": f"if (C()) return 3; {fill}"}.items():
            yield Case(f"far {k} {sz}", "run(f$, 5);", f"int f$(void) {{ unsigned x = 1; {b} T(x & 0xffff); return 9; }}")

# every kind of statement wherever C has a statement
LEAVES = {"empty": ";", "expr": "T(#);", "asm": 'asm("la t0, acount\\n\\tlw t1, (t0)\\n\\taddi t1, t1, 1\\n\\tsw t1, (t0)");', "asmv": 'asm volatile ("la t0, acount\\n\\tlw t1, (t0)\\n\\taddi t1, t1, 3\\n\\tsw t1, (t0)");', "asmi": 'asm volatile inline("nop");', "block": "{ T(#); }", "none": "{}", "decl": "{ int u = #; T(u); }", "typedef": "{ typedef int W; W w = #; T(w); }", "label": "L@: T(#);", "labels": "L@: M@: ;", "stexpr": "({ T(#); });", "void": "(void)T(#);", "assign": "y = #;", "inc": "y++;",
          "do": "do T(#); while (0);", "while": "while (C()) T(#);", "for": "for (int j = 0; j < 2; j++) T(#);", "fore": "for (;;) break;", "switch": "switch (V()) { case 1: T(#); }", "switch1": "switch (V()) case 2: T(#);", "if": "if (C()) T(#);", "ifelse": "if (C()) T(#); else y++;", "goto": "goto Z;", "return": "return #;", "comma": "T(#), y++;", "cond": "C() ? T(#) : (void)y;"}
PLACES = ["@1", "if (C()) @1", "if (C()) @1 else @2", "if (C()) T(60); else @1", "if (C()) { @1 } else @2", "while (C()) @1", "do @1 while (C());", "for (T(61); C(); T(62)) @1", "switch (V()) { case 0: @1 case 1: @2 default: T(63); }", "switch (V()) { default: @1 }", "switch (V()) case 1: @1", "P: @1", "{ @1 @2 }", "for (int i = 0; i < 2; i++) if (C()) @1 else @2", "if (C()) if (C()) @1 else @2", "if (C()) { if (C()) @1 } else @2", "while (C()) do @1 while (C());", "y = ({ @1 y + 1; });", "({ @1 @2 });", "if (C()) while (C()) @1 else @2", "if (C()) for (;C();) @1 else @2", "if (C()) Q: @1 else R: @2", "do { @1 } while (C()); @2"]

def statements(c):
    for p in PLACES:
        for a in LEAVES:
            for b in (LEAVES if "@2" in p else [None]):
                t = p.replace("@1", LEAVES[a].replace("@", "a"))
                if b: t = t.replace("@2", LEAVES[b].replace("@", "b"))
                yield Case(f"statement {p} / {a} / {b}", "run(f$, 5);", f"int f$(void) {{ int y = 1; acount = 0; T(91); {number(t)} T(y); T(acount); Z: T(94); return y; }}", steps=32)

def body(c):
    d = Diff(c, prelude=PRE, helper=HELPER)
    d.run(shapes(c), size=60)
    d.run(switches(c), size=200)
    d.run(cases(c), size=250)
    d = Diff(c, prelude=PRE + "extern int acount;\n", helper=HELPER + "int acount;\n")
    d.run(statements(c), size=250)
    # every kind of expression as the controlling expression of every statement
    d = Diff(c, prelude=PRELUDE + exprs.PRE + exprs.PRE_EXT, helper="int one = 1, zero;")
    d.run([Case(k, b, ds, steps=n) for t in exprs.ALL for vi in (0, 1) for k, ds, b, n in exprs.conditions(t, vi)], size=60)
    c.extra["bounds"] = f"statement trees of up to {5 if c.thorough else 4} nodes over all statement forms, x all 2^6 outcomes of the conditions, fuel-bounded; switch label sets up to 5 of 5 boundary labels x 11 control types x 27 values; {len(LEAVES)} kinds of statement (and pairs of them) in each of {len(PLACES)} places"
main("C10", body)
