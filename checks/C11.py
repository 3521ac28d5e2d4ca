"""C11: every side effect happens exactly as often as C says, in the order C says where there is one."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

# L(k): sequenced log; e(k, v): counts effect k and yields v, unordered
HELPER = r"""
void O(long);
static int cnt[32]; static long in; int mem[8]; int *mp; long lm[4]; double dm[4]; char cm[8]; struct S { int a, b[3]; } sm[3]; 
int B(int k) { int r = (in >> k) & 1; O(100 + 10 * k + r); return r; }         /* ordered */
int E(int k, int v) { cnt[k]++; return v; }
long EL(int k, long v) { cnt[k]++; return v; }
double ED(int k, double v) { cnt[k]++; return v; }
int *P(int k, int i) { cnt[k]++; return &mem[i]; }
long *PL(int k, int i) { cnt[k]++; return &lm[i]; }
double *PD(int k, int i) { cnt[k]++; return &dm[i]; }
char *PC(int k, int i) { cnt[k]++; return &cm[i]; }
struct S *PS(int k, int i) { cnt[k]++; return &sm[i]; }
struct S SV(int k) { cnt[k]++; return sm[k % 3]; }
void reset(void) { for (int i = 0; i < 32; i++) cnt[i] = 0; for (int i = 0; i < 8; i++) { mem[i] = 10 + i; cm[i] = 20 + i; } for (int i = 0; i < 4; i++) { lm[i] = 30 + i; dm[i] = 40.5 + i; } for (int i = 0; i < 3; i++) { sm[i].a = 50 + i; for (int j = 0; j < 3; j++) sm[i].b[j] = 60 + 3 * i + j; } mp = mem; }
void show(void) { for (int i = 0; i < 32; i++) O(cnt[i]); for (int i = 0; i < 8; i++) { O(mem[i]); O(cm[i]); } for (int i = 0; i < 4; i++) { O(lm[i]); O((long)(dm[i] * 8)); } for (int i = 0; i < 3; i++) { O(sm[i].a); for (int j = 0; j < 3; j++) O(sm[i].b[j]); } O(mp - mem); }
void runb(long (*f)(void), int k) { for (in = 0; in < 1L << k; in++) O(f()); }
"""
PRE = PRELUDE + """struct S { int a, b[3]; }; int B(int); int E(int,int); long EL(int,long); double ED(int,double); int *P(int,int); long *PL(int,int); double *PD(int,int); char *PC(int,int);
struct S *PS(int,int); struct S SV(int); void reset(void); void show(void); void runb(long (*)(void), int); extern int mem[8], *mp; extern long lm[4]; extern double dm[4]; extern char cm[8]; extern struct S sm[3];
"""

def memo(f):
    d = {}
    def g(*a):
        if a not in d: d[a] = list(f(*a))
        return d[a]
    return g

@memo
def tr(n):
    """expressions with n operators, all of them sequenced"""
    if n == 0:
        yield "@"
        return
    for x in tr(n - 1):
        yield f"!{x}" if x == "@" else f"!({x})"
        yield f"({x} ? 5 : 0)"
        yield f"({{ {x}; }})"
    for i in range(n):
        for a in tr(i):
            for b in tr(n - 1 - i):
                for op in ("&&", "||", ","):
                    yield f"({a} {op} {b})"
    for i in range(n):
        for j in range(n - i):
            for a in tr(i):
                for b in tr(j):
                    for d in tr(n - 1 - i - j):
                        yield f"({a} ? {b} : {d})"
    for i in range(n):
        for a in tr(i):
            for b in tr(n - 1 - i):
                yield f"({a} ?: {b})"

def number(s):
    k = 0
    out = []
    for p in s.split("@"):
        out.append(p); out.append(f"B({k})"); k += 1
    return "".join(out[:-1]), k - 1

USES = ["return {};", "if ({}) return 1; return 0;", "int n = 0; while ({}) if (n++) break; return n;", "int x = 3; x += {}; return x;", "return (long)(_Bool){};", "do {{ if (!({})) return 8; return 9; }} while (1);", "for (int i = 0; ({}) && i < 1; i++) O(i); return 4;"]

def ordered(c):
    N = 3 if c.thorough else 2
    for n in range(0, N + 1):
        for i, s in enumerate(tr(n)):
            e, k = number(s)
            for u, us in enumerate(USES):
                if n == 3 and u not in (0, 1): continue
                yield Case(f"seq{u} {s}", f"runb(f$, {k});", "long f$(void) { %s }" % us.format(e), steps=1 << k)
    if not c.thorough:
        for i, s in enumerate(tr(3)):
            e, k = number(s)
            yield Case(f"seq {s}", f"runb(f$, {k}); runb(g$, {k});", "long f$(void) { return %s; } long g$(void) { if (%s) return 1; else return 2; }" % (e, e), steps=2 << k)

LV = {"*P(1,2)": "int", "P(1,2)[0]": "int", "P(1,0)[E(2,3)]": "int", "mem[E(1,3)]": "int", "E(1,3)[mem]": "int", "*(P(1,1)+E(2,2))": "int", "PS(1,1)->a": "int", "PS(1,1)->b[E(2,2)]": "int", "(*PS(1,1)).b[1]": "int", "sm[E(1,2)].b[E(2,0)]": "int",
      "*mp++": "int", "*++mp": "int", "*PL(1,2)": "long", "lm[E(1,1)]": "long", "*PD(1,2)": "double", "dm[E(1,1)]": "double", "*PC(1,2)": "char", "cm[E(1,7)]": "char", "*(E(1,1) ? P(2,1) : P(3,2))": "int", "*(E(1,0), P(2,4))": "int", "*({ P(1,5); })": "int", "*(int *)PC(1,4)": "int", "(*&mem[E(1,2)])": "int", "*&*P(1,6)": "int"}
def effects(c):
    ops = ["=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "|=", "^="]
    for lv, ty in LV.items():
        fl = ty == "double"
        ob = "OD" if fl else "O"
        for op in ops:
            if fl and op in ("%=", "<<=", ">>=", "&=", "|=", "^="): continue
            for rv in ["E(8,3)", "EL(8,2)", "3", "(E(8,1), E(9,2))", "E(8,1) + E(9,2)", "({ E(8,2); })", "(E(8,0) ? E(9,1) : E(10,2))"] + (["ED(8,1.5)"] if op in ("=", "+=", "-=", "*=", "/=") else []):
                yield Case(f"{lv} {op} {rv}", f"reset(); {ob}({lv} {op} {rv}); show(); reset(); {lv} {op} {rv}; show(); reset(); if ({lv} {op} {rv}) O(1); show(); reset(); {'double' if fl else 'long'} q = 5; q += ({lv} {op} {rv}) + 1; {ob}(q); show();", steps=4)
        for e in ("++{}", "--{}", "{}++", "{}--", "({})++", "-{}++", "!{}--", "({}++, 3)", "sizeof({}++)", "(E(12,1), {}++)", "{}++ + 1", "({}--) * 2", "(long){}++", "&{} != 0", "({}) + 0", "(1 ? {} : 0)"):
            x = e.format("(" + lv + ")")
            yield Case(f"{x}", f"reset(); {ob if 'sizeof' not in e and '&' not in e and '!' not in e and '3)' not in e and '(long)' not in e else 'O'}({x}); show(); reset(); {x}; show(); reset(); for (int i = 0; i < 3; {x}, i++); show(); reset(); int t[2] = {{ ({x}) != 0, 1 }}; O(t[1]); show();", steps=4)
        # never evaluated
        for e in ("sizeof {}", "sizeof({} = 3)", "_Alignof(typeof({}))", "sizeof(typeof({}))", "_Generic({}, default: 1)", "0 && {}", "1 || {}", "1 ? 2 : {}", "0 ? {} : 2", "sizeof(({}, 1))"):
            x = e.format("(" + lv + ")")
            yield Case(f"{x}", f"reset(); O((long)({x})); show(); typeof({lv}) z = 4; {ob}(z); show();", steps=2)
    # both operands, index and pointer, arguments, initialisers, returns: everything exactly once
    two = ["E(1,7) {} E(2,2)", "EL(1,7) {} E(2,2)", "(E(1,3) {} E(2,2)) {} E(3,1)", "E(1,3) {} (E(2,2) {} E(3,1))", "-E(1,3) {} ~E(2,5)", "(char)EL(1,300) {} E(2,1)", "E(1,9) {} 2", "2 {} E(1,1)"]
    for op in ("+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "<", "<=", ">", ">=", "==", "!="):
        for t in two:
            x = t.replace("{}", op)
            if "/" in op or "%" in op:
                x = x.replace("EL(1,300)", "EL(1,303)")
                if "(E(2,2) " in x: continue
            yield Case(f"{x}", f"reset(); O({x}); show(); reset(); {x}; show(); reset(); O(({x}) ? 1 : 2); show();", steps=3)
            y = x.replace("E(2,2)", "ED(2,2.5)")
            if op in "+ - * / < <= > >= == !=".split() and y != x:
                yield Case(f"{y}", f"reset(); OD({y}); show(); reset(); {y}; show();", steps=2)
    g = "static int f$(int a, int b, int c) { return a * 100 + b * 10 + c; } static int v$(int n, ...) { return n; } static struct S s$(int a) { struct S r = { a, { 1, 2, 3 } }; return r; } static int (*fp$(int k))(int, int, int) { E(k, 0); return f$; } static int ten$(int a, int b, int c, int d, int e, int f, int g, int h, int i, int j) { return a+b*2+c*3+d*4+e*5+f*6+g*7+h*8+i*9+j*10; } static struct S pass$(struct S x, int k) { x.a += k; return x; }"
    for i, x in enumerate(["f$(E(1,1), E(2,2), E(3,3))", "f$(f$(E(1,1), E(2,2), E(3,3)), E(4,4), f$(E(5,5), E(6,6), E(7,7)))", "v$(E(1,1), E(2,2), ED(3,1.0), EL(4,4))", "fp$(4)(E(1,1), E(2,2), E(3,3))", "(*fp$(4))(E(1,1), 2, E(3,3))", "s$(E(1,4)).a", "s$(E(1,4)).b[E(2,1)]", "SV(1).b[E(2,2)]", "(SV(1), SV(2)).a", "(E(1,0) ? SV(1) : SV(2)).a", "(E(1,1) ? f$ : 0)(E(2,1), E(3,2), 3)",
                           "ten$(E(1,1),E(2,2),E(3,3),E(4,4),E(5,5),E(6,6),E(7,7),E(8,8),E(9,9),E(10,10))", "ten$(1,2,3,4,5,6,7,8,E(1,9),ten$(E(2,1),2,3,4,5,6,7,8,E(3,9),E(4,10)))", "mem[mem[E(1,0)] - E(2,9)]", "sm[E(1,1)].b[sm[E(2,0)].a - E(3,49)]", "({ int x = E(1,3); x += E(2,4); x; })", "((int[]){ E(1,1), E(2,2), E(3,3) })[E(4,1)]", "((struct S){ .a = E(1,1), .b = { [2] = E(2,2) } }).b[2]", "(struct S){ E(1,1), { E(2,2) } }.a", "pass$(SV(1), E(2,1)).a", "pass$(pass$(SV(1), E(2,1)), E(3,2)).a", "pass$(*PS(1,1), E(2,1)).b[E(3,2)]", "(sm[E(1,1)] = SV(2)).a", "(sm[E(1,1)] = sm[E(2,2)] = SV(3)).b[1]", "(*PS(1,0) = *PS(2,2)).a", "(*P(1,1) = *P(2,2) = E(3,9))", "(*P(1,1) += *P(2,2) -= E(3,9))",
                           "E(1,0) + E(2,0) ? E(3,1) : E(4,2)", "(E(1,5), E(2,6)) + (E(3,7), E(4,8))", "E(1,1) ? E(2,1) ? E(3,3) : E(4,4) : E(5,5)", "!E(1,0) && !E(2,0)", "E(1,3) ?: E(2,4)", "E(1,0) ?: E(2,4)", "*P(1,1) ?: E(2,4)", "(*P(1,1))++ ?: E(2,4)", "(_Bool)E(1,3) + (char)E(2,300) + (short)EL(3,70000)", "(int)ED(1,2.5) + (float)E(2,1) > E(3,2)", "&P(1,1)[E(2,2)] - P(3,0)", "P(1,3) - P(2,1)", "P(1,3) > P(2,1)", "P(1,3) == &mem[E(2,3)]", "P(1,E(2,3))[-E(3,1)]", "(P(1,1) + E(2,2))[E(3,1)]", "*(E(1,1) + P(2,2))", "PS(1,0)[E(2,1)].b[E(3,1)]", "(*(PS(1,0) + E(2,1))).a", "sizeof(struct S) + E(1,1)"]):
        yield Case(f"once {i} {x}", f"reset(); O((long)({x})); show(); reset(); {x}; show(); reset(); long q = {x}; O(q); show(); reset(); if (({x}) != 0) O(3); show(); reset(); static int n; n += ({x}) == 1; O(n); show(); reset(); O(f$(({x}) != 0, E(20,2), ({x}) == 1)); show();", decls=g, steps=6)
    for i, x in enumerate(["int a[3] = { E(1,1), E(2,2), E(3,3) }; O(a[0] + a[2]);", "int a[E(1,3)]; a[E(2,2)] = E(3,4); O(a[2]); O(sizeof a);", "int a[E(1,3)][E(2,2)]; O(sizeof a); O(sizeof a[0]); a[E(4,1)][E(5,1)] = 7; O(a[1][1]);", "struct S s = SV(1); O(s.a);", "struct S s = { E(1,1), { E(2,2), [2] = E(3,3) } }; O(s.a + s.b[2]);", "int x = E(1,1), y = E(2,2) + x, *p = P(3,y); O(*p);", "for (int i = E(1,0); i < E(2,3); i += E(3,1)) E(4,0);", "switch (E(1,2)) { case 1: E(2,0); break; case 2: E(3,0); }", "int i = 0; while (E(1,i) < 3) i++; O(i);", "int i = 0; do i += E(1,1); while (E(2,i) < 3); O(i);", "static int x = 5; x += E(1,1); O(x);", "typedef int T[E(1,3)]; T a; T b; O(sizeof a + sizeof b);", "int n = 3; int (*p)[E(1,n)] = 0; n = 7; O(sizeof *p);", "int n = 3; O(sizeof(int[E(1,n)])); O(sizeof(int[n++])); O(n);", "char c = E(1,300); O(c); _Bool b = E(2,2); O(b);", "int *p = P(1,1); *p++ = E(2,5); *p-- = E(3,6); O(*p); O(p - mem);", "int i = 1; i = i++ + 0 * E(1,1) > 100 ? 1 : 2; O(i);", "int v[4] = {0}; int i = 0; v[i++] = 1; v[i++] = 2; v[++i] = 3; O(i); OB(v, sizeof v);", "int v[4] = {1,2,3,4}, *p = v; int s = 0; while (p < v + 4) s = s * 10 + *p++; O(s); s = *--p; O(s); O((*p)--); O(*p); O(p - v);", "struct S *s = sm; (s++)->a = 4; (++s)->b[1] = 5; s--; O((s--)->a); O(s - sm);", "int a = 1, b = 2; int t = (a = b, b = a + 1, a * b); O(t); O(a); O(b);", "unsigned char u = 255; O(u++); O(u); O(u--); O(u); O(--u); O(++u);", "_Bool b = 0; O(b++); O(b); O(b++); O(b); O(++b);", "char *s = \"abc\"; int n = 0; while (*s++) n++; O(n);", "double d = 1.5; O((long)(d++ * 2)); O((long)(d * 2)); O((long)(--d * 2)); float f = d--; O((long)(f * 2)); O((long)(d * 2));"]):
        yield Case(f"stmt {i} {x[:40]}", f"reset(); {x} show();")

def initialisers(c):
    # a value that several elements take (a range) is computed once; one that no element takes may be dropped, so none is overridden here
    vals = ["E(1,5)", "EL(1,300)", "ED(1,2.5)", "*P(1,1)", "(*P(1,1))++", "E(1,2) + E(2,3)", "E(1,0) ? E(2,1) : E(3,2)", "({ int z = E(1,1); z + E(2,1); })", "((int[]){ E(1,4), E(2,5) })[1]", "SV(1).a", "sm[E(1,1)].b[E(2,2)]", "E(1,0) && E(2,1)"]
    des = ["[0 ... 2]", "[1 ... 2]", "[1]", "[2 ... 2]", "[0 ... 1] = E(9,8), [2]", "[2] = E(9,8), [0 ... 1]"]
    for v in vals:
        for x in des:
            for t, pre, post in (("int", "", ""), ("long", "", ""), ("char", "", ""), ("double", "", ""), ("_Bool", "", ""), ("struct { int a, b; }", "{ ", ", E(7,6) }"), ("struct { int a, b; }", "{ .b = ", " }"), ("struct { int a : 4; unsigned b : 9; }", "{ ", ", E(7,6) }"), ("union { char c; long l; }", "{ .l = ", " }")):
                if pre and "E(9,8)" in x: continue
                ini = f"{{ {x} = {pre}{v}{post} }}"
                if pre:
                    show = ("for (int i = 0; i < 4; i++) { O((long)a[i].l); }" if "union" in t else "for (int i = 0; i < 4; i++) { O(a[i].a); O(a[i].b); }")
                else:
                    show = "for (int i = 0; i < 4; i++) O((long)(a[i] * 2));"
                yield Case(f"range {t} {ini}", f"typedef {t} T; reset(); T a[4] = {ini}; show(); {show} reset(); T *p = (T[4]){ini}; show(); for (int i = 0; i < 4; i++) a[i] = p[i]; {show}", steps=2)
    for x, n in (("int a[2][3] = { [0 ... 1][1 ... 2] = E(1,4) };", 6), ("int a[2][3] = { [0 ... 1][1] = E(1,4), E(2,5) };", 6), ("int a[2][3] = { [1][0 ... 1] = E(1,4), E(2,5) };", 6), ("int a[] = { [0 ... 3] = E(1,4), E(2,5) };", 5), ("int a[] = { E(2,5), [1 ... 4] = E(1,4) };", 5), ("int a[3] = { [0 ... 2] = ({ int b[2] = { [0 ... 1] = E(1,3) }; static int w[2] = { [0 ... 1] = 3 }; b[0] + b[1] + w[1]; }) };", 3)):
        yield Case(f"nested range {x}", f"reset(); {x} show(); for (int i = 0; i < {n}; i++) O(((int *)a)[i]);")
    for x in ("struct S a[3] = { [0 ... 1] = SV(1) };", "struct S a[3] = { [0 ... 1] = *PS(1,1), [2] = SV(2) };", "struct S a[3] = { [0 ... 1].a = E(1,3), [1].b[1] = E(2,4) };", "struct S a[3] = { [0 ... 2] = { E(1,1), { [0 ... 1] = E(2,2), E(3,3) } } };", "struct S a[3] = { [0 ... 2].b[1 ... 2] = E(1,1) };"):
        yield Case(f"struct range {x}", f"reset(); {x} show(); for (int i = 0; i < 3; i++) {{ O(a[i].a); O(a[i].b[0]); O(a[i].b[1]); O(a[i].b[2]); }}")
    for x in ("int *a[3] = { [0 ... 2] = P(1,1) };", "int *a[3] = { [0 ... 2] = (int[]){ E(1,1), E(2,2) } };", "int *a[3] = { [0 ... 2] = &mem[E(1,1)] };", "char *a[3] = { [0 ... 2] = \"ab\" + E(1,1) };"):
        yield Case(f"pointer range {x}", f"reset(); {x} show(); O(a[0] == a[1]); O(a[1] == a[2]); O(*a[2]);")

def body(c):
    d = Diff(c, prelude=PRE, helper=HELPER)
    d.run(effects(c), size=120)
    d.run(ordered(c), size=300)
    d.run(initialisers(c), size=120)
    c.extra["bounds"] = "all expressions of up to 3 sequenced operators (! && || , ?: ?: ({})) x all truth assignments x 7 use contexts; 24 lvalue forms with effects x all assignment and increment operators x operand forms; all binary operators over effectful operands; 12 effectful values x 6 designations x 9 element types in initialisers of objects and compound literals"
main("C11", body)
