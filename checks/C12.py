"""C12: every use of a name refers to the declaration C's scope rules select."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

# Operation sequences over two ordinary names, a tag and blocks.  The generator keeps a model of the scopes so that
# every generated history is a valid program; what each name denotes is observed by value and by sizeof.
DECLS = {"v": ("int x = {k};", "obj"), "s": ("static short x = {k};", "obj"), "t": ("typedef char x[{k}];", "type"), "e": ("enum {{ x = {k} }};", "const"), "X": ("extern char x;", "ext"),
         "T": ("struct x {{ char c[{k}]; }};", "tag"), "U": ("union x {{ char c[{k}]; short s; }};", "utag"), "E": ("enum x {{ y{k} = {k} }};", "etag"), "p": ("int *x = &pool[{k}];", "ptr"), "a": ("char x[{k}]; x[0] = {k};", "arr")}
ORD = {"obj", "type", "const", "func", "ptr", "arr", "ext"}
TAG = {"tag", "utag", "etag"}

def look(stack, ks):
    for fr in reversed(stack):
        for k, kind, v in reversed(fr):
            if kind in ks: return kind
    return None

def observe(stack):
    o = look(stack, ORD)
    b = {"obj": "O(x); O(sizeof x);", "type": "O(sizeof(x)); { x q; O(sizeof q); }", "const": "O(x); O(sizeof x);", "func": "O(x(3));", "ptr": "O(*x); O(sizeof *x);", "arr": "O(x[0]); O(sizeof x);", "ext": "O(x); O(sizeof x);", None: ""}[o]
    t = look(stack, TAG)
    b += {"tag": "O(sizeof(struct x)); { struct x q; q.c[0] = 1; O(sizeof q.c); }", "utag": "O(sizeof(union x)); { union x q; q.c[0] = 1; O(sizeof q.c); }", "etag": "O(sizeof(enum x));", None: ""}[t]
    return b

def gen(maxops, alphabet):
    """every history of block enter/leave and declarations of length <= maxops that is a valid program"""
    out = []
    def rec(txt, key, stack, n):
        if n == 0 or key:
            out.append((key, txt + observe(stack) + "".join(" } " + observe(stack[:len(stack) - 1 - i]) for i in range(len(stack) - 1))))
        if n == maxops: return
        rec(txt + " { " , key + "{", stack + [[]], n + 1)
        if len(stack) > 1:
            if stack[-1]:          # closing an empty block adds nothing
                rec(txt + " } " + observe(stack[:-1]), key + "}", stack[:-1], n + 1)
        for a in alphabet:
            d, kind = DECLS[a]
            cls = ORD if kind in ORD else TAG
            if any(k in cls for _, k, _ in stack[-1]): continue
            v = n + 2
            st = stack[:-1] + [stack[-1] + [(a, kind, v)]]
            rec(txt + d.format(k=v) + observe(st), key + a, st, n + 1)
    rec("", "", [[]], 0)
    return out

def cases(c):
    n = 6 if c.thorough else 5
    core = "vtepT"
    seen = set()
    for key, txt in gen(n, core):
        if key in seen or key.endswith("{"): continue
        seen.add(key)
        yield Case(f"hist {key}", txt, steps=len(key))
    for key, txt in gen(3 if not c.thorough else 4, "vsteXTUEpa"):
        if key in seen or key.endswith("{"): continue
        seen.add(key)
        yield Case(f"hist {key}", txt, steps=len(key))

S = {
 "param shadow": ("int f$(int x) { O(x); { int x = 3; O(x); { char x = 4; O(x); O(sizeof x); } O(x); } O(x); x = 9; O(x); return x; } ", "O(f$(7)); O(x_g$);", "int x_g$ = 5;"),
 "for scope": ("", "int i = 5; for (int i = 0; i < 2; i++) { O(i); int i = 10; O(i); for (char i = 0; i < 1; i++) { O(sizeof i); } O(i); } O(i); for (i = 1; i < 2; i++) O(i); O(i);", ""),
 "init refers outer then self": ("int x$ = 4;", "int y = x$; int x$ = y + 1; O(x$); { int x$ = sizeof(x$); O(x$); { long x$ = sizeof(x$); O(x$); } }", ""),
 "typedef shadowed by var": ("typedef int T$;", "O(sizeof(T$)); { char T$ = 3; O(T$ * 2); O(sizeof T$); O(sizeof(T$)); { short z = T$; O(z); } } T$ q = 4; O(q); { T$ T$ = 8; O(T$); }", ""),
 "var shadowed by typedef": ("", "int T = 5; O(T * 2); { typedef char T; T a; O(sizeof a); O(sizeof(T)); T *p = &a; *p = 7; O(a); } O(T);", ""),
 "typedef as param name": ("typedef long T$; int f$(int T$, char c) { return T$ + c; } T$ g$(T$ T$) { return T$; } int h$(T$ (a)) { return sizeof a; }", "O(f$(3, 4)); O(g$(9)); O(h$(1));", ""),
 "typedef as member": ("typedef int T$; struct S$ { int T$; T$ a; }; typedef struct T$ { long T$; } U$;", "struct S$ s; s.T$ = 4; s.a = 5; O(s.T$ + s.a); U$ u; u.T$ = 6; O(u.T$); O(sizeof(struct T$)); O(sizeof(T$));", ""),
 "typedef as label": ("typedef int T$;", "int n = 0; T$: n++; if (n < 3) goto T$; O(n); T$ z = 4; O(z);", ""),
 "tag and typedef same name": ("struct N$ { char c[3]; }; typedef struct N$ N$;", "N$ a; struct N$ b; O(sizeof a + sizeof b); { struct N$ { char c[5]; }; O(sizeof(struct N$)); O(sizeof(N$)); { typedef short N$; O(sizeof(N$)); O(sizeof(struct N$)); } }", ""),
 "struct redeclared inner": ("struct S$ { int a; };", "struct S$ x; { struct S$; struct S$ { char a; char b; }; struct S$ y; O(sizeof y); O(sizeof x); } O(sizeof(struct S$)); { struct S$ *p = &x; p->a = 4; O(p->a); }", ""),
 "forward struct": ("struct L$; struct L$ *n$; struct L$ { struct L$ *next; int v; };", "struct L$ a = { 0, 1 }, b = { &a, 2 }; O(b.next->v); O(sizeof(struct L$)); n$ = &b; O(n$->next->v);", ""),
 "inner forward struct": ("struct S$ { int a; };", "{ struct S$; struct S$ *p; struct S$ { char c[7]; }; O(sizeof *p); { union S$; struct Q$ { union S$ *u; } q; union S$ { char c[9]; }; O(sizeof *q.u); } O(sizeof *p); } O(sizeof(struct S$)); { struct S$ *p; O(sizeof *p); struct S$ { char c[3]; } z; O(sizeof *p); O(sizeof z); }", ""),
 "static init refers self": ("int x$ = 4; static short y$[5];", "O(x$); { static long x$ = sizeof(x$); O(x$); { static char x$ = sizeof(x$); O(x$); static void *p = &p; O(p == &p); } } { static char y$[] = { sizeof(y$[0]), 3 }; O(y$[0]); O(sizeof y$); } { typeof(y$) y$; O(sizeof y$); } { static struct { void *a, *b; } x$ = { &x$, &x$.b }; O(x$.a == &x$); O(x$.b == &x$.b); } { extern int x$; O(x$); static int *q = &x$; O(*q); { int x$ = 3; O(*q + x$); } }", ""),
 "declarators see earlier ones": ("int n$ = 3;", "{ int n$ = 5, m = n$, *p = &n$; O(m); O(*p); } { char n$[2], k = sizeof n$; O(k); { long n$[4], k = sizeof n$; O(k); static char z[sizeof n$]; O(sizeof z); } } for (char n$ = 1, j = sizeof n$; n$ < 2; n$++) O(j); { enum { n$ = 7, k = n$ + 1 }; O(k); } { typedef char n$[6]; n$ q; typedef n$ w[2]; O(sizeof(w) + sizeof q); } O(n$); { struct n$ { int a; } n$ = { sizeof(n$) }; O(n$.a); O(sizeof(struct n$)); }", ""),
 "param sees earlier": ("enum { K$ = 3 }; int f$(char K$, int b[sizeof(K$)]) { return K$ + sizeof(b); } int g$(struct { int a; } *p, int q) { return q; }", "O(f$(4, 0)); O(K$); O(g$(0, 5));", ""),
 "scopes of statements": ("", "int t = 1; if (sizeof(enum { t = 5 }) && t == 5) O(t); else O(t + 10); O(t); while (sizeof(enum { t = 6 }) && t == 6) { O(t); break; } O(t); for (int t = 3; t < 4; t++) O(t); O(t); switch (sizeof(enum { t = 8 })) { default: O(t); } O(t); do O(sizeof(enum { t = 9 })); while (t == 9); O(t);", ""),
 "function decl hides": ("static int f$(int x) { return x + 1; }", "int q; { int f$ = 5; O(f$); { int f$(int); O(f$(5)); } O(f$); } O(f$(2)); { char f$[3]; O(sizeof f$); { extern int f$(int); O(f$(7)); } }", ""),
 "mutual structs": ("struct A$ { struct B$ *b; int v; }; struct B$ { struct A$ *a; int w; };", "struct A$ a; struct B$ b; a.b = &b; b.a = &a; a.v = 3; b.w = 4; O(a.b->w); O(b.a->v); O(a.b->a->b->w);", ""),
 "enum in struct": ("struct S$ { enum { P$, Q$ = 7, R$ } e; };", "struct S$ s; s.e = R$; O(s.e); O(P$); { enum { P$ = 40, Q$ }; O(P$ + Q$); } O(Q$);", ""),
 "enum in sizeof": ("", "O(sizeof(enum { A$ = 5, B$ })); O(A$ + B$);", ""),
 "enum scope in block": ("enum { A$ = 1 };", "O(A$); { enum { A$ = A$ + 1, B$ = A$ + 10 }; O(A$); O(B$); { int A$ = B$; O(A$); } } O(A$);", ""),
 "static locals": ("int f$(void) { static int n = 3; { static int n = 10; n++; O(n); } return n++; } int g$(void) { static int n; return n++; }", "O(f$()); O(f$()); O(g$()); O(g$()); O(f$());", ""),
 "static local recursion": ("int f$(int k) { static int n; int m = k; n++; if (k) f$(k - 1); O(m); return n; }", "O(f$(3)); O(f$(2));", ""),
 "recursion locals": ("int f$(int k) { int a[3] = { k, k + 1, k + 2 }; if (k) O(f$(k - 1)); return a[0] * 100 + a[1] * 10 + a[2]; }", "O(f$(4));", ""),
 "extern inner": ("", "extern int xx$; { int xx$ = 3; O(xx$); { extern int xx$; O(xx$); xx$ = 8; } O(xx$); } O(xx$);", "int xx$ = 6;"),
 "extern then def": ("extern int e$; int g$(void) { return e$; } int e$ = 12; extern int e$;", "O(g$()); O(e$);", ""),
 "tentative": ("int t$; int t$; static int u$; static int u$ = 5; int t$ = 4; extern int t$;", "O(t$); O(u$);", ""),
 "function decl in block": ("", "int f$(int); O(f$(4)); { int f$ = 5; O(f$); { int f$(int); O(f$(5)); } }", "int f$(int x) { return x * 2; }"),
 "function name as var": ("int f$(void) { return 3; }", "O(f$()); { int f$ = 9; O(f$); } int (*p)(void) = f$; O(p()); { int (*f$)(void) = p; O(f$()); }", ""),
 "param scope in prototypes": ("int f$(int n, int m); int f$(int m, int n) { return m * 10 + n; } int g$(int (*f)(int f, int g), int g) { return f(g, g + 1); }", "O(f$(1, 2)); O(g$(f$, 3));", ""),
 "proto tag": ("struct P$ { int v; }; int f$(struct P$ *p); int f$(struct P$ *q) { return q->v; }", "struct P$ z = { 4 }; O(f$(&z));", ""),
 "label scope": ("int f$(void) { goto L; L: return 1; } int g$(void) { goto L; L: return 2; }", "O(f$()); O(g$()); { goto M; } O(5); M: O(6); { L: O(7); }", ""),
 "label and names": ("", "int x = 4; struct x { char c; }; goto x; O(1); x: O(x); O(sizeof(struct x));", ""),
 "member namespaces": ("struct A$ { int x; struct { int x; } y; }; struct B$ { char x; int y; };", "struct A$ a; struct B$ b; a.x = 1; a.y.x = 2; b.x = 3; b.y = 4; int x = 5, y = 6; O(a.x); O(a.y.x); O(b.x); O(b.y); O(x + y);", ""),
 "anonymous members": ("struct A$ { int x; struct { int y; union { int z; char w; }; }; };", "struct A$ a; a.x = 1; a.y = 2; a.z = 0x0103; O(a.x + a.y); O(a.w); struct A$ *p = &a; p->w = 9; O(p->z); int y = 4; O(y);", ""),
 "complit scope": ("", "int *p; { p = (int[]){ 1, 2 }; O(p[1]); } struct { int a; } x = { 3 }; { struct { char a; } x = { 4 }; O(sizeof x); O(x.a); } O(x.a); O(((struct { int q; }){ 5 }).q);", ""),
 "stmt expr scope": ("", "int x = 1; int y = ({ int x = 2; x + ({ int x = 3; x; }); }); O(y); O(x); O(({ typedef char x; sizeof(x); })); O(x);", ""),
 "if scopes": ("", "int x = 1; if (x) { int x = 2; O(x); } else { int x = 3; O(x); } O(x); while (x) { int x = 0; O(x); break; } do { int x = 7; O(x); } while (!x); switch (x) { case 1: { int x = 8; O(x); } } O(x);", ""),
 "loop reinit": ("", "for (int i = 0; i < 3; i++) { int k = 5; static int s = 1; k += i; s += k; O(k); O(s); }", ""),
 "same name each sibling": ("", "{ int a = 1; O(a); } { char a = 2; O(sizeof a); O(a); } { struct a { int z; } a = { 3 }; O(a.z); } { enum a { b } a = b; O(a); } { typedef long a; O(sizeof(a)); }", ""),
 "knr order": ("static int h$(int); static int h$(int x) { return x ? h$(x - 1) + 1 : 0; }", "O(h$(4));", ""),
 "goto skips inner decl": ("", "int x = 3; goto l; { int x; l: x = 5; O(x); } O(x);", ""),
 "typedef chain": ("typedef int A$; typedef A$ *B$; typedef B$ C$[3]; typedef struct { C$ c; } D$;", "A$ a = 4; B$ b = &a; C$ c = { b, b, b }; D$ d = { { b } }; O(*c[1]); O(*d.c[0]); O(sizeof(D$)); { typedef char A$; B$ z = &a; O(*z); O(sizeof *z); O(sizeof(A$)); }", ""),
 "long names": ("int " + "a" * 300 + "$ = 1; int " + "a" * 301 + "$ = 2; int " + "a" * 299 + "b$ = 3;", "O(" + "a" * 300 + "$); O(" + "a" * 301 + "$); O(" + "a" * 299 + "b$);", ""),
 "unicode names": ("int \u00e9$ = 1; int \u03b1\u03b2$ = 2; int a\u4e2d$ = 3;", "O(\u00e9$); O(\u03b1\u03b2$ + a\u4e2d$); { int \u00e9$ = 5; O(\u00e9$); }", ""),
 "ucn names": ("int \\u00e9x$ = 1;", "O(\u00e9x$); O(\\u00e9x$);", ""),
 "underscore dollar": ("int _$ = 1, __a$ = 2, A_b9$ = 3;", "O(_$ + __a$ * 10 + A_b9$ * 100);", ""),
 "func in expression": ("int f$(void) { return 4; }", "O((f$)()); O((*f$)()); O((&f$)()); O((**f$)()); O(sizeof(f$()));", ""),
 "__func__": ("static const char *f$(void) { return __func__; }", "O(f$()[0]); O(sizeof(__func__) > 5); { int q; O(__FUNCTION__[0]); } O(__func__[0]);", ""),
}
def special(c):
    for k, (a, b, post) in S.items():
        if post:       # the definition follows its uses, or (for parameters) precedes them
            pre, tail = (post, "") if k == "param shadow" else ("", post)
            yield Case(f"rule {k}", "w$();", f"{a} void w$(void); {pre} void w$(void) {{ {b} }} {tail}", steps=3)
        else:
            yield Case(f"rule {k}", b, a, steps=3)
    # many names in one scope and deep nesting: the scope table grows through its resize points
    for n in list(range(1, 40)) + [60, 100, 127, 128, 129, 200, 255, 256, 257, 500, 1000]:
        yield Case(f"many locals {n}", " ".join(f"int m{i} = {i};" for i in range(n)) + " long s = 0; " + " ".join(f"s = s * 3 + m{i};" for i in range(n)) + " O(s); { " + " ".join(f"char m{i} = {i} & 63;" for i in range(0, n, 2)) + " s = 0; " + " ".join(f"s = s * 3 + m{i} + sizeof m{i};" for i in range(n)) + " O(s); } s = 0; " + " ".join(f"s = s * 3 + m{i};" for i in range(n)) + " O(s);", steps=n)
        yield Case(f"many globals {n}", "long s = 0; " + " ".join(f"s = s * 3 + q{i}$;" for i in range(n)) + " O(s);", " ".join(f"static int q{i}$ = {i};" for i in range(n)), steps=n)
        yield Case(f"many tags {n}", "long s = 0; " + " ".join(f"s = s * 3 + sizeof(struct q{i}$) + e{i}$ + sizeof(t{i}$);" for i in range(n)) + " O(s);", " ".join(f"struct q{i}$ {{ char c[{i + 1}]; }}; enum {{ e{i}$ = {i} }}; typedef char t{i}$[{i % 9 + 1}];" for i in range(n)), steps=n)
        if n <= 200:
            yield Case(f"deep {n}", "int a = 1000; " + " ".join(f"{{ int a = {i};" + (f" O(a);") for i in range(n)) + " ".join(f"}} O(a);" for i in range(n)), steps=n)
            yield Case(f"many members {n}", "struct S$ s; " + " ".join(f"s.m{i} = {i};" for i in range(n)) + " long t = 0; " + " ".join(f"t = t * 3 + s.m{i};" for i in range(n)) + " O(t); O(sizeof s);", f"struct S$ {{ {' '.join(f'int m{i};' for i in range(n))} }};", steps=n)

def enums(c):
    """every list of up to 4 enumerators with and without values: constants, types, and the same names hidden in an inner scope"""
    V = ["", " = -2", " = -1", " = 0", " = 1", " = 5", " = 127", " = 255", " = 32767", " = 0x7ffffffe", " = -0x7fffffff - 1", " = P + 1", " = P", " = -P", " = 'a'", " = sizeof(int)", " = (char)-1", " = ~P", " = (1 ? 7 : 8)", " = !P"]
    n = 4 if c.thorough else 3
    for k in range(1, n + 1):
        for vs in itertools.product(V if k < 4 else V[:4] + V[9:12], repeat=k):
            if vs[0].count("P"):
                continue
            # only what fits: an enumerator past INT_MAX is not C
            ok, prev = True, None
            for v in vs:
                t = v.replace(" = ", "").replace("P", f"({prev})")
                t = {"": str(0 if prev is None else prev + 1), "'a'": "97", "sizeof(int)": "4", "(char)-1": "-1", "(1 ? 7 : 8)": "7"}.get(t, t)
                prev = int(not eval(t[1:])) if t.startswith("!") else eval(t)
                ok &= -2 ** 31 <= prev < 2 ** 31
            if not ok:
                continue
            d = ", ".join(f"e{i}$" + v.replace("P", f"e{i-1}$") for i, v in enumerate(vs))
            h = ", ".join(f"e{i}$" + v.replace("P", f"e{i-1}$") for i, v in reversed(list(enumerate(vs))) if "P" not in v)
            use = "".join(f"O(e{i}$); O(sizeof e{i}$); O(-e{i}$ < 0);" for i in range(k))
            yield Case(f"enum {{{','.join(v.strip() or '.' for v in vs)}}}", use + (f"{{ enum {{ {h} }}; {use} {{ enum T$ q = e0$; O(q); }} }}" if h and "P" not in "".join(vs) and "0x7ffffffe" not in "".join(vs) else "") + use + f"enum T$ x = e{k-1}$; O(x); switch (x) {{ case e{k-1}$: O(1); break; default: O(2); }} static int z[] = {{ {', '.join(f'e{i}$' for i in range(k))} }}; OB(z, sizeof z); struct {{ enum T$ b : 32; }} s = {{ e0$ }}; O(s.b);", f"enum T$ {{ {d}{',' if k & 1 else ''} }}; long g$ = e0$;", steps=4 * k)

OUTER = {"v": ("long x$[3];", "obj", None), "t": ("typedef char x$[5];", "type", None), "e": ("enum { x$ = 6 };", "const", None), "T": ("struct x$ { char c[7]; };", None, "tag"), "vT": ("struct x$ { char c[9]; } x$;", "obj", "tag"), "F": ("struct x$;", None, "inc"), "": ("", None, None), "tT": ("typedef struct x$ { char c[11]; } x$;", "type", "tag")}

def params(c):
    """every list of up to 3 (4) parameters that declare or use the name x as an object, an enumerator or a tag, under
    8 outer declarations of x, in a prototype (file scope, block, typedef, pointer) and in a definition; what x denotes is
    observed in the later parameters, in the body and after the declaration"""
    def lists(o, t, n):
        def rec(ps, names, o, t, here, n):
            yield ps, names, o, t
            if n == 0: return
            i = len(ps) + 1
            nm, k = f"p{i}", i * 2 + 13
            if "o" not in here:
                yield from rec(ps + ["short x$"], names, "obj", t, here + "o", n - 1)
                yield from rec(ps + [f"enum {{ x$ = {k} }} {nm}"], names + [f"sizeof({nm})"], "const", t, here + "o", n - 1)
            if "t" not in here:
                yield from rec(ps + [f"struct x$ {{ char c[{k}]; }} *{nm}"], names + [f"sizeof(*{nm})"], o, "tag", here + "t", n - 1)
            if t != "tag":
                yield from rec(ps + [f"struct x$ *{nm}"], names, o, "inc", here, n - 1)
            else:
                yield from rec(ps + [f"struct x$ *{nm}"], names + [f"sizeof(*{nm})"], o, t, here, n - 1)
            if o: yield from rec(ps + [f"char (*{nm})[sizeof(x$)]"], names + [f"sizeof(*{nm})"], o, t, here, n - 1)
            if o == "const": yield from rec(ps + [f"char (*{nm})[x$ + 1]"], names + [f"sizeof(*{nm})"], o, t, here, n - 1)
            if o == "type": yield from rec(ps + [f"x$ *{nm}"], names + [f"sizeof(*{nm})"], o, t, here, n - 1)
            yield from rec(ps + [f"int (*{nm})(char x$, struct x$ {{ char c[{k}]; }} *, char (*)[sizeof(struct x$) + sizeof(x$)])"], names, o, t, here, n - 1)
        yield from rec([], [], o, t, "", n)
    def see(o, t):
        return ("O(sizeof(x$));" if o else "") + ("O(x$);" if o == "const" else "") + ("O(sizeof(struct x$)); { struct x$ q; O(sizeof q.c); }" if t == "tag" else "")
    m = 4 if c.thorough else 3
    for ok, (od, o, t) in OUTER.items():
        for ps, names, o2, t2 in lists(o, t, m):
            if not ps: continue
            lst = ", ".join(ps)
            after = see(o, t)
            key = f"params {ok or '-'}: {lst.replace('$', '')}"
            inner = "".join(f"O({n});" for n in names) + see(o2, t2)
            body = f"static void f$({lst}) {{ {inner} {{ int x$ = 1; O(x$); }} }}"
            call = f"f$({', '.join('0' for _ in ps)});"
            yield Case(key + " def", f"{call} {after}", f"{od} {body} static void h$(void) {{ {after} }} static void (*hp$)(void) = h$;", steps=len(ps) + 1)
            yield Case(key + " proto", f"{after} h$(); {{ void u$({lst}); {after} }} {{ void (*q)({lst}) = 0; O(q == 0); {after} }} {{ O(sizeof(void (*)({lst}))); {after} }} {{ typedef void w({lst}); w *z = 0; O(!z); {after} }}",
                       f"{od} void g$({lst}); static void h$(void) {{ {after} }}", steps=5 * len(ps))

def body(c):
    d = Diff(c, prelude=PRELUDE + "static int pool[32] = { 0, 7, 14, 21, 28, 35, 42, 49, 56, 63, 70 };\nextern char x;\nint x_fn(int);\n",
             helper="char x = 91; int x_fn(int a) { return a; }")
    d.run(special(c), size=40)
    d.run(cases(c), size=300)
    d.run(enums(c), size=300)
    d.run(params(c), size=200)
    c.extra["bounds"] = f"all valid histories of up to {6 if c.thorough else 5} block/declaration operations over 5 declaration kinds of one name (3-4 over 11 kinds), observed after every operation and on every scope exit; {len(S)} further scope rules; scope table sizes up to 1000; all lists of up to {4 if c.thorough else 3} enumerators over 20 ways to give a value; all lists of up to {4 if c.thorough else 3} parameters of 8 forms over one name under 8 outer declarations, in definitions and 5 kinds of prototypes"
main("C12", body)
