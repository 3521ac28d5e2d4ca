"""C09: pointers, arrays and whole-object copies address and move exactly the bytes C says, at every offset and size."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

PRE = PRELUDE + """
static unsigned char A[70000], B[70000];
static void fill(void *p, long n, int k) { unsigned char *q = p; for (long i = 0; i < n; i++) q[i] = i * 7 + (i >> 8) * 3 + k; }
static unsigned long sum(void *p, long n) { unsigned char *q = p; unsigned long h = 5381; for (long i = 0; i < n; i++) h = h * 33 + q[i]; return h; }
static int id(int x) { return x; }
struct P2 { char a; short b; }; struct P3 { char a[3]; }; struct P5 { int a; char b; }; struct P24 { long a, b, c; };
"""
ELEM = {"char": 1, "short": 2, "int": 4, "long": 8, "unsigned char": 1, "float": 4, "double": 8, "long double": 16, "void *": 8, "struct P2": 4, "struct P3": 3, "struct P5": 8, "struct P24": 24, "char[7]": 7, "int[3]": 12, "struct P5[2]": 16}
def var(t, n):
    i = t.find("[")
    return f"{t} {n}" if i < 0 else f"{t[:i]} {n}{t[i:]}"
def ptr(t, n):
    i = t.find("[")
    return f"{t} *{n}" if i < 0 else f"{t[:i]} (*{n}){t[i:]}"

def pointers(c):
    """pointer arithmetic in every form x element type x index type x index value"""
    IT = {"char": (-3, 0, 5), "unsigned char": (0, 200), "short": (-300, 7), "unsigned short": (3, 1000), "int": (-5, 0, 1, 9), "unsigned": (0, 12), "long": (-7, 4), "unsigned long": (6,), "_Bool": (1,)}
    FORMS = ["O((char *)(p + i) - (char *)p);", "O((char *)(i + p) - (char *)p);", "O((char *)(p - i) - (char *)p);", "O((char *)&p[i] - (char *)p);", "O((char *)&i[p] - (char *)p);", "q = p; q += i; O((char *)q - (char *)p); q -= i; q -= i; O((char *)q - (char *)p);", "q = p + i; O(q - p); O(p - q); O(q > p); O(q <= p); O(q == p); O(q != p + i);"]
    for t, sz in ELEM.items():
        arr = "[" in t
        for it, vals in IT.items():
            for v in vals:
                b = f"{ptr(t, 'p')} = (void *)(A + 30000); {ptr(t, 'q')}; {it} i = {v}; "
                for f in FORMS:
                    if arr and "&p[i]" in f: f = "O((char *)p[i] - (char *)p);"
                    if arr and "&i[p]" in f: f = "O((char *)i[p] - (char *)p);"
                    b += f
                b += "q = p; O((char *)q++ - (char *)p); O((char *)++q - (char *)p); O((char *)q-- - (char *)p); O((char *)--q - (char *)p); O(sizeof *q); O(sizeof(q));"
                yield Case(f"pointer {t} {it} {v}", b, steps=10)

def elements(c):
    """loads and stores through every access path hit exactly the element"""
    ST = {"char": "{e} = 90;", "short": "{e} = -1234;", "int": "{e} = 0x12345678;", "long": "{e} = 0x1122334455667788;", "unsigned char": "{e} = 200;", "float": "{e} = 1.5f;", "double": "{e} = -2.25;", "void *": "{e} = &A[5] - 5 + 3 - A + (char *)0x1000;"}
    PATH = {"index": "p[{i}]", "deref": "*(p + {i})", "swap": "({i})[p]", "back": "(p + 20)[{i} - 20]", "run": "p[id({i})]", "addr": "*&p[{i}]", "nested": "(*pp)[{i}]", "member": "s.p[{i}]", "arrow": "z->p[{i}]", "inc": "*(q = p + {i} - 1, ++q)", "post": "*(q = p + {i}, q++)", "cond": "*(id(1) ? p + {i} : p)", "comma": "(id(0), p)[{i}]", "call": "f$(p)[{i}]", "cast": "(({t} *)(void *)p)[{i}]"}
    for t, st in ST.items():
        for k, path in PATH.items():
            b = f"fill(A, 400, 1); typedef {t} E; E *p = (void *)(A + 80), *q, **pp = &p; struct {{ int x; E *p; }} s = {{ 1, p }}, *z = &s;"
            for i in (0, 1, 5, 17):
                e = path.format(i=i, t=t)
                b += st.format(e=e) + "O(sum(A, 400));" + (f"O({e});" if t != "void *" else f"O((long){e});")
            b += "O(p == (void *)(A + 80));"
            yield Case(f"element {t} {k}", b, f"static {t} *f$({t} *x) {{ return x; }}", steps=8)
    # arrays of every rank: the linear position of each element
    for dims in [(d,) for d in (1, 2, 7)] + list(itertools.product((1, 2, 3), repeat=2)) + list(itertools.product((1, 2, 3), repeat=3)) + [(2, 3, 1, 2), (3, 1, 2, 2)]:
        for t in ("char", "short", "int", "long", "double", "struct P3", "struct P5"):
            for st in ("", "static "):
                ix = ["ijkl"[m] for m in range(len(dims))]
                loops = "".join(f"for (int {x} = 0; {x} < {d}; {x}++)" for x, d in zip(ix, dims))
                sub = "".join(f"[{x}]" for x in ix)
                star = "a"
                for x in ix: star = f"*({star} + {x})"
                b = f"{st}{t} a{''.join(f'[{d}]' for d in dims)}; {loops} O((char *)&a{sub} - (char *)a); {loops} O(&a{sub} == &{star}); O(sizeof a); " + "".join(f"O(sizeof a{'[0]' * (m + 1)});" for m in range(len(dims)))
                if len(dims) > 1: b += f"{t} (*p){''.join(f'[{d}]' for d in dims[1:])} = a; p++; O((char *)p - (char *)a); O(p - a); O((char *)p[-1] - (char *)a);"
                yield Case(f"array {t} {dims} {st}", b, steps=4)

def copies(c):
    """whole-object copies of every size: exactly the object changes, in every context a copy can occur"""
    sizes = list(range(1, 41)) + [47, 48, 49, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 2030, 2040, 2047, 2048, 2049, 2056, 4095, 4096, 4097, 5000, 33000]
    for n in sizes:
        for kind in ("struct", "union", "short"):
            if kind == "short" and (n > 300): continue
            ty = f"{'union' if kind == 'union' else 'struct'} S$"
            dc = f"{ty} {{ {'short' if kind == 'short' else 'char'} c[{n}]; }};"
            N = f"sizeof({ty})"
            pre = f"{ty} *a = (void *)(A + 64), *b = (void *)(B + 64); fill(A, {N} + 128, 1); fill(B, {N} + 128, 9);"
            see = f"O(sum(A, {N} + 128)); O(sum(B, {N} + 128));"
            yield Case(f"copy {kind} {n} assign", f"{pre} *a = *b; {see} fill(A, {N} + 128, 3); *b = *a = *b; {see} *a = *a; {see} {ty} t = *a, u; u = t; O(sum(&u, {N})); u.c[0]++; O(sum(&t, {N})); O(sum(&u, {N})); *b = u; {see}", dc, steps=6)
            yield Case(f"copy {kind} {n} call", f"{pre} *a = f$(b); {see} O(g$(*b)); {see} *a = h$(*b); {see} {ty} t = h$(*a); O(sum(&t, {N})); O(h$(*b).c[{n} - 1]); *a = h$(h$(*b)); {see} O(k$(1, *b, 2, *a, 3)); {ty} (*fp)({ty}) = h$; *b = fp(t); {see}",
                       dc + f" static {ty} f$({ty} *p) {{ return *p; }} static unsigned long g$({ty} x) {{ unsigned long r = sum(&x, sizeof x); fill(&x, sizeof x, 77); return r; }} static {ty} h$({ty} x) {{ x.c[{n} - 1]++; return x; }} static unsigned long k$(int i, {ty} x, long j, {ty} y, char k) {{ return sum(&x, sizeof x) * 3 + sum(&y, sizeof y) * 5 + i + j * 10 + k * 100; }}", steps=8)
            if n <= 300:
                yield Case(f"copy {kind} {n} context", f"{pre} {ty} v[3]; v[0] = *a; v[1] = *b; v[2] = v[0]; v[id(0)] = v[id(1)]; O(sum(v, sizeof v)); struct {{ char x; {ty} m; char y; }} w = {{ 1, *a, 2 }}, x; x = w; x.m = *b; O(w.x + w.y + x.x + x.y); O(sum(&w.m, {N})); O(sum(&x.m, {N})); *a = id(1) ? v[1] : v[2]; {see} *a = id(0) ? v[1] : v[2]; {see} *b = (id(1), v[2]); {see} *a = ({{ {ty} q = *b; q; }}); {see} *a = ({ty}){{ {{ 5 }} }}; {see} {ty} *p = v; *p++ = *b; O(p - v); *p = p[1]; O(sum(v, sizeof v)); O((*a = *b).c[0]); O((id(1) ? *a : *b).c[{n} - 1]);", dc, steps=9)

def places(c):
    """every member offset and frame size around the limits of an instruction's immediate field"""
    offs = [0, 1, 7, 8, 100, 1000, 2000, 2016, 2024, 2031, 2032, 2039, 2040, 2044, 2046, 2047, 2048, 2049, 2050, 2056, 2064, 2100, 3000, 4080, 4088, 4094, 4095, 4096, 4097, 4104, 6000, 8192, 10000, 32760, 32768, 40000]
    done = set()
    for o in offs:
        for t, v in (("char", 3), ("short", -300), ("int", 70000), ("long", 1 << 40), ("float", 1.5), ("double", -2.5), ("unsigned char", 250)):
            dc = f"struct S$ {{ char pad[{o}]; {t} m; char t[3]; int b : 5; }}; static struct S$ g$; static {t} *ad$(struct S$ *p) {{ return &p->m; }}" if o else f"struct S$ {{ {t} m; char t[3]; int b : 5; }}; static struct S$ g$; static {t} *ad$(struct S$ *p) {{ return &p->m; }}"
            b = f"struct S$ *p = (void *)A, l, *q = &l; fill(A, sizeof *p, 1); p->m = {v}; O(sum(A, sizeof *p)); O(p->m); l.m = {v}; l.t[1] = 4; q->t[2] = 5; O(l.m); O(q->m); O((char *)ad$(&l) - (char *)&l); O(l.t[1] + l.t[2]); g$.m = {v}; g$.m += 1; O(g$.m); O((char *)&g$.t[2] - (char *)&g$); p->m++; O(p->m); p->b = 9; O(p->b); O(sum(A, sizeof *p)); l = *p; O(sum(&l, sizeof l)); {t} *r = &q->m; *r = 1; O(l.m);"
            yield Case(f"member {t} at {o}", b, dc, steps=10)
        # frames of every size near the limits, with parameters, temporaries and calls above them
        for extra in (0, 1, 8, 16):
            n = o + extra + 1
            if n in done: continue
            done.add(n)
            yield Case(f"frame {n}", f"O(f$(3, 4.5, 6)); O(f$(7, 1.25, 8) + id(2));", f"static long f$(int a, double b, long c) {{ int x = a; char pad[{n}]; int y = 9; pad[0] = 1; pad[{n} - 1] = 2; O(x); O(y); O(pad[0] + pad[{n} - 1] * 10); long z = a + b * 4 + c; int *p = &x, *q = &y; *p += id(1) + id(2) * id(3); *q -= 4; O(*p + *q); struct P24 s = {{ 1, 2, 3 }}, t = s; t.b += x; O(s.b + t.b); O(a > 3 ? f$(a - 4, b, c) : z); fill(pad, {n}, a); O(sum(pad, {n})); O(x + y); return z * 2 + t.b + b * 4; }}", steps=8)
            yield Case(f"frame struct {n}", f"struct S$ s; fill(&s, sizeof s, 3); O(sum(&s, sizeof s)); struct S$ t = f$(s, 4); O(sum(&t, sizeof t)); O(g$(1, t, 2)); O(sum(&s, sizeof s)); O(f$(t, 5).c[{n} - 1]);", f"struct S$ {{ char c[{n}]; }}; static struct S$ f$(struct S$ x, int k) {{ x.c[{n} - 1] += k; x.c[0] -= k; return x; }} static long g$(int a, struct S$ x, int b) {{ return sum(&x, sizeof x) + a + b * 10; }}", steps=6)

R = {
 "address of everything": "int x = 3, *p = &x, **pp = &p; struct P5 s = { 1, 2 }, *q = &s; int a[3] = { 1, 2, 3 }; O(*p); O(**pp); O((*pp)[0]); O(*&*&x); O(&*p == p); O(&a[1] - a); O(&q->b - (char *)q); O(&(*q).b == &s.b); O(&(&s)->a == (int *)&s); O(*&a[2]); O(&*a == a); **pp = 8; O(x); *&s.b = 5; O(s.b);",
 "pointer to pointer": "int v[2][2] = { { 1, 2 }, { 3, 4 } }, *r[2] = { v[0], v[1] }, **p = r; O(p[1][0]); O(*p[1]); O(**(p + 1)); O((*p)[1]); O(*(*p + 1)); p++; O(**p); O(*--*p); O(*++*p); O((*p)++[0]); O(**p); O(*p - v[1]);",
 "comparison": "int a[4]; int *p = a, *q = a + 3; O(p < q); O(q < p); O(p <= p); O(q >= p); O(p == q); O(p != q); O(!p); O(!!q); O(p && q); O(p == 0); O(0 == p); O(q - p); O(p - q); O(p ? 1 : 2); int *z = 0; O(!z); O(z == 0); O(z ? 1 : 2); if (z) O(1); else O(2); while (p < q) p++; O(p == q); O((unsigned long)q > 0); void *v = p; O(v == p); O(p == v);",
 "high addresses": "char *p = (char *)0x8000000000000000, *q = (char *)0x7fffffffffffffff; O(p > q); O(q < p); O(p >= q); O(p <= q); O((long)p); O((unsigned long)(p + 1)); O(p - 1 == q); char *m = (char *)-1; O(m > p); O((long)m); O((unsigned)(long)m); O((int)(long)p);",
 "void pointer": "int x[2] = { 1, 2 }; void *v = x; O(*(int *)v); O(((int *)v)[1]); char *c = v; O(c[4]); v = &x[1]; int *i = v; O(*i); O((char *)v - c); void **w = &v; O(*(int *)*w); O(v != x); v = 0; O(!v); const void *k = x; O(*(const int *)k);",
 "function pointers": "int (*f)(int) = id, (*g[2])(int) = { id, &id }, (**h)(int) = g; O(f(3)); O((*f)(4)); O(g[1](5)); O((*g[0])(6)); O((*h)(7)); O(h[1](8)); O((**h)(9)); O(f == id); O(*f == &id); O(f != 0); struct { int (*m)(int); } s = { id }, *p = &s; O(s.m(10)); O(p->m(11)); O((*p->m)(12)); O((id(1) ? f : g[0])(13)); O((f, g[1])(14)); O(((int (*)(int))(void *)f)(15)); O(!f);",
 "casts of pointers": "long x = 0x1122334455667788; int *p = (int *)&x; short *s = (short *)&x; unsigned char *c = (unsigned char *)&x; O(p[0]); O(p[1]); O(s[3]); O(c[7]); O(*(int *)((char *)&x + 2)); unsigned long n = (unsigned long)&x; O(*(char *)n); O(*(long *)n == x); O((long *)n == &x); *(short *)(c + 2) = 0; O(x); *((char *)&x + 7) = -1; O(x);",
 "strings": "char *s = \"hello\", t[] = \"world\"; O(s[1]); O(*(s + 4)); O(s[5]); O(\"abc\"[1]); O(*\"xyz\"); O(2[\"pqr\"]); O(sizeof t); O(sizeof \"abcd\"); t[0] = 'W'; O(t[0]); char *p = t; while (*p) p++; O(p - t); O(*--p); const char *q = \"a\" \"bc\" \"\\0d\"; O(q[2]); O(q[4]); O(sizeof(\"a\" \"bc\")); O((\"ab\" + 1)[0]); O(&\"abc\"[1] != 0);",
 "string loops": "char b[20], *d = b; const char *s = \"copy me\"; while ((*d++ = *s++)) ; O(d - b); O(sum(b, 8)); d = b; for (; *d; d++) *d ^= 32; O(sum(b, 8)); int n = 0; for (char *p = b; *p++;) n++; O(n); d = b; *d++ = 'x'; *++d = 'y'; O(sum(b, 8)); (*d)++; O(*d); O(*d--); O(--*d); O(-*d);",
 "linked list": "struct N { struct N *n; int v; } a = { 0, 1 }, b = { &a, 2 }, c_ = { &b, 3 }; int s = 0; for (struct N *p = &c_; p; p = p->n) s = s * 10 + p->v; O(s); O(c_.n->n->v); c_.n->n->v = 9; O(a.v); O((*c_.n).v); O((&*(*c_.n).n)->v); struct N **pp = &c_.n; *pp = (*pp)->n; O(c_.n->v); O(c_.n->n == 0); (*pp)->n = &b; O(a.n->v); b.n = 0; O(c_.n->n->v++); O(b.v);",
 "struct in struct": "struct { struct { int a[2]; struct P5 p[3]; } x; char t; } s, *q = &s, u; fill(&s, sizeof s, 3); s.x.a[1] = 7; s.x.p[2].b = 8; q->x.p[1].a = 9; q->t = 10; O(s.x.a[1] + s.x.p[2].b + s.x.p[1].a + s.t); u = s; O(u.x.p[2].b); s.x.p[0] = u.x.p[1]; O(s.x.p[0].a); struct P5 *r = s.x.p + 2; O(r->b); O(r[-1].a); O(r - s.x.p); O((q->x.p + 1)->a); int *ip = q->x.a; O(ip[1]); O(&q->x.a[1] == ip + 1);",
 "union overlay": "union { int i; char c[4]; short s[2]; float f; struct { char lo, hi; } h; } u = { 0x01020304 }, *p = &u; O(u.c[0]); O(u.s[1]); O(p->h.hi); u.c[3] = 9; O(u.i); u.f = 1.0f; O(u.i); p->s[0] = -1; O(u.i); union { long l; struct { int a, b; }; } w = { 1 }; w.b = 2; O(w.l); O(w.a);",
 "temporaries survive": "O(sum(&(int[]){ 1, 2, 3 }[1], 4)); int *p = (int[]){ 4, 5, 6 }; O(p[2]); struct P5 *q = &(struct P5){ 7, 8 }; O(q->b); p[1] = 9; O(p[1] + q->a); O(((struct P5){ 1, 2 }).b + ((int[2]){ 3, 4 })[1]); char *s = (char[]){ \"abc\" }; s[1] = 'z'; O(s[1] + s[2]);",
 "lvalue chains": "int a[3] = { 1, 2, 3 }, i = 0, *p = a; a[i++] = 10; O(a[0] + i); p[i] += 5; O(a[1]); *p++ += 1; O(a[0]); *(p + 1) = a[0]; O(a[2]); (*p)++; O(a[1]); p[-1]--; O(a[0]); *&a[2] *= 2; O(a[2]); a[a[0] = 1] = 50; O(a[1]); i = 1; i[a] = 6; O(a[1]); (i ? a : p)[2] = 4; O(a[2]); *(i++, a) = 3; O(a[0] + i);",
 "array parameters": "int m[2][3] = { { 1, 2, 3 }, { 4, 5, 6 } }; O(f1$(m[1])); O(f2$(m)); O(f3$(m, 1)); O(f4$(m[0], m[1])); O(m[1][2]); O(f5$(\"abc\"));",
 "negative and large index": "int *p = (int *)(A + 40000); p[-9000] = 7; O(*(int *)(A + 4000)); p[7000] = 8; O(*(int *)(A + 68000)); long n = -2500; p[n] = 9; O(*(int *)(A + 30000)); unsigned char u = 255; p[u] = 10; O(*(int *)(A + 41020)); signed char sc = -128; p[sc] = 11; O(*(int *)(A + 39488)); unsigned short us = 6000; (p + us)[0] = 12; O(*(int *)(A + 64000)); O((char *)(p - 9000) - (char *)A); O((char *)(p + 7000) - (char *)A);",
 "large array": "static int big[300000]; big[299999] = 5; big[150000] = 6; O(big[299999] + big[150000] + big[0]); O(sizeof big); int *p = big + 299999; O(*p); O(p - big); static char h[5][100000]; h[4][99999] = 3; O(*((char *)h + 499999)); O((char *)h[3] - (char *)h);",
 "const and volatile access": "volatile int v = 3; const int k = 4; volatile int *p = &v; const int *q = &k; int *volatile r = (int *)&v; O(v + k); v += 2; O(*p); *p = 9; O(v); O(*q); *r = 1; O(v++); O(v); const volatile char *c = (const volatile char *)&v; O(c[0]); char *restrict z = (char *)A; z[1] = 4; O(A[1]);",
}
def rules(c):
    aux = "static int f1$(int a[3]) { return a[0] + a[2] + sizeof a; } static int f2$(int a[][3]) { a[1][2]++; return a[1][0] + sizeof a[0]; } static int f3$(int (*a)[3], int i) { return a[i][1]; } static int f4$(int *a, int b[]) { int r = b - a; a++; b = a; return r * 10 + *b; } static int f5$(char s[static 2]) { return s[1]; }"
    for k, b in R.items():
        yield Case(f"rule {k}", b, aux if "$" in b else "", steps=b.count("O("))

def body(c):
    d = Diff(c, prelude=PRE)
    d.run(rules(c), size=6)
    d.run(pointers(c), size=60)
    d.run(elements(c), size=80)
    d.run(copies(c), size=40)
    d.run(places(c), size=40)
    c.extra["bounds"] = f"{len(ELEM)} element types x 9 index types x values x 13 pointer forms; 8 types x 15 access paths; arrays of up to 4 dimensions; copies of every size up to 40 bytes and around each limit to 33000 in 25 contexts; members and frames at 36 offsets around every immediate limit; {len(R)} further rules"
main("C09", body)
