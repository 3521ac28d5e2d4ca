"""C16: variable-length arrays and alloca: every object has the extent computed when it was declared, and lives untouched."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

ELEM = {"c": ("char", "(char)"), "s": ("short", "(short)"), "i": ("int", "(int)"), "l": ("long", "(long)"), "f": ("float", "(float)"), "d": ("double", "(double)"), "t": ("struct T", None), "p": ("void *", "(void *)(long)"), "b": ("_Bool", "(_Bool)")}
PRE = PRELUDE + """
struct T { char a; short b; char c[3]; };
static unsigned char *reg[64]; static long rlen[64]; static int nreg;
static void fill(void *p, long n, int k) { unsigned char *q = p; reg[nreg] = q; rlen[nreg++] = n; for (long i = 0; i < n; i++) q[i] = i * 7 + k * 31 + 1; }
static int chk(void) { int bad = 0; for (int r = 0; r < nreg; r++) for (long i = 0; i < rlen[r]; i++) if (reg[r][i] != (unsigned char)(i * 7 + r * 31 + 1)) bad++; return bad; }
static int id(int x) { return x; }
static int gn1, gn2;
static int sum5(int a, int b, int c, int d, int e) { return a + b * 10 + c * 100 + d * 1000 + e * 10000; }
static long sum10(long a, long b, long c, long d, long e, long f, long g, long h, long i, long j) { return a + b * 3 + c * 5 + d * 7 + e * 11 + f * 13 + g * 17 + h * 19 + i * 23 + j * 29; }
static int use(void *p, int n) { for (int i = 0; i < n; i++) ((char *)p)[i] = i + 1; return n; }

"""

def shapes(c):
    """declared shape -> sizes, addresses and contents, for every mix of fixed and run-time dimensions"""
    maxd = 3
    szs = (1, 2, 3) if not c.thorough else (1, 2, 3, 5, 8)
    for e, (ty, cast) in ELEM.items():
        for nd in range(1, maxd + 1):
            for kinds in itertools.product("cv", repeat=nd):
                if "v" not in kinds: continue
                if nd == 3 and e not in "cilt" : continue
                for dims in itertools.product(szs, repeat=nd):
                    if nd == 3 and not c.thorough and len(set(dims)) < 2: continue
                    decl = "".join(f"[n{i}]" if k == "v" else f"[{d}]" for i, (k, d) in enumerate(zip(kinds, dims)))
                    nd_ = "".join(f"int n{i} = {d};" for i, d in enumerate(dims))
                    idx = ["ijk"[i] for i in range(nd)]
                    loops = "".join(f"for (int {x} = 0; {x} < n{i}; {x}++)" for i, x in enumerate(idx))
                    sub = "".join(f"[{x}]" for x in idx)
                    lin = "0"
                    for i, x in enumerate(idx): lin = f"({lin}) * {dims[i]} + {x}"
                    b = f"char g0[5]; {nd_} long h0 = 77; {ty} a{decl}; long h1 = 78; for (int q = 0; q < 5; q++) g0[q] = 60 + q;"
                    b += f"O(sizeof a); O(sizeof(a));" + "".join(f"O(sizeof a{''.join('[0]' for _ in range(m))});" for m in range(1, nd + 1))
                    if cast:
                        b += f"{loops} a{sub} = {cast}({lin} + 3); {loops} O((long)a{sub});"
                    else:
                        b += f"{loops} {{ a{sub}.a = {lin} + 3; a{sub}.b = {lin} + 40; a{sub}.c[2] = {lin}; }} {loops} {{ O(a{sub}.a); O(a{sub}.b); O(a{sub}.c[2]); }}"
                    b += f"{loops} O((char *)&a{sub} - (char *)a); O(h0 + h1); for (int q = 0; q < 5; q++) O(g0[q]);"
                    # changing the size variables later changes nothing
                    b += "".join(f"n{i} += 3;" for i in range(nd)) + "O(sizeof a);" + (f"O(sizeof a[0]); O((char *)(a + 1) - (char *)a); O((a + 1) - a);" if nd > 0 else "")
                    yield Case(f"shape {e} {decl} {dims}", b, steps=8)

# operation histories: every declared region is filled when born and all live regions are checked after every operation
OPS = {
 "V": "char v{k}[id({k} * 5 + 1)]; fill(v{k}, sizeof v{k}, nreg); O(sizeof v{k});",
 "W": "long w{k}[id({k} + 1)][id(2)]; fill(w{k}, sizeof w{k}, nreg); O(sizeof w{k}[0]);",
 "A": "{{ void *q = alloca(id({k} * 9 + 1)); fill(q, {k} * 9 + 1, nreg); O((long)q % 8 == 0); }}",
 "F": "char f{k}[{k} * 3 + 2]; fill(f{k}, sizeof f{k}, nreg);",
 "I": "int t{k}[id(3)]; t{k}[0] = id(4); t{k}[2] = t{k}[0] + 1; O(t{k}[2]); fill(t{k}, sizeof t{k}, nreg);",
 "C": "O(sum5(1, use(alloca(8), 8), 3, id(4), 5));",
 "D": "O(sum10(1, 2, (fill(alloca(20), 20, nreg), 3), 4, 5, 6, 7, (long)use(alloca(16), 16), 9, id(10)));",
 "E": "O(id(3) + (fill(alloca(11), 11, nreg), id(4)) * 2 + id(7));",
 "G": "O(1.5 * 4 + (fill(alloca(24), 24, nreg), 2.5) * id(2));",
 "S": "O(({{ char s{k}[id(6)]; fill(s{k}, sizeof s{k}, nreg); O(chk()); nreg--; (int)sizeof s{k}; }}) + id(2));",
 "{": "{{",
 "T": "typedef short ty{k}[id({k} + 2)]; ty{k} z{k}; fill(z{k}, sizeof z{k}, nreg); O(sizeof(ty{k}));",
 "L": "for (int i{k} = 1; i{k} < 3; i{k}++) {{ int l{k}[i{k} * 3]; O(sizeof l{k}); for (int j = 0; j < i{k} * 3; j++) l{k}[j] = j; O(l{k}[i{k}]); O(chk()); }}",
 "R": "if (dep < 2) O(f$(dep + 1));",
}
def histories(c):
    n = 4 if c.thorough else 3
    for L in range(1, n + 1):
        for q in itertools.product(OPS, repeat=L):
            if L == n and n > 3 and len(set(q)) < 3: continue
            if q[-1] == "{" : continue
            if q.count("R") > 1: continue
            t, depth = "", 0
            for k, o in enumerate(q):
                t += " " + OPS[o].format(k=k) + " O(chk());"
                if o == "{": depth += 1; t = t[:-len(" O(chk());")]
            # a region of a left block need not survive; forget it
            t = "int base = nreg; long keep = 5 + dep; char edge[3] = { 1, 2, 3 };" + t
            if depth: t += " nreg = base;" + "}" * depth
            t += " nreg = base; O(keep); O(edge[0] + edge[1] * 10 + edge[2] * 100); return dep * 3 + 1;"
            yield Case(f"hist {''.join(q)}", "nreg = 0; O(f$(0)); O(f$(1));", f"static int f$(int dep) {{ {t} }}", steps=L + 1)

R = {
 "sizeof evaluates vla type": "int n = 3; O(sizeof(int[n++])); O(n); O(sizeof(char[n][n])); O(n); O(sizeof(int)); int a[n++]; O(sizeof a); O(n); O(sizeof a[n++]); O(n);",
 "sizeof object not evaluated": "int n = 3, i = 0; int a[n]; O(sizeof a); O(sizeof(a[i++])); O(i); O(sizeof *a); O(sizeof(i++)); O(i);",
 "size evaluated once in order": "int n = 1; int a[n++][n++ + 1]; O(n); O(sizeof a / sizeof a[0] > 0); O(n);",
 "typedef fixes the size": "int n = 4; typedef int T[n]; n = 9; T a; O(sizeof a); O(sizeof(T)); { int n = 1; T b; O(sizeof b); } for (int i = 0; i < 4; i++) a[i] = i * i; O(a[3]); T *p = (T *)a; O(sizeof *p); O((char *)(p + 1) - (char *)p);",
 "typedef of a typedef": "int n = 3; typedef int T[n]; typedef T U[2]; n = 7; O(sizeof(U)); U u; O(sizeof u[0]); O(sizeof u); u[1][2] = 5; O(*((int *)u + 5)); typedef U *P; O(sizeof(P)); P p = (P)u; O(sizeof *p); O((*p)[1][2]);",
 "typeof a vla": "int n = 5; int a[n]; n = 2; typeof(a) b; O(sizeof b); typeof(a[0]) c = 4; O(sizeof c); typeof(int[n]) d; O(sizeof d); n = 8; O(sizeof d); typeof(d) *e; O(sizeof *e);",
 "pointer to vla": "int n = 3; int m[4][n]; for (int i = 0; i < 4; i++) for (int j = 0; j < n; j++) m[i][j] = i * 10 + j; int (*p)[n] = m; O(p[2][1]); p++; O(p[0][2]); O((*p)[1]); p += 2; O(**p); O(p - m); O(*(*(m + 1) + 2)); O((p - 1)[0][0]); --p; O(p[-1][2]); O(p > m); int (*q)[n] = &m[1]; O(q[1][1]); O(&m[3] - q); O(&m[3][2] - &m[0][1]); O(sizeof *q);",
 "pointer to vla 3d": "int n = 2, k = 3; int m[4][n][k]; for (int i = 0; i < 4 * n * k; i++) ((int *)m)[i] = i; int (*p)[n][k] = m; O(p[1][1][2]); O((*(p + 2))[1][0]); O(sizeof *p); O(sizeof **p); O(sizeof p[0][0][0]); p += 3; O(***p); O(p - m); int (*r)[k] = m[2]; O(r[1][1]); r++; O(r[0][2]); O(r - m[0]);",
 "pointer to vla of pointers": "int n = 3; int a[n], *v[n]; for (int i = 0; i < n; i++) { a[i] = i * 4; v[i] = &a[n - 1 - i]; } O(*v[0]); O(**(v + 1)); O(sizeof v); int **pp = v; pp++; O(**pp); O(pp - v); int *(*w)[n] = (int *(*)[n])v; O(*(*w)[2]);",
 "array of function pointers": "int n = 2; int (*f[n])(int); f[0] = id; f[1] = id; O(f[1](7)); O(sizeof f);",
 "vla of structs": "int n = 3; struct T t[n]; for (int i = 0; i < n; i++) { t[i].a = i; t[i].b = i * 300; t[i].c[1] = -i; } struct T u = t[2]; O(u.b); t[0] = t[1]; O(t[0].b); O(t[0].c[1]); struct T *p = t + 2; O(p->b); O(p - t); (t + 1)->a = 9; O(t[1].a);",
 "goto out of scope and back": "int n = 2, r = 0; again: { char a[n]; use(a, n); r += a[n - 1]; n++; if (n < 6) goto again; } O(r); O(n);",
 "break and continue": "int r = 0; for (int i = 1; i < 9; i++) { int a[i]; for (int j = 0; j < i; j++) a[j] = i; if (i == 3) continue; if (i == 6) break; r = r * 10 + a[i - 1]; } O(r); int k = 4; while (k--) { char b[k + 1]; b[k] = k; r += b[k]; } O(r);",
 "switch": "int n = 3; switch (n) { case 3: { int a[n]; a[2] = 8; O(a[2]); } case 4: O(1); break; default: O(2); }",
 "return from inside": "O(f$(1)); O(f$(5)); O(f$(30));",
 "recursion": "O(g$(6));",
 "vla in loop condition scope": "for (int i = 0, n = 3; i < 2; i++, n++) { short a[n]; a[n - 1] = n * 7; O(a[n - 1]); O(sizeof a); }",
 "size expressions": "int n = 3; char c = 5; unsigned char u = 200; long l = 4; short s = 6; _Bool b = 1; int a1[c], a2[u], a3[l], a4[s], a5[b], a6[n + 1], a7[n ? 2 : 3], a8[(n, 4)], a9[id(n)], a10[sizeof a1 / 4], a11[n * n - l], a12[n << 1], a13[-n + 9], a14[!n + 1]; O(sizeof a1); O(sizeof a2); O(sizeof a3); O(sizeof a4); O(sizeof a5); O(sizeof a6); O(sizeof a7); O(sizeof a8); O(sizeof a9); O(sizeof a10); O(sizeof a11); O(sizeof a12); O(sizeof a13); O(sizeof a14);",
 "several in one declaration": "int n = 2; int a[n], b[n + 1], *p = b, c = n, d[c]; O(sizeof a + sizeof b * 100 + sizeof d * 10000); p[2] = 4; a[1] = 5; d[1] = 6; O(b[2] + a[1] + d[1]);",
 "large sizes": "long n = 3000; char a[n]; int b[n]; a[n - 1] = 5; b[n - 1] = 6; b[0] = 7; a[0] = 8; O(a[2999]); O(b[2999] + b[0] + a[0]); long m = 100000; char d[m]; d[m - 1] = 1; d[0] = 2; d[4096] = 3; O(d[99999] + d[0] + d[4096]); O(sizeof d); O(sizeof b);",
 "conditional on vla": "int n = 3; int a[n], b[n]; a[0] = 4; b[0] = 5; int *p = n > 2 ? a : b; O(*p); O((n > 5 ? a : b)[0]); O(a == b); O(!a); O(a && b); O(*a + *b); if (a) O(1); O(a != 0);",
 "vla passed": "int n = 4; char a[n]; O(use(a, n)); O(a[3]); char m[2][n]; use(m[1], n); O(m[1][2]); use(&m[0][1], 2); O(m[0][2]); O(use(m, 8)); O(m[1][3]);",
 "generic and typeof": "int n = 3; int a[n]; O(_Generic(a[0], int: 1, default: 2)); O(_Generic(a, int *: 1, default: 2)); O(_Generic(&a[0], int *: 1, default: 2)); typeof(&a[0]) p = a; p[1] = 5; O(a[1]);",
 "cast to vla pointer": "int n = 4; int buf[12]; for (int i = 0; i < 12; i++) buf[i] = i; O(((int (*)[n])buf)[1][2]); O((*(int (*)[n])(buf + 4))[3]); O(sizeof(*(int (*)[n])buf)); int (*p)[n] = (int (*)[n])buf; n = 2; O(p[2][0]); O(sizeof *p); O(((int (*)[n])buf)[3][1]);",
 "vla compound assign": "int n = 3; int a[n]; a[0] = 1; a[1] = 2; a[2] = 3; a[1] += 5; a[2] <<= a[0]; O(a[1]); O(a[2]++); O(++a[2]); O(a[n - 1]--); O(a[2]); int i = 0; a[i++] += 4; O(i); O(a[0]); a[i++]++; O(i); O(a[1]);",
 "vla in stmt expr": "int n = 3; int r = ({ int a[n]; a[0] = 4; a[n - 1] = 6; a[0] + a[n - 1]; }) + ({ char b[n * 2]; b[5] = 7; b[5]; }); O(r); O(sizeof(({ int a[n]; a[0]; })));",
 "alloca zero and small": "char *p = alloca(0), *q = alloca(1), *r = alloca(7); *q = 5; for (int i = 0; i < 7; i++) r[i] = i; O(*q); O(r[6]); O((long)q % 8); O((long)r % 8); long n = 5; char *s = alloca(n * 3); s[14] = 3; O(s[14]); O(r[6]); O((long)s % 8);",
 "alloca in loop": "char *p[5]; for (int i = 0; i < 5; i++) { p[i] = alloca(10 + i); use(p[i], 10 + i); } long s = 0; for (int i = 0; i < 5; i++) for (int j = 0; j < 10 + i; j++) s = s * 3 + p[i][j]; O(s);",
 "alloca in conditions": "int n = 5; char *p = n ? alloca(5) : 0; use(p, 5); char *q; if ((q = alloca(9)) && use(q, 9)) O(p[4]); O(q[8]); while (!(p = alloca(3))) ; use(p, 3); O(q[8]); O(p[2]);",
 "alloca as an argument": "O(use(alloca(5), 5)); O(sum5(use(alloca(5), 5), use(alloca(6), 6), id(3), use(alloca(7), 7), 5)); char *p = (char *)alloca(4) + 1; p[2] = 9; O(p[2] + use(alloca(100), 100));",
 "alloca then frame": "int a = 1; char *p = alloca(33); int b = 2; use(p, 33); int v[id(3)]; v[2] = 3; double d = 1.5; char *q = alloca(id(50)); use(q, 50); O(a + b * 10 + v[2] * 100); O(d * 2); O(p[32] + q[49]);",
 "large alloca": "char *p = alloca(5000), *q = alloca(70000); p[4999] = 1; q[69999] = 2; p[0] = 3; q[0] = 4; O(p[4999] + q[69999] * 10 + p[0] * 100 + q[0] * 1000);",
 "aligned local with vla": "_Alignas(64) int x = 5; int n = 3; char a[n]; use(a, n); _Alignas(32) char y[5]; use(y, 5); O((long)&x % 64); O((long)y % 32); char b[n * 9]; use(b, n * 9); O(x + y[4] + a[2] + b[26]);",
 "vla after goto": "int n = 0; goto l; m: { char a[n]; use(a, n); O(a[n - 1]); goto e; } l: n = 6; goto m; e: O(n);",
 "many": "int n = 2; " + " ".join(f"int a{i}[n + {i}]; a{i}[n + {i} - 1] = {i};" for i in range(20)) + " long s = 0; " + " ".join(f"s = s * 3 + a{i}[n + {i} - 1] + sizeof a{i};" for i in range(20)) + " O(s);",
 "struct return with vla live": "int n = 5; char a[n]; use(a, n); struct T t = mk$(3); char b[n]; use(b, n); struct T u = mk$(t.b); O(t.a + u.a); O(t.b + u.b); O(a[4] + b[4]); O(mk$(7).c[1]);",
 "indirect call with vla live": "int n = 5; char a[n]; use(a, n); int (*f)(int) = id; O(f(3) + f(f(4)) * a[4]); char *p = alloca(12); use(p, 12); O(f(p[11])); O(sum10(f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10)));",
}
def params(c):
    """run-time bounds in parameters: every outer form x every mix of inner dimensions, bounds from parameters, globals and expressions"""
    OUT = ["[]", "[{n}]", "[static {n}]", "[const {n}]", "[restrict static {n}]", "*", "[({n})++ ? 2 : 1]"]
    for e in ELEM if c.thorough else "csilt":
        ty, cast = ELEM[e]
        for nd in (1, 2, 3):
            for out in OUT:
                for kinds in itertools.product("cvg", repeat=nd - 1):
                    for dims in itertools.product((2, 3) if nd > 1 else (3,), repeat=nd):
                        if nd == 3 and e not in "it": continue
                        for lead in ("", "long x0, double x1, struct T x2, ", "int x0, int x1, int x2, int x3, int x4, int x5, int x6, "):
                            inner = "".join(f"[{d}]" if k == "c" else f"[n{i + 1}]" if k == "v" else f"[gn{i + 1}]" for i, (k, d) in enumerate(zip(kinds, dims[1:])))
                            star = "".join(f"[{d}]" if k == "c" else "[*]" for k, d in zip(kinds, dims[1:]))
                            ns = "".join(f"int n{i}, " for i in range(nd))
                            o = out.format(n="n0")
                            par = f"{ty} (*a){inner}" if out == "*" else f"{ty} a{o}{inner}"
                            proto = f"{ty} (*){star}" if out == "*" else f"{ty} a[*]{star}"
                            idx = "ijk"[:nd]
                            loops = "".join(f"for (int {x} = 0; {x} < {d}; {x}++)" for x, d in zip(idx, dims))
                            sub = "".join(f"[{x}]" for x in idx)
                            lin = "0"
                            for i, x in enumerate(idx): lin = f"({lin}) * {dims[i]} + {x}"
                            m = ".b" if cast is None else ""
                            t = "O(n0);" + "".join(f"O(sizeof a{'[0]' * q});" for q in range(nd + 1)) + f"{loops} O((char *)&a{sub} - (char *)a); {loops} a{sub}{m} = {cast if cast else ''}({lin} + 3); O((char *)(a + 1) - (char *)a); O((a + 1) - a);"
                            t += "".join(f"n{i} += 5;" for i in range(nd)) + ("" if nd == 1 else "O(sizeof *a); O((char *)(a + 2) - (char *)a); typeof(*a) b; O(sizeof b); typeof(*a) *p = a; p++; O((char *)p - (char *)a);") + f"{loops} O((long)a{sub}{m}); O(last);"
                            args = {"": "", "l": "1, 2.5, tt, ", "i": "1, 2, 3, 4, 5, 6, 7, "}[lead[:1]]
                            call = f"f$({args}{''.join(f'{d}, ' for d in dims)}(void *)a, 42)"
                            fixed = "".join(f"[{d}]" for d in dims)
                            yield Case(f"parameter {e} {par} {dims} after {lead or 'nothing'}", f"struct T tt = {{1}}; {ty} a{fixed}; gn1 = {dims[1] if nd > 1 else 0}; gn2 = {dims[2] if nd > 2 else 0}; O({call});" + f"{loops} O((long)a{sub}{m});",
                                       f"static int f$({lead}{ns}{proto}, int last); static int f$({lead}{ns}{par}, int last) {{ {t} return 5; }}", steps=6)


def rules(c):
    aux = "static int f$(int n) { char a[n]; use(a, n); if (n > 3) { int b[n]; b[n - 1] = a[n - 1]; return b[n - 1]; } return a[0] + 100; } static int g$(int n) { int a[n + 1]; a[0] = n; a[n] = n * 2; int r = n ? g$(n - 1) : 0; char b[n + 2]; use(b, n + 2); return r * 2 + a[0] + a[n] + b[n + 1]; } static struct T mk$(int x) { char z[x]; use(z, x); struct T t; t.a = x; t.b = x * 2; t.c[1] = z[x - 1]; return t; }"
    for k, b in R.items():
        yield Case(f"rule {k}", b, aux if "$" in b else "", steps=b.count("O("))

def body(c):
    d = Diff(c, prelude=PRE, gcc_flags=["-Dalloca=__builtin_alloca"])
    d.run(rules(c), size=10)
    d.run(shapes(c), size=150)
    d.run(params(c), size=150)
    d.run(histories(c), size=150)
    c.extra["bounds"] = f"all shapes of up to 3 dimensions, each fixed or run-time, x 9 element types x sizes {'1,2,3,5,8' if c.thorough else '1..3'}; all histories of up to {4 if c.thorough else 3} operations over {len(OPS)} allocation forms with every live region checked after every operation, in recursion; {len(R)} further rules"
main("C16", body)
