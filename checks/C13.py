"""C13: calls pass and return every value as the platform ABI does, between any mix of toycc and gcc code."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
import exprs

SC = {"c": "signed char", "uc": "unsigned char", "s": "short", "us": "unsigned short", "i": "int", "u": "unsigned", "l": "long", "ul": "unsigned long", "b": "_Bool", "p": "char *", "f": "float", "d": "double", "L": "long double"}
ST = {"S1": "char a;", "S2": "short a;", "S3": "char a[3];", "S4": "int a;", "S5": "char a[5];", "S6": "short a[3];", "S7": "char a[7];", "S8": "long a;", "S8p": "int a; char b; short c;", "S9": "char a[9];", "S11": "char a[11];", "S12": "int a[3];", "S13": "char a[13];", "S15": "char a[15];", "S16": "long a; long b;",
      "S16p": "char a; long b;", "S17": "char a[17];", "S24": "long a[3];", "S20": "int a[5];", "S40": "long a; char b[29];", "S100": "char a[100];", "SA": "_Alignas(16) long a[2];", "SA2": "_Alignas(16) char a;", "Sb": "int a : 3; long b : 40;"}
UN = {"UL": "long double a; int b;", "U8": "long a; char b;", "U12": "int a[3]; char b;", "U24": "char a[24]; int b;", "Uf": "float a; int b;", "Ud": "double a;"}
FS = {"Ff": "float a;", "Fd": "double a;", "Fff": "float a, b;", "Fdd": "double a, b;", "Ffd": "float a; double b;", "Fdi": "double a; int b;", "Fil": "int b; float a;", "Flf": "long b; float a;", "Ffc": "float a; char b;", "Fddd": "double a, b, c;", "Ffff": "float a, b, c;", "Fa2": "float a[2];", "Fn": "struct { float x; } a; double b;", "Fe": "struct {} e; float a;", "Fb": "float a; int b : 5;", "FA": "_Alignas(16) double a;", "FL": "long double a;", "FLi": "int b; long double a;"}
DEFS = "".join(f"struct {k} {{ {v} }};" for k, v in list(ST.items()) + list(FS.items())) + "".join(f"union {k} {{ {v} }};" for k, v in UN.items())
TY = dict(SC)
TY.update({k: f"struct {k}" for k in list(ST) + list(FS)})
TY.update({k: f"union {k}" for k in UN})
VAL = {"c": ["-5", "127", "-128"], "uc": ["251", "128", "7"], "s": ["-300", "32767", "-32768"], "us": ["65531", "32768", "9"], "i": ["-70000", "2147483647", "-2147483647-1"], "u": ["4294900000u", "2147483648u", "11"], "l": ["-5000000000L", "0x123456789abcdefL", "-1"], "ul": ["0xfedcba9876543210u", "1", "0x8000000000000000u"], "b": ["1", "0", "1"],
       "p": ["(char *)0x1234567890", "(char *)0", "(char *)-1L"], "f": ["1.5f", "-0.1f", "3e38f"], "d": ["-2.25", "0.1", "1e300"], "L": ["-2.25L", "1048577.0625L", "1e18L"]}

def val(t, i):
    return VAL[t][i % 3] if t in VAL else f"g_{t}[{i % 3}]"

def obs(t, v):
    if t in VAL:
        return {"f": f"OF({v});", "d": f"OD({v});", "L": f"OD((double)({v}));"}.get(t, f"O((long){v});")
    return f"OB(&{v}, sizeof {v});" if t not in ("S16p", "S8p", "S40", "SA2", "Sb") and t not in FS else members(t, v)

def members(t, v):
    return {"SA2": f"O({v}.a);", "Sb": f"O({v}.a); O({v}.b);", "S16p": f"O({v}.a); O({v}.b);", "S8p": f"O({v}.a); O({v}.b); O({v}.c);", "S40": f"O({v}.a); OB({v}.b, 29);", "Ff": f"OF({v}.a);", "Fd": f"OD({v}.a);", "Fff": f"OF({v}.a); OF({v}.b);", "Fdd": f"OD({v}.a); OD({v}.b);", "Ffd": f"OF({v}.a); OD({v}.b);", "Fdi": f"OD({v}.a); O({v}.b);", "Fil": f"O({v}.b); OF({v}.a);",
            "Flf": f"O({v}.b); OF({v}.a);", "Ffc": f"OF({v}.a); O({v}.b);", "Fddd": f"OD({v}.a); OD({v}.b); OD({v}.c);", "Ffff": f"OF({v}.a); OF({v}.b); OF({v}.c);", "Fa2": f"OF({v}.a[0]); OF({v}.a[1]);", "Fn": f"OF({v}.a.x); OD({v}.b);", "Fe": f"OF({v}.a);", "Fb": f"OF({v}.a); O({v}.b);", "FA": f"OD({v}.a);", "FL": f"OD((double){v}.a);", "FLi": f"O({v}.b); OD((double){v}.a);"}[t]

def spoil(t, v):
    return f"{v} = 0;" if t in VAL else f"Z(&{v}, sizeof {v});"

def sig(key, ps, ret="i"):
    """one function of this signature: the callee observes and then destroys its parameters, the caller's objects must survive"""
    args = ", ".join(f"{TY[t]} p{i}" for i, t in enumerate(ps)) or "void"
    dec = f"{TY[ret] if ret != 'v' else 'void'} f$({args});"
    callee = f"{TY[ret] if ret != 'v' else 'void'} f$({args}) {{ " + " ".join(obs(t, f"p{i}") for i, t in enumerate(ps)) + " " + " ".join(spoil(t, f"p{i}") for i, t in enumerate(ps)) + (f" return {val(ret, len(ps))};" if ret != "v" else "") + " }"
    av = [val(t, i) for i, t in enumerate(ps)]
    call = f"f$({', '.join(av)})"
    if ret == "v":
        b = f"{call};"
    else:
        b = f"{TY[ret]} r = {call}; {obs(ret, 'r')}"
    # from locals, and again through a function pointer, with something pending on the stack
    loc = " ".join(f"{TY[t]} v{i} = {a};" for i, (t, a) in enumerate(zip(ps, av)))
    call2 = f"fp({', '.join(f'v{i}' for i in range(len(ps)))})"
    b2 = f"{loc} {TY[ret] if ret != 'v' else 'void'} (*fp)({args}) = f$; " + (f"{call2};" if ret == "v" else f"{TY[ret]} q = {call2}; {obs(ret, 'q')}") + " " + " ".join(obs(t, f"v{i}") for i, t in enumerate(ps) if t not in VAL)
    b3 = ""
    if ret in VAL and ret not in ("p",):
        b3 = f"{{ long w = one; {'OD' if ret in 'fd' else 'O'}(w + ((w + 1) * {call})); {'OD' if ret in 'fd' else 'O'}({call} + {call}); }}" if ret not in ("f", "d", "l", "ul", "u", "i") else f"{{ long w = one; {'OD' if ret in 'fd' else 'O'}(w + {call}); }}"
    elif ret not in VAL and ret != "v":
        b3 = f"{{ {TY[ret]} z[2]; z[one] = {call}; {obs(ret, 'z[1]')} (*&z[0]) = {call}; {obs(ret, 'z[0]')} id_{ret}({call}); }}"
    return Case(key, f"{{ {b} }} {{ {b2} }} {b3}", dec, steps=3 * max(1, len(ps)), ref=callee)

def cases(c):
    allt = list(SC) + list(ST) + list(UN) + list(FS)
    for r in ["v"] + allt:
        yield sig(f"ret {r}()", [], r)
        for p in ("i", "l", "d", "S3", "S16", "S24"):
            yield sig(f"ret {r}({p})", [p], r)
        yield sig(f"ret {r}(9i)", ["i"] * 9, r)
        yield sig(f"ret {r}(8d1f)", ["d"] * 8 + ["f"], r)
    for t in allt:
        yield sig(f"arg {t}", [t])
    two = allt
    for a, b in itertools.product(two, repeat=2):
        yield sig(f"args {a},{b}", [a, b])
    core = ["uc", "l", "f", "d", "S3", "S12", "S16", "S17", "Fdd", "Ffc"]
    for ps in itertools.product(core if c.thorough else core[1:8] + core[9:], repeat=3):
        yield sig(f"args {','.join(ps)}", list(ps))
    if c.thorough:
        for ps in itertools.product(["i", "d", "S12", "S24", "Fdi"], repeat=4):
            yield sig(f"args {','.join(ps)}", list(ps))
    # register exhaustion: k integers and m doubles first
    for t in allt:
        for k in range(0, 11):
            for fill in ("l", "d", "ld"):
                if fill == "ld" and k not in (7, 8, 9): continue
                pre = ["l"] * k if fill == "l" else ["d"] * k if fill == "d" else ["l"] * k + ["d"] * k
                yield sig(f"fill {fill}*{k} {t}", pre + [t, "i"])
                if c.thorough or k in (6, 7, 8):
                    for t2 in ("c", "f", "S3", "S16", "S24", "Fdd"):
                        yield sig(f"fill {fill}*{k} {t},{t2}", pre + [t, t2, "s"])
                        yield sig(f"fillret {fill}*{k} {t},{t2}", pre + [t, t2, "us"], "S24")
    for mix in itertools.product("ld", repeat=10 if c.thorough else 9):
        yield sig(f"mix {''.join(mix)}", [{"l": "i", "d": "f"}[m] if i % 3 else m for i, m in enumerate(mix)] + ["c", "d", "us"])
    for n in (10, 12, 16, 17, 20, 32, 33, 64):
        for t in ("c", "us", "i", "l", "f", "d", "S3", "S12", "S16", "S24"):
            yield sig(f"many {n}{t}", [t] * n)
    # nested calls: arguments that are themselves calls, at every position
    for n in (1, 2, 3, 8, 9, 10):
        for pos in range(n):
            for t in ("l", "d", "S3", "S16", "S24"):
                ps = ["i"] * n
                ps[pos] = t
                args = ", ".join(f"{TY[x]} p{i}" for i, x in enumerate(ps))
                dec = f"int f$({args}); {TY[t]} g$(int k, {TY[t]} x);"
                callee = f"int f$({args}) {{ " + " ".join(obs(x, f"p{i}") for i, x in enumerate(ps)) + f" return p{0 if pos else n - 1 if n > 1 else 0} ? 3 : 4; }}" if (n > 1) else f"int f$({args}) {{ {obs(t, 'p0')} return 3; }}"
                callee += f" {TY[t]} g$(int k, {TY[t]} x) {{ O(k); return x; }}"
                av = [f"{i + 1}" for i in range(n)]
                av[pos] = f"g$(7, g$(8, {val(t, 1)}))"
                av2 = list(av)
                av2[pos] = f"g$(f$({', '.join(av)}), {val(t, 2)})"
                yield Case(f"nested {n} {pos} {t}", f"O(f$({', '.join(av)})); O(10 + f$({', '.join(av)}));" + (f" O(f$({', '.join(av2)}));" if n > 1 and n < 9 else ""), dec, steps=3 * n, ref=callee)
    # struct results used in place, and struct arguments built in place
    for t in list(ST) + list(UN) + list(FS):
        T = TY[t]
        dec = f"{T} f$(int k); int h$({T} a, int n, {T} b);"
        callee = f"{T} f$(int k) {{ {T} r = g_{t}[k]; return r; }} int h$({T} a, int n, {T} b) {{ {obs(t, 'a')} O(n); {obs(t, 'b')} return n + 1; }}"
        m0 = "a[0]" if "a[" in (ST.get(t) or UN.get(t) or FS.get(t)) else "a" if t != "Fn" else "b"
        yield Case(f"use {t}", f"OD((double)f$(1).{m0} + 0.0); O(h$(f$(0), one, f$(2))); O(h$(f$(0), h$(f$(1), 5, f$(2)), f$(1))); {T} a = f$(0), b; b = f$(1); {obs(t, 'a')} {obs(t, 'b')} O(h$(one ? a : b, 1, one ? b : a)); O(h$((a = b), 2, (0, b))); {T} *p = &a; *p = f$(2); {obs(t, 'a')} O(h$(*p, 3, g_{t}[1])); {T} v[3] = {{ f$(0), f$(1) }}; v[2] = f$(2); {obs(t, 'v[0]')} {obs(t, 'v[1]')} {obs(t, 'v[2]')} struct {{ char x; {T} m; char y; }} w = {{ 1, f$(1), 2 }}; {obs(t, 'w.m')} O(w.x + w.y); w.m = f$(0); {obs(t, 'w.m')} O(w.x + w.y); O(h$(w.m, 4, ({{ f$(1); }}))); f$(0); (void)f$(1); {T} (*fp)(int) = f$; {T} z = fp(1); {obs(t, 'z')} z = (*fp)(2); {obs(t, 'z')}", dec, steps=20, ref=callee)
        yield Case(f"recurse {t}", f"{T} q = r$(5, g_{t}[0]); {obs(t, 'q')}", f"{T} r$(int n, {T} x); {T} s$(int n, {T} x);", steps=6, ref=f"{T} r$(int n, {T} x) {{ {T} y = x; O(n); if (n) y = s$(n - 1, g_{t}[n % 3]); {obs(t, 'x')} {obs(t, 'y')} return n & 1 ? x : y; }} {T} s$(int n, {T} x) {{ if (n) return r$(n - 1, x); return x; }}")
    # large frames: parameters and results far from the frame pointer
    for n in (100, 1000, 1900, 2000, 2020, 2040, 2048, 2100, 4000, 5000):
        for t in ("c", "i", "l", "f", "d", "S3", "S12", "S16", "S24", "S40", "Fdd", "Ffc"):
            T = TY[t]
            yield Case(f"frame {n} {t}", f"{T} r = f$({val(t, 0)}, {val(t, 1)}, 3, 1.5); {obs(t, 'r')} char pad[{n}]; pad[0] = 1; pad[{n - 1}] = 2; {T} q = f$({val(t, 1)}, {val(t, 2)}, pad[{n - 1}], pad[0]); {obs(t, 'q')} {T} z[2]; z[one] = f$(q, r, 4, 2.5); {obs(t, 'z[1]')} O(pad[0] + pad[{n - 1}]);",
                       f"{T} f$({T} a, {T} b, int k, double d);", steps=6, ref=f"static {T} h$({T} x) {{ return x; }} {T} f$({T} a, {T} b, int k, double d) {{ char pad[{n}]; pad[0] = k; pad[{n - 1}] = k + 1; {obs(t, 'a')} {obs(t, 'b')} O(k); OD(d); {T} y = h$(b); O(pad[0] + pad[{n - 1}]); {obs(t, 'y')} {T} w[2]; w[0] = h$(a); w[1] = y; return pad[0] > 3 ? w[0] : w[1]; }}")
    for n in (1, 100, 1000, 2000, 2040, 2047, 2048, 2049, 3000, 5000):
        yield Case(f"big struct {n}", f"struct B$ a, b; for (int i = 0; i < {n}; i++) {{ a.x[i] = i * 7; b.x[i] = i * 13; }} a.k = 5; b.k = 6; struct B$ r = f$(a, b, 3); OB(&r.x, {n}); O(r.k); r = f$(r, f$(b, a, 1), 4); OB(&r.x, {n}); O(r.k); O(f$(a, b, 9).k); O(a.x[{n - 1}]); O(g$(a, f$(a, b, 2), a).x[{n // 2}]);",
                   f"struct B$ {{ char x[{n}]; int k; }}; struct B$ f$(struct B$ p, struct B$ q, int k); struct B$ g$(struct B$ p, struct B$ q, struct B$ r);", steps=5, ref=f"struct B$ f$(struct B$ p, struct B$ q, int k) {{ OB(p.x, {n}); OB(q.x, {n}); O(p.k + q.k + k); p.x[0]++; p.k += k; q.k = 0; return k & 1 ? p : q; }} struct B$ g$(struct B$ p, struct B$ q, struct B$ r) {{ O(p.k + q.k * 10 + r.k * 100); q.x[{n // 2}] = 4; return q; }}")
    for k in range(0, 10):
        for t in ("i", "d", "S16", "Fdd"):
            args = ", ".join(["long q%d" % i for i in range(k)] + ["struct E$ e", f"{TY[t]} p", "struct E$ e2", "int z"])
            av = ", ".join([str(i) for i in range(k)] + ["e", val(t, 1), "e$()", "7"])
            yield Case(f"empty {k} {t}", f"struct E$ e; e = e$(); O(f$({av})); O(sizeof e);", f"struct E$ {{}}; struct E$ e$(void); int f$({args});", steps=k + 3, ref=f"struct E$ e$(void) {{ struct E$ x; return x; }} int f$({args}) {{ {' '.join('O(q%d);' % i for i in range(k))} {obs(t, 'p')} O(z); return z; }}")
    # calls through unprototyped-looking pointers in tables, struct members and returned pointers
    yield Case("fn tables", "int (*t[3])(int, double) = { a$, b$, a$ }; for (int i = 0; i < 3; i++) O(t[i](i, i + 0.5)); struct { int (*m)(int, double); } s = { b$ }; O(s.m(1, 2.0)); O(pick$(0)(3, 1.0) + pick$(1)(3, 1.0)); O((one ? a$ : b$)(4, 4.0)); O(apply$(a$, 6)); O(apply$(b$, 6)); int (**pp)(int, double) = t; O((*pp)(1, 1.0)); O((**pp)(1, 1.0)); O(pp[1](1, 1.0));",
               "int a$(int, double); int b$(int, double); int (*pick$(int))(int, double); int apply$(int (*)(int, double), int);", ref="int a$(int x, double y) { return x * 10 + y; } int b$(int x, double y) { return x - y; } int (*pick$(int k))(int, double) { return k ? a$ : b$; } int apply$(int (*f)(int, double), int n) { return f(n, n / 2.0) + f(n + 1, 1); }")

# members a struct can be made of: declaration, and pairs of value and observation for each scalar in it
MEM = {"c": ("char @;", [("@", "O", "-7")]), "i": ("int @;", [("@", "O", "70001")]), "l": ("long @;", [("@", "O", "-5000000001L")]), "f": ("float @;", [("@", "OF", "1.25f")]), "d": ("double @;", [("@", "OD", "-2.75")]), "b": ("int @ : 3;", [("@", "O", "-2")]), "ub": ("unsigned char @ : 5;", [("@", "O", "19")]), "lb": ("long @ : 40;", [("@", "O", "-77777777777L")]),
       "z": ("int : 0;", []), "u": ("int : 7;", []), "f1": ("float @[1];", [("@[0]", "OF", "0.5f")]), "f2": ("float @[2];", [("@[0]", "OF", "0.125f"), ("@[1]", "OF", "8.5f")]), "e": ("struct {} @;", []), "sf": ("struct { float x; } @;", [("@.x", "OF", "3.5f")]), "sfi": ("struct { float x; int y : 4; } @;", [("@.x", "OF", "4.5f"), ("@.y", "O", "-3")]), "sd": ("struct { struct { double x; } y; } @;", [("@.y.x", "OD", "9.5")]), "uf": ("union { float x; } @;", [("@.x", "OF", "2.5f")]),
       "p": ("float *@;", [("@", "O", "(float *)1234567")]), "B": ("_Bool @;", [("@", "O", "1")]), "A": ("_Alignas(8) float @;", [("@", "OF", "7.5f")]), "an": ("union { int @; };", [("@", "O", "88")]), "af": ("struct { float @; };", [("@", "OF", "6.5f")])}

def shapes(c):
    small = ["c", "i", "f", "d", "b", "z", "e", "sf", "l"]
    for ms in itertools.chain.from_iterable([itertools.product(MEM, repeat=1), itertools.product(MEM, repeat=2), itertools.product(MEM if c.thorough else small, repeat=3)]):
        decl, sc = "", []
        for i, m in enumerate(ms):
            decl += " " + MEM[m][0].replace("@", f"m{i}")
            sc += [tuple(x.replace("@", f"m{i}") for x in q) for q in MEM[m][1]]
        T = "struct T$"
        ob = lambda v: " ".join(f"{o}((long){v}.{n});" if o == "O" else f"{o}({v}.{n});" for n, o, _ in sc)
        st = lambda v: " ".join(f"{v}.{n} = {x};" for n, _, x in sc)
        l7, d7 = ", ".join(f"long q{i}" for i in range(7)), ", ".join(f"double q{i}" for i in range(7))
        dec = f"{T} {{{decl} }}; {T} r$({T} a); int f$(int k, {T} a, float g, {T} b); int l$({l7}, {T} a, int z, float y); int d$({d7}, {T} a, double z, long y);"
        ref = f"{T} r$({T} a) {{ {ob('a')} return a; }} int f$(int k, {T} a, float g, {T} b) {{ O(k); {ob('a')} OF(g); {ob('b')} return 3; }} int l$({l7}, {T} a, int z, float y) {{ {ob('a')} O(z + q6); OF(y); return 4; }} int d$({d7}, {T} a, double z, long y) {{ {ob('a')} OD(z + q6); O(y); return 5; }}"
        b = f"{T} a, b; {st('a')} b = r$(a); {ob('b')} O(f$(1, a, 2.5f, b)); O(l$(1,2,3,4,5,6,7, a, 8, 9.5f)); O(d$(1,2,3,4,5,6,7, a, 8.5, 9)); O(f$(4, r$(b), 1.5f, r$(a))); O(sizeof a);"
        yield Case(f"shape {' '.join(ms)}", b, dec, steps=6, ref=ref)

def body(c):
    c.assumptions = ["riscv64 gcc implements the LP64D psABI"]
    vt = "".join(f"extern {TY[t]} g_{t}[3];" for t in list(ST) + list(UN) + list(FS))
    helper = PRELUDE + DEFS + "int one = 1; void Z(void *p, long n) { char *q = p; while (n-- > 0) *q++ = 0; }\n" + "".join(f"{TY[t]} g_{t}[3]; void id_{t}({TY[t]} x) {{ {obs(t, 'x')} }}\n" for t in list(ST) + list(UN) + list(FS)) + \
        "static void fill(void *p, long n, int s) { unsigned char *q = p; for (long i = 0; i < n; i++) q[i] = (s * 37 + i * 11 + 129); }\n__attribute__((constructor)) static void init(void) {" + "".join(f"fill(g_{t}, sizeof g_{t}, {i});" for i, t in enumerate(list(ST) + list(UN))) + \
        "".join(f"for (int i = 0; i < 3; i++) {{ {x} }}" for x in ["g_Ff[i].a = i + .5f;", "g_Fd[i].a = i - .25;", "g_Fff[i].a = i + 1.5f; g_Fff[i].b = -i;", "g_Fdd[i].a = i * 1.1; g_Fdd[i].b = i - 7;", "g_Ffd[i].a = i + .1f; g_Ffd[i].b = i * 3.3;", "g_Fdi[i].a = i * .7; g_Fdi[i].b = i - 2;", "g_Fil[i].a = i * .7f; g_Fil[i].b = i - 2;", "g_Flf[i].a = i * .7f; g_Flf[i].b = i * 5000000000L - 3;", "g_Ffc[i].a = i + 2.5f; g_Ffc[i].b = -i;", "g_Fddd[i].a = i; g_Fddd[i].b = i + 1.5; g_Fddd[i].c = -i;", "g_Ffff[i].a = i; g_Ffff[i].b = i + 1.5; g_Ffff[i].c = -i;", "g_Fa2[i].a[0] = i; g_Fa2[i].a[1] = i + .5f;", "g_Fe[i].a = i + 4.5f;", "g_Fb[i].a = i * .5f; g_Fb[i].b = i - 3;", "g_FA[i].a = i * 3.5;", "g_FL[i].a = i * 5.25L;", "g_FLi[i].b = i + 77; g_FLi[i].a = i * -5.25L;", "g_Fn[i].a.x = i * 2; g_Fn[i].b = i * .3;"]) + " }\n"
    pre = PRELUDE + DEFS + "extern int one; void Z(void *, long);\n" + vt + "".join(f"void id_{t}({TY[t]} x);" for t in list(ST) + list(UN) + list(FS)) + "\n"
    d = PairDiff(c, prelude=pre, helper=helper, regs=True)
    d.run(cases(c), size=150)
    d = PairDiff(c, prelude=PRELUDE, helper="", regs=True)
    d.run(shapes(c), size=150)
    # every kind of expression as an argument and as the value of a return statement
    d = PairDiff(c, prelude=PRELUDE + exprs.PRE + exprs.PRE_EXT, helper="int one = 1, zero;", regs=True)
    d.run([Case(k, b, ds, steps=n, ref=peer) for t in exprs.ALL for vi in ((0, 1) if c.thorough else (0,)) for k, ds, b, peer, n in exprs.calls(t, vi)], size=30)
    c.extra["bounds"] = f"all signatures of 1 and 2 parameters over {len(TY)} types, 3 over a core, every type at every register/stack position 0..10 after integer and floating fillers, all 2^9 int/float interleavings, up to 64 parameters, all return types, all structs of up to 2 members of 22 kinds and 3 of 9 kinds, nested and in-place uses, frames and structs up to 5000 bytes; caller and callee compiled by every mix of toycc and gcc"
main("C13", body)
