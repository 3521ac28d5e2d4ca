"""C15: variadic functions receive every argument list intact, between any mix of toycc and gcc code and the C library."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
import exprs

ST = {"S1": "char a[1];", "S3": "char a[3];", "S8": "long a;", "S9": "char a[9];", "S16": "long a[2];", "S17": "char a[17];", "S24": "long a[3];", "Fd": "double a;", "Ff": "float a;", "Fdd": "double a, b;", "Fdi": "double a; long b;", "SA": "_Alignas(16) long a[2];", "SL": "long double a;"}
DEFS = "".join(f"struct {k} {{ {v} }};" for k, v in ST.items()) + "union U { double d; long l; char c[12]; };\n"
# name -> (type of the argument expression, type for va_arg, three values)
A = {"i": ("int", "int", ["-5", "2147483647", "77"]), "u": ("unsigned", "unsigned", ["4294967291u", "3", "2147483648u"]), "l": ("long", "long", ["-5000000000L", "1", "0x7fffffffffffffffL"]), "ul": ("unsigned long", "unsigned long", ["0xfedcba9876543210u", "2", "1"]),
     "c": ("signed char", "int", ["-7", "127", "-128"]), "uc": ("unsigned char", "int", ["200", "0", "255"]), "s": ("short", "int", ["-300", "32767", "-1"]), "us": ("unsigned short", "int", ["65535", "32768", "1"]), "b": ("_Bool", "int", ["1", "0", "1"]),
     "f": ("float", "double", ["1.5f", "-0.1f", "3e38f"]), "d": ("double", "double", ["-2.25", "0.1", "1e300"]), "L": ("long double", "long double", ["-2.25L", "1048577.0625L", "3"]), "p": ("char *", "char *", ["(char *)0x123456789", "(char *)0", "(char *)-1L"]), "e": ("enum E", "int", ["E1", "E2", "E1"]),
     "ll": ("long long", "long long", ["-1", "1LL << 62", "5"])}
for k in ST:
    A[k] = (f"struct {k}", f"struct {k}", [f"g_{k}[{i}]" for i in range(3)])
A["U"] = ("union U", "union U", [f"g_U[{i}]" for i in range(3)])
AGG = list(ST) + ["U"]

def obs(t, v):
    ty = A[t][1]
    if t in ("Fdi",): return f"OD({v}.a); O({v}.b);"
    if t == "SL": return f"OD((double){v}.a);"
    if t in AGG: return f"OB(&{v}, sizeof {v});"
    if ty in ("double", "long double"): return f"OD((double){v});"
    return f"O((long){v});"

def get(ap, t, n):
    return f"{A[t][1]} {n} = va_arg({ap}, {A[t][1]}); {obs(t, n)}"

def sig(key, named, var, how="direct"):
    ps = ", ".join(f"{A[t][0]} p{i}" for i, t in enumerate(named))
    last = f"p{len(named) - 1}"
    nobs = " ".join(obs(t, f"p{i}") for i, t in enumerate(named))
    gets = " ".join(get("ap", t, f"w{i}") for i, t in enumerate(var))
    dec = f"int f$({ps}, ...);"
    pre, b = "", ""
    if how == "direct":
        b = f"va_list ap; va_start(ap, {last}); {gets} va_end(ap);"
    elif how == "forward":          # the list is consumed by another function
        pre = f"static void g$(va_list ap) {{ {gets} }} "
        b = f"va_list ap; va_start(ap, {last}); g$(ap); va_end(ap);"
    elif how == "pointer":          # consumed partly by another function through a pointer
        pre = f"static void g$(va_list *ap) {{ {get('*ap', var[0], 'z')} }} " if var else ""
        b = f"va_list ap; va_start(ap, {last}); " + ("g$(&ap); " if var else "") + " ".join(get("ap", t, f"w{i}") for i, t in enumerate(var[1:])) + " va_end(ap);"
    elif how == "copy":             # copied at every point, and the copy read to the end
        b = f"va_list ap; va_start(ap, {last}); "
        for i in range(len(var) + 1):
            b += f"{{ va_list aq; va_copy(aq, ap); " + " ".join(get("aq", t, f"c{j}") for j, t in enumerate(var[i:])) + " va_end(aq); }"
            if i < len(var): b += get("ap", var[i], f"w{i}")
        b += " va_end(ap);"
    elif how == "twice":            # traversed twice, named parameters intact afterwards
        b = f"va_list ap; va_start(ap, {last}); {gets} va_end(ap); {{ va_start(ap, {last}); {gets} va_end(ap); }} {nobs}"
    elif how == "struct":           # the list lives in a struct, arguments used in expressions
        b = f"struct {{ int k; va_list ap; }} s = {{ 3 }}; va_start(s.ap, {last}); " + " ".join(get("s.ap", t, f"w{i}") for i, t in enumerate(var)) + " O(s.k); va_end(s.ap);"
    callee = f"{pre}int f$({ps}, ...) {{ int guard = 42; {nobs} {b} return guard; }}"
    av = ", ".join(A[t][2][i % 3] for i, t in enumerate(named)) + "".join(f", {f'({A[t][0]})' if t not in AGG else ''}{A[t][2][(i + 1) % 3]}" for i, t in enumerate(var))
    loc = " ".join(f"{A[t][0]} v{i} = {A[t][2][(i + 1) % 3]};" for i, t in enumerate(var))
    lv = ", ".join(A[t][2][i % 3] for i, t in enumerate(named)) + "".join(f", v{i}" for i in range(len(var)))
    return Case(key, f"O(f$({av})); {{ {loc} int (*fp)({ps}, ...) = f$; O(1 + fp({lv})); }}", dec, steps=2 * (len(named) + len(var)), ref=callee)

def cases(c):
    ts = list(A)
    # every kind after k integer / floating / mixed named parameters, followed by another argument
    for t in ts:
        for k in range(1, 11):
            yield sig(f"after {k}l {t}", ["l"] * k, [t, "i"])
            yield sig(f"after {k}d {t}", ["d"] * k, [t, "d"])
            if c.thorough:
                yield sig(f"after {k}l,d {t}", (["l", "d"] * k)[:k], [t, "l", t])
                yield sig(f"after 2{t} in {k}", ["i"], ["i"] * k + [t, t])
        yield sig(f"named {t}", [t, "i"] if t in ("c", "uc", "s", "us", "b", "f") else [t], ["i", "d", "S24", "l"])
        for k in range(0, 9):
            yield sig(f"pos {k} {t}", ["i"], ["d" if j & 1 else "i" for j in range(k)] + [t, "p", t])
    for a, b in itertools.product(ts, repeat=2):
        yield sig(f"pair {a},{b}", ["p"], [a, b, "i"])
        if a in AGG or b in AGG or a == "L" or b == "L":
            yield sig(f"odd pair {a},{b}", ["i", "l"], [a, b, "i"])
            yield sig(f"late pair {a},{b}", ["i"] * 5, [a, b, "d", "i"])
    core = ["i", "d", "S3", "S9", "S24", "L", "SA"]
    for n in (3, 4) if c.thorough else (3,):
        for v in itertools.product(core, repeat=n):
            yield sig("seq " + ",".join(v), ["i"], list(v))
    for how in ("forward", "pointer", "copy", "twice", "struct"):
        for t in ts:
            for k in (1, 5, 7, 8, 9):
                yield sig(f"{how} {k} {t}", ["l"] * k, [t, "i", t, "d"], how)
        for n in (1, 2, 3) if c.thorough else (1, 2):
            for v in itertools.product(["i", "d", "S16", "S24", "L"], repeat=n):
                yield sig(f"{how} seq " + ",".join(v), ["i"], list(v), how)
    for n in (9, 16, 17, 40, 100):
        for t in ("i", "d", "S3", "S16", "S24", "L"):
            yield sig(f"many {n}{t}", ["i"], [t] * n)
            yield sig(f"many {n}{t} copy", ["i", "d"], [t] * min(n, 12), "copy")
    # large frames around a variadic call
    for n in (1900, 2030, 2048, 5000):
        for t in ("i", "d", "S9", "S24", "L"):
            yield Case(f"frame {n} {t}", f"char pad[{n}]; pad[0] = 7; pad[{n - 1}] = 9; O(f$(1, {A[t][2][0]}, {A[t][2][1]}, 5)); O(pad[0] + pad[{n - 1}]);", "int f$(int a, ...);", steps=4,
                       ref=f"int f$(int a, ...) {{ char pad[{n}]; pad[0] = 1; pad[{n - 1}] = 2; va_list ap; va_start(ap, a); {get('ap', t, 'x')} {get('ap', t, 'y')} {get('ap', 'i', 'z')} va_end(ap); return pad[0] + pad[{n - 1}] + a; }}")
    # the expressions a list is read in
    yield Case("loops", "O(sum$(0)); O(sum$(1, 5L)); O(sum$(5, 1L, 2L, 3L, 4L, 5L)); O(sum$(12, 1L, 2L, 3L, 4L, 5L, 6L, 7L, 8L, 9L, 10L, 11L, 12L)); OD(dsum$(10, .5, 1.5, 2.5, 3.5, 4.5, 5.5, 6.5, 7.5, 8.5, 9.5)); O(rec$(3, 1, 2, 3)); O(first$(\"ab\", 1, 2) + first$(\"\", 3));",
               "long sum$(int n, ...); double dsum$(int n, ...); int rec$(int n, ...); int first$(const char *s, ...);", steps=30,
               ref="long sum$(int n, ...) { va_list ap; va_start(ap, n); long s = 0; while (n-- > 0) s = s * 3 + va_arg(ap, long); va_end(ap); return s; } double dsum$(int n, ...) { va_list ap; double s = 0; va_start(ap, n); for (; n; n--) s += va_arg(ap, double) * n; va_end(ap); return s; } "
                   "int rec$(int n, ...) { va_list ap; va_start(ap, n); int a = va_arg(ap, int); int b = n > 1 ? rec$(n - 1, a + va_arg(ap, int), a) : 0; va_end(ap); return a * 10 + b; } int first$(const char *s, ...) { va_list ap; va_start(ap, s); int r = *s ? va_arg(ap, int) + va_arg(ap, int) * 0 : va_arg(ap, int) > 2 ? 8 : 9; va_end(ap); return r; }")
    # the C library on the other side
    for i, (fmt, av) in enumerate([("%d %u %ld %lx", "-1, 4000000000u, -5000000000L, -1L"), ("%c%c%s|%5s|%-5s|", "'a', 66, \"xyz\", \"ab\", \"cd\""), ("%f %g %e %a", "1.5, 0.1f, 1e100, -0.375"), ("%d %f %d %f %d %f %d %f %d %f %d", "1, 1.5, 2, 2.5, 3, 3.5, 4, 4.5, 5, 5.5, 6"), ("%*d %.*f", "6, 42, 2, 3.14159"), ("%hhd %hd %p", "(char)-3, (short)-400, (void *)0x1234"),
                                   ("%Lf %d %Lg %d", "1.25L, 7, -3.5L, 8"), ("%d %Lf %d", "7, 1.25L, 9"), ("%d %d %d %d %d %d %Lf %d", "1, 2, 3, 4, 5, 6, 2.5L, 7"), ("%d %d %d %d %d %Lf %d", "1, 2, 3, 4, 5, 2.5L, 7"), ("%s", "one ? \"yes\" : \"no\""), ("%d%%%d", "sizeof(long), 'x'"), ("%lld %llu %zu", "-1LL, ~0ULL, sizeof(int)")]):
        yield Case(f"libc {i}", f'char b[300]; memset(b, 0, 300); O(snprintf(b, 300, "{fmt}", {av})); OB(b, 300); O(v$(b, "{fmt}", {av})); OB(b, 300); O(v$(b, "<{fmt}>", {av})); OB(b, 300);', "int v$(char *b, const char *f, ...);", steps=3,
                   ref="int v$(char *b, const char *f, ...) { va_list ap, aq; va_start(ap, f); va_copy(aq, ap); char t[300]; int n = vsnprintf(t, 300, f, aq); va_end(aq); memset(b, 0, 300); int m = vsnprintf(b, 300, f, ap); va_end(ap); return n * 1000 + m; }")

def body(c):
    c.assumptions = ["riscv64 gcc implements the LP64D psABI; glibc's printf family"]
    ext = "enum E { E1 = 3, E2 = -1 }; int snprintf(char *, unsigned long, const char *, ...); int vsnprintf(char *, unsigned long, const char *, va_list); void *memset(void *, int, unsigned long);\n" + "".join(f"extern {A[t][0]} g_{t}[3];" for t in AGG)
    pre = "#include <stdarg.h>\n" + PRELUDE + DEFS + ext + "extern int one;\n"
    helper = "#include <stdarg.h>\n" + PRELUDE + DEFS + ext + "int one = 1;\n" + "".join(f"{A[t][0]} g_{t}[3];" for t in AGG) + "\n__attribute__((constructor)) static void init(void) { for (int i = 0; i < 3; i++) {" + \
        "".join(f"{{ unsigned char *q = (void *)&g_{t}[i]; for (unsigned j = 0; j < sizeof g_{t}[i]; j++) q[j] = i * 37 + j * 11 + {n * 5} + 129; }}" for n, t in enumerate(AGG)) + "g_Fd[i].a = i + .5; g_Ff[i].a = i - .5f; g_Fdd[i].a = i * 1.5; g_Fdd[i].b = -i; g_Fdi[i].a = i / 8.0; g_Fdi[i].b = i - 100; g_SL[i].a = i * 1.25L; } }\n"
    d = PairDiff(c, prelude=pre, helper=helper, regs=True)
    d.run(cases(c), size=120)
    # every kind of expression as a variadic argument
    va = """int va_any(int k, ...) { va_list ap; va_start(ap, k); if (k >= 20) for (int i = 0; i < 8; i++) O(va_arg(ap, int)); else if (k >= 10) { O(va_arg(ap, int)); OD(va_arg(ap, double)); }
  if (k % 10 == 2) OD((double)va_arg(ap, long double)); else if (k % 10 == 1) OD(va_arg(ap, double)); else if (k % 10 == 3) O(va_arg(ap, long)); else O(va_arg(ap, int)); O(va_arg(ap, int)); va_end(ap); return 0; }
"""
    d = Diff(c, prelude=PRELUDE + exprs.PRE + exprs.PRE_EXT + "int va_any(int, ...);\n", helper="#include <stdarg.h>\n" + PRELUDE + va + "int one = 1, zero;")
    d.run([Case(k, b, ds, steps=n) for t in exprs.ALL for vi in (0, 1) for k, ds, b, n in exprs.variadics(t, vi)], size=100)
    c.extra["bounds"] = f"all pairs over {len(A)} argument types (and triples over {7}) after 1-10 named parameters; lists read directly, forwarded, copied at every point, restarted; up to 100 arguments; every toycc/gcc mix; libc printf family"
main("C15", body)
