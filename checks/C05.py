"""C05: a constant expression has the same value folded at compile time, in every context, as C gives it at run time."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
from cmodel import *
import ints

def vals(t, small=False):
    return ints.values(t.bits, t.sg, True) if small else ints.values(t.bits, t.sg)

def cases(c):
    # 1. binary operators, all type pairs, all boundary value pairs, in a static initializer and at run time
    for ta in ALLT:
        for tb in ALLT:
            for op in ints.BIN:
                ex = []
                for x in vals(ta, not c.thorough):
                    for y in vals(tb, not c.thorough):
                        if binop(op, ta, x, tb, y) is not None:
                            ex.append((x, y))
                if not ex:
                    continue
                e = [f"{lit(ta, x)} {op} {lit(tb, y)}" for x, y in ex]
                rt = " ".join(f"x={lit(ta, x)}; y={lit(tb, y)}; O((long)(x {op} y));" for x, y in ex[:12])
                yield Case(f"static {ints.NAME[op]} {ta.n},{tb.n}",
                           f"static long s[] = {{ {', '.join(e)} }}; OB(s, sizeof s); OB(g$, sizeof g$); {ta.n} x; {tb.n} y; {rt}",
                           f"unsigned long g$[] = {{ {', '.join('~(' + v + ')' for v in e)} }};", steps=2 * len(ex))
    # 2. conversions of constants, every chain of two casts, to every object type
    for t in ALLT:
        for t1 in ALLT:
            for t2 in ALLT:
                e = [f"({t2.n})({t1.n}){lit(t, x)}" for x in vals(t)]
                yield Case(f"cast {t.n}->{t1.n}->{t2.n}", f"static long s[] = {{ {', '.join(e)} }}; static {t2.n} o[] = {{ {', '.join(f'({t1.n}){lit(t, x)}' for x in vals(t))} }}; OB(s, sizeof s); OB(o, sizeof o);", steps=2 * len(e))
    # 3. unary operators
    for t in ALLT:
        for op in ("-", "~", "!", "+", "- -", "~-", "!!", "-~", "!~", "~!"):
            xs = [x for x in vals(t) if not ("-" in op and promote(t).sg and (promote(t).wrap(x) in (promote(t).lo(), promote(t).lo() + 1, promote(t).hi())))]
            e = [f"{op} {lit(t, x)}" for x in xs]
            yield Case(f"unary {op} {t.n}", f"static long s[] = {{ {', '.join(e)} }}; OB(s, sizeof s); " + " ".join(f"{{ {t.n} x={lit(t, x)}; O((long)({op} x)); O(sizeof({op} {lit(t, x)})); }}" for x in xs), steps=len(xs))
    # 4. conditional, comma, logical, sizeof: nests of depth 2
    small = [(INT, 0), (INT, -1), (INT, 7), (UINT, 4294967295), (LONG, -5), (ULONG, 18446744073709551615), (CHAR, -128), (UCHAR, 255), (USHORT, 65535)]
    for ta, x in small:
        for tb, y in small:
            a, b = lit(ta, x), lit(tb, y)
            for tc, z in small:
                k = lit(tc, z)
                e = [f"{a} ? {b} : {k}", f"!{a} ? {b} : {k}", f"({a} && {b}) || {k}", f"({a} || {b}) && {k}", f"({a} & {b}) ^ {k}", f"({a} < {b}) + ({b} <= {k})", f"({a} > {k}) - ({b} >= {k})",
                     f"({a} == {b}) | ({b} != {k})", f"(({a} | {b}) > {k})", f"(({a} ^ {b}) < {k})", f"sizeof({a} ? {b} : {k})", f"({a} ? {b} : {k}) < 0", f"~({a} & {b}) > {k}", f"{a} ?: {k}", f"({a} & {b}) ?: {k}", f"({a} ?: {b}) < ({k} ?: {a})", f"sizeof({a} ?: {k})"]
                yield Case(f"nest {ta.n}:{x} {tb.n}:{y} {tc.n}:{z}", f"static long s[] = {{ {', '.join(e)} }}; OB(s, sizeof s); " + " ".join(f"O((long)({v}));" for v in e), steps=2 * len(e))
            for ctx in (f"char v[(unsigned char)({a} ?: {b}) % 7 + 1]; O(sizeof v); {{ static int k = {a} ?: {b}; O(k); }}".replace("{{", "{").replace("}}", "}"), f"switch ({y}L) {{ case {a} ?: {b}: O(1); break; default: O(3); }} enum {{ E = (short)({a} ?: {b}) }}; O(E); struct {{ int f : ({a} ?: 0) ? 3 : 4; }} b; b.f = -1; O(b.f); O(sizeof w$);" if y < 2**63 else ""):
                yield Case(f"elvis{ctx[:4]} {ta.n}:{x} {tb.n}:{y}", ctx, f"char w$[({a} ?: {b}) ? 3 : 5];", steps=5)
    # 5. enum constants, array bounds, case labels, bit-field widths, alignment, designators
    for ta in ALLT:
        for tb in ALLT:
            for op in ints.BIN:
                es, ss = [], []
                for x in vals(ta, True):
                    for y in vals(tb, True):
                        r = binop(op, ta, x, tb, y)
                        if r is None: continue
                        if INT.fits(r[1]): es.append((x, y, r[1]))
                        if 0 < r[1] < 70: ss.append((x, y, r[1]))
                if es:
                    en = ", ".join(f"E{i}$ = {lit(ta, x)} {op} {lit(tb, y)}, F{i}$" for i, (x, y, r) in enumerate(es) if r < INT.hi())
                    if not en: continue
                    n = [i for i, (x, y, r) in enumerate(es) if r < INT.hi()]
                    sw = {}
                    for x, y, r in es:
                        sw.setdefault(r, f"{lit(ta, x)} {op} {lit(tb, y)}")
                    body = f"static int ev[] = {{ {', '.join(f'E{i}$, F{i}$' for i in n)} }}; OB(ev, sizeof ev);" + \
                        "for (int k=0;k<%d;k++) { switch (v$[k]) { %s default: O(-7); } }" % (len(sw), " ".join(f"case {e}: O({j+100}); break;" for j, (r, e) in enumerate(sw.items())))
                    body += " ".join(f"char a{i}$[{lit(ta, x)} {op} {lit(tb, y)}]; O(sizeof a{i}$); struct {{ int f:({lit(ta, x)} {op} {lit(tb, y)}) % 32 + 1; }} b{i}$; b{i}$.f = -1; O(sizeof b{i}$); O(sizeof gg{i}$); static int d{i}[80] = {{ [{lit(ta, x)} {op} {lit(tb, y)}] = 5, 6 }}; OB(d{i}, sizeof d{i});" for i, (x, y, r) in enumerate(ss[:3]))
                    yield Case(f"ctx {ints.NAME[op]} {ta.n},{tb.n}", body, f"enum {{ {en} }}; int v$[] = {{ {', '.join(str(r) if r > INT.lo() else '-2147483647-1' for r in sw)} }}; " +
                               " ".join(f"char gg{i}$[{lit(ta, x)} {op} {lit(tb, y)}];" for i, (x, y, r) in enumerate(ss[:3])), steps=3 * len(es))
    # 6. floating constants folded: comparisons, conversions, arithmetic
    fl = ["0.0", "-0.5", "0.5f", "1.5", "-1.5f", "0.1", "0.1f", "255.9", "16777217.0", "1e18", "3e9f", "1e-300"]
    for a in fl:
        for b in fl:
            for op in ("+", "-", "*", "/"):
                if op == "/" and b == "0.0": continue
                yield Case(f"flt {a}{op}{b}", f"static double s[] = {{ {a} {op} {b}, ({a} {op} {b}) {op} 3, -({a} {op} {b}) }}; static float f[] = {{ {a} {op} {b}, 1 - ({a} {op} {b}) }}; for (int i=0;i<3;i++) OD(s[i]); for (int i=0;i<2;i++) OF(f[i]); static _Bool q[] = {{ {a} {op} {b}, !({a} {op} {b}) }}; OB(q, sizeof q);")
            yield Case(f"fcmp {a} {b}", "static int s[] = { " + ", ".join([f"{a} {o} {b}" for o in ("<", "<=", ">", ">=", "==", "!=", "&&", "||")] + [f"!{a}", f"{a} ? 1 : 2", f"({a} < {b}) ? 3 : 4", f"(_Bool){a}"]) + " }; OB(s, sizeof s);")
            for t in ALLT:
                for i_ in ("3", "-2", "200u", "70000L"):
                    if b != fl[0]: continue
                    yield Case(f"fmix {a} {i_} {t.n}", f"static double s[] = {{ {a} + {i_}, {i_} * {a}, {i_} - {a}, (double){i_}, (float){i_} }}; for (int i=0;i<5;i++) OD(s[i]); static int q[] = {{ {a} < {i_}, {i_} <= {a}, {a} == {i_} }}; OB(q, sizeof q);")
    for a in ["0.0", "0.9", "1.0", "2.5f", "100.75", "127.0f", "0.999999"]:
        for t in ALLT:
            yield Case(f"f2i {a} {t.n}", f"static {t.n} s[] = {{ {a}, ({t.n}){a}, {a} + 0 }}; static long l[] = {{ (long)({t.n}){a}, {a} }}; OB(s, sizeof s); OB(l, sizeof l);")
    for a in ["4294967295.0", "9223372036854775808.0", "18446744073709549568.0", "1e19", "2147483648.0f"]:
        yield Case(f"f2ul {a}", f"static unsigned long s[] = {{ {a}, (unsigned long){a} }}; OB(s, sizeof s);")
    for a in ["-1.0", "-2147483648.0", "-128.9f", "-9223372036854775808.0"]:
        yield Case(f"f2l {a}", f"static long s[] = {{ {a}, (long){a} }}; OB(s, sizeof s);")
    for v in ("9223372036854775807", "9007199254740993", "16777217", "18446744073709551615u", "4294967295u", "9223371761976868863", "9223371761976868864"):
        yield Case(f"i2f {v}", f"static double d[] = {{ {v}, (double){v}, {v} + 0.0 }}; static float f[] = {{ {v}, (float){v}, {v} + 0.0f }}; for (int i=0;i<3;i++) {{ OD(d[i]); OF(f[i]); }}")
    # long double: the folded value has all of its bits, and equals that of the run-time operation
    lq = ["0.0L", "-0.5l", "0.1L", "1.0L", "3.0L", "0.1", "0.1f", "7", "-1", "18446744073709551615u", "9223372036854775807L", "0x1.ffffffffffffffffffffffffffffp16383L", "0x1p-16494L", "1e-4000L", "0x1.0000000000000000000000000001p0L"]
    for a in lq:
        for b in lq:
            if "L" not in (a + b).upper().replace("7L", ""): continue
            for op in ("+", "-", "*", "/"):
                if op == "/" and b == "0.0L": continue
                yield Case(f"ld {a}{op}{b}", f"static long double s[] = {{ {a} {op} {b}, ({a} {op} {b}) {op} 3, -({a} {op} {b}), 1 ? {a} {op} {b} : 1, (double)({a} {op} {b}), (float)({a} {op} {b}) }}; OB(s, sizeof s); static double d[] = {{ {a} {op} {b} }}; OB(d, sizeof d); typeof({a}) x = {a}; typeof({b}) y = {b}; long double z = x {op} y; OB(&z, 16); z = {a} {op} {b}; OB(&z, 16); static _Bool q[] = {{ {a} {op} {b}, !({a} {op} {b}) }}; OB(q, sizeof q);", steps=8)
            yield Case(f"ldcmp {a} {b}", "static int s[] = { " + ", ".join([f"{a} {o} {b}" for o in ("<", "<=", ">", ">=", "==", "!=", "&&", "||")] + [f"!{a}", f"{a} ? 1 : 2", f"({a} < {b}) ? 3 : 4", f"(_Bool){a}", f"({a} ?: {b}) == {b}"]) + " }; OB(s, sizeof s);")
    for a in ("9223372036854775807.5L", "18446744073709551615.5L", "4294967295.99999999999999L", "127.99999999999999999999L", "0.99999999999999999999999L"):
        for t in ALLT:
            if float(a[:-1]) < 2.0 ** min(t.bits, 63) / 2 or (not t.sg and float(a[:-1]) <= 2.0 ** t.bits):
                yield Case(f"ld2i {a} {t.n}", f"static {t.n} s[] = {{ {a}, ({t.n}){a} }}; OB(s, sizeof s); long double x = {a}; {t.n} y = x; OB(&y, sizeof y);")
    # 7. #if: intmax arithmetic
    pl = [("0", LONG, 0), ("1", LONG, 1), ("7", LONG, 7), ("0x7fffffff", LONG, 2**31 - 1), ("2147483648", LONG, 2**31), ("0xffffffff", LONG, 2**32 - 1), ("4294967295u", ULONG, 2**32 - 1),
          ("1u", ULONG, 1), ("0u", ULONG, 0), ("-1", LONG, -1), ("-8", LONG, -8), ("~0u", ULONG, 2**64 - 1), ("0x7fffffffffffffff", LONG, 2**63 - 1), ("63", LONG, 63), ("'a'", LONG, 97), ("'\\377'", LONG, -1), ("0xffffffffffffffff", ULONG, 2**64 - 1)]
    for (a, ta, x) in pl:
        for (b, tb, y) in pl:
            lines, n = [], 0
            for op in ints.BIN:
                r = binop(op, ta, x, tb, y)
                if r is None: continue
                lines.append(f"\n#if {a} {op} {b}\nO({n});\n#else\nO(-{n});\n#endif")
                lines.append(f"\n#if ({a} {op} {b}) < 0\nO({n});\n#elif ({a} {op} {b}) == 1\nO(-1);\n#else\nO(-{n});\n#endif")
                lines.append(f"\n#if !({a} {op} {b}) || ({b} {'<' if op != '<' else '>'} {a} ? {a} : {b}) > 5\nO({n});\n#else\nO(-{n});\n#endif")
                n += 1
            yield Case(f"pp {a} {b}", "".join(lines) + "\n", steps=3 * n)
    # 8. address constants
    for t, s in (("char", 1), ("short", 2), ("int", 4), ("long", 8), ("struct P$", 12)):
        for k in (0, 1, 3, -1, 7):
            yield Case(f"addr {t} {k}", f"O((char*)p$ - (char*)a$); O((char*)q$ - (char*)a$); O((char*)r$ - (char*)m$); O((char*)u$ - (char*)m$); O((char*)w$ - (char*)m$); static {t} *sp = &a$[{k}] + 1; O((char*)sp - (char*)a$); O(d$); O(fp$ == f$ && fq$ == f$); O(o$); O((char *)v$ - (char*)m$); OS(st$); OS(su$);",
                       f"struct P$ {{ int x, y, z; }}; int f$(void) {{ return 3; }} {t} a$[9]; {t} m$[3][4]; {t} *p$ = a$ + {k}; {t} *q$ = &a$[{k}]; {t} *r$ = &m$[1][{k}]; {t} *u$ = m$[2] + {k}; {t} *w$ = *(m$ + 1) + {k}; {t} *v$ = (({t}*)((char*)m$ + 8)) + {k}; long d$ = (long)&(({t}*)0)[{abs(k)}]; int (*fp$)(void) = f$; int (*fq$)(void) = &f$; long o$ = (long)&((struct P$*)0)->z + {k}; char *st$ = \"abcdefghij\" + {abs(k)}; char *su$ = &\"abcdefghij\"[{abs(k)}];")

def body(c):
    c.assumptions = ["riscv64 gcc -O0 evaluates constant expressions as C requires", "enum constants stay in int range"]
    c.extra["bound"] = "all pairs of 9 integer types x 18 operators x all pairs of boundary values as static initializers, ~x of them as unsigned long, enum constants, case labels, array bounds, bit-field widths, designators; all two-cast chains; depth-2 nests over 9 typed constants; #if over 17 literals; float folding over 12 literals; address constants"
    d = Diff(c)
    d.run(cases(c), size=250)

main("C05", body)
