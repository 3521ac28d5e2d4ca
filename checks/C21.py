"""C21: every literal has the value, type and contents C prescribes; malformed ones are rejected."""
import itertools, os, sys
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

LLG = "-DLLG=,long long:3,unsigned long long:4"
PRE = PRELUDE + """#ifndef LLG
#define LLG
#endif
#define K(x) O(_Generic((x),int:1,unsigned:2,long:3,unsigned long:4,float:5,double:6,long double:7,char:8,unsigned short:9 LLG,default:0))
"""


def ints(c):
    vals = sorted({v for p in (0, 1, 7, 8, 15, 16, 31, 32, 33, 47, 62, 63, 64) for v in ((1 << p) - 1, 1 << p, (1 << p) + 1) if 0 <= v < 1 << 64}
                  | {10, 100, 255, 4294967290, 18446744073709551610, 12345678901234567890})
    sufs = [""] + ["".join(x) for u in ("u", "U", "") for l in ("l", "L", "ll", "LL", "") for x in {(u, l), (l, u)} if u or l]
    sufs = sorted(set(sufs))
    for v in vals:
        forms = {"dec": str(v), "oct": "0%o" % v, "hex": "0x%x" % v, "HEX": "0X%X" % v, "bin": "0b" + bin(v)[2:], "BIN": "0B" + bin(v)[2:], "hex0": "0x000%X" % v, "oct0": "000%o" % v}
        for fn, t in forms.items():
            for s in sufs:
                if fn == "dec" and v > (1 << 63) - 1 and "u" not in s.lower():
                    continue       # no type of C holds it
                yield Case(f"int/{fn}/{v}/{s}", f"K({t}{s}); O((long)({t}{s})); O(g$); O(-{t}{s} < 0); static char a[{t}{s} == {v}UL ? 2 : 1]; O(sizeof a);", f"long g$ = {t}{s};", steps=4)


def floats(c):
    txt = set()
    # every power of ten and of two in range, their neighbours and the midpoints between neighbours
    def mids(prec, emin, exps):
        for e in exps:
            for m in ((1 << (prec - 1)), (1 << prec) - 1, (1 << (prec - 1)) + 1, (1 << (prec - 1)) + (1 << (prec - 2)) + 1):
                for k in (0, 1):        # representable, halfway
                    yield (2 * m + k, e - prec - 0)
    def dec(m, e):
        """exact decimal expansion of m * 2**e"""
        if e >= 0:
            return str(m << e) + ".0"
        n = -e
        d = str(m * 5 ** n).rjust(n + 1, "0")
        return (d[:-n] or "0") + "." + d[-n:]
    exps_d = [-1073, -1050, -1022, -1021, -300, -100, -53, -1, 0, 1, 10, 52, 53, 54, 63, 64, 100, 500, 1023, 1024] if c.thorough else [-1073, -1022, -1021, -53, -1, 0, 1, 53, 64, 100, 1024]
    exps_f = [-148, -130, -126, -125, -24, -1, 0, 1, 23, 24, 25, 31, 32, 64, 127, 128]
    for prec, exps in ((53, exps_d), (24, exps_f)):
        for m, e in mids(prec, 0, exps):
            if e < -1090:
                continue
            t = dec(m, e)
            txt.add(t)
            txt.add(t + "1")
            txt.add(t.rstrip("0") if not t.endswith(".0") else t)
            if len(t) > 3 and t[-1] in "5":
                txt.add(t[:-1] + "4" + "9" * 5)
            txt.add("0x%xp%d" % (m, e))
            txt.add("0X%X.8P%+d" % (m, e))
    # denormals of both formats
    for prec, emin in ((53, -1074), (24, -149)):
        for m in (1, 2, 3, 5, (1 << (prec - 1)) - 1):
            for k in (-1, 0, 1):
                txt.add(dec(2 * m + k, emin - 1))
                txt.add("0x%xp%d" % (2 * m + k, emin - 1))
    for d in ("1", "9", "12345", "0.1", ".1", "1.", "00.5", "3.14159265358979323846", "9007199254740993", "16777217", "0", "0.0", "9.", "123456789012345678901234567890"):
        for e in ("", "e0", "e1", "E1", "e+5", "e-5", "E-10", "e22", "e23", "e-22", "e37", "e38", "e-37", "e-45", "e-46", "e39", "e300", "e-300", "e307", "e308", "e-323", "e-324", "e-325", "e00010"):
            if "." in d or e:
                txt.add(d + e)
    for d in ("1", "0", "f", "1.8", ".8", "1.", "ABC.DEF", "1.000001", "1.0000010000001", "1.00000000000008", "1.000000000000080000001", "0.000000000000001"):
        for e in ("p0", "p1", "P+10", "p-10", "p127", "p-126", "p-149", "p-150", "p1023", "p-1022", "p-1074", "p-1075"):
            if e in ("p-150", "p-1075") and d.startswith("1.00"):
                continue       # glibc's strtod rounds these wrongly
            txt.add("0x" + d + e)
    for t in sorted(txt):
        yield Case("fp/" + t, f"K({t}); OD({t}); OB(&g$, 8); OB(&h$, 4); OF({t}f); K({t}F); O({t} == g$); OF({t});", f"double g$ = {t}; float h$ = {t}f;", steps=5)
        yield Case("ld/" + t, f"K({t}L); K({t}l); OB(&g$, 16); OD((double){t}L); long double x = {t}L; OB(&x, 16); OF((float){t}l);", f"long double g$ = {t}l;", steps=4)
    # and those of its own precision and range
    lt = set()
    for m, e in mids(113, 0, [-16381, -16380, -1075, -150, -1, 0, 1, 63, 64, 112, 113, 114, 1024, 16383, 16384] if c.thorough else [-16381, -1075, -1, 0, 1, 113, 1024, 16384]):
        lt.add("0x%xp%d" % (m, e))
        if -1100 < e < 1100:
            t = dec(m, e)
            lt |= {t, t + "1"} | ({t[:-1] + "4" + "9" * 5} if t[-1] == "5" else set())
    for m in (1, 2, 3, 5, (1 << 112) - 1):
        for k in (-1, 0, 1):
            lt.add("0x%xp%d" % (2 * m + k, -16495))
    for d in ("1", "9.99", "0.1", "3.14159265358979323846264338327950288419716939937510", "1.18973149535723176508575932662800701", "3.36210314311209350626267781732175260", "6.47517511943802511092443895822764655"):
        for e in ("e0", "e400", "e-400", "e4000", "e-4000", "e4931", "e-4932", "e-4950"):
            lt.add(d + e)
    for t in sorted(lt):
        yield Case("ldx/" + t, f"K({t}L); OB(&g$, 16); long double x = {t}L; OB(&x, 16); OB(&n$, 16); O(x == {t}l); O(x < g$);", f"long double g$ = {t}l; long double n$ = -{t}L;", steps=4)


def esc_chars(c):
    """(text, ok prefixes)"""
    for ch in range(32, 127):
        if chr(ch) not in "'\\\"?$":
            yield chr(ch), ("", "L", "u", "U")
    for e in "abfnrtv\\'\"?e0":
        yield "\\" + e, ("", "L", "u", "U")
    for v in range(0, 256):
        for f in ("%o", "%02o", "%03o"):
            if len(f % v) <= 3:
                yield "\\" + f % v, ("", "L", "u", "U")
        for f in ("%x", "%02X", "%04x", "%010x"):
            yield "\\x" + f % v, ("", "L", "u", "U")
    for v in range(256, 512):
        yield "\\%o" % v, ("L", "u", "U")
    for v in (0x100, 0x7ff, 0x7fff, 0x8000, 0xffff, 0xd800, 0xdfff):
        yield "\\x%x" % v, ("L", "u", "U")
    for v in (0x10000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff):
        yield "\\x%x" % v, ("L", "U")
    for v in (0x24, 0x40, 0x60, 0xa0, 0xa1, 0xff, 0x100, 0x3b1, 0x7ff, 0x800, 0x3042, 0xd7ff, 0xe000, 0xfffd, 0xffff):
        yield "\\u%04x" % v, ("L", "u", "U")
        yield "\\U%08X" % v, ("L", "u", "U")
        if v >= 0xa0:
            yield chr(v), ("L", "u", "U")
    for v in (0x10000, 0x10001, 0x1f363, 0xfffff, 0x100000, 0x10ffff):
        yield "\\U%08x" % v, ("L", "U")
        yield chr(v), ("L", "U")


def chars(c):
    seen = set()
    for t, ps in esc_chars(c):
        for p in ps:
            if (t, p) in seen:
                continue
            seen.add((t, p))
            k = f"{p}'{t}'"
            yield Case("char/" + k, f"K({k}); O({k}); O(g$); O(h$); O({k} < 0); O(({k}) == (long)({k})); O({k} >> 1); O((unsigned char){k});\n#if {k} < 0\nO(1);\n#else\nO(2);\n#endif\n",
                       f"long g$ = {k}; int h$ = {k};", steps=5)


PIECES = ["a", "b", "1", "7", "f", "\\0", "\\1", "\\12", "\\123", "\\x1", "\\x1f", "\\xF0", "\\n", "\\\\", "\\\"", "'", "?", "\\?", "\\e", "%", "é", "あ", "\U0001f363", "\\u3042", "\\U0001F363", "\\u00e9", "//", "/*", " ", "\t", "@", "\\'"]


def okstr(p, parts):
    s = "".join(parts)
    # a hexadecimal escape swallows following digits: keep it in range of the element type
    for m in re.finditer(r"\\x([0-9a-fA-F]+)", s.replace("\\\\", "__")):
        if int(m[1], 16) > {"": 0xff, "u8": 0xff, "u": 0xffff, "U": 0xffffffff, "L": 0xffffffff}[p]:
            return False
    return "??" not in s


def strings(c):
    n = 3 if c.thorough else 2
    seen = set()
    for p in ("", "u8", "u", "U", "L"):
        ty = {"": "char", "u8": "char", "u": "unsigned short", "U": "unsigned", "L": "int"}[p]
        for k in range(0, n + 1):
            for parts in itertools.product(PIECES, repeat=k):
                if not okstr(p, parts):
                    continue
                t = p + '"' + "".join(parts) + '"'
                if t in seen:
                    continue
                seen.add(t)
                yield Case("str/" + t, f"OB({t}, sizeof {t}); O(sizeof g$); OB(g$, sizeof g$); K({t}[0]); {ty} l[] = {t}; OB(l, sizeof l); {ty} m[9] = {t}; OB(m, sizeof m); O(sizeof {t} == sizeof(\n{t}\n));", f"{ty} g$[] = {t};", steps=5)


def concat(c):
    ps = ("", "u8", "u", "U", "L")
    pcs = ["", "a", "\\0", "\\x1", "1", "\\7", "é", "\U0001f363", "\\u3042", "\\\\"] if c.thorough else ["", "a", "\\x1", "1", "\\7", "é", "\U0001f363"]
    for a in ps:
        for b in ps:
            if a and b and a != b:
                continue
            e = a or b
            ty = {"": "char", "u8": "char", "u": "unsigned short", "U": "unsigned", "L": "int"}[e]
            for x in pcs:
                for y in pcs:
                    for sep in ("", " ", "\n"):
                        if sep == "" and b:
                            continue
                        t = f'{a}"{x}"{sep}{b}"{y}"'
                        yield Case("cat2/" + t.replace("\n", "|"), f"OB({t}, sizeof({t})); OB(g$, sizeof g$); K(({t})[0]);", f"{ty} g$[] = {t};", steps=3)
    small = ["", "a", "\\x1", "\U0001f363"]
    for pr in itertools.product(ps, repeat=3):
        k = {p for p in pr if p}
        if len(k) > 1:
            continue
        e = k.pop() if k else ""
        ty = {"": "char", "u8": "char", "u": "unsigned short", "U": "unsigned", "L": "int"}[e]
        for xs in itertools.product(small, repeat=3):
            t = " ".join(f'{p}"{x}"' for p, x in zip(pr, xs))
            yield Case("cat3/" + t, f"OB({t}, sizeof({t})); OB(g$, sizeof g$); K(({t})[0]);", f"{ty} g$[] = {t};", steps=3)


def idents(c):
    kws = ["return", "if", "int", "sizeof", "u8", "u", "U", "L", "_Bool", "typeof", "asm", "e1", "x1", "_", "__", "é", "あ", "\U00020000"]
    seen = set()
    for w in kws:
        for pre in ("", "_", "a", "A9"):
            for post in ("_", "1", "x", "é", "\\u00e9", "9a"):
                n = pre + w + post
                if n in seen:
                    continue
                seen.add(n)
                same = n.replace("\\u00e9", "é")
                yield Case("ident/" + n, f"int {n} = 5; int v{n} = 7; O({n}); O(v{same}); {same}++; O({n}); struct {{ int {n}; }} s = {{ .{same} = 4 }}; O(s.{n});", steps=2)
    # names that differ in one character are different
    base = "abcdefghijklmnopqrstuvwxyz0123456789_ABCDEFGHIJKLMNOPQRSTUVWXYZ"
    for i in range(len(base)):
        o = base[:i] + ("q" if base[i] != "q" else "r") + base[i + 1:]
        yield Case(f"ident/long/{i}", f"int {base} = 1, {o} = 2; O({base}); O({o});")


# C11 annex D
D1 = [(0xA8,)*2, (0xAA,)*2, (0xAD,)*2, (0xAF,)*2, (0xB2, 0xB5), (0xB7, 0xBA), (0xBC, 0xBE), (0xC0, 0xD6), (0xD8, 0xF6), (0xF8, 0xFF), (0x100, 0x167F), (0x1681, 0x180D), (0x180F, 0x1FFF), (0x200B, 0x200D), (0x202A, 0x202E), (0x203F, 0x2040), (0x2054,)*2, (0x2060, 0x206F),
      (0x2070, 0x218F), (0x2460, 0x24FF), (0x2776, 0x2793), (0x2C00, 0x2DFF), (0x2E80, 0x2FFF), (0x3004, 0x3007), (0x3021, 0x302F), (0x3031, 0x303F), (0x3040, 0xD7FF), (0xF900, 0xFD3D), (0xFD40, 0xFDCF), (0xFDF0, 0xFE44), (0xFE47, 0xFFFD)] + [(p << 16, (p << 16) + 0xFFFD) for p in range(1, 15)]
D2 = [(0x300, 0x36F), (0x1DC0, 0x1DFF), (0x20D0, 0x20FF), (0xFE20, 0xFE2F)]


def inr(rs, v):
    return any(a <= v <= b for a, b in rs)


def points(c):
    """the code points where an encoding or a range changes, and (thorough) all of them"""
    if c.thorough:
        vs = set(range(0xa0, 0x110000))
    else:
        vs = {v for v in range(0xa0, 0x110000) if v % 256 in (0, 255)} | set(range(0xa0, 0x900)) | set(range(0xd700, 0xd800)) | set(range(0xe000, 0xe100)) | set(range(0xff00, 0x10100))
        vs |= {1 << i for i in range(8, 21)} | {(1 << i) + k for i in range(8, 21) for k in (-1, 1)}
    return sorted(v for v in vs if not 0xd800 <= v < 0xe000)


def unicode_strings(c):
    """every such code point, raw and escaped, in every kind of string and (one unit) character constant"""
    vs = points(c)
    n = 32
    for i in range(0, len(vs), n):
        g = vs[i:i + n]
        body, decl = [], []
        for j, t in enumerate(("".join(map(chr, g)), "".join("\\U%08x" % v for v in g), "".join("\\u%04X" % v if v < 0x10000 else "\\U%08X" % v for v in g))):
            for p in ("", "u8", "u", "U", "L"):
                body.append(f"OB({p}\"{t}\", sizeof {p}\"{t}\");")
        for v in g:
            for t in (chr(v), "\\U%08X" % v):
                body.append(f"O(L'{t}'); O(U'{t}');" + (f" O(u'{t}');" if v < 0x10000 else ""))
        yield Case(f"uni/{g[0]:x}-{g[-1]:x}", " ".join(body), steps=15)


def unicode_idents(c, d):
    """every code point of C11's annex D forms an identifier and no other does"""
    wd = os.path.join(c.scratch, "ui"); os.makedirs(wd)
    f = os.path.join(wd, "i.c")
    ok1 = [v for v in range(0xa0, 0x110000) if inr(D1, v) and not inr(D2, v)]
    ok2 = [v for v in range(0xa0, 0x110000) if inr(D1, v) and inr(D2, v)]
    # one macro per code point; an identifier is replaced only as a whole
    n = 0

    def accept(vs):
        p = os.path.join(wd, f"a{vs[0]}.c")
        open(p, "w", encoding="utf-8").write("".join(f"#define {'q' if v in s2 else ''}{chr(v)} {i}\n" for i, v in enumerate(vs)) + "".join(f"{'q' if v in s2 else ''}{chr(v)} a{chr(v)}b\n" for v in vs))
        rc, so, se = sh([d.toycc, "-E", "-P", p] if 0 else [d.toycc, "-E", p], cwd=wd, timeout=300)
        want = "".join(f"{i} a{chr(v)}b\n" for i, v in enumerate(vs)).split()
        got = so.decode("utf-8", "replace").split()
        if rc or got != want:
            k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            v = vs[min(k // 2, len(vs) - 1)]
            m = re.search(rb"a\d+\.c:(\d+)", se)
            if rc and m:
                v = vs[(int(m[1]) - 1) % len(vs)]
            c.violation(f"ident/U+{v:04X}", f"an identifier with U+{v:04X}, which C11 allows, is not one: rc={rc} {se.decode('utf-8', 'replace')[:80]!r}", f"int q{chr(v)};")
        os.unlink(p)
        c.count(len(vs), len(vs), len(vs))
    s2 = set(ok2)
    vs = ok1 + ok2
    step = 1 if c.thorough else 37
    edge = {x for r in D1 + D2 for x in r} | {x + k for r in D1 + D2 for x in r for k in (-1, 1)}
    pick = [v for v in vs if v in edge or v % step == 0 or v < 0x3100]
    pmap(accept, [pick[i:i + 2000] for i in range(0, len(pick), 2000)])
    bad = [(v, ctx) for v in range(0xa0, 0x110000) if not 0xd800 <= v < 0xe000 and (v in edge or c.thorough and v < 0x3100) for ctx in ("int q%s = 1;", "int %s = 1;") if not inr(D1, v) or (inr(D2, v) and ctx == "int %s = 1;")]

    def reject1(xs):
        for v, ctx in xs:
            p = os.path.join(wd, f"r{v}_{len(ctx)}.c")
            open(p, "w", encoding="utf-8").write(ctx % chr(v) + "\n")
            rc, so, se = sh([d.toycc, "-S", "-o", p[:-1] + "s", p], cwd=wd)
            if rc != 1 or not se:
                c.violation(f"noident/U+{v:04X}", f"U+{v:04X} is taken for part of an identifier: rc={rc}", ctx % chr(v))
            os.unlink(p)
            c.count(1, 1, 1)
    pmap(reject1, [bad[i::16] for i in range(16)])


def puncts(c, d):
    """operator characters between operands: maximal munch decides what is accepted and what it means"""
    n = 5 if c.thorough else 4
    al = "+-*<>=&|!"
    al2 = "+-*/%<>=&|^!~?:.,;"
    seqs = {"".join(x) for k in range(1, n + 1) for x in itertools.product(al, repeat=k)} | {"".join(x) for k in range(1, 4) for x in itertools.product(al2, repeat=k)}
    seqs = sorted(s for s in seqs if "//" not in s and "/*" not in s and "<%" not in s and "<:" not in s and "%:" not in s and "%>" not in s and ":>" not in s and "??" not in s and "?:" not in s and "&&" not in s.replace("&&", "@@", 1))
    # which of them does the reference accept
    wd = os.path.join(c.scratch, "p"); os.makedirs(wd, exist_ok=True)
    f = os.path.join(wd, "p.c")
    ok = []
    with open(f, "w") as h:
        for s in seqs:
            h.write(f"long t{len(ok)}(long a, long b, long *p, long *q) {{ long c = (a {s}b); return c; }}\n"); ok.append(s)
    rc, o, e = sh([GCC, "-std=gnu11", "-Werror=int-conversion", "-fsyntax-only", "-fmax-errors=0", "-fno-diagnostics-show-caret", f], timeout=300)
    bad = {int(m) for m in re.findall(r"p\.c:(\d+):\d+: error", e.decode())}
    for i, s in enumerate(ok):
        if i + 1 in bad:
            continue
        yield Case("punct/" + s, f"long a = 13, b = 3; long c = (a{s}b); O(c); O(a); O(b); c = (a {s}b); O(c); O(a); O(b); c = (a{s} b); O(c); O(a); O(b);", steps=3)


def reject(c):
    """every short string over a number alphabet: accepted exactly if the reference accepts it, with the same value and type"""
    n = 4
    s1 = {"".join(x) for k in range(1, n + 1) for x in itertools.product("019xb.eplf", repeat=k)}
    s2 = {"".join(x) for k in range(1, 6) for x in itertools.product("0xulL" if not c.thorough else "01xulLUf", repeat=k)}
    s3 = {"".join(x) for k in range(1, 6) for x in itertools.product("1.e+f" if not c.thorough else "18.e+-fp", repeat=k)}
    s4 = {"0x" + "".join(x) for k in range(0, 5) for x in itertools.product("1.p-f" if not c.thorough else "18.p-fal", repeat=k)}
    s4 |= {"0" + "".join(x) for k in range(0, 6) for x in itertools.product("01bx", repeat=k)}
    allw = []
    for s in sorted(s1 | s2 | s3 | s4):
        if not re.match(r"\.?[0-9]", s):
            continue
        m = re.match(r"(?:[eEpP][+-]|[0-9A-Za-z_.])+", s)
        if m[0] != s:
            continue           # more than one token
        if re.fullmatch(r"[0-9]+[fF]", s):
            continue           # fixed by the project's suite: accepted
        allw.append(s)
    return allw


def run_reject(c, words, d):
    wd = os.path.join(c.scratch, "r"); os.makedirs(wd)
    f = os.path.join(wd, "r.c")
    open(f, "w").write("".join(f"_Bool v{i} = {s};\n" for i, s in enumerate(words)))
    rc, o, e = sh([GCC, "-std=gnu11", "-w", "-fsyntax-only", "-fmax-errors=0", "-fno-diagnostics-show-caret", f], timeout=600)
    bad = {int(m) - 1 for m in re.findall(r"r\.c:(\d+):", e.decode())}
    good = [s for i, s in enumerate(words) if i not in bad]
    d.run([Case("num/" + s, f"K({s}); O((long)({s})); OD({s}); OB(&g$, 8);", f"double g$ = {s};") for s in good if not re.fullmatch(r"0x.*[1-9a-f][0-9a-f]{15,}[^.p]*", s)], size=1500)
    seq = itertools.count()

    def one(ws):
        for s in ws:
            if time.time() > c.deadline:
                c.extra["capped"] = True
                return
            i = next(seq)
            p = os.path.join(wd, f"n{i}.c")
            open(p, "w").write(f"double v = {s};\n")
            o = p[:-1] + "s"
            rc, so, se = sh([d.toycc, "-S", "-o", o, p], cwd=wd)
            if rc == 0 or os.path.exists(o) and rc == 0:
                c.violation("bad/" + s, f"the malformed constant {s} is accepted", f"double v = {s};")
            elif rc != 1 or not se:
                c.violation("bad/" + s, f"toycc ended with {rc} and no diagnostic on the malformed constant {s}", f"double v = {s};")
            for x in (p, o):
                if os.path.exists(x):
                    os.unlink(x)
        c.count(states=len(ws), transitions=len(ws), traces=len(ws))
    badw = [words[i] for i in sorted(bad)]
    c.extra["malformed_constants"] = len(badw)
    pmap(one, [badw[i::64] for i in range(64)])


BADLIT = ["''", "'", "'a", "L''", "u''", "U'", '"', '"abc', 'L"abc', 'u8"', "'\\x'", '"\\x"', '"\\xg"', "'\\", '"\\', '"a\\', "u\"a\" U\"b\"", "L\"a\" u\"b\"", "u8\"a\" L\"b\"", "U\"a\" L\"b\"", "\"a\" u\"b\" U\"c\"", "'a\n'", '"a\n"']


def check(c):
    d = Diff(c, prelude=PRE, gcc_flags=[LLG])
    du = Diff(c, prelude=PRE, gcc_flags=["-finput-charset=UTF-8", LLG])
    d.run(ints(c))
    d.run(floats(c))
    du.run(chars(c))
    du.run(strings(c), size=1000)
    du.run(concat(c))
    du.run(idents(c))
    du.run(unicode_strings(c), size=12)
    unicode_idents(c, d)
    d.run(puncts(c, d))
    run_reject(c, reject(c), d)
    wd = os.path.join(c.scratch, "bl"); os.makedirs(wd)
    for i, t in enumerate(BADLIT):
        p = os.path.join(wd, "b.c")
        open(p, "w").write(f"int f(void) {{ return sizeof {t}; }}\n" if i % 2 else f"int f(void) {{ return sizeof {t}")
        for txt in (f"int f(void) {{ return sizeof {t}; }}\n", f"int f(void) {{ return sizeof {t}"):
            open(p, "w").write(txt)
            rc, so, se = sh([d.toycc, "-S", "-o", os.path.join(wd, "o.s"), p], cwd=wd)
            if rc != 1 or not se:
                c.violation(f"bad/{t}", f"toycc ends with {rc} {'without' if not se else 'with'} a diagnostic on a malformed literal", txt)
            c.count(1, 1, 1)
    c.assumptions += ["the reference compiler's literals are right", "multi-character constants and escapes that do not fit are implementation-defined and not generated"]


main("C21", check)
