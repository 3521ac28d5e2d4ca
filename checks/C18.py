"""C18: conditional inclusion selects the right groups."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
from pp import *

DEFS = "#define ONE 1\n#define ZERO 0\n#define EMPTY\n#define FN(x) x\n#define NEG -1\n#define BIG 0xffffffffffffffff\n#define LP (\n#define RP )\n"


def groups():
    """all well-formed directive sequences: trees of conditionals, every condition true or false"""
    conds = {"T": ["#if 1", "#ifdef ONE", "#ifndef NONE", "# if defined EMPTY && !defined NONE"], "F": ["#if 0", "#ifdef NONE", "#ifndef ONE", "#if NONE"]}

    def tree(n):
        """sequences of n directives, as lists of symbols"""
        if n == 0:
            yield []
            return
        for k in range(2, n + 1):               # the first conditional uses k directives, including everything inside
            for body in cond(k):
                for rest in tree(n - k):
                    yield body + rest

    def cond(k):
        for inner in parts(k - 2, True):
            for c in "TF":
                yield [c] + inner + ["."]

    def parts(n, can):
        """n directives inside of a conditional: nested trees, #elif and #else"""
        for m in range(n + 1):
            for t in tree(m):
                if m == n:
                    yield t
                elif can:
                    for c in ("t", "f"):
                        for r in parts(n - m - 1, True):
                            yield t + [c] + r
                    for r in parts(n - m - 1, False):
                        yield t + ["e"] + r
    for n in range(2, 8):
        for seq in tree(n):
            yield seq


def spell(seq, v):
    out, i, k = [f"m{0}"], 0, v
    for s in seq:
        k += 1
        if s in "TF":
            out.append({"T": ["#if 1", "#ifdef ONE", "#ifndef NONE", "  #  if defined(EMPTY) && !defined NONE /* c */"], "F": ["#if 0 // c", "#ifdef NONE", "#ifndef ONE", "#if NONE + ZERO"]}[s][k % 4])
        elif s in "tf":
            out.append({"t": ["#elif 1", "#elif defined ONE", "# elif FN(1)", "#elif !ZERO"], "f": ["#elif 0", "#elif defined(NONE)", "# elif ZERO", "#elif NONE"]}[s][k % 4])
        elif s == "e":
            out.append(["#else", "# else", "#else // c", " #else"][k % 4])
        else:
            out.append(["#endif", "# endif", "#endif /* c */", "#endif"][k % 4])
        i += 1
        out.append(f"m{i}")
    return "\n".join(out)


def ends():
    """where a conditional directive ends: the next line is a line of its own, whatever it starts with"""
    heads = ["#ifdef ONE", "#ifndef NONE", "#if ONE", "#if 0\n#else", "#if 0\n#elif ONE", "#if 1\n#endif\n#if 1", "#\n#if 1", "#if FN(1)", "#if defined ONE", "#if EMPTY 1"]
    nexts = ["+ 1", "&& 0", "|| 1", "(0)", "? 0 : 1", "ONE", "define ONE 7", "if 0", "else", "endif", "#", "# define ONE 8", "junk", "( ONE )", ")", "== 2", ", 0", "\"s\"", "#undef ONE"]
    for h, n in itertools.product(heads, nexts):
        for tail in ("#endif", "#else\nz\n#endif", "#\n#endif"):
            if "else" in h and "else" in tail:
                continue
            yield PPCase(f"end/{h!r}/{n}/{tail!r}", DEFS, f"{h}\n{n}\n{tail}\nONE", "#undef ONE\n#undef ZERO\n#undef EMPTY\n#undef FN\n#undef NEG\n#undef BIG\n#undef LP\n#undef RP")


def skipped():
    """what may stand in a group that is not taken"""
    junk = ["#error no", "#include \"/no/such/file\"", "#include", "#define ONE 2", "#undef ONE", "#if garbage ) ( + 1\n#endif", "#if 1 +\n#else\n#endif", "#ifdef\n#endif", "#ifndef 3\n#elif (\n#endif", "#unknown x", "# 33 \"x\"", "#line 7", "#pragma once", "foo ) bar", "\"a\" 'b'", "#if 1\n#if 0\n#else\n#endif\n#endif", "/* #endif */", "// #endif", "x #endif", "x #else", "\"#endif\"", "\\\n#define ONE 3", "# /* */ define ONE 4", "#if 1\n x\n#elif\n y\n#endif", "#\n#", "a #if 1", "FN(\n#define ONE 5", "#warning x", "#ifdef ONE junk\n#endif junk", "#define", "#if 0/0\n#endif", "#else_\n#endiff"]
    for i, j in enumerate(junk):
        for k, t in enumerate(["#if 0\n$\n#endif", "#if 1\na\n#else\n$\n#endif", "#if 1\na\n#elif 1\n$\n#endif", "#ifdef NONE\n$\n#elif 1\nb\n#endif", "#if 0\n#if 1\n$\n#endif\n$\n#else\nc\n#endif", "#ifndef ONE\n$\n#else\nc\n#endif", "#if 1\na\n#elif 0\nb\n#elif 1\n$\n#else\n$\n#endif", "#if 0\nx\n#elif 0\n$\n#elif 1\nz\n#endif"]):
            yield PPCase(f"skip/{i}/{k}", DEFS, t.replace("$", j) + "\nONE", "#undef ONE\n#undef ZERO\n#undef EMPTY\n#undef FN\n#undef NEG\n#undef BIG\n#undef LP\n#undef RP")
    for i, e in enumerate(["1 +", ")", "\"s\"", "1 1", "defined", "x(", "1/0", "foo bar", "1.5", ""]):
        yield PPCase(f"elifskip/{i}", DEFS, f"#if 1\na\n#elif {e}\nb\n#else\nc\n#endif\n#if 0\n#elif 1\nd\n#elif {e}\ne\n#endif\n#if 0\n#if {e}\n#elif {e}\n#endif\n#else\nf\n#endif")


ATOMS = ["0", "1", "2", "7", "-1", "0u", "3u", "0x7fffffffffffffff", "0x8000000000000000", "18446744073709551615u", "2147483648", "-2147483648", "4294967296", "'a'", "'\\377'", "ONE", "NONE", "NEG", "BIG", "defined ONE", "(1-2)", "1ul", "1LL", "017", "0xfu"]
OPS = ["+", "-", "*", "/", "%", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&", "|", "^", "&&", "||"]


PREC = {"||": 1, "&&": 2, "|": 3, "^": 4, "&": 5, "==": 6, "!=": 6, "<": 7, ">": 7, "<=": 7, ">=": 7, "<<": 8, ">>": 8, "+": 9, "-": 9, "*": 10, "/": 10, "%": 10}
NAMES = {"ONE": 1, "ZERO": 0, "NEG": -1, "NONE": 0}


class Undefined(Exception):
    pass


def shifts_defined(e):
    """False if a shift count can be negative or too large, which has no defined result"""
    ts = [t for t, _ in lex(e)]
    pos = 0

    def wrap(v, u):
        v &= (1 << 64) - 1
        return (v, True) if u else (v - (1 << 64) if v >> 63 else v, False)

    def prim():
        nonlocal pos
        t = ts[pos]
        pos += 1
        if t in "-~!+":
            v, u = prim()
            return {"-": lambda: wrap(-v, u), "~": lambda: wrap(~v, u), "!": lambda: (int(not v), False), "+": lambda: (v, u)}[t]()
        if t == "(":
            v = binary(0)
            pos += 1
            return v
        if t == "defined":
            pos += 1
            return (1, False)
        if t == "BIG":
            return ((1 << 64) - 1, True)
        if t in NAMES:
            return (NAMES[t], False)
        if t[0] == "'":
            return ({"'a'": 97}.get(t, -1), False)
        m = re.match(r"(0x[0-9a-f]+|[0-9]+)(u?)", t)
        v = int(m[1], 16 if m[1][:2] == "0x" else 8 if m[1][0] == "0" else 10)
        return (v, bool(m[2]) or v >> 63 != 0)

    def binary(p):
        nonlocal pos
        a = prim()
        while pos < len(ts) and PREC.get(ts[pos], 0) > p:
            o = ts[pos]
            pos += 1
            b = binary(PREC[o])
            u = a[1] or b[1]
            x, y = (wrap(a[0], u)[0], wrap(b[0], u)[0]) if o not in ("<<", ">>") else (a[0], b[0])
            if o in ("<<", ">>"):
                if not 0 <= y < 64:
                    raise Undefined()
                a = wrap(x << y if o == "<<" else x >> y, a[1])
            elif o in ("/", "%"):
                if not y:
                    a = (0, u)
                else:
                    q = abs(x) // abs(y) * (-1 if (x < 0) != (y < 0) else 1)
                    a = wrap(q if o == "/" else x - q * y, u)
            elif o in ("+", "-", "*", "&", "|", "^"):
                a = wrap({"+": x + y, "-": x - y, "*": x * y, "&": x & y, "|": x | y, "^": x ^ y}[o], u)
            else:
                a = (int({"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "==": x == y, "!=": x != y, "&&": x and y, "||": x or y}[o] and True), False)
        return a
    try:
        binary(0)
    except Undefined:
        return False
    return True


def ev(e):
    """observe the value of a #if expression through comparisons on both signs"""
    return f"#if ({e})\nT\n#else\nF\n#endif\n#if ({e}) < 0\nN\n#endif\n#if ({e}) > 0x7fffffff\nB\n#endif\n#if (({e}) ^ 1) == 0\nX\n#endif\n#if (0 ? 0 : ({e})) - 1 < 0\nS\n#endif\n#if (({e}) >> 63) == 1\nU\n#endif"


def exprs(deep):
    for a in ATOMS:
        for o in ["", "-", "~", "!", "+", "- -", "!!", "-~"]:
            yield f"{o}{a}"
    for a, o, b in itertools.product(ATOMS, OPS, ATOMS):
        if "<" not in o and ">" not in o or shifts_defined(f"{a} {o} {b}"):
            yield f"{a} {o} {b}"
    small = ["0", "1", "-1", "2u", "NONE"] if not deep else ["0", "1", "-1", "2u", "NONE", "3", "BIG", "5"]
    for a, o, b, p, c in itertools.product(small, OPS, small, OPS, small):
        if "<<" not in (o, p) and ">>" not in (o, p) or shifts_defined(f"{a} {o} {b} {p} {c}"):
            yield f"{a} {o} {b} {p} {c}"
    for a, b, c in itertools.product(small + ["1/0", "5", "BIG"], repeat=3):
        yield f"{a} ? {b} : {c}"
        yield f"{a} || {b} && {c}"
        yield f"{a} && {b} || {c}"
        yield f"({a} , {b}) + 0 * {c}" if 0 else f"{a} ? {b} : {c} ? 2 : -3"
    for e in ["0 && 1/0", "1 || 1/0", "1 ? 2 : 1/0", "0 ? 1/0 : 3", "0 && (1 || 1/0)", "1 || (0 % 0)", "defined(NONE) && NONE/0", "(0 && 1/0) || 1", "0 ? 1u/0 : -1", "1 ? -1 : 0u", "(1 ? -1 : 0u) > 0", "(2 || 3) != 1", "(-1 >> 1) < 0", "-1 > 0u", "(0 || -1) > 0u", "!0u - 2 > 0", "(0u == 0) - 2 < 0"]:
        yield e
    for e in ["defined ONE", "defined(ONE)", "defined ( ONE )", "defined NONE", "!defined NONE", "defined FN", "defined(FN)", "FN(1)", "FN (1)", "FN", "FN(FN)(2)", "FN(0) + FN(1)", "FN(defined ONE)", "FN((1,2) == 2)" if 0 else "FN((2))", "EMPTY 1", "1 EMPTY", "-EMPTY 1", "ONE ONE ONE" if 0 else "ONE", "LP 1 RP", "NEG - NEG", "- NEG", "if", "int", "sizeof", "while + 1", "true", "__LINE__ > 0", "defined __FILE__", "defined __LINE__", "L'a' == 97", "u'a' == 97", "U'\\xff' == 255", "'\\377' < 0", "'\\0' == 0", "'\\x7f'", "'\\''", "'\"'", "0777777777777777777777 > 0", "01777777777777777777777 > 0", "0b101 == 5", "1 ? 2 , 3 : 4" if 0 else "1 ? 2 : 4", "(1)?(2):(3)", "1?2:3", "0x1p", "1//c", "/*c*/ 1", "1 /* c */", "1 \\\n + 1", "defined \\\n ONE", "FN( \\\n 1)", "NONE(1)" if 0 else "NONE", "__STDC__ == 1", "__STDC_VERSION__ >= 201112L", "__INT_MAX__ == 2147483647", "__LONG_MAX__ == 0x7fffffffffffffffL"]:
        yield e


def check(c):
    d = PPDiff(c)
    ks = []
    for i, seq in enumerate(groups()):
        if len(seq) > (7 if c.thorough else 6):
            continue
        for v in range(4 if len(seq) < 6 else 1):
            ks.append(PPCase(f"group/{''.join(seq)}/{v}", DEFS, spell(seq, v), "", None, len(seq)))
    d.run(ks)
    c.extra["directive sequences"] = len(ks)
    ks = list(skipped()) + list(ends())
    d.run(ks)
    # expressions: -undef would hide the predefined macros
    d = PPDiff(c)
    ks = []
    for e in dict.fromkeys(exprs(c.thorough)):
        if e.startswith("__STDC_V") or e.startswith("__INT_M") or e.startswith("__LONG_M"):
            ks.append(PPCase("expr/" + e, DEFS + "#define __STDC_VERSION__ 201112L\n#define __INT_MAX__ 2147483647\n#define __LONG_MAX__ 0x7fffffffffffffffL", ev(e)))
            continue
        ks.append(PPCase("expr/" + e, DEFS, ev(e) if "//" not in e else f"#if {e}\nT\n#else\nF\n#endif", "", None, 2))
    d.run(ks, 1000)
    c.extra["expressions"] = len(ks)
    c.assumptions += ["gcc -E is right; where gcc reports an error the text is not counted"]


main("C18", check)
