"""C17: macro expansion."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
import pp
from pp import *


def case(key, defs, text, alt=True, steps=1):
    a = None
    if alt:
        try:
            a = Ref(defs).run(text)
        except PPError as e:
            a = None
            if e.args[0] == "unterminated":
                return None
    names = []
    for d in defs:
        n = re.match(r"\w+", d).group()
        if n not in names:
            names.append(n)
    return PPCase(key, "\n".join("#define " + d for d in defs), text, "\n".join("#undef " + n for n in names), a, steps)


def bodies(alpha, n):
    for k in range(n + 1):
        yield from itertools.product(alpha, repeat=k)


def objects(n, alpha):
    """all definitions of three object-like macros"""
    bs = [" ".join(b) for b in bodies(alpha, n)]
    for a, b, c in itertools.product(bs, repeat=3):
        if a > b and not a:
            continue
        yield case(f"obj/{a}|{b}|{c}", [f"A {a}", f"B {b}", f"C {c}"], "A B C [A,B] -C", steps=4)


def functions(n, m):
    """F and G function-like, all bodies over names, parentheses and the parameter"""
    alpha = ["x", "F", "G", "(", ")", ",", "1"]
    calls = ["F(G)(1)", "G(F)(2)", "F(F(1))", "F(G(F(3)))", "F (4) (5) (6)", "F\n(7)", "F(F)(8)", "G(G)(G)(9)", "F((1,2))"]
    for fb in bodies(alpha, n):
        if not fb or fb[0] == ")" or fb[0] == ",":
            continue
        for gb in bodies(["x", "F", "G", "(", "1"], m):
            f, g = " ".join(fb), " ".join(gb)
            for i, t in enumerate(calls):
                yield case(f"fun/{f}|{g}|{i}", [f"F(x) {f}", f"G(x) {g}"], t + " " + ")" * 8, steps=3)


ARGS = ["", "a", "1", "x y", "a  +b", '"s\\n"', "'\\''", "+", "(a,b)", "M", "E", "M E", "E M", "-", "N(M)", "N", "L", "\n a\n b", " a /* c */ b ", "@", "\"\\\\\"", "u8", "1e", ".", "=", "F(a)"]


def hashes(n, args):
    """F(x) with # and ##, all bodies, all arguments"""
    ops = ["x", "#x", "##", "a", "=", "E", "M"]
    for b in bodies(ops, n):
        if "##" in (b[:1] + b[-1:]) or not ({"##", "#x"} & set(b)) or any(p == q == "##" for p, q in zip(b, b[1:])):
            continue
        for sep in (" ", ""):
            body = sep.join(b)
            for i, a in enumerate(args):
                yield case(f"hash/{body}/{i}", [f"F(x) {body}", "M a1", "E", "N(y) <y>"], f"[F({a})]")


def hashes2(n, args):
    ops = ["x", "y", "##", "#x", "z", "1", ","]
    for b in bodies(ops, n):
        if "##" in (b[:1] + b[-1:]) or "##" not in b or any(p == q == "##" for p, q in zip(b, b[1:])) or "x" not in b or "y" not in b:
            continue
        body = " ".join(b)
        for i, a in enumerate(args):
            for j, c in enumerate(args):
                yield case(f"hash2/{body}/{i}/{j}", [f"F(x,y) {body}", "M a1", "E", "za1 zm", "xy XY"], f"[F({a},{c})]", steps=2)


def objhash():
    ops = ["a", "##", "#", "1", "M", "E", "+", "="]
    for b in bodies(ops, 4):
        if "##" in (b[:1] + b[-1:]) or not ({"##", "#"} & set(b)) or any(p == q == "##" for p, q in zip(b, b[1:])):
            continue
        yield case("objhash/" + " ".join(b), ["O " + " ".join(b), "M m", "E", "aM AM", "a1 A1", "MM mm"], "[O] S O")


def strings():
    """stringizing what macro replacement left: the spacing of nested results"""
    parts = ["x", " x", "E", " E", "M", " M", "(x)", ". x", "E x", "N(x)", " N(E)", "N( x )", "x##x", " x ## x", "#x", " # x", "N", "__COUNTER__" if 0 else "K(x)"]
    for a, b in itertools.product(parts, repeat=2):
        for i, arg in enumerate(["q", " q ", "", "E", "q r", "M"]):
            yield case(f"str/{a}|{b}/{i}", ["S(x) #x", "X(x) S(x)", f"T(x) X([{a}{b}])", "E", "M m  n", "N(y) y", "K(y) X(y)"], f"T({arg}) X(T({arg}))", steps=2)


def variadic():
    va = [("...", "__VA_ARGS__"), ("r...", "r"), ("x,...", "__VA_ARGS__"), ("x, r...", "r"), ("x,y,...", "__VA_ARGS__")]
    for ps, v in va:
        bs = [v, f"f({v})", f"#{v}", f"f(1,##{v})", f"f(1, ## {v}, 2)", f"{v} {v}", f"a##{v}", f"{v}##a", f"[{v}] #{v}", f"__VA_OPT__(,) {v}", f"__VA_OPT__(a {v})", f"f(a __VA_OPT__(, {v}) )", "__VA_OPT__(x)", "__VA_OPT__() z", f"__VA_OPT__(a ## {v})", "a ## __VA_OPT__(b c) ## d", "#__VA_OPT__(b  c)", f"q __VA_OPT__((a,b)) {v}", f"N({v})", f"W({v})", f"W(,##{v})"]
        if ps[0] == "x":
            bs += [f"x {v}", f"f(x,##{v})", f"f(x __VA_OPT__(,) {v})", f"__VA_OPT__(x ## {v})", f"x ## {v}", f"f(x , ##{v})", f"#x #{v}", f"f(,##{v} x)", f"__VA_OPT__(#x)"]
        for bi, b in enumerate(bs):
            for ai, a in enumerate(["", "1", "1,2", "1, 2,3", ",", ",,", "E", "E,E", "(1,2),3", "M", "M,M", " ", "N(1),N(2)", "F(1)", "F(1,F(2,3))", "1,\n2"]):
                if "," in b and "##" in b and (a == "," or (a == "" and ps[0] != ".") or a in (" ", ",,")):
                    continue      # GNU: what ,## does with an argument that is present but empty is not agreed on
                yield case(f"va/{ps}/{bi}/{ai}", [f"F({ps}) {b}", "E", "M m", "N(y) <y>", "W(...) w(__VA_ARGS__)"], f"F({a}) F ({a})", steps=2)


def nested():
    """calls whose name, parenthesis or arguments come from different expansions and lines"""
    D = ["f(a) a*g", "g(a) f(a)", "x 3", "p() int", "q(x) x", "r(x,y) x ## y", "str(x) # x", "t(a) a", "h t(t", "m(a) a(w)", "w 0,1", "LP (", "RP )", "CM ,", "two(a,b) a:b", "I(x) x", "e"]
    toks = ["f", "g", "t", "m", "q", "I", "two", "e", "x", "h", "(", ")", ",", "LP", "RP", "CM", "w"]
    for n in (1, 2, 3, 4):
        for ts in itertools.product(toks, repeat=n):
            s = " ".join(ts)
            if n >= 3 and "(" not in ts:
                continue
            if n == 4 and (ts[1] != "(" or ts[3] != ")"):
                continue
            tail = ")" * (s.count("(") - s.count(")"))
            yield case("nest/" + s, D, s + tail, steps=n)
    for i, t in enumerate(["f(2)(9)", "f(f)(1)", "t(10,2)" if 0 else "t((10,2))", "m\n(f)^m(m)", "h 5) ) - q(x)+p() y", "g(x+(3,4)-w) | h 5) & m(f)^m(m)", "r(2,3), r(4,), r(,5), r(,)", "str(r(1,2)) str(@ \\n)", "I(I)(I)(I(x))", "I(f)(1) I (f) (1)", "I(two)(1,2) two(I(1),I(,)" if 0 else "I(two)(1,2)", "two(I(f),g)(x)", "I(I(I)(f))(2)", "f e (1)", "I(f e)(1)", "f(\n1\n)(\n2\n)", "I(f\n(1))"]):
        yield case(f"nestx/{i}", D, t, steps=3)


def lines():
    """macros at the edges of lines and directives"""
    D = ["E", "H #", "F(x)", "G(x) x", "D define", "HD # define K 9", "K"]
    pieces = ["E", "H", "F(1)", "G()", "G(#)", "G(E)", "a", "# define K 7" , "HD", "G(# define K 8)" if 0 else "E E", "F(\n)", "G(\n)", "G(1\n)"]
    for n in (1, 2, 3):
        for ts in itertools.product(pieces, repeat=n):
            for k, seps in enumerate(itertools.product(" \n", repeat=n - 1)):
                s = "".join(t + p for t, p in zip(ts, seps + ("",)))
                yield case(f"line/{n}/{'|'.join(ts)}/{k}", D, s + "\nK", alt=False)


def edges():
    """where a directive ends: what stands on the following line is never part of it"""
    ends = ["#define Q", "#define Q ", "#define Q(", "#define Q()", "#define Q(x)", "#define Q(x) x", "#define Q 1", "#define Q(x) x ##" if 0 else "#define Q x", "#undef Q", "#undef Q ", "#", "# ", "#ifdef Q\n#endif", "#ifndef Q\n#endif", "#if 1\n#endif", "#if 0\n#else\n#endif", "#if Q\n#endif", "#line 7", "#line 7 \"f\""]
    nexts = ["(", "(x) y", "()", "( )", "define Q 3", "undef Q", "x", "Q", "Q(1)", ")", "## x", "+ 1", "\"g\"", "once", "1 2", "...", ",", "#define Q 4", "# define Q(z) z"]
    for e, n in itertools.product(ends, nexts):
        for pre in ("", "#define Q 9\n#undef Q\n"):
            yield PPCase(f"edge/{e!r}/{n}/{len(pre)}", pre, f"{e}\n{n}\nQ Q(5) ;", "#undef Q")


def redefs():
    """histories of #define and #undef of two names, and what a third one means after every step"""
    ops = ["#define A 1", "#undef A", "#define A B", "#define B 2", "#undef B", "#define B A", "#define A(x) <x>", "#define B(x) A(x)"]
    for n in (1, 2, 3, 4):
        for h in itertools.product(ops, repeat=n):
            pre, text = "#define T A B A(B) B(A)", []
            for o in h:
                text.append(("#undef " + o.split()[1].split("(")[0] + "\n" if o.startswith("#define") else "") + o + "\nT ;")
            yield PPCase("hist/" + "/".join(str(ops.index(o)) for o in h), pre, "\n".join(text), "#undef A\n#undef B\n#undef T", None, n)


def names():
    """names of every length that are prefixes, suffixes or near misses of each other, as macros and as parameters"""
    base = "abcdefghij_0123456789_K"
    ns = [base[:i] for i in range(1, len(base) + 1)]
    near = [base[1:i] for i in (3, 4, 5, 9)] + ["abd", "Abc", "abc_", "_abc", "abcc", "aabc", "ab", "bc", "cab", "ABC", "abC", "__abc", "abc1", "ab1"]
    all_ = list(dict.fromkeys(ns + near))
    for x, y in itertools.permutations(all_, 2):
        if x not in ns[:6] and y not in ns[:6] and abs(len(x) - len(y)) > 1:
            continue
        yield case(f"name/obj/{x}/{y}", [f"{x} <{y}>", f"{y} [{x} 1]"], f"{x} {y} -{x}-{y}", steps=2)
        yield case(f"name/fn/{x}/{y}", [f"{x}(q) q {y}(q)", f"{y}(r) r {x} (r) {y}"], f"{x}(1) {y}(2) {x}({y})(3) {y}({x}({y}(4)))", steps=2)
        yield case(f"name/par/{x}/{y}", [f"F({x},{y}) {x} {y} #{x} #{y} {x}##{y} {y}##{x} {x}_ _{y}", f"G({y}) {x} {y} {x}##{y} #{y}", f"H({x},...) {x} {y} __VA_ARGS__"], "F(1,2) G(3) H(4,5) F(G(1),H(2,3))", steps=2)
        yield PPCase(f"name/def/{x}/{y}", f"#define {x} 1", f"#ifdef {y}\n1\n#else\n2\n#endif\n#if defined({y}) || defined {y}\n3\n#endif\n{x} {y}\n#undef {y}\n{x}\n#define {y} {x}\n{y}\n#undef {x}\n{x} {y}", f"#undef {x}\n#undef {y}", None, 3)


def literals():
    """literals that contain what separates or brackets arguments"""
    ins = ["(", ")", ",", "((", "))", "(,", ",)", "#", "##", "...", "x", "M", "//", "/*", "*/", "__VA_ARGS__", "\\\"", "'", " ", "\\n", "\\\\", "\\x28", "\\,", ""]
    toks = [f'"{i}"' for i in ins] + [f'{p}"{i}"' for p in ("L", "u8", "u", "U") for i in ("(", ")", ",", "M")] + [f"'{i}'" for i in ("(", ")", ",", "#", "x", "\\'", '"', "\\\\", "M")] + ["L'('", "u')'", "U','", "M", "(M)", "1"]
    D = ["M m", "F(x,y) {x|y}", "G(x) <x>", "S(x,y) #x #y", "V(...) [__VA_ARGS__] #__VA_ARGS__", "X(x,y) S(x,y)", "P(x,y) L##x y", "T(x, ...) x:f(1,##__VA_ARGS__)__VA_OPT__(:)"]
    for a, b in itertools.product(toks, repeat=2):
        yield case(f"lit/{a}/{b}", D, f"F({a},{b}) G({a} {b}) G(({a},{b})) S({a},{b}) S({a}{b},({b},{a})) V({a},{b}) X({a},{b}) T({a},{b}) T({a}{b}) F(G({a}),S({b},{a}))", steps=4)
    for a in toks:
        yield case(f"lit1/{a}", D + [f"A {a}", f"B(x) {a} x", f"C(x,y) {a}x{a}y"], f"A B(1) B({a}) C({a},2) C(A,B(A)) G(A) S(A,B(1)) X(A,B(1)) F({a}\n,\n{a}) G(\n{a}) B (A)", steps=4)


def families(c):
    t = c.thorough
    yield objects(3 if t else 2, ["A", "B", "C", "x"])
    yield functions(4 if t else 3, 2)
    yield hashes(5 if t else 4, ARGS)
    yield hashes2(6 if t else 5, ["", "a", "M", "E", "x y", "+", "1", "\"s\"", "E E", "(b)"])
    yield objhash()
    yield strings()
    yield variadic()
    yield nested()
    yield lines()
    yield edges()
    yield redefs()
    yield names()
    yield literals()


def check(c):
    d = PPDiff(c)
    for i, f in enumerate(families(c)):
        t = time.time()
        ks = list({k.key: k for k in f if k}.values())
        d.run(ks)
        c.extra[f"family {i}"] = len(ks)
        if os.environ.get("VF_V"):
            print(i, len(ks), round(time.time() - t, 1), flush=True)
    c.assumptions += [
        "gcc -E is right; where gcc reports an error the text is not counted",
        "where the standard leaves open whether a nested call is rescanned (6.10.3.4p4), the result of the published reference algorithm is accepted as well as gcc's",
        "the preprocessed text is compared as preprocessing tokens, so that only white space inside of stringized arguments is observable",
    ]


main("C17", check)
