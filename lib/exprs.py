"""Every kind of expression C has, for every arithmetic type: the operands of the 'every expression in every context' families."""

INT = {"b": "_Bool", "c": "signed char", "uc": "unsigned char", "s": "short", "us": "unsigned short", "i": "int", "u": "unsigned", "l": "long", "ul": "unsigned long", "e": "enum XE"}
FLT = {"f": "float", "d": "double", "q": "long double"}
ALL = {**INT, **FLT}
VALS = {"b": ["1", "0"], "c": ["-100", "6"], "uc": ["200", "6"], "s": ["-30000", "6"], "us": ["65000", "6"], "i": ["-70000", "6"], "u": ["4000000000u", "6"], "l": ["-5000000000L", "6"], "ul": ["0xfedcba9876543210u", "6"], "e": ["XB", "XA"],
        "f": ["6.5f", "0.25f"], "d": ["6.5", "100.0625"], "q": ["6.5L", "0.1L"]}
PRE = "enum XE { XA = 6, XB = -70000 };\n"
PRE_EXT = "extern int one, zero;\n"


class Forms:
    """decls: file scope; locals: statements that (re)build the operands; forms: [(name, expression, may be negative)]"""

    def __init__(self, t, vi, sfx="", tag="$"):
        self.t, self.ct, self.v, self.sfx = t, ALL[t], VALS[t][vi], sfx
        ct, v, n = self.ct, self.v, sfx
        isint = t in INT
        y = {"b": "1", "e": "XA"}.get(t, "3")
        d = f"{n}{tag}"
        self.decls = (f"static {ct} G{d}; static {ct} GA{d}[3]; static _Thread_local {ct} GT{d}; struct XS{d} {{ char pad; {ct} m; " + ("int b : 20; unsigned ub : 17; " if isint and t not in ("b",) else "_Bool b : 1; unsigned ub : 1; " if t == "b" else "int b : 20; unsigned ub : 17; ") + f"{ct} ar[2]; }}; "
                      f"static {ct} FN{d}(void) {{ return {v}; }} static struct XS{d} FS{d}(void) {{ struct XS{d} r = {{ 1, {v}, 1, 1, {{ {y}, {v} }} }}; return r; }} static {ct} ID{d}({ct} k) {{ return k; }} union XU{d} {{ {ct} m; char c[16]; }};\n")
        self.locals = (f"{ct} x{n} = {v}, y{n} = {y}, t{n} = {y}; G{d} = x{n}; GA{d}[0] = y{n}; GA{d}[1] = x{n}; GT{d} = x{n}; {ct} *p{n} = &x{n}, a{n}[3] = {{ {y}, {v}, {y} }}; {ct} **pp{n} = &p{n}; struct XS{d} s{n} = {{ 1, {v}, 1, 1, {{ {y}, {v} }} }}, *ps{n} = &s{n}; "
                       f"{ct} (*fp{n})(void) = FN{d}; {ct} (*ip{n})({ct}) = ID{d}; union XU{d} un{n}; un{n}.m = x{n}; _Atomic {ct} at{n} = {v}; {ct} vl{n}[one + 1]; vl{n}[1] = x{n}; vl{n}[0] = y{n}; {'long' if isint else 'long double'} w{n} = {v}; ")
        if t == "q":
            self.locals = self.locals.replace("_Atomic ", "")
        self.reset = f"x{n} = {v}; y{n} = t{n} = {y}; s{n}.m = at{n} = {v}; s{n}.b = s{n}.ub = 1; "
        F = []

        def add(name, e, neg=False):
            e = e.replace("#", n).replace("@", d).replace("%T", ct)
            F.append((name, f"({e})", neg))
        for nm, e in [("local", "x#"), ("global", "G@"), ("element of a global", "GA@[one]"), ("thread", "GT@"), ("deref", "*p#"), ("deref deref", "**pp#"), ("element", "a#[one]"), ("reversed element", "one[a#]"), ("deref sum", "*(a# + one)"), ("member", "s#.m"), ("arrow", "ps#->m"), ("member array", "s#.ar[1]"),
                      ("address arrow", "(&s#)->m"), ("member of call", "FS@().m"), ("element of call", "FS@().ar[one]"), ("union member", "un#.m"), ("compound literal", "(%T){" + v + "}"), ("member of compound literal", "((struct XS@){1, " + v + "}).m"), ("cast", "(%T)w#"), ("call", "FN@()"), ("pointer call", "fp#()"), ("deref call", "(*fp#)()"), ("call with argument", "ID@(x#)"),
                      ("pointer call with argument", "ip#(x#)"), ("comma", "zero, x#"), ("conditional", "one ? x# : y#"), ("conditional else", "zero ? y# : x#"), ("conditional mixed", "one ? x# : 1"), ("conditional calls", "one ? FN@() : ID@(y#)"), ("elvis", "x# ?: y#"), ("elvis else", "zero ?: x#"), ("assignment", "t# = x#"), ("assignment through pointer", "*p# = x#"), ("member assignment", "s#.m = x#"),
                      ("statement expression", "({ x#; })"), ("statement expression declaration", "({ %T q = x#; y#; q; })"), ("generic", "_Generic(x#, char *: 1, default: x#)"), ("deref address", "*&x#"), ("vla element", "vl#[one]"), ("atomic", "at#"), ("parenthesised", "(x#)"), ("typeof cast", "(typeof(x#))w#"), ("constant", v), ("logical not", "!x#"), ("equal", "x# == y#"), ("not equal", "x# != y#"), ("less", "x# < y#"), ("at most", "x# <= y#"),
                      ("greater", "x# > y#"), ("at least", "x# >= y#"), ("and", "x# && y#"), ("or", "x# || y#"), ("sum", "x# + y#"), ("quotient", "x# / y#"), ("plus", "+x#"), ("multiple", "x# * 1"), ("pre increment", "++x#"), ("post increment", "x#++"), ("pre decrement", "--t#"), ("post decrement", "t#--"), ("atomic assignment", "at# = x#"),
                      ("signed bit field", "s#.b"), ("unsigned bit field", "s#.ub"), ("bit field assignment", "s#.ub = one"), ("bit field increment", "s#.ub++" if t != "b" else "s#.ub"), ("bit field compound", "s#.b += zero" if t != "b" else "s#.b |= one"), ("bit field of call", "FS@().ub"), ("sizeof", "sizeof x#"), ("pointer difference", "&a#[2] - a#"), ("character", "'\\377'" if isint else "'a'"), ("pointer equality", "p# == &x#"), ("pointer test", "!p#"), ("enumerator", "XA")]:
            add(nm, e)
        if t not in ("b",):
            add("add to", "t# += x#")
            add("multiply", "t# *= 1")
            add("divide", "x# /= y#")
            add("sub", "x# - y#", True)
            add("sub from", "t# -= x#", True)
            add("negated", "-x#", True)
        if isint:
            for nm, e in [("complement", "~x#"), ("bit and", "x# & 6"), ("bit and same", "x# & y#"), ("bit or", "x# | y#"), ("bit xor", "x# ^ y#"), ("remainder", "x# % y#"), ("right shift", "x# >> 1"), ("left shift", "y# << 2"), ("or to", "t# |= x#"), ("and to", "x# &= t#"), ("xor to", "x# ^= t#"), ("shift to", "x# >>= one"), ("shift left to", "y# <<= one")]:
                add(nm, e)
        self.forms = F

    def again(self, form):
        """statements that undo what evaluating the form changed"""
        import re
        return self.reset if re.search(r"\+\+|--|<<=|>>=|[^=!<>]=[^=]", form[1]) else ""

    def ok(self, form, target):
        """is converting this form to the target type defined"""
        nm, e, neg = form
        if neg and self.t in FLT and target in ("uc", "us", "u", "ul", "e"):
            return False
        return True


def obs(t, e):
    return f"OF({e});" if t == "f" else f"OD({e});" if t == "d" else f"OD((double)({e})); O(({e}) > 6.49L);" if t == "q" else f"O((long)({e}));"


def conversions(t, vi, targets=None):
    """case texts (key, decls, body) for C02: every form of type t converted to every type in every context"""
    f = Forms(t, vi)
    for form in f.forms:
        nm, e, neg = form
        ds, body = [f.decls], [f.locals]
        k = 0
        for b, cb in ALL.items():
            if targets and b not in targets or not f.ok(form, b):
                continue
            r = f.again(form)
            ds.append(f"static void p{b}$({cb} v) {{ {obs(b, 'v')} }} static {cb} r{b}$(void) {{ {f.locals} return {e}; }}")
            body.append(f"{{ {r} {cb} r = {e}; {obs(b, 'r')} {r} r = 0; r = {e}; {obs(b, 'r')} {r} r = ({cb}){e}; {obs(b, 'r')} {r} p{b}$({e}); {r} {cb} v[2] = {{ 0, {e} }}; {obs(b, 'v[1]')} {r} struct {{ char c; {cb} m; }} z = {{ .m = {e} }}; {obs(b, 'z.m')} {r} r = ({cb}){{ {e} }}; {obs(b, 'r')} {r} r = rb$; {obs(b, 'r')} }}".replace("rb$", f"r{b}$()"))
            k += 8
        yield f"form {nm} {t}{vi}", " ".join(ds), " ".join(body), k


def pairs(t, u):
    """every form against every form, in both operand orders: nothing one evaluates disturbs the other"""
    f, g = Forms(t, 0, "1"), Forms(u, 0, "2")
    for h in (f, g):        # whether the value of an assignment to a bit-field promotes like the bit-field is not settled
        h.forms = [x for x in h.forms if x[0] not in ("bit field assignment", "bit field increment")]
    for a in f.forms:
        body = [f.locals, g.locals]
        for b in g.forms:
            r = f.again(a) + g.again(b)
            op = "O" if t in INT and u in INT else "OD"
            ca = "(double)" if op == "OD" else "(long)"
            body.append(f"{r}{op}({ca}{a[1]} - {ca}{b[1]}); {r}O({a[1]} < {b[1]}); ")
            if t in INT and u in INT:
                body.append(f"{r}O(({a[1]} ^ {b[1]}) + 0); ")
        yield f"pair {t} {u} {a[0]}", f.decls + g.decls, " ".join(body), 3 * len(g.forms)


KIND = "_Generic((X), float: 1, double: 1, long double: 2, long: 3, unsigned long: 3, default: 0)"


def calls(t, vi):
    """C13: every form as an argument for, and as the result of, functions of every type: (key, decls, body, peer, steps)"""
    f = Forms(t, vi)
    for form in f.forms:
        nm, e, neg = form
        bs = [b for b in ALL if f.ok(form, b)]
        decls = "".join(f"void p{b}$({ALL[b]} v); {ALL[b]} r{b}$(void); void q{b}$({ALL[b]} v, double, {ALL[b]} w); " for b in bs) + "long many$(" + ", ".join(ALL[b] for b in bs) + ");"
        peer = " ".join(f"void p{b}$({ALL[b]} v) {{ {obs(b, 'v')} }} void q{b}$({ALL[b]} v, double k, {ALL[b]} w) {{ {obs(b, 'v')} OD(k); {obs(b, 'w')} }} {ALL[b]} r{b}$(void) {{ {f.locals} return {e}; }}" for b in bs)
        peer += "long many$(" + ", ".join(f"{ALL[b]} v{b}" for b in bs) + ") { " + " ".join(obs(b, f"v{b}") for b in bs) + " return 1; }"
        body = f.locals
        for b in bs:
            r = f.again(form)
            body += f"{{ {r} p{b}$({e}); {r} q{b}$({e}, 1.5, 1); {r} q{b}$(1, {r and '1.25' or '(double)' + e}, {e}); {obs(b, f'r{b}$()')} }} "
        if not f.again(form):
            body += "O(many$(" + ", ".join(e for b in bs) + "));"
        yield f"form {nm} {t}{vi}", f.decls + decls, body, peer, 4 * len(bs)


def variadics(t, vi):
    """C15: every form as a variadic argument: (key, unit decls, body, steps)"""
    f = Forms(t, vi)
    for form in f.forms:
        nm, e, neg = form
        r = f.again(form)
        k = KIND.replace("X", e)
        yield f"form {nm} {t}{vi}", f.decls, f"{f.locals} va_any({k}, {e}, 7); {r} va_any(10 + {k}, 1, 2.5, {e}, 8); {r} va_any(20 + {k}, 1, 2, 3, 4, 5, 6, 7, 8, {e}, 9);", 3


def conditions(t, vi):
    """C10: every form as a controlling expression"""
    f = Forms(t, vi)
    for form in f.forms:
        nm, e, neg = form
        r = f.again(form)
        b = (f"{f.locals} int n = 0; if {e} O(1); else O(2); {r} while {e} {{ O(3); break; }} {r} do {{ if (n++ > 1) break; O(4); {r} }} while {e}; {r} for (; {e}; ) {{ O(5); break; }} {r} O({e} ? 6 : 7); {r} O(!{e}); {r} O({e} && one); {r} O({e} || zero); {r} O(one && {e}); {r} O(zero || {e}); {r} O(zero && {e}); {r} O(one || {e}); "
             f"{r} n = 0; for (int i = 0; i < 3; i++) {{ {r} if (!{e}) continue; n++; }} O(n); {r} if (!!{e} == one) O(8); {r} O(({e}, one)); ")
        if t in INT:
            b += f"{r} switch {e} {{ case 0: O(10); break; case 1: O(11); break; case 6: O(12); break; case -100: O(13); break; case 200: O(14); break; case -30000: O(15); break; case 65000: O(16); break; case -70000: O(17); break; default: O(18); }} {r} switch {e} {{ case -5 ... -1: O(20); case 0 ... 3: O(21); break; case 4 ... 8: O(22); }} int ar[16] = {{ 3, 1, 4, 1, 5, 9, 2, 6, 5, 3, 5, 8, 9, 7, 9, 3 }}; {r} O(ar[{e} & 15]); {r} O(*(ar + ({e} & 7))); {r} O((&ar[8] - ({e} & 7))[0]); {r} O((1L << ({e} & 31))); "
        yield f"form {nm} {t}{vi}", f.decls, b, 16
