"""C03: float and double arithmetic, comparison and literals give IEEE results of the C type."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
import exprs
from conv import *

NM = dict(FT)

def rank(a, b):
    return "q" if "q" in (a, b) else "d" if "d" in (a, b) else "f" if "f" in (a, b) else None

def cases(c):
    for a, ca in ALL:
        for b, cb in ALL:
            r = rank(a, b)
            if not r:
                continue
            L = f"for (int i=0;i<VFN_{a};i++) for (int j=0;j<VFN_{b};j++) {{ {ca} x=({ca})VF_{a}[i]; {cb} y=({cb})VF_{b}[j]; "
            for op in "+-*/":
                yield Case(f"bin {a}{op}{b}", L + f"{obs(r, f'x {op} y')} {obs(r, f'(x {op} y) {op} x')} {obs(r, f'y {op} (x {op} y)')} O(({NM[r]})(x {op} y) == (x {op} y)); O(sizeof(x {op} y)); f$(x,y); }}",
                           f"static void f$({ca} p, {cb} q) {{ {obs(r, f'p {op} q')} }}", steps=5)
                if a in "fdq":
                    yield Case(f"asg {a}{op}={b}", L + f"{ca} z=x; {obs(a, f'z {op}= y')} {obs(a, 'z')} {ca} v[3]; v[0]=v[2]=7; v[1]=x; {ca} *p=v+1; *p {op}= y; {obs(a, 'v[0]')} {obs(a, 'v[1]')} {obs(a, 'v[2]')} }}", steps=5)
                elif b in "fdq":
                    yield Case(f"asg {a}{op}={b}", L + f"{start(rank(a,b), '0')}; {{ long double q = ({NM[r]})(x {op} y); vf_startd({TID[r]}, q); if (!vf_step({TID[a]})) continue; }} x {op}= y; {obs(a, 'x')} }}", steps=5)
            for op in ("==", "!=", "<", "<=", ">", ">="):
                yield Case(f"cmp {a}{op}{b}", L + f"O(x {op} y); O(!(x {op} y)); O((x {op} y) ? 5 : 6); if (x {op} y) O(1); else O(0); O((x {op} y) && (y {op} x)); O((x {op} y) || (y {op} x)); O(sizeof(x {op} y)); }}", steps=5)
            yield Case(f"logic {a} {b}", L + "O(x && y); O(x || y); O(!x && y); O(x && !y); O(x ? (y ? 1 : 2) : (y ? 3 : 4)); }", steps=5)
            yield Case(f"cond {a} {b}", L + f"{obs(r, '(i & 1) ? x : y')} O(sizeof(1 ? x : y)); }}", steps=2)
    for a, ca in FT:
        yield Case(f"un {a}", f"for (int i=0;i<VFN_{a};i++) {{ {ca} x=VF_{a}[i]; {obs(a, '-x')} {obs(a, '+x')} {obs(a, '- -x')} O(!x); O(!!x); O(sizeof(-x)); O(sizeof(+x)); {obs(a, '-(x+x)')} }}", steps=8)
        for nm, e in (("preinc", "++x"), ("predec", "--x"), ("postinc", "x++"), ("postdec", "x--")):
            yield Case(f"{nm} {a}", f"for (int i=0;i<VFN_{a};i++) {{ {ca} x=VF_{a}[i]; {ca} v[3]; int k=1; {obs(a, e)} {obs(a, 'x')} v[0]=v[2]=5; v[1]=VF_{a}[i]; {obs(a, e.replace('x', 'v[k]'))} {obs(a, 'v[0]')} {obs(a, 'v[1]')} {obs(a, 'v[2]')} }}", steps=8)
        # depth-2 expression trees, every operator pair: temporaries are spilled and restored
        for o1 in "+-*/":
            for o2 in "+-*/":
                for b, cb in (("f", "float"), ("d", "double"), ("q", "long double"), ("i", "int"), ("ul", "unsigned long")):
                    O3 = "OQ" if "q" in (a, b) else "OD"
                    yield Case(f"tree {a}{b} {o1}{o2}", f"for (int i=0;i<VFN_{a};i+=3) for (int j=0;j<VFN_{b};j+=2) {{ {ca} x=VF_{a}[i]; {cb} y=VF_{b}[j]; {ca} z=3.25; {O3}((x {o1} y) {o2} (z {o1} x)); {O3}(x {o2} (y {o1} (z {o2} x))); {O3}(((x {o1} y) {o2} z) {o1} y); OD(h$(x {o1} y, h$(x, z {o2} y))); }}",
                               f"static double h$(double p, {ca} q) {{ return p {o2} q; }}", steps=4)
    # literals: every spelling
    n = 0
    mant = ["0.", ".5", "1.", "1.5", "10", "123.456", "0.1", "3.14159265358979323846", "9007199254740993", "1.17549435e", "2.2250738585072014", "16777217", "4.9", "0x1", "0x1.8", "0x.4", "0xA.bC", "0x1.fffffffffffff", "0x1.000001", "1.7976931348623157", "3.4028235"]
    for m in mant:
        hexa = m.startswith("0x")
        m0 = m.rstrip("e")
        for ex in ([""] if not hexa and "." in m0 else []) + ([f"p{k}" for k in ("0", "10", "-10", "+3", "-149", "127", "-1074", "-1022")] + [f"P{k}" for k in ("0", "-3")] if hexa else ["e0", "e5", "E5", "e-5", "E+5", "e+38", "e-38", "e-45", "e-20", "e20"]):
            for suf in ("", "f", "F", "l", "L"):
                try:
                    v = float.fromhex(m0 + ex.lower()) if hexa else float(m0 + ex)
                except ValueError:
                    continue
                if suf in ('f', 'F') and abs(v) > 3.4e38: continue
                t = m0 + ex + suf
                yield Case(f"lit {t}", f"OD({t}); O(sizeof({t})); OD(-{t}); OF({t}); double d = {t}; OD(d); static double sd = {t}; static float sf = {t}; OD(sd); OF(sf); O({t} == g$); OQ({t}); OQ(h$); OQ(-{t}); ", f"{'float' if suf in ('f', 'F') else 'long double' if suf else 'double'} g$ = {t}; long double h$ = {t};")
                n += 1

def body(c):
    c.assumptions = ["riscv64 gcc -O0 -ffp-contract=off implements IEEE binary32/binary64/binary128 as C requires; NaN payloads are not compared"]
    c.extra["bound"] = "all type pairs with a floating operand x 4 arithmetic / 6 comparison / logical operators x all value pairs (72 values incl. subnormal, inf, nan, -0); all operator pairs in depth-3 trees; all literal spellings from the mantissa/exponent/suffix alphabet"
    d = Diff(c, prelude=PRELUDE + ENUM + EXTERN, helper=helper())
    d.run(cases(c), size=150)
    # every kind of expression as either operand, against every other kind
    d = Diff(c, prelude=PRELUDE + exprs.PRE + exprs.PRE_EXT, helper="int one = 1, zero;")
    tys = [(a, b) for a in exprs.ALL for b in exprs.ALL if a in exprs.FLT or b in exprs.FLT] if c.thorough else [("f", "d"), ("d", "f"), ("f", "u"), ("l", "d"), ("q", "c"), ("f", "f"), ("d", "q")]
    d.run([Case(k, b, ds, steps=n) for t, u in tys for k, ds, b, n in exprs.pairs(t, u)], size=20)

main("C03", body)
