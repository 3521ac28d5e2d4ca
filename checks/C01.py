"""C01: every integer operator computes the value the C abstract machine gives."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
import exprs
from ints import *

def lits():
    r = []
    for suf, bits, sg in (("", 32, 1), ("U", 32, 0), ("L", 64, 1), ("UL", 64, 0)):
        vs = [0, 1, 2, 3, 5, 8, 31, 100, 127, 255, 2047, 2048, 2049, 4095, 4096, 32768, 65535, 0x7ffff7ff, 0x7ffff800, 0x7fffffff]
        if not sg or bits == 64:
            vs += [0x80000000, 0xfffff800, 0xffffffff]
        if bits == 64:
            vs += [0x100000000, 0x7fffffffffffffff, 0x123456789abcdef0]
        if bits == 64 and not sg:
            vs += [1 << 63, (1 << 64) - 1]
        r += [(f"{v}{suf}", v, "i u l ul".split()[[("", ), ("U", ), ("L", ), ("UL", )].index((suf,))]) for v in vs]
    return r

def cases(c):
    for ta, ca, ba, sa in TYPES:
        for tb, cb, bb, sb in TYPES:
            for op in BIN:
                g = f"if (vf_ok({OPID.get(op, 7)},{IDX[ta]},{IDX[tb]},VF_{ta}[i],VF_{tb}[j]))"
                yield Case(f"bin {NAME[op]} {ta} {tb}",
                    f"for (int i=0;i<VFN_{ta};i++) for (int j=0;j<VFN_{tb};j++) {{ {ca} x=({ca})VF_{ta}[i]; {cb} y=({cb})VF_{tb}[j]; {g} {{ O((long)(x {op} y)); f$(x,y); O((x {op} y) ? 7 : 9); }} }}",
                    f"void f$({ca} p, {cb} q) {{ O(p {op} q); }}", steps=200)
            for op in ASG:
                g = f"if (vf_ok({OPID.get(op, 7)},{IDX[ta]},{IDX[tb]},VF_{ta}[i],VF_{tb}[j]))"
                yield Case(f"asg {NAME[op]} {ta} {tb}",
                    f"{ca} arr[3]; struct {{ char pad; {ca} m; char post; }} st; {ca} *ptr = &arr[1]; st.pad=3; st.post=5;"
                    f"for (int i=0;i<VFN_{ta};i++) for (int j=0;j<VFN_{tb};j++) {{ {ca} x=({ca})VF_{ta}[i]; {cb} y=({cb})VF_{tb}[j];"
                    f" {g} {{ {ca} z=x; O((long)(z {op}= y)); O(z); g$=x; g$ {op}= y; O(g$); arr[0]=arr[2]=({ca})1; *ptr=x; O((long)(*ptr {op}= y)); O(arr[1]); O(arr[0]); O(arr[2]);"
                    f" st.m=x; st.m {op}= y; O(st.m); O(st.pad); O(st.post); }} }}",
                    f"static {ca} g$;", steps=200)
    for ta, ca, ba, sa in TYPES:
        for op in ("+", "-", "~", "!", "- -", "~~", "!!", "-~", "~-", "!-", "-!", "+-", "!~", "~!", "-+"):
            ng = f"if (vf_ok(1,{IDX['i']},{IDX[ta]},0,VF_{ta}[i]) && vf_ok(0,{IDX[ta]},{IDX['i']},VF_{ta}[i],1))" if "-" in op else ""
            yield Case(f"un {op} {ta}", f"for (int i=0;i<VFN_{ta};i++) {{ {ca} x=({ca})VF_{ta}[i]; {ng} {{ O((long)({op} x)); O({op} x); O(sizeof({op} x)); O(({op} x) ? 3 : 4);}} }}", steps=20)
        for nm, ex, d in (("preinc", "++x", 0), ("predec", "--x", 1), ("postinc", "x++", 0), ("postdec", "x--", 1)):
            g = f"if (vf_ok({d},{IDX[ta]},{IDX['i']},VF_{ta}[i],1))"
            pe = ex.replace("x", "*p")
            if nm.startswith("post"):
                pe = "(*p)" + ex[1:]
            yield Case(f"incdec {nm} {ta}",
                f"for (int i=0;i<VFN_{ta};i++) {{ {g} {{ {ca} x=({ca})VF_{ta}[i]; {ca} a[3]; {ca} *p=&a[1]; a[0]=a[2]=({ca})1; a[1]=x; O((long)({ex})); O(x); O((long)({pe})); O(a[0]); O(a[1]); O(a[2]); g$=({ca})VF_{ta}[i]; O((long)({ex.replace('x', 'g$')})); O(g$);}} }}",
                f"static {ca} g$;", steps=20)
    # one literal operand, either side
    for ta, ca, ba, sa in TYPES:
        if ta in ("b", "e"):
            continue
        for op in BIN:
            for k, (txt, v, lt) in enumerate(lits()):
                body = []
                gl = f"if (vf_ok({OPID.get(op, 7)},{IDX[ta]},{IDX[lt]},VF_{ta}[i],(long){clit(v)}))"
                gr = f"if (vf_ok({OPID.get(op, 7)},{IDX[lt]},{IDX[ta]},(long){clit(v)},VF_{ta}[i]))"
                yield Case(f"lit {NAME[op]} {ta} {txt}",
                    f"for (int i=0;i<VFN_{ta};i++) {{ {ca} x=({ca})VF_{ta}[i]; {gl} O((long)(x {op} {txt})); {gr} O((long)({txt} {op} x)); }}", steps=40)
    # two operators, both association shapes: intermediate results never leave a register
    tt = ["c", "us", "i", "u", "l", "ul"] if c.thorough else ["i", "u", "l", "ul"]
    D = {t[0]: t for t in TYPES}
    NOUB = ["+", "-", "*", "&", "|", "^", "==", "<", "<=", ">", ">>", "/"]
    for t1 in tt:
        for t2 in tt:
            for op1 in NOUB:
                for op2 in NOUB:
                    # operands kept small enough (or unsigned) that no signed overflow is possible: values below 2^10
                    b = []
                    for sh_ in ("(x %s y) %s z", "z %s (x %s y)"):
                        a1, a2 = (op1, op2) if sh_.startswith("(") else (op2, op1)
                        if "/" in (a1, a2) or ">>" in (a1, a2):
                            # divisor / shift count is always an inner constant-free operand: force it into 1..31
                            pass
                        e = sh_ % ((op1, op2) if sh_.startswith("(") else (op2, op1))
                        if (sh_.startswith("(") and op2 in ("/", ">>")) :
                            e = f"(x {op1} y) {op2} w"
                        elif (not sh_.startswith("(") and op2 in ("/", ">>")):
                            e = f"z {op2} (((x {op1} y) & 7) + 1)"
                        if op1 in ("/", ">>"):
                            e = e.replace(f"(x {op1} y)", f"(x {op1} w)")
                        b.append(f"O((long)({e}));")
                    c1, c2 = D[t1][1], D[t2][1]
                    yield Case(f"nest {NAME[op1]} {NAME[op2]} {t1} {t2}",
                        f"static int v[]={{0,1,-1,77,-300}}; for (int i=0;i<5;i++) for (int j=0;j<5;j++) for (int k=0;k<5;k++) {{ {c1} x=v[i]; {c2} y=v[j]; {c1} z=v[k]; {c2} w=(v[j]&15)+1; {' '.join(b)} }}", steps=250)

def body(c):
    c.assumptions = ["the reference compiler (riscv64 gcc -O0) implements the C integer semantics",
                     "qemu-riscv64 executes RV64GC correctly",
                     "operand values outside the boundary alphabet behave like those inside it"]
    c.extra["bound"] = "all ordered pairs of 10 integer types x 18 binary / 10 compound / 15 unary / 4 inc-dec operators x all pairs of boundary values; all type x literal operand; all two-operator nests; undefined combinations excluded"
    d = Diff(c, prelude=PRELUDE + ENUM + EXTERN, helper=helper())
    d.run(cases(c), size=500)
    # every kind of expression as either operand, against every other kind
    d = Diff(c, prelude=PRELUDE + exprs.PRE + exprs.PRE_EXT, helper="int one = 1, zero;")
    tys = list(exprs.INT) if c.thorough else ["c", "u", "l"]
    d.run([Case(k, b, ds, steps=n) for t in tys for u in tys for k, ds, b, n in exprs.pairs(t, u)], size=20)

main("C01", body)
