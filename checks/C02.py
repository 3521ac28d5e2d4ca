"""C02: every conversion between arithmetic types, in every context, preserves or converts the value as C requires."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
from conv import *
import exprs

def cases(c):
    for a, ca in ALL:
        for b, cb in ALL:
            g = f"{start(a, 'i')}; if (!vf_step({TID[b]})) continue;"
            loop = f"for (int i=0;i<VFN_{a};i++) {{ {ca} x=({ca})VF_{a}[i]; {g} "
            # every implicit and explicit conversion context
            ctx = {
                "cast": f"{obs(b, f'({cb})x')}",
                "init": f"{cb} y = x; {obs(b, 'y')}",
                "assign": f"{cb} y; {obs(b, 'y = x')} {obs(b, 'y')}",
                "global": f"g$ = x; {obs(b, 'g$')}",
                "member": f"struct {{ char p; {cb} m; char q; }} s; s.p = 1; s.q = 2; s.m = x; {obs(b, 's.m')} O(s.p); O(s.q);",
                "elem": f"{cb} v[3] = {{0, x, 0}}; {obs(b, 'v[1]')} {obs(b, 'v[0]')} {obs(b, 'v[2]')}",
                "deref": f"{cb} v[2]; {cb} *p = v; *p++ = x; *p = x; {obs(b, 'v[0]')} {obs(b, 'v[1]')}",
                "param": f"p$(x);",
                "param9": f"q$(1,2,3,4,5,6,7,8,1.f,2.f,3.f,4.f,5.f,6.f,7.f,8.f,x,9);",
                "return": f"{obs(b, 'r$(x)')}",
                "complit": f"{obs(b, f'({cb}){{x}}')}",
                "comma": f"{obs(b, f'({cb})(0, x)')}",
                "cond": f"{obs(b, f'({cb})(i >= 0 ? x : x)')}",
                "fptr": f"{{ {cb} (*f)({ca}) = r$; {obs(b, 'f(x)')} }}",
                "static": f"{{ static {cb} sv; sv = x; {obs(b, 'sv')} }}",
                "postfix": f"{obs(b, f'(({cb})x)')}",
                "stmtexpr": f"{obs(b, f'({cb})({{ x; }})')}",
            }
            for nm, t in ctx.items():
                decl = ""
                if nm == "global": decl = f"{cb} g$;"
                if nm == "param": decl = f"void p$({cb} v) {{ {obs(b, 'v')} }}"
                if nm == "param9": decl = f"void q$(int a,int b,int c,int d,int e,int f,int g,int h,float i,float j,float k,float l,float m,float n,float o,float p,{cb} v,int z) {{ {obs(b, 'v')} O(z); O(h); OF(p); }}"
                if nm in ("return", "fptr"): decl = f"{cb} r$({ca} v) {{ return v; }}"
                yield Case(f"{nm} {a}->{b}", loop + t + " }", decl, steps=20)
            # truth value
            if b == "i":
                yield Case(f"truth {a}", f"for (int i=0;i<VFN_{a};i++) {{ {ca} x=({ca})VF_{a}[i]; O(!x); O(x?1:2); O(x&&1); O(1&&x); O(x||0); O(0||x); if (x) O(3); else O(4); int n=0; while (x) {{ n=1; break; }} O(n); do {{ n+=2; if (n>5) break; }} while (x); O(n); for (;x;) {{ n=9; break; }} O(n); }}", steps=20)
            # binary-operator conversion: common type of a and b
            if a not in "fdq" and b not in "fdq":
                continue
            yield Case(f"common {a} {b}", f"for (int i=0;i<VFN_{a};i++) for (int j=0;j<VFN_{b};j++) {{ {ca} x=({ca})VF_{a}[i]; {cb} y=({cb})VF_{b}[j]; "
                       + ("OQ" if "q" in (a, b) else "OD" if "d" in (a, b) else "OF") + "(x + y); O(x == y); O(x < y); O(y <= x); O(sizeof(x + y)); }", steps=400)
    # chains of conversions: nothing stale survives in a register
    for a, ca in ALL:
        for b, cb in ALL:
            for d, cd in ALL:
                yield Case(f"chain {a}->{b}->{d}", f"for (int i=0;i<VFN_{a};i++) {{ {ca} x=({ca})VF_{a}[i]; {start(a, 'i')}; if (!vf_step({TID[b]}) || !vf_step({TID[d]})) continue; {obs(d, f'({cd})({cb})x')} }}", steps=40)
                if c.thorough:
                    for e, ce in ALL:
                        yield Case(f"chain {a}->{b}->{d}->{e}", f"for (int i=0;i<VFN_{a};i++) {{ {ca} x=({ca})VF_{a}[i]; {start(a, 'i')}; if (!vf_step({TID[b]}) || !vf_step({TID[d]}) || !vf_step({TID[e]})) continue; {obs(e, f'({ce})({cd})({cb})x')} }}", steps=60)
    # rounding: around every power of two, exact values, ties, and values where rounding twice differs
    R = []
    for k in range(22, 64):
        for d in range(23, 54):
            if k - d < 0: continue
            for e in (-1, 0, 1):
                R.append((1 << k) + (1 << (k - d)) + e)
                R.append((1 << k) - (1 << (k - d)) + e)
                R.append((1 << k) + (1 << (k - d)) * 3 + e)
    R = sorted({v for v in R if v < 1 << 64})
    for t2, c2, lim in (("l", "long", 63), ("ul", "unsigned long", 64), ("i", "int", 31), ("u", "unsigned", 32)):
        vs = [v for v in R if v < 1 << lim]
        if lim in (63, 31): vs += [-v for v in vs]
        for k in range(0, len(vs), 250):
            ch = vs[k:k + 250]
            ls = ", ".join(f"{v}{'UL' if v >= 1 << 63 else 'L'}" for v in ch)
            yield Case(f"round {c2} #{k}", f"for (int i=0;i<{len(ch)};i++) {{ {c2} x = v$[i]; OF(x); OD(x); float f = x; double d = x; OF(f); OD(d); OF((float)d); OF(1.0f + x); OD(x - 1.5); x = f; OF(f == x); }} OB(f$, sizeof f$); OB(d$, sizeof d$); static float s[] = {{ {ls} }}; OB(s, sizeof s); ".replace("x = f; OF(f == x);", "OF(f == x);"),
                       f"static unsigned long v$[] = {{ {ls} }}; float f$[] = {{ {', '.join(f'({c2}){v}' for v in ls.split(', '))} }}; double d$[] = {{ {', '.join(f'({c2}){v}' for v in ls.split(', '))} }};", steps=8 * len(ch))
    # pointers and integers
    for b, cb in ALL:
        if b in "fdq": continue
        yield Case(f"ptr->{b}", f"int v; void *p=(void*)0x123456789abcdef0; O((long)({cb})(long)p); O(({cb})(unsigned long)p != 0); O((_Bool)p); O(!p); p=0; O((_Bool)p); O(!p); O(p?1:2); p=(void*)({cb})-1; O((long)p); p=(void*)(long)({cb})200; O((long)p);")

def body(c):
    c.assumptions = ["riscv64 gcc -O0 implements the C conversions", "qemu-riscv64 executes RV64GC correctly"]
    c.extra["bound"] = "13 arithmetic types (with long double), all ordered pairs x 17 contexts x all boundary values; all chains of 2 (thorough: 3) conversions; integer to floating rounding at every power of two; undefined conversions excluded"
    d = Diff(c, prelude=PRELUDE + ENUM + EXTERN, helper=helper())
    d.run(cases(c), size=400)
    # every kind of expression, not only objects, as the source of a conversion
    d = Diff(c, prelude=PRELUDE + exprs.PRE + exprs.PRE_EXT, helper="int one = 1, zero;")
    d.run([Case(k, b, ds, steps=n) for t in exprs.ALL for vi in (0, 1) for k, ds, b, n in exprs.conversions(t, vi)], size=30)

main("C02", body)
