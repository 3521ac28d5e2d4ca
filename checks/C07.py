"""C07: a bit-field holds the value modulo 2^width with the sign its type gives it, and no access disturbs any other bit."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

TYPES = [("c", "signed char", 8), ("uc", "unsigned char", 8), ("s", "short", 16), ("us", "unsigned short", 16), ("i", "int", 32), ("u", "unsigned", 32), ("l", "long", 64), ("ul", "unsigned long", 64), ("b", "_Bool", 1)]
# operations on s.f; V is the operand.  Values of expressions are observed through long
OPS = ["s.f = V", "s.f += V", "s.f -= V", "s.f *= V", "s.f |= V", "s.f &= V", "s.f ^= V", "s.f++", "++s.f", "s.f--", "--s.f", "s.f <<= (V & 3)", "s.f >>= (V & 3)", "s.f = s.f", "p->f = V", "p->f += V", "p->f++", "--p->f", "s.f = t.f", "t.f = s.f = V", "s.f = -s.f", "s.f = ~s.f"]
VALS = ["0", "1", "-1", "2", "5", "0x55", "-128", "0x7fffffff", "0x123456789abcdefL"]

def cases(c):
    for tn, ty, maxw in TYPES:
        widths = range(1, maxw + 1)
        for w in widths:
            if maxw == 1:
                offs = (0, 1, 5, 7)
            else:
                offs = sorted({0, 1, (maxw - w) // 2, maxw - w}) if not c.thorough else range(0, maxw - w + 1)
            for off in offs:
                if off + w > max(maxw, 8):
                    continue
                unit = "unsigned char" if tn == "b" else ty.replace("signed ", "") if "un" not in ty else ty
                um = max(maxw, 8)
                pre = f"unsigned {unit.replace('unsigned', '').strip()} pre:{off};" if off else ""
                left = um - off - w
                post = f"unsigned {unit.replace('unsigned', '').strip()} post:{left};" if left else ""
                # after every operation the whole object image and the value of the expression are observed
                step = []
                small = w <= 31 or maxw <= 32
                for bg in (0, -1):
                    fill = f"s = bg{('0' if bg == 0 else '1')}$; t = s; t.f = 1;"
                    for op in OPS:
                        vs = VALS if "V" in op else ["0"]
                        for v in vs:
                            if tn == "b" and ("<<" in op or "*=" in op or op.endswith("--") or op.startswith("--")):
                                continue
                            e = op.replace("V", v)
                            step.append(f"{fill} O((long)({e})); OB(&s, sizeof s); O((long)s.f);")
                # value read in expressions of every kind
                exps = ["s.f + 0L", "(long)s.f", "s.f ? 7 : 9", "!s.f", "s.f == t.f", "s.f && 1", "s.f || 0"]
                if small:
                    exps += ["s.f < 0", "s.f - 2 < 0", "-s.f", "+s.f", "~s.f", "s.f + s.f", "s.f < t.f", "(1 ? s.f : -1) < 0", "s.f > -1", "s.f * 3", "s.f >> 1", "sizeof(s.f + 0)", "(float)s.f", "s.f / 2", "s.f % 3", "(double)s.f > 0.5"]
                rd = []
                for v in VALS:
                    rd.append(f"s.f = {v}; t.f = 1; " + " ".join(f"O((long)({e}));" for e in exps) + " switch (s.f) { case 0: O(100); break; case 1: O(101); break; " + ("case -1: O(102); break; " if small else "") + "default: O(103); }" + (" if (s.f) O(1); else O(2); O(ID(s.f)); { long q = s.f; O(q); int a[2] = {s.f, 1}; O(a[0]); }"))
                decl = f"struct T$ {{ {pre} {ty} f:{w}; {post} }}; static struct T$ bg0$, bg1$;"
                # steps are split over several functions: the body of one case stays small
                k = 60
                chunks = [step[i:i + k] for i in range(0, len(step), k)] + [rd]
                decl += "".join(f"static void F{j}$(void) {{ struct T$ s, t, *p = &s; s = bg0$; t = s; {' '.join(ch)} }}" for j, ch in enumerate(chunks))
                init = "{ char *q = (char *)&bg1$; for (int i = 0; i < (int)sizeof bg1$; i++) q[i] = -1; }"
                yield Case(f"{ty} f:{w} at bit {off}", init + "".join(f"F{j}$();" for j in range(len(chunks))), decls=decl, steps=len(step) + len(VALS) * len(exps))
    # neighbours: three adjacent fields of differing types; every write order
    fs = [("int", 5), ("unsigned", 11), ("short", 9), ("char", 3), ("long", 37), ("unsigned long", 3), ("_Bool", 1), ("unsigned char", 8)]
    for tri in itertools.product(fs, repeat=3):
        decl = "struct T$ { " + " ".join(f"{t} {n}:{w};" for (t, w), n in zip(tri, "abc")) + " int z; };"
        b = "struct T$ s; Z(&s, sizeof s);"
        for order in itertools.permutations("abc"):
            b += " s = (struct T$){0};" + "".join(f" s.{n} = {-1 if i != 1 else 0x2a}; OB(&s, sizeof s);" for i, n in enumerate(order)) + " O((long)s.a); O((long)s.b); O((long)s.c); s.b++; s.a ^= s.c; OB(&s, sizeof s);"
        yield Case("neighbours " + ",".join(f"{t}:{w}" for t, w in tri), b, decls=decl, steps=24)
    # static and automatic initialisation of bit-fields
    for tri in itertools.product(fs, repeat=2):
        d = " ".join(f"{t} {n}:{w};" for (t, w), n in zip(tri, "ab"))
        inits = ["{1}", "{-1,-1}", "{.b=-1}", "{.b=3,.a=1}", "{0,5,7}", "{.z=9}", "{.z=9,.b=1}", "{-1}", "{.a=-1,.z=1}", "{}", "{0x7fff,0x1555,2}"]
        yield Case("init " + ",".join(f"{t}:{w}" for t, w in tri), "".join(f"OB(&g{i}$, sizeof g{i}$); {{ struct T$ v = {x}; OB(&v, sizeof v); O((long)v.a); O((long)v.b); }}" for i, x in enumerate(inits)),
                   decls=f"struct T$ {{ {d} int z; }};" + "".join(f"struct T$ g{i}$ = {x};" for i, x in enumerate(inits)), steps=len(inits) * 2)
        yield Case("init unnamed " + ",".join(f"{t}:{w}" for t, w in tri), "".join(f"OB(&g{i}$, sizeof g{i}$); {{ struct T$ v = {x}; O((long)v.a); O((long)v.b); O(v.z); }}" for i, x in enumerate(inits)),
                   decls=f"struct T$ {{ {"unsigned char" if tri[0][0] == "_Bool" else tri[0][0]} :2; {d.split(';')[0]}; int :0; {d.split(';')[1]}; int :4; int z; }};" + "".join(f"struct T$ g{i}$ = {x};" for i, x in enumerate(inits)), steps=len(inits) * 2)
    for (t, w) in fs:
        for x in ("{1}", "{-1}", "{.a=-1}", "{.b=-1}", "{.y=0x12345678}", "{0x15}"):
            yield Case(f"union init {t}:{w} {x}", f"OB(&g$, sizeof g$); {{ union T$ v = {x}; O((long)v.a); O((long)v.b); }}", decls=f"union T$ {{ {t} a:{w}; {t} b:1; int y; }}; union T$ g$ = {x};")

def body(c):
    c.assumptions = ["gcc's bit-field semantics (plain int fields signed; fields whose values fit in int promote to int); enum and packed bit-fields are not covered; fields wider than int are only combined with operands whose result does not depend on gcc's exact-width bit-field types"]
    c.extra["bound"] = "every type x every width x 4 positions in the unit (thorough: every position) x all assignment operators x 9 operand values x two backgrounds; all triples of 8 adjacent field forms in every write order; static/automatic initialisers"
    d = Diff(c, prelude=PRELUDE + "static void Z(void *p, long n) { char *q = p; while (n-- > 0) *q++ = 0; }\nstatic long ID(long x) { return x; }\n")
    d.run(cases(c), size=8)

main("C07", body)
