"""C06: struct/union size, alignment and member placement follow the RISC-V psABI, for every bounded member sequence."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

# (tag, declaration with @ as the name, bit-field?)
PLAIN = [("c", "char @"), ("s", "short @"), ("i", "int @"), ("l", "long @"), ("f", "float @"), ("d", "double @"), ("p", "void *@"),
         ("b", "_Bool @"), ("c3", "char @[3]"), ("s3", "short @[3]"), ("i2x1", "int @[2][1]"), ("Sc", "struct { char x; } @"), ("Scs", "struct { char x; short y; } @"),
         ("Slc", "struct { long x; char y; } @"), ("Uci", "union { char x; int y; } @"), ("Uc5s", "union { char x[5]; short y; } @"), ("a8c", "_Alignas(8) char @"), ("a16i", "_Alignas(16) int @"),
         ("e", "enum { E@$ } @"), ("fp", "int (*@)(int)"), ("Pci", "struct __attribute__((packed)) { char x; int y; } @")]
BITS = [("i:1", "int @:1"), ("i:7", "int @:7"), ("i:17", "int @:17"), ("u:32", "unsigned @:32"), ("c:3", "char @:3"), ("c:8", "unsigned char @:8"), ("s:9", "short @:9"), ("s:16", "short @:16"),
        ("l:1", "long @:1"), ("l:33", "long @:33"), ("l:63", "unsigned long @:63"), ("l:64", "long @:64"), ("b:1", "_Bool @:1"), ("i:0", "int :0"), ("c:0", "char :0"), ("l:0", "long :0"), ("s:0", "short :0"), ("_i:5", "int :5"), ("_l:40", "long :40")]

def case(kind, attr, seq, post=False):
    names = "abcdefgh"
    mem = "".join(d.replace("@", n) + "; " for (t, d), n in zip(seq, names))
    ats = f" __attribute__(({attr}))" if attr else ""
    decl = f"{kind}{'' if post else ats} T$ {{ {mem}}}{ats if post else ''};"
    b = ["O(sizeof(struct T$)); O(_Alignof(struct T$));".replace("struct", kind), f"struct {{ char c; {kind} T$ t; }} w; O((char*)&w.t - (char*)&w); O(sizeof w); {kind} T$ v, ar[2]; O((char*)&ar[1] - (char*)&ar[0]);"]
    for (t, d), n in zip(seq, names):
        if "@" not in d:
            continue
        if ":" in d:
            b.append(f"Z(&v, sizeof v); v.{n} = -1; OB(&v, sizeof v); F(&v, sizeof v); v.{n} = 0; OB(&v, sizeof v);")
        else:
            b.append(f"O((char*)&v.{n} - (char*)&v); O(sizeof v.{n}); O((long)__builtin_offsetof({kind} T$, {n})); Z(&v, sizeof v); F(&v.{n}, sizeof v.{n}); OB(&v, sizeof v);" if False else
                     f"O((char*)&v.{n} - (char*)&v); O(sizeof v.{n}); O((long)&(({kind} T$ *)0)->{n});")
    return Case(f"{kind}{' ' + attr if attr else ''}{' post' if post else ''} {{{' '.join(t for t, d in seq)}}}", " ".join(b), decls=decl, steps=3 + 3 * len(seq))

def cases(c):
    allm = PLAIN + BITS
    for n in (1, 2):
        for seq in itertools.product(allm, repeat=n):
            if "@" not in "".join(d for t, d in seq):
                continue
            for kind in ("struct", "union"):
                yield case(kind, "", seq)
    core = [m for m in allm if m[0] in ("c", "s", "l", "c3", "Scs", "a8c")] + [b for b in BITS if b[0] in ("i:7", "i:17", "c:3", "s:9", "l:33", "b:1", "i:0", "c:0", "_i:5", "l:0")]
    more = allm if c.thorough else core
    for seq in itertools.product(more, repeat=3):
        if not all("@" not in d for t, d in seq):
            yield case("struct", "", seq)
    if c.thorough:
        for seq in itertools.product(core, repeat=4):
            if not all("@" not in d for t, d in seq):
                yield case("struct", "", seq)
    packed = [m for m in PLAIN if "_Alignas" not in m[1]]
    for n in (1, 2, 3):
        for seq in itertools.product(packed if n < 3 or c.thorough else packed[:9] + packed[11:13] + packed[-1:], repeat=n):
            yield case("struct", "packed", seq)
            if n < 3:
                yield case("union", "packed", seq)
                yield case("union", "packed", seq, post=True)
                yield case("struct", "packed", seq, post=True)
    for al in (1, 2, 4, 8, 16, 32):
        for seq in itertools.product(core, repeat=2):
            if all("@" not in d for t, d in seq):
                continue
            if al >= 8 or not any("_Alignas" in d or ":" in d for t, d in seq):
                for kind in ("struct", "union"):
                    yield case(kind, f"aligned({al})", seq)
                    if al == 8:
                        yield case(kind, f"aligned({al})", seq, post=True)
        for seq in itertools.product(packed[:6], repeat=2):
            for kind in ("struct", "union"):
                yield case(kind, f"packed, aligned({al})", seq)
    # bit-field runs: every width followed by every width, exact fills and overflows of every unit
    W = {"char": 8, "short": 16, "int": 32, "long": 64, "_Bool": 1}
    def widths(t, used):
        n = W[t]
        if n <= 32 or c.thorough:
            return range(1, n + 1)
        return sorted({w for b in (1, 8, 16, 31, 32, 33, 48, 63, 64) for w in (b,)} | {w for w in (n - used % n, n - used % n - 1, n - used % n + 1) if 1 <= w <= n})
    for t1 in W:
        for t2 in W:
            for w1 in range(1, W[t1] + 1):
                ws = widths(t2, w1) if t1 == t2 or c.thorough else [w for w in widths(t2, w1) if w in (1, 3, 7, 8, 15, 16, 17, 31, 32, 33, 64) or (w + w1) % 8 in (0, 1)]
                for k in range(0, len(ws), 16):
                    ch = list(ws)[k:k + 16]
                    dec = "".join(f"struct A{w}$ {{ unsigned {t1} a:{w1}; unsigned {t2} b:{w}; }}; struct B{w}$ {{ char x; {t1} a:{w1}; {t2} b:{w}; {t2} c:{min(w, 5)}; }};" for w in ch).replace("unsigned _Bool", "_Bool")
                    yield Case(f"bits {t1}:{w1} {t2}:{ch[0]}..{ch[-1]}", "".join(f"{{ struct A{w}$ v; struct B{w}$ u; O(sizeof v * 100 + sizeof u); Z(&v, sizeof v); v.b = -1; OB(&v, sizeof v); Z(&u, sizeof u); u.b = -1; OB(&u, sizeof u); Z(&u, sizeof u); u.c = -1; OB(&u, sizeof u); u.a = -1; OB(&u, sizeof u); }}" for w in ch), dec, steps=5 * len(ch))
    for t in ("char", "short", "int", "long"):
        tr = [1, 3, 4, 5, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 63, 64]
        tr = [w for w in tr if w <= W[t]]
        for a, b in itertools.product(tr, repeat=2):
            dec = "".join(f"struct A{w}$ {{ {t} a:{a}; {t} b:{b}; {t} d:{w}; char z; }};" for w in tr)
            yield Case(f"bits3 {t} {a},{b}", "".join(f"{{ struct A{w}$ v; O(sizeof v); Z(&v, sizeof v); v.d = -1; OB(&v, sizeof v); O((char*)&v.z - (char*)&v); v.b = -1; OB(&v, sizeof v); }}" for w in tr), dec, steps=3 * len(tr))
    # anonymous members, nesting, flexible arrays
    inner = ["int a; char b;", "char a; long b;", "char a[3]; char b;", "int a:3; int b:9;", "short a; char b;"]
    for (k1, i1), (k2, m2), pre in itertools.product(itertools.product(("struct", "union"), inner), itertools.product(("struct", "union"), ("char z", "long z", "int z:5")), ("", "char y;", "long y;", "int y:3;")):
        decl = f"{k2} T$ {{ {pre} {k1} {{ {i1} }}; {m2}; }};"
        obs = "".join(f"Z(&v, sizeof v); v.{n} = -1; OB(&v, sizeof v);" for n in ["a[0]" if "a[" in i1 else "a", "b", "z"] + (["y"] if pre else []))
        yield Case(f"anon {k2}{{{pre}{k1}{{{i1}}};{m2}}}", f"{k2} T$ v; O(sizeof v); O(_Alignof({k2} T$)); {obs}", decls=decl, steps=6)
    # an alignment asked for on a member, whatever the member is
    kinds = {"char": "char q", "arr": "int q[3]", "st": "struct { char q; } s", "anon": "struct { char q; int r; }", "anonu": "union { char q; short r; }", "two": "char q, r", "ptr": "char *q", "tag": "struct N$ { char q; } s", "td": "struct { long q; } *s", "bits": "int q", "nest": "struct { struct { char q; }; char r; }", "fp": "int (*q)(void)", "ld": "long double q"}
    for (kn, kd), al, (pre, post), out in itertools.product(kinds.items(), ("_Alignas(1)", "_Alignas(4)", "_Alignas(8)", "_Alignas(16)", "_Alignas(64)", "_Alignas(long)", "_Alignas(0)", "_Alignas(8) _Alignas(32)", "_Alignas(32) _Alignas(8)"), (("", ""), ("char y;", ""), ("char y;", "char z;"), ("int y : 3;", "int z : 3;"), ("long y;", "short z;")), ("struct", "union", "struct __attribute__((packed))", "union __attribute__((packed))")):
        if "packed" in out and ":" in pre:
            continue
        low = {"_Alignas(1)": 1, "_Alignas(4)": 4, "_Alignas(8)": 8, "_Alignas(long)": 8}.get(al, 99)
        if low < {"char": 1, "arr": 4, "st": 1, "anon": 4, "anonu": 2, "two": 1, "tag": 1, "bits": 4, "nest": 1, "ld": 16}.get(kn, 8):
            continue           # an alignment weaker than the type's own is not C
        mem = "s" if kd.endswith(" s") else "q" if kn != "td" else "s"
        tag = out.split()[0]
        obs = (f"O(_Alignof(v.{mem})); O(_Alignof v); O(_Alignof(w.a[1])); O(_Alignof w.a[0].{mem});" if "(0)" not in al else "") + f"O((char *)&v.{mem} - (char *)&v); O((char *)&w.a[1].{mem} - (char *)&w);" + ("O((char *)&v.r - (char *)&v);" if kn in ("two", "anon", "anonu", "nest") else "") + "".join(f"Z(&v, sizeof v); v.{n} = -1; OB(&v, sizeof v);" for n, t in (("y", pre), ("z", post)) if t)
        yield Case(f"member {al} {kn} {out} {pre}|{post}", f"{tag} T$ v; struct {{ char c; {tag} T$ a[2]; }} w; O(sizeof v); O(_Alignof({tag} T$)); O(sizeof w); O((char *)&w.a - (char *)&w); {obs}", f"{out} T$ {{ {pre} {al} {kd}; {post} }};", steps=6)
    for hd in ("char c;", "int i;", "char c; short s;", "long l; char c;", "int b:3;"):
        for el in ("char", "short", "int", "long", "double", "struct { char a; long b; }"):
            yield Case(f"flex {hd}{el}[]", f"struct T$ *p = 0; O(sizeof(struct T$)); O(_Alignof(struct T$)); O((long)&p->f[0]); O((long)&p->f[3]);", decls=f"struct T$ {{ {hd} {el} f[]; }};")

def body(c):
    c.assumptions = ["riscv64 gcc implements the psABI layout rules; signedness of bit-fields is C07's subject"]
    c.extra["bound"] = "all 1- and 2-member sequences over 21 member types and 19 bit-field forms as struct and union, all 3-member sequences over a 16-form core (thorough: all 40, and 4-member core), all bit-field width pairs within and across types, packed, aligned(1..32), anonymous and flexible members"
    d = Diff(c, prelude=PRELUDE + "static void Z(void *p, long n) { char *q = p; while (n-- > 0) *q++ = 0; }\nstatic void F(void *p, long n) { char *q = p; while (n-- > 0) *q++ = -1; }\n")
    d.run(cases(c), size=150)

main("C06", body)
