"""C08: an initializer gives every element and member exactly the value C assigns, static or automatic, and zero elsewhere."""
import itertools, os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

# name: (declaration of v, items that may appear in its outer brace list, member dump, max items)
V = ["1", "2", "3", "4", "5"]
TYPES = {
 "int[3]": ("int v[3]", ["@", "[1]=@", "[2]=@", "[0 ... 1]=@", "{@}"], "OI(v[0]);OI(v[1]);OI(v[2]);", 4),
 "int[]": ("int v[]", ["@", "[1]=@", "[3]=@", "[1 ... 2]=@", "{@}"], "for(int i=0;i<(int)(sizeof v/sizeof v[0]);i++) OI(v[i]); O(sizeof v);", 4),
 "int[2][2]": ("int v[2][2]", ["@", "{@}", "{@,@}", "{[1]=@}", "[1]={@}", "[0][1]=@", "[1][0]=@", "{}", "[0 ... 1]={@,@}", "[0 ... 1][1]=@"], "for(int i=0;i<4;i++) OI(v[i/2][i%2]);", 3),
 "int[][3]": ("int v[][3]", ["@", "{@}", "{@,@,@}", "[1]={@}", "[1][2]=@", "{[1]=@}"], "O(sizeof v); for(int i=0;i<(int)(sizeof v/4);i++) OI((&v[0][0])[i]);", 3),
 "struct{int a;short b;char c}": ("struct {int a;short b;char c;} v", ["@", ".a=@", ".b=@", ".c=@", "{@}"], "OI(v.a);OI(v.b);OI(v.c);", 3),
 "struct{char a;struct{int x,y}s;char z}": ("struct {char a;struct {int x,y;} s;char z;} v", ["@", ".s={@}", ".s={@,@}", ".s.x=@", ".s.y=@", "{@,@}", ".z=@", ".a=@", "{.y=@}", ".s={.y=@,.x=@}", "{}"], "OI(v.a);OI(v.s.x);OI(v.s.y);OI(v.z);", 3),
 "struct{int a[2];int b;int c[2]}": ("struct {int a[2];int b;int c[2];} v", ["@", "{@}", "{@,@}", ".a[1]=@", ".c[0]=@", ".b=@", ".c={@}", ".a={[1]=@}", "{[1]=@}", ".a[0 ... 1]=@"], "OI(v.a[0]);OI(v.a[1]);OI(v.b);OI(v.c[0]);OI(v.c[1]);", 3),
 "struct{char a;int b}[2]": ("struct {char a;int b;} v[2]", ["@", "{@}", "{@,@}", "[1]={@}", "[0].b=@", "[1].a=@", "{.b=@}", "[0 ... 1]={@,@}", "[0 ... 1].b=@", "[1]={.b=@}", "{}"], "OI(v[0].a);OI(v[0].b);OI(v[1].a);OI(v[1].b);", 3),
 "struct{char a;int b}[]": ("struct {char a;int b;} v[]", ["@", "{@,@}", "[1]={@}", "[1].b=@", "{.b=@}"], "O(sizeof v); for(int i=0;i<(int)(sizeof v/8);i++) {OI(v[i].a);OI(v[i].b);}", 3),
 "union{int a;char b[4]}": ("union {int a;char b[4];} v", ["@", ".a=@", ".b={@}", ".b[1]=@", "{@}", ".b={@,@,@}"], "OI(v.a);", 2),
 "union{char b;long l}": ("union {char b;long l;} v", ["@", ".l=@", ".b=@", "{@}"], "O(v.l & (v.l > 255 ? -1L : 255));", 2),
 "struct{int k;union{int a;struct{short x,y}s}u;int z}": ("struct {int k;union {int a;struct {short x,y;} s;} u;int z;} v", ["@", "{@}", ".u={@}", ".u.a=@", ".u.s={@,@}", ".u.s.y=@", "{.s={@,@}}", "{.s.y=@}", ".z=@", ".k=@", ".u={.s={@,@}}"], "OI(v.k);OI(v.u.a);OI(v.z);", 3),
 "struct{int a;struct{int x;int y;};int z}": ("struct {int a;struct {int x;int y;};int z;} v", ["@", "{@}", "{@,@}", ".x=@", ".y=@", ".z=@", ".a=@"], "OI(v.a);OI(v.x);OI(v.y);OI(v.z);", 3),
 "struct{int a;union{int x;char y;};int z}": ("struct {int a;union {int x;char y;};int z;} v", ["@", "{@}", ".x=@", ".y=@", ".z=@", ".a=@", "{.y=@}"], "OI(v.a);OI(v.x);OI(v.z);", 3),
 "char[4]": ("char v[4]", ["@", "\"ab\"", "\"abcd\"", "[2]='x'", "\"\"", "[1]=@"], "OI(v[0]);OI(v[1]);OI(v[2]);OI(v[3]);", 2),
 "char[]": ("char v[]", ["@", "\"ab\"", "\"a\\0b\"", "[2]='x'"], "O(sizeof v); for(int i=0;i<(int)sizeof v;i++) OI(v[i]);", 2),
 "char[2][3]": ("char v[2][3]", ["@", "\"ab\"", "\"abc\"", "{\"x\"}", "{@,@}", "[1]=\"y\"", "[1][1]='q'", "{'a','b'}", "[1]={\"z\"}", "[0 ... 1]=\"w\""], "for(int i=0;i<6;i++) OI(v[i/3][i%3]);", 3),
 "char[][4]": ("char v[][4]", ["\"ab\"", "\"abcd\"", "{\"x\"}", "[2]=\"y\"", "{'a','b'}"], "O(sizeof v); for(int i=0;i<(int)sizeof v;i++) OI((&v[0][0])[i]);", 3),
 "struct{char s[3];int n}[2]": ("struct {char s[3];int n;} v[2]", ["\"ab\"", "@", "{\"ab\",@}", "{{@},@}", "[1]={.s=\"z\"}", "[1].s=\"q\"", "{.n=@}", "[0].s[1]='m'", "{.n=@,.s=\"a\"}"], "OI(v[0].s[0]);OI(v[0].s[1]);OI(v[0].s[2]);OI(v[0].n);OI(v[1].s[0]);OI(v[1].s[1]);OI(v[1].s[2]);OI(v[1].n);", 3),
 "char*[2]": ("char *v[2]", ["\"ab\"", "0", "[1]=\"x\"", "{\"q\"}", "\"abc\"+1", "&gs[1]", "gs"], "OP(v[0]);OP(v[1]);", 2),
 "struct{char*s[2];int n}": ("struct {char *s[2];int n;} v", ["\"ab\"", "@", "{\"ab\"}", "{\"ab\",\"c\"}", ".s[1]=\"z\"", ".n=@", ".s={\"x\"}", "gs"], "OP(v.s[0]);OP(v.s[1]);OI(v.n);", 3),
 "struct{double d;float f[2];_Bool b}": ("struct {double d;float f[2];_Bool b;} v", ["@", "1.5", "{@}", "{2.5,@}", ".f[1]=0.1", ".b=0.5", ".d=@", ".b=@"], "OD(v.d);OF(v.f[0]);OF(v.f[1]);OI(v.b);", 3),
 "wide": ("int v[4]", ["L\"ab\"", "@", "[1]=L'x'"], "for(int i=0;i<4;i++) OI(v[i]);", 2),
 "u16": ("unsigned short v[3]", ["u\"ab\"", "@", "u\"abc\""], "for(int i=0;i<3;i++) OI(v[i]);", 2),
 "u32[]": ("unsigned v[]", ["U\"ab\"", "@"], "O(sizeof v); for(int i=0;i<(int)(sizeof v/4);i++) OI(v[i]);", 2),
 "flex": ("struct {int n;char d[];} v", ["@", "{@,@}", "\"ab\"", ".d={@}", ".d=\"xyz\"", ".n=@"], "", 2),
 "flexi": ("struct {char n;int d[];} v", ["@", "{@,@}", ".d={@}", ".d={[2]=@}", ".n=@"], "", 2),
 "nest3": ("struct {struct {struct {char a,b;} p[2];int q;} r[2];int t;} v", ["@", "{@}", "{{@},@}", ".r[1]={@}", ".r[1].p[0].b=@", ".r={[1]={.q=@}}", ".r[0].q=@", ".t=@", "{{{{@,@},{@}},@}}", ".r[0].p[1]={@}"], "OB(&v.r[0].p,4);OI(v.r[0].q);OB(&v.r[1].p,4);OI(v.r[1].q);OI(v.t);", 3),
}
SCALARS = [("char", ["1", "-1", "{7}", "300", "'x'", "1.9", "{2,}"]), ("unsigned char", ["-1", "256", "2.5"]), ("short", ["70000", "-1"]), ("_Bool", ["2", "0", "0.5", "-1"]), ("int", ["1u", "-1L", "3.99", "{5}", "sizeof(int)", "0x123456789L", "(char)300"]), ("long", ["-1", "1u<<31", "-1.5", "0xffffffff"]), ("unsigned long", ["-1", "-1u"]),
           ("float", ["1", "0.1", "16777217", "-1L", "1e10", "{2.5f}"]), ("double", ["1", "0.1f", "0.1", "-1", "1u", "9007199254740993"]), ("char*", ["0", "\"abc\"", "{\"q\"}", "gs", "gs+2", "&gs[1]", "(char*)gi", "(void*)0", "\"abc\" + 1", "&\"abc\"[2]", "(char*)(gi+1)"]), ("int*", ["gi", "&gi[2]", "gi+1", "&gi[1]+1", "&gst.b", "&gst.c[1]", "gst.c+1", "(int*)0", "1?gi:0", "&*gi", "&(*gi)"]), ("long(*)(long)", ["ID", "&ID", "*ID", "0", "{ID}"]), ("struct GST*", ["&gst", "&gsa[1]", "gsa+1", "gsa"])]

def expand(it, ctr):
    out = ""
    for ch in it:
        if ch == "@":
            ctr[0] += 1
            out += str(ctr[0])
        else:
            out += ch
    return out

def lists(items, n):
    for k in range(0, n + 1):
        for seq in itertools.product(items, repeat=k):
            for tail in ("", ","):
                if tail and k == 0:
                    continue
                ctr = [0]
                yield "{" + ", ".join(expand(i, ctr) for i in seq) + tail + "}"

PRE = PRELUDE + """
#define OI(x) O((long)(x))
static void OP(const char *s) { if (s) OS(s); else O(-7); }
char gs[6] = "hello"; int gi[4] = {10,20,30,40}; struct GST { int a; int b; int c[2]; } gst = {1,2,{3,4}}, gsa[3] = {{1,2,{3,4}},{5,6,{7,8}},{9}}; long ID(long x) { return x; }
static char dirt[512]; static void D(void) { char *v = alloca_dirt(); }
""".replace("static char dirt[512]; static void D(void) { char *v = alloca_dirt(); }\n", """
static long dirty(int n) { volatile char b[256]; for (int i = 0; i < 256; i++) b[i] = (char)0xa5; return n ? dirty(n - 1) + b[n] : b[0]; }
""")

def filt(cands):
    """keep the declarations the reference compiler accepts without any diagnostic; cands: list of declarations"""
    n = 400
    k = PRE.count("\n")
    def one(ch):
        txt = PRE + "\n".join(f"void f{i}(void) {{ static {d}; }}" for i, d in enumerate(ch))
        p = subprocess.run([GCC, "-std=gnu11", "-fsyntax-only", "-Woverride-init", "-x", "c", "-fmax-errors=0", "-fno-diagnostics-show-caret", "-"], input=txt, capture_output=True, text=True)
        bad = set()
        for ln, kind, msg in re.findall(r"<stdin>:(\d+):\d+: (error|warning): (.*)", p.stderr):
            i = int(ln) - k - 1
            # overriding single scalars is observed; the project's suite keeps the elements that a braced
            # initializer of an already initialised aggregate does not mention, so those are not
            if kind == "error" or "override-init" not in msg or 0 <= i < len(ch) and re.search(r'[{,=] ?(\{|")', ch[i].split("=", 1)[1].strip()[1:]):
                bad.add(i)
        return [d for i, d in enumerate(ch) if i not in bad and not ("*" not in d and re.search(r"(\d|'), [LuU]?\"", d))]
    return [d for r in pmap(one, [cands[i:i + n] for i in range(0, len(cands), n)]) for d in r]

def cases(c):
    for name, (decl, items, dump, n) in TYPES.items():
        if c.thorough:
            n += 1
        ds = [f"{decl} = {l}" for l in lists(items, n) if not (name.startswith("flex") and l.count("d=") > 1)]
        if "char v[" in decl or name in ("wide", "u16", "u32[]"):
            ds += [f"{decl} = {i}" for i in items if '"' in i and "=" not in i and "{" not in i]
        ds = filt(list(dict.fromkeys(ds)))
        for k in range(0, len(ds), 6):
            ch = ds[k:k + 6]
            b = ""
            for j, d in enumerate(ch):
                g = d.replace(" v", f" g{j}$", 1) if "} v" not in d else d.replace("} v", f"}} g{j}$", 1)
                dp = dump.replace("v", f"g{j}$") if dump else ""
                img = f"OB(&g{j}$, sizeof g{j}$);" if not dump or "OP" not in dump else ""
                if not dump:
                    img = f"O(g{j}$.n);" + "".join(f"O(g{j}$.d[{q}]);" for q in range(flexcount(d)))     # the project counts the tail in sizeof; not observed
                b += img + redump(dump, f"g{j}$")
                if dump:
                    b += f" dirty(3); {{ {d}; {dump} }} {{ static {d}; {dump} }}"
            yield Case(f"{name}: " + " | ".join(d.split("=", 1)[1].strip() for d in ch), b, decls=" ".join((d.replace("} v", f"}} g{j}$", 1) if "} v" in d else re.sub(r"\bv\b", f"g{j}$", d, count=1)) + ";" for j, d in enumerate(ch)), steps=len(ch) * 3)
    for ty, inits in SCALARS:
        for ini in inits:
            nm = "(*v)(long)" if "(*)" in ty else "v"
            base = "long" if "(*)" in ty else ty.replace("*", "")
            star = "*" if ty.endswith("*") else ""
            obs = {"char*": "OP(@);", "int*": "O(@ ? @[0] : -1);", "long(*)(long)": "O(@ ? @(5) : -1);", "struct GST*": "O(@->a);"}.get(ty, "OD(@);" if ty in ("float", "double") else "O((long)@);")
            d = f"{base} {star}{nm} = {ini}"
            yield Case(f"scalar {ty} = {ini}", f"{obs.replace('@', 'g$')} dirty(3); {{ {d}; {obs.replace('@', 'v')} }} {{ static {d}; {obs.replace('@', 'v')} }}", decls=re.sub(r"\bv\b", "g$", d, count=1) + ";", steps=3)
    # run-time initializers: values come from function calls and other variables, and the initialised object is zeroed around them
    nst = 0
    for name, (decl, items, dump, n) in TYPES.items():
        if not dump or "OP" in dump or "[]" in decl:
            continue
        ds = [f"{decl} = {l}" for l in lists(items, 2) if '"' not in l and not l.endswith(",}") and "..." not in l]
        ds = filt(list(dict.fromkeys(ds)))
        for k in range(0, len(ds), 8):
            ch = ds[k:k + 8]
            b = "int n = 0;"
            for d in ch:
                head, ini = d.split(" = ", 1)
                ini = re.sub(r"(?<![\[\w.])(\d+)(?![\w.\]])(?! \.\.\.)", r"(T(\1), \1 + one)", ini)
                b += f" dirty(3); {{ {head} = {ini}; {dump} }} {{ struct W {{ {head}; }} w; w = (struct W){{ {ini} }}; {redump(dump, 'w.v')} }}"
            nst += 1
            yield Case(f"runtime {name}: " + " | ".join(d.split("=", 1)[1].strip() for d in ch), "volatile int one = 1;" + b, steps=len(ch) * 2)
    # every range of every array up to 6 elements, alone, preceded and followed by plain elements, nested and in a struct
    ELS = {"char": "@", "unsigned short": "@", "int": "@", "long": "@", "float": "@", "char *": "gs + @ % 5", "struct GST": "{@, 1}", "_Bool": "@"}
    for el, val in ELS.items():
        for n in range(1, 7):
            for lo in range(n):
                its = []
                for hi in range(lo, n):
                    r = f"[{lo} ... {hi}] = " + val.replace("@", "7")
                    its += [f"{{ {r} }}", f"{{ {r}, [{hi}] = {val.replace('@', '9')} }}" if el != "struct GST" else f"{{ {r}, }}"]
                    if hi + 1 < n: its.append(f"{{ {r}, {val.replace('@', '3')} }}")
                    if lo: its.append(f"{{ {val.replace('@', '2')}, {r} }}")
                b, dec = "", ""
                for j, l in enumerate(its):
                    star = " " if not el.endswith("*") else ""
                    dec += f"{el}{star}g{j}$[{n}] = {l}; struct {{ char p; {el}{star}v[{n}]; int q; }} h{j}$ = {{ 1, {l}, 5 }}, k{j}$[2] = {{ [1] = {{ .v = {l}, 6 }} }}; {el}{star}m{j}$[2][{n}] = {{ [0 ... 1] = {l} }}; {el}{star}u{j}$[] = {l};"
                    if el == "char *":
                        b += f"for (int i = 0; i < {n}; i++) {{ OP(g{j}$[i]); OP(h{j}$.v[i]); OP(k{j}$[1].v[i]); OP(k{j}$[0].v[i]); OP(m{j}$[0][i]); OP(m{j}$[1][i]); }} O(h{j}$.q); O(k{j}$[1].q); O(sizeof u{j}$); {{ {el} v[{n}] = {l}; for (int i = 0; i < {n}; i++) OP(v[i]); }}"
                    else:
                        b += f"OB(g{j}$, sizeof g{j}$); OB(h{j}$.v, sizeof h{j}$.v); OB(k{j}$[0].v, sizeof h{j}$.v); OB(k{j}$[1].v, sizeof h{j}$.v); OB(m{j}$, sizeof m{j}$); O(h{j}$.q); O(k{j}$[1].q); OB(u{j}$, sizeof u{j}$); dirty(3); {{ {el} v[{n}] = {l}; OB(v, sizeof v); struct {{ char p; {el} v[{n}]; int q; }} h = {{ 1, {l}, 5 }}; OB(h.v, sizeof h.v); O(h.q); }}"
                yield Case(f"ranges {el}[{n}] from {lo}", b, dec, steps=8 * len(its))
    # ranges reached through other designators, and ranges of ranges, followed by plain elements
    for el, val in (("char", "7"), ("int", "7"), ("struct GST", "{7, 1}"), ("long", "7")):
        for n in range(2, 7 if c.thorough else 6):
            its = []
            for lo in range(n):
                for hi in range(lo, n):
                    r = f"[{lo} ... {hi}]"
                    its += [("S", f"{{ .v{r} = {val} }}"), ("S", f"{{ .v{r} = {val}, .q = 4 }}"), ("S", f"{{ 1, .v{r} = {val} }}"), ("A", f"{{ [1].v{r} = {val} }}"), ("A", f"{{ [0 ... 1].v{r} = {val}, [2].q = 3 }}"), ("A", f"{{ [0 ... 2].v{r} = {val} }}"),
                            ("M", f"{{ [1]{r} = {val} }}"), ("M", f"{{ [0 ... 1]{r} = {val} }}"), ("M", f"{{ [0 ... 2]{r} = {val} }}"), ("N", f"{{ .t.v{r} = {val}, .z = 2 }}"), ("N", f"{{ .u[0 ... 1].v{r} = {val} }}"), ("N", f"{{ .u[1].v{r} = {val} }}")]
                    if el != "struct GST":
                        its += [("S", f"{{ .v{r} = {val}, 5 }}"), ("A", f"{{ [1].v{r} = {val}, 5 }}"), ("M", f"{{ [1]{r} = {val}, 5 }}"), ("M", f"{{ [0 ... 1]{r} = {val}, 5 }}"), ("S", f"{{ .v{r} = {val}, .v[{lo}] = 8 }}"), ("M", f"{{ [0 ... 2]{r} = {val}, [1][{hi}] = 9 }}"), ("S", f"{{ .v = {{ {r} = {val} }}, 5 }}")]
            T = {"S": f"struct S$ v#", "A": "struct S$ v#[3]", "M": f"{el} v#[3][{n}]", "N": "struct N$ v#"}
            for k in range(0, len(its), 12):
                ch = its[k:k + 12]
                dec = f"struct S$ {{ char p; {el} v[{n}]; int q; }}; struct N$ {{ char c; struct S$ t; int z; struct S$ u[2]; }};" + "".join(T[t].replace("#", f"g{j}$") + f" = {l};" for j, (t, l) in enumerate(ch))
                b = "".join((f"for (int i = 0; i < (int)(sizeof vg{j}$ / sizeof(struct S$)); i++) {{ struct S$ *p = (struct S$ *)&vg{j}$ + i; O(p->p); OB(p->v, sizeof p->v); O(p->q); }}" if t in "SA" else f"OB(&vg{j}$, sizeof vg{j}$);" if t == "M" else f"O(vg{j}$.c); OB(vg{j}$.t.v, sizeof vg{j}$.t.v); O(vg{j}$.t.q); O(vg{j}$.z); for (int i = 0; i < 2; i++) {{ OB(vg{j}$.u[i].v, sizeof vg{j}$.u[i].v); O(vg{j}$.u[i].q); }}") for j, (t, l) in enumerate(ch))
                b += " dirty(3); " + "".join(f"{{ {T[t].replace('#', '')} = {l}; " + ("OB(&v, sizeof v);" if t == "M" else f"struct S$ *p = (struct S$ *){'&v' if t != 'N' else '&v.t'}; OB(p->v, sizeof p->v); O(p->q);" + ("OB(p[1].v, sizeof p->v); O(p[2].q);" if t == "A" else "OB(v.u[1].v, sizeof p->v); O(v.z);" if t == "N" else "")) + " }" for t, l in ch)
                yield Case(f"ranges through designators {el}[{n}] {k // 12}", b, dec, steps=2 * len(ch))
    # struct values as initializers
    for k, e in enumerate(["gst", "*&gst", "gsa[1]", "mk(3)", "(struct GST){4,5}", "one ? gst : gsa[1]", "(0, gst)", "({ gsa[2]; })"]):
        yield Case(f"structinit {e}", f"int one = 1; dirty(3); {{ struct GST v = {e}; OB(&v, sizeof v); }} {{ struct {{ int k; struct GST s; int z; }} v = {{1, {e}, 9}}; OB(&v, sizeof v); }} {{ struct GST v[3] = {{ {e}, [2] = {e} }}; OB(&v, sizeof v); }} {{ struct {{ int k; struct GST s; }} v = {{ .s = {e}, .s.b = 77 }}; OB(&v, sizeof v); }} {{ struct {{ struct GST s; int t; }} v = {{ {e} }}; O(v.s.a); O(v.s.c[1]); O(v.t); }} {{ union {{ struct GST s; int t; }} v = {{ {e} }}; O(v.s.a); O(v.s.c[1]); }}",
                   decls="static struct GST mk$(int x) { struct GST r = {x, x + 1, {x + 2, x + 3}}; return r; }" .replace("mk$", "mk$"), steps=5) if "mk" not in e else Case(f"structinit {e}", f"{{ struct GST v = mk$(3); OB(&v, sizeof v); }} {{ struct {{ int k; struct GST s; int z; }} v = {{1, mk$(3), 9}}; OB(&v, sizeof v); }} {{ struct GST v[3] = {{ mk$(3), [2] = mk$(5) }}; OB(&v, sizeof v); }}", decls="static struct GST mk$(int x) { struct GST r = {x, x + 1, {x + 2, x + 3}}; return r; }", steps=3)
    for e in ["gu", "*&gu", "gua[1]"]:
        yield Case(f"unioninit {e}", f"{{ union GU$ v = {e.replace('gu', 'gu$').replace('gu$a', 'gua$')}; OB(&v, 8); }} {{ struct {{ int k; union GU$ s; }} v = {{1, {e.replace('gu', 'gu$').replace('gu$a', 'gua$')}}}; OB(&v.s, 8); }} {{ union GU$ v[2] = {{ [1] = {e.replace('gu', 'gu$').replace('gu$a', 'gua$')} }}; OB(&v, 16); }}",
                   decls="union GU$ { long a; char b[8]; } gu$ = {.b = {1,2,3,4,5,6,7,8}}, gua$[2] = {{1},{0x123456789aL}};")
    # sizes around the addressing limits: large automatic arrays, partially initialised
    for n in (1, 7, 8, 9, 255, 256, 257, 509, 510, 511, 512, 513, 600, 2040, 2047, 2048, 2049, 4096, 5000):
        yield Case(f"large char[{n}]", f"dirty(12); char v[{n}] = {{1, [{n - 1}] = 2}}; long s = 0; for (int i = 0; i < {n}; i++) s = s * 31 + v[i]; O(s); O(v[{n - 1}]); O(sizeof v); {{ int w[{n}] = {{ [{n // 2}] = 5 }}; s = 0; for (int i = 0; i < {n}; i++) s += w[i] * (i + 1); O(s); }} {{ static short z[{n}] = {{ [{n - 1}] = 7 }}; s = 0; for (int i = 0; i < {n}; i++) s += z[i] * (i + 1); O(s); }}", steps=n)

def flexcount(d):
    """elements of the flexible member that the initializer mentions"""
    l = d.split("=", 1)[1]
    return 3 if "[2]" in l or '"ab"' in l else 4 if "xyz" in l else 2 if re.search(r"\{\d,\d", l) else 1 if ".d={" in l or re.search(r"\d, \d", l) else 0

def redump(dump, nm):
    return re.sub(r"\bv\b", nm, dump)

def body(c):
    c.assumptions = ["gcc's initializer semantics; only initializers gcc accepts without diagnostics are used"]
    c.extra["bound"] = f"{len(TYPES)} aggregate types x all initializer lists of up to 2-4 items (thorough: one more) drawn from plain, braced, designated, ranged, nested-designated and string items, with and without trailing comma; static, automatic and static-local; scalar conversions; run-time values; large objects around 2 KiB"
    d = Diff(c, prelude=PRE + "static int tl; static int T(int x) { O(x); return x; }\n")
    d.run(cases(c), size=60)

main("C08", body)
