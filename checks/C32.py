"""C32: the output of toycc depends on its input and options only, and toycc compiled by itself is the same compiler."""
import glob, hashlib, itertools, os, sys
VFL = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib")
sys.path.insert(0, VFL)
from vf import *
import vf, subprocess as sp

HERE = os.path.dirname(os.path.abspath(__file__))

# ---- the corpus: every batch of programs that the other checks enumerate ----
class Recorder:
    def __init__(self, c, prelude=PRELUDE, **kw):
        self.c, self.prelude = c, prelude
        self.peer_prelude = kw.get("peer_prelude", "")
    def run(self, cases, size=400):
        batch = []
        for k in cases:
            batch.append(k)
            if len(batch) >= size: self.put(batch); batch = []
        if batch: self.put(batch)
    def put(self, batch):
        self.c.texts.append(Diff.text(self, batch))
        if batch[0].ref: self.c.texts.append(PairDiff.peer_text(self, batch))

class Fake:
    thorough = False
    def __init__(self): self.texts, self.extra, self.assumptions = [], {}, []
    def sample(self, *a, **k): pass
    def count(self, *a, **k): pass
    def build(self): return "toycc"

def record(pid):
    f = Fake()
    ns = {"__file__": os.path.join(HERE, pid + ".py"), "__name__": "recorded"}
    src = open(ns["__file__"]).read().replace("from vf import *", "from vf import *\nDiff = PairDiff = RECORDER\ndef main(*a, **k): pass\n", 1)
    ns["RECORDER"] = Recorder
    exec(compile(src, pid, "exec"), ns)
    ns["body"](f)
    return f.texts

PROGS = ["C05", "C06", "C08", "C12", "C03", "C10", "C04", "C02", "C01", "C09", "C11", "C13", "C15", "C16", "C33", "C31", "C07"]

# inputs where the compiler's own arithmetic decides: constants, literals, layout, initialisers, hashing, formatting
def special():
    yield "floats", "\n".join(f"double d{i} = {x}; float f{i} = {x}; double e{i} = {x} * 3 - 1.5f / {x}; int i{i} = {x} > 1.5; long j{i} = (long)({x} < 100 ? {x} : 7); unsigned k{i} = (unsigned char)(int)({x} < 100 ? {x} : 7);" for i, x in enumerate("0.0 1.0 0.1 1e10 1e-10 3.4028235e38 1.17549435e-38 1.7976931348623157e308 2.2250738585072014e-308 4.9e-324 123456789.123456789 0x1.8p3 0x1.fffffep127 1e400 .5 5. 1e0 9007199254740993.0 0.30000000000000004".split()))
    ops = "+ - * / % << >> & | ^ < <= == != && ||".split()
    vals = "0 1 -1 2 7 -7 255 256 0x7fffffff (-0x7fffffff-1) 0xffffffffu 0x7fffffffffffffff (-0x7fffffffffffffff-1) 0xffffffffffffffffu 63 31".split()
    yield "integers", "\n".join(f"long v{n}[] = {{ {', '.join(f'{a} {o} {b}' for b in vals if not (o in '/%' and b == '0') and not (o in ('<<', '>>') and (b not in ('1', '2', '7', '31'))))} }};" for n, (o, a) in enumerate(itertools.product(ops, vals)))
    yield "casts", "\n".join(f"long c{n}[] = {{ {', '.join(f'({t}){v}' for v in vals)} }};" for n, t in enumerate("char|signed char|unsigned char|short|unsigned short|int|unsigned|long|unsigned long|_Bool".split("|"))) + "\n" + "\n".join(f"double d{n}[] = {{ {', '.join(f'({t}){v}' for v in vals)} }};" for n, t in enumerate(("float", "double")))
    yield "if", "\n".join(f"#if {a} {o} {b}\nint q{n};\n#elif {b} {o} {a}\nlong q{n};\n#endif" for n, (o, a, b) in enumerate((o, a, b) for o, a, b in itertools.product(ops, vals, vals) if not (o in "/%" and "0" in (a, b)) and o not in ("<<", ">>")))
    yield "chars", "int c[] = { " + ", ".join(f"'\\x{i:02x}', '\\{i:o}'" for i in range(256)) + " }; char s[] = \"" + "".join(f"\\{i:03o}" for i in range(256)) + "\"; unsigned short u[] = u\"\u00e9\u4e2d\U0001f600\"; int w[] = L\"\u00e9\u4e2d\U0001f600\"; unsigned x[] = { U'\u4e2d', u'\u00e9', L'\U0001f600' };"
    yield "unicode", "\n".join(f"int {chr(i)}x{i} = {i};" for i in list(range(0xc0, 0x180)) + list(range(0x3b1, 0x3c0)) + list(range(0x4e00, 0x4e40)) + [0x1f600, 0x20000] if i not in (0xd7, 0xf7))
    yield "structs", "\n".join(f"struct S{n} {{ {a} a{w}; {b} b{x}; char z[{n % 5 + 1}]; }} s{n} = {{ 1, 2 }}; int o{n} = sizeof(struct S{n}); long p{n} = (long)&((struct S{n} *)0)->z;" for n, (a, b, w, x) in enumerate(itertools.product(("char", "short", "int", "long", "unsigned"), ("char", "int", "long", "unsigned short"), ("", ":3", ":7"), ("", ":1", ":8"))))
    yield "macros", "\n".join(f"#define M{i}(a, b, ...) a ## b M{(i * 7 + 3) % 200} #a #__VA_ARGS__ __VA_OPT__(x) {i}\n" for i in range(200)) + "\n".join(f"M{i}(x{i}, y, z, \"q\")" for i in range(200)) + "\n__LINE__ __COUNTER__ __COUNTER__\n"
    yield "frames", "\n".join(f"int f{n}(int a, double b, struct {{ char c[{n}]; }} *p) {{ char x[{n}]; struct {{ char c[{n}]; }} y; x[{n - 1}] = a; return x[{n - 1}] + b + p->c[{n - 1}] + y.c[0]; }}" for n in (1, 7, 8, 100, 2000, 2040, 2047, 2048, 4095, 4096, 5000, 70000))
    yield "switch", "int f(long x) { switch (x) { " + " ".join(f"case {v}: return {i};" for i, v in enumerate((0, 1, -1, 255, 2047, 2048, -2048, -2049, 0x7fffffff, -0x80000000, 0x100000000, 0x7fffffffffffffff))) + " case 100 ... 200: return 99; case -9 ... -5: return 98; } return 0; }"
    yield "addresses", "int x, y[9]; struct S { int a, b; } s; extern char e[]; int f(void); int *p[] = { &x, y, y + 3, &y[4], 0, &s.b }; char *q = (char *)y + 2, *r = \"abc\" + 1, *t[] = { \"a\", \"b\", e + 5, 0 }; int (*g[])(void) = { f, &f, 0 }; struct { char c; int *p; struct { char *q; } z[2]; } n = { 1, &x, { { \"q\" }, { (char *)&s } } }; long l = (long)&x + 3; static int *h(void) { static int *a[2] = { &x, &x }, b; return *a + b; } int *i = h;".replace(" int *i = h;", " int *(*i)(void) = h; int **j = p + 1; void *k = &k, *m[2] = { m, m + 1 };")
    yield "immediates", "long f(long x) { long r = 0; " + " ".join(f"r += x + {v}; r ^= {v};" for v in (0, 1, -1, 2047, 2048, -2048, -2049, 4095, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff, -0x7fffffffffffffff)) + " return r; }"

BAD = ["int f(void) { return x; }", "int x = ;", "int f(void) { goto l; }", "struct S { int a; } s = { .b = 1 };", "int a[-1];", "#include <nosuch.h>", "#if 1 +\n#endif", "#if 1", "#error stop", "char *s = \"abc", "int f(int a { }", "int f(void) { break; }", "int f(void) { case 1: ; }", "int x = 1 / 0;", "@", "#define F(x\nF", "int f(void) { 1 = 2; }", "int f(void) { int a; a.b; }", "int f(void) { f(1, 2; }", "_Static_assert(1);", "/* no end", "int x = 'ab", "long long long x;", "int f(void) { struct T t; }", "int i; int i[2] = 3;", "#line x", "#elif 1", "#define defined", "int \\u00e9 = \\u12;", "int x = 08;", "int x = 1.2.3;", "int f(void) { return 1 }", "typedef int T; T T T;", "int (*f)(int;", "enum { A = x };", "switch (1) { }", "int f(void) { switch (1) { case 1: case 1: ; } }", "\0\0", "int x\xff;", "#include \"a\nint x;", "F(", "#define F(x) x\nF("]

def body(c):
    s1 = c.build()
    src = os.path.dirname(os.path.dirname(s1))
    inc = os.path.join(src, "output", "include")
    wd = os.path.join(c.scratch, "w"); os.makedirs(wd)
    files = sorted(os.path.relpath(p, src) for p in glob.glob(src + "/*.c") + glob.glob(src + "/parser/*.c") + glob.glob(src + "/preprocessor/*.c"))
    hdr = ["-DDEBUG", "-I" + src, "-I" + src + "/parser", "-I" + src + "/preprocessor"]

    # ---- the compiler compiled by itself ----
    d2 = os.path.join(c.scratch, "stage2"); os.makedirs(d2)
    def comp(f):
        o = os.path.join(d2, f.replace("/", "_"))
        rc, out, e = sh([s1] + hdr + ["-S", "-o", o + ".s", os.path.join(src, f)], cwd=src)
        if rc == 0: rc, out, e = sh([GCC, "-c", o + ".s", "-o", o + ".o"])
        return f, rc, e.decode(errors="replace"), o
    objs = []
    for f, rc, e, o in pmap(comp, files):
        if rc != 0:
            c.violation(f"self {f}", f"toycc does not compile its own source: {e[:300]}", e); return
        objs.append(o)
        c.count(states=1, transitions=1, traces=1)
    s2 = s1 + "2"        # beside the first one: its headers are found relative to it
    rc, out, e = sh([GCC, "-static", "-o", s2] + [o + ".o" for o in objs])
    if rc != 0:
        c.violation("self link", "toycc compiled by itself does not link: " + e.decode(errors="replace")[:300], ""); return

    seq = itertools.count()
    def both(key, text, opts=(), path=None, mode="-S"):
        """the two compilers (the native one and the self-compiled one under the emulator) give the same bytes, status and messages"""
        n = next(seq)
        p = path or os.path.join(wd, f"i{n}.c")
        if not path: open(p, "wb").write(text if isinstance(text, bytes) else text.encode())
        res = []
        for who, cmd in (("1", [s1]), ("2", QEMU + [s2])):
            o = os.path.join(wd, f"o{n}.{who}")
            a = ["-cc1"] + list(opts) + (["-E"] if mode == "-E" else []) + ["-cc1-input", p, "-cc1-output", o, "-o", o, p]
            rc, out, e = sh(cmd + a, cwd=wd, timeout=240)
            b = open(o, "rb").read() if os.path.exists(o) else None
            if b is not None: os.unlink(o)
            if rc != 0: b = None
            res.append((rc, b, e))
        if not path: os.unlink(p)
        c.count(states=1, transitions=2, traces=2)
        if res[0] != res[1]:
            a, b = res
            if a[0] != b[0]: w = f"exit status {b[0]} instead of {a[0]}: {b[2].decode(errors='replace')[-200:]}"
            elif a[2] != b[2]: w = f"messages differ: {b[2].decode(errors='replace')[-200:]!r} instead of {a[2].decode(errors='replace')[-200:]!r}"
            else:
                la, lb = (a[1] or b"").split(b"\n"), (b[1] or b"").split(b"\n")
                i = next((i for i, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
                w = f"output line {i + 1}: {lb[i:i+1]} instead of {la[i:i+1]}"
            c.violation(f"self {key}", f"toycc compiled by itself behaves differently from toycc compiled by the host compiler: {w}", (text if isinstance(text, str) else str(text))[:200000])

    jobs = [(f"source {f} {m}", lambda f=f, m=m: both(f"source {f} {m}", "", hdr, os.path.join(src, f), m)) for f in files for m in ("-S", "-E")]
    suite = []
    for f in sorted(glob.glob(src + "/test/*.c")):
        t = open(f, errors="replace").read()
        if re.search(r"__(TIME|DATE)__", t):          # the time of day is part of the input
            g = os.path.join(wd, os.path.basename(f))
            open(g, "w").write(re.sub(r"__(TIME|DATE)__", '"00:00:00"', t))
            shutil.copystat(f, g)
            f = g
        suite.append(f)
    for f in suite:
        b = os.path.basename(f)
        jobs += [(b, lambda f=f, b=b, m=m: both(f"suite {b} {m}", "", ["-I" + src + "/test", "-I" + src], f, m)) for m in ("-S", "-E")]
    for k, t in special():
        jobs += [(k, lambda k=k, t=t, m=m: both(f"special {k} {m}", t, (), None, m)) for m in ("-S", "-E")]
        jobs += [(k, lambda k=k, t=t, fl=fl: both(f"special {k} {fl}", t, [fl])) for fl in ("-fPIC", "-fcommon", "-fno-common")]
    for i, t in enumerate(BAD):
        jobs += [(t, lambda i=i, t=t, m=m: both(f"malformed {i} {t[:30]} {m}", t.encode("latin1"), (), None, m)) for m in ("-S", "-E")]
    pmap(lambda j: j[1](), jobs)
    texts = []
    for pid in PROGS if c.thorough else PROGS[:-1]:
        ts = record(pid)
        if not c.thorough:
            # whole batches, in order, up to a fixed amount of text per check
            n, kept = 0, []
            for t in ts:
                if kept and n > 1_500_000: break
                kept.append(t); n += len(t)
            ts = kept
        texts += [(f"{pid} batch {i}", t) for i, t in enumerate(ts)]
    pmap(lambda kt: both(kt[0], kt[1]), texts)
    c.sample({"program batch": texts[0][0], "bytes": len(texts[0][1])})

    # ---- nothing but the input and the options matters ----
    def run_in(conf, p, o, mode):
        env = {k: v for k, v in os.environ.items() if not k.startswith("MALLOC_")}
        env.update(conf.get("env", {}))
        cwd = conf.get("cwd", wd)
        cmd = conf.get("pre", []) + [conf.get("exe", s1)] + mode + ["-o", o, p]
        rc, out, e = sh(cmd, cwd=cwd, env=env, timeout=120, inp=conf.get("inp"))
        b = open(o, "rb").read() if os.path.exists(o) else None
        if b is not None: os.unlink(o)
        return rc, b, e
    other = os.path.join(c.scratch, "elsewhere", "deep"); os.makedirs(other)
    confs = {"malloc fill %d" % v: {"env": {"MALLOC_PERTURB_": str(v)}} for v in (1, 85, 170, 254, 255)}
    confs["large environment"] = {"env": {"PAD": "x" * 100000}}
    confs["empty environment"] = {"env": {}, "pre": ["env", "-i", "PATH=" + os.environ.get("PATH", "")]}
    confs["other locale"] = {"env": {"LC_ALL": "C", "LANG": "de_DE.UTF-8"}}
    confs["other directory"] = {"cwd": other}
    confs["no mmap threshold"] = {"env": {"MALLOC_MMAP_THRESHOLD_": "64", "MALLOC_TOP_PAD_": "0"}}
    confs["small stack"] = {"pre": ["sh", "-c", "ulimit -s 2048; exec \"$@\"", "sh"]}
    confs["data on stdin"] = {"inp": b"int z;\n"}
    confs["again"] = {}
    inputs = [(f"special {k}", t.encode()) for k, t in special()] + [(f"malformed {i}", t.encode("latin1")) for i, t in enumerate(BAD)] + [(k, t.encode()) for k, t in texts[::1 if c.thorough else max(1, len(texts) // 60)]]
    allenv = set(k for k, t in inputs)
    inputs += [(k, t.encode()) for k, t in texts if k not in allenv]
    inputs += [(f"suite {os.path.basename(f)}", f) for f in suite] + [(f"source {f}", os.path.join(src, f)) for f in files]

    def det(kt):
        k, t = kt
        if isinstance(t, str):       # a file, in place
            for mode in (["-S"], ["-E"]):
                a = hdr + ["-I" + src + "/test"] + mode
                n = next(seq)
                base = run_in({}, t, os.path.join(wd, f"d{n}.o"), a)
                for name in ("malloc fill 85", "malloc fill 254", "empty environment", "no mmap threshold", "again"):
                    r = run_in(confs[name], t, os.path.join(wd, f"d{n}.x"), a)
                    c.count(states=1, transitions=1, traces=1)
                    if r != base:
                        c.violation(f"determinism {k} {mode[0]} {name}", f"the result of {mode[0]} changes under '{name}': status {r[0]} / {base[0]}, {len(r[1] or b'')} / {len(base[1] or b'')} bytes, messages {r[2][-150:]} / {base[2][-150:]}", t)
            return
        if k not in allenv:
            n = next(seq)
            p = os.path.join(wd, f"d{n}.c"); open(p, "wb").write(t)
            base = run_in({}, p, os.path.join(wd, f"d{n}.o"), ["-S"])
            r = run_in(confs["malloc fill 85"], p, os.path.join(wd, f"d{n}.x"), ["-S"])
            c.count(states=1, transitions=1, traces=1)
            if r != base:
                c.violation(f"determinism {k} -S malloc fill 85", f"the result changes with what new memory holds: status {r[0]} / {base[0]}, messages {r[2][-150:]} / {base[2][-150:]}", t.decode("latin1")[:100000])
            os.unlink(p)
            return
        n = next(seq)
        p = os.path.join(wd, f"d{n}.c"); open(p, "wb").write(t)
        for mode in (["-S"], ["-E"]):
            base = run_in({}, p, os.path.join(wd, f"d{n}.o"), mode)
            for name, conf in confs.items():
                r = run_in(conf, p, os.path.join(wd, f"d{n}.x"), mode)
                c.count(states=1, transitions=1, traces=1)
                if r != base:
                    c.violation(f"determinism {k} {mode[0]} {name}", f"the result of {mode[0]} changes under '{name}': status {r[0]} / {base[0]}, {len(r[1] or b'')} / {len(base[1] or b'')} bytes, messages {r[2][-150:]} / {base[2][-150:]}", t.decode("latin1")[:100000])
        os.unlink(p)
    pmap(det, inputs)

    # ---- an input's output does not depend on the other inputs of the command ----
    small = {"a.c": "static int x = 1; int fa(void) { static int n; return x + n++; } char *sa = \"s\"; int ta;", "b.c": "#define M 3\nint fb(void) { return M; } int tb = 4; struct S { int q; }; typedef int T;", "c.c": "#ifdef M\nint m;\n#endif\nint T = 1; struct S { char c[9]; } s; int fc(int S) { L: if (S) { S--; goto L; } return __COUNTER__ + __LINE__; }", "d.c": "#pragma once\n#include \"h.h\"\nint fd(void) { return H; }", "e.c": "#include \"h.h\"\n#undef H\n#define H 9\nint fe(void) { return H + __COUNTER__; }"}
    md = os.path.join(c.scratch, "multi"); os.makedirs(md)
    for k, v in small.items(): open(os.path.join(md, k), "w").write(v + "\n")
    open(os.path.join(md, "h.h"), "w").write("#pragma once\n#define H 5\nextern int ht;\n")
    def outs(names, mode):
        d = tempfile.mkdtemp(dir=c.scratch)
        for k in list(small) + ["h.h"]: shutil.copy(os.path.join(md, k), d)
        rc, o, e = sh([s1, mode] + list(names), cwd=d)
        r = {}
        for n in names:
            f = os.path.join(d, n[:-1] + ("s" if mode == "-S" else "o"))
            r[n] = open(f, "rb").read() if os.path.exists(f) else None
        shutil.rmtree(d)
        return rc, r, e
    for mode in ("-S",):
        alone = {n: outs([n], mode) for n in small}
        lists = [q for L in (2, 3) for q in itertools.permutations(small, L)]
        def multi(q):
            rc, r, e = outs(q, mode)
            c.count(states=1, transitions=len(q), traces=1)
            for n in q:
                if rc != 0 or r[n] != alone[n][1][n]:
                    c.violation(f"inputs {mode} {' '.join(q)}", f"the output for {n} differs from the one it gets alone (status {rc}, {e[-200:]})", f"toycc {mode} {' '.join(q)}\n" + "\n".join(f"== {k}\n{v}" for k, v in small.items()))
        pmap(multi, lists)
    c.extra["bounds"] = f"self-compiled toycc on all {len(files)} own sources, the suite's sources, {len(list(special()))} arithmetic-heavy inputs x flags, {len(BAD)} malformed inputs and {len(texts)} program batches of the other checks ({sum(len(t) for _, t in texts) >> 20} MB); {len(confs)} environments x {len(inputs)} inputs x 2 modes; all ordered lists of 2 or 3 of 5 inputs"
main("C32", body)
