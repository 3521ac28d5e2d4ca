"""C27: every combination of options and inputs produces exactly the files it should, with the right contents."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
from pp import lex

FILES = {"a.c": "int foo(void);\nint main(void) { return foo(); }\n", "b.c": "int foo(void) { return 42; }\n", "sub/b.c": "int foo(void) { return 43; }\n", "one.c": "#ifndef V\n#define V 7\n#endif\nint main(void) { return V; }\n",
         "m.c": "double sqrt(double); int main(int c, char **v) { return sqrt(c * 64.0); }\n", "f.s": ".globl foo\nfoo: li a0, 44\n ret\n", "t.txt": "int foo(void) { return 45; }\n", "x.tar.c": "int foo(void) { return 46; }\n", "bad.c": "int foo(void) { return }\n",
         "bad.s": "\tnosuchinsn\n", "sp ace.c": "int foo(void) { return 47; }\n", "noext": "int foo(void) { return 48; }\n", "h.h": "#define V 9\n", "d/.keep": "", "p.c": "int g1; extern int g2; int foo(void) { return 49; }\n"}


def kind(p):
    b = open(p, "rb").read()
    if b[:4] == b"\x7fELF":
        t = b[16] | b[17] << 8
        return {1: "object", 2: "program", 3: "program"}[t]
    if b[:8] == b"!<arch>\n":
        return "archive"
    t = b.decode(errors="replace")
    if not t.strip():
        return "empty"
    if re.search(r"^\s*\.(text|globl|global|file|data|section|option)\b", t, re.M):
        return "assembly"
    if re.search(r"^\S+\.?\w*:.*\\?", t) and re.search(r"\.c\b", t) and ";" not in t:
        return "rule"
    return "source"


class Runner:
    def __init__(self, c):
        self.c, self.toycc = c, c.build()
        self.seq = itertools.count()
        # objects, an archive and a shared library, made by the reference tools
        self.base = os.path.join(c.scratch, "base")
        os.makedirs(self.base)
        for n, t in FILES.items():
            os.makedirs(os.path.dirname(os.path.join(self.base, n)), exist_ok=True)
            open(os.path.join(self.base, n), "w").write(t)
        for cmd in ([GCC, "-c", "b.c", "-o", "bo.o"], [GCC, "-fPIC", "-shared", "b.c", "-o", "libb.so"], ["riscv64-linux-gnu-ar", "rcs", "libba.a", "bo.o"], ["cp", "bo.o", "odd.obj"], ["mkdir", "l1", "l2"],
                    [GCC, "-c", "b.c", "-Dfoo=foo", "-D__z=1", "-o", "z1.o"], [GCC, "-c", "sub/b.c", "-o", "z2.o"], ["riscv64-linux-gnu-ar", "rcs", "l1/libz9.a", "z1.o"], ["riscv64-linux-gnu-ar", "rcs", "l2/libz9.a", "z2.o"], ["riscv64-linux-gnu-ar", "rcs", "l2/liby9.a", "z2.o"]):
            rc, o, e = sh(cmd, cwd=self.base)
            assert rc == 0, e

    def go(self, cc, args, stdin=None):
        d = os.path.join(self.c.scratch, "d%d" % next(self.seq))
        shutil.copytree(self.base, d)
        try:
            before = {}
            for dd, _, ns in os.walk(d):
                for n in ns:
                    p = os.path.join(dd, n)
                    before[os.path.relpath(p, d)] = open(p, "rb").read()
            rc, o, e = sh(cc + args, cwd=d, inp=stdin, timeout=60)
            made = {}
            for dd, _, ns in os.walk(d):
                for n in ns:
                    p = os.path.join(dd, n)
                    r = os.path.relpath(p, d)
                    if r not in before or before[r] != open(p, "rb").read():
                        made[r] = kind(p)
            for r in before:
                if not os.path.exists(os.path.join(d, r)):
                    made[r] = "deleted"
            run = None
            for r, k in sorted(made.items()):
                if k == "program" and os.access(os.path.join(d, r), os.X_OK) and "-shared" not in args:
                    run = (sh(["qemu-riscv64", "-L", "/usr/riscv64-linux-gnu/", "-E", "LD_LIBRARY_PATH=" + d, os.path.join(d, r)], cwd=d)[0])
                if k == "object":
                    nm = sh(["riscv64-linux-gnu-nm", os.path.join(d, r)])[1].decode()
                    made[r] = "object:" + ",".join(sorted(x.split()[-1] for x in nm.split("\n") if re.search(r" [TDBC] ", x)))
                if k in ("source", "assembly"):
                    t = open(os.path.join(d, r), errors="replace").read()
                    made[r] = k + ":" + ",".join(x for x in ("main", "foo", "42", "43", "45", "46", "47", "48", "49") if re.search(r"\b%s\b" % x, t))
            so = "nothing"
            if o.strip():
                t = o.decode(errors="replace")
                so = "assembly" if re.search(r"^\s*\.(text|globl|global)\b", t, re.M) else "rule" if re.match(r"^[^\s:]+: ", t) and ";" not in t else "source"
                so += ":" + ",".join(x for x in ("main", "foo", "42", "43", "45", "46", "47", "48", "49") if re.search(r"\b%s\b" % x, t))
            return rc, made, so, run, e
        finally:
            shutil.rmtree(d, True)

    def case(self, job):
        if time.time() > self.c.deadline:
            self.c.extra["capped"] = True
            return
        args, stdin, key = job
        g = self.go([GCC, "-w", "-ffreestanding"], [a for a in args], stdin)
        t = self.go([self.toycc], args, stdin)
        what = None
        if (g[0] == 0) != (t[0] == 0):
            what = f"gcc ends with {g[0]}, toycc with {t[0]}: {(t[4] or g[4]).decode(errors='replace')[-200:]}"
        elif t[0] not in (0, 1):
            what = f"toycc ended with {t[0]}"
        elif t[0] == 0 and g[1] != t[1]:
            what = f"files written: {t[1]}, expected {g[1]}"
        elif t[0] == 0 and g[2] != t[2]:
            what = f"standard output: {t[2]}, expected {g[2]}"
        elif g[3] != t[3]:
            what = f"the program ends with {t[3]}, expected {g[3]}"
        elif t[0] != 0:
            left = {n: k for n, k in t[1].items() if n not in g[1] and not n.endswith((".o", ".s", ".d"))}
            if left:
                what = f"a failed run leaves {left}"
            if not t[4]:
                what = "a failed run says nothing"
        if what:
            self.c.violation(key, what, f"files: {FILES}\ncommand: toycc {' '.join(args)}\nstdin: {stdin}\nstderr: {t[4].decode(errors='replace')}")
        self.c.count(1, len(args), 1)


def combos(c):
    modes = [[], ["-c"], ["-S"], ["-E"], ["-c", "-S"], ["-S", "-c"], ["-E", "-c"], ["-E", "-S"]]
    outs = [[], ["-o", "out"], ["-oout"], ["-o", "d/out"], ["-o", "out.c.o"]]
    ins = [["one.c"], ["a.c", "b.c"], ["a.c", "bo.o"], ["a.c", "libba.a"], ["a.c", "libb.so"], ["a.c", "f.s"], ["a.c", "sub/b.c"], ["f.s"], ["sub/b.c"], ["x.tar.c"], ["sp ace.c"], ["a.c", "bo.o", "one.c"][:2] + ["-lm"], ["m.c", "-lm"], ["-lm", "one.c"], ["bo.o"],
           ["a.c", "-L.", "-lb"], ["a.c", "-L", ".", "-lba"], ["a.c", "-Wl,--gc-sections", "b.c"], ["-Wl,-z,muldefs", "a.c", "b.c", "bo.o"], ["a.c", "b.c", "bo.o", "-Xlinker", "-z", "-Xlinker", "muldefs"], ["a.c"], ["bad.c"], ["a.c", "bad.c"], ["bad.c", "a.c"], ["nosuch.c"], ["a.c", "nosuch.o"], ["bad.s"], ["a.c", "bad.s"], [],
           ["-x", "c", "t.txt"], ["-xc", "t.txt", "a.c"], ["a.c", "-xc", "t.txt"], ["-xc", "t.txt", "-xnone", "bo.o"], ["-x", "c", "t.txt", "-x", "none", "a.c"], ["-x", "assembler", "f.s", "-x", "c", "a.c"], ["bo.o", "-xc", "a.c"], ["f.s", "-xc", "a.c"], ["-xassembler", "f.s", "-xnone", "a.c"], ["-xc", "noext", "a.c"], ["a.c", "noext"][:1] + ["-xc", "noext"], ["-xcc", "a.c"], ["d"], ["a.c", "d"][:0] or ["p.c", "a.c"]]
    for m, o, i in itertools.product(modes, outs, ins):
        if "-E" in m and any(x.endswith((".o", ".a", ".so", ".s")) or x == "bad.c" for x in i):
            continue         # -E makes toycc read every input as C; gcc ignores objects and assembly, and bad.c preprocesses
        if "-E" in m and ("-xassembler" in i or "assembler" in i):
            continue
        fs = [x for x in i if "." in x and not x.startswith("-")]
        if m and o and len(fs) > 1 and not all(x.endswith(".c") for x in fs):
            continue         # which inputs count as several is a matter of taste
        if m and i in (["a.c", "nosuch.o"], ["d"]):
            continue         # an unused or unknown input may be ignored or diagnosed
        yield m + o + i, None
        if c.thorough or (len(i) <= 2 and len(m) <= 1):
            yield i + m + o, None
            yield o + i + m, None
    # -
    for m in (["-E"], ["-S"], ["-c"], []):
        for o in ([], ["-o", "out"], ["-o", "-"]):
            if o == ["-o", "-"] and m in (["-c"], []):
                continue       # an object cannot be written to standard output by the assembler
            for f in (["-xc", "-"], ["-x", "c", "-"], ["a.c", "-xc", "-"], ["-xc", "-", "a.c"]):
                if m == ["-E"] and len(f) > 2 and "a.c" in f and o == []:
                    pass
                yield m + o + f, b"int foo(void) { return 45; }\n" if "a.c" in f else b"int foo(void) { return 45; } int main(void) { return 46; }\n"
    yield ["-E", "-"], b"int x;\n"
    yield ["-S", "-o", "-", "b.c"], None
    # ignored options do not matter
    for x in ("-O", "-O2", "-Os", "-Wall", "-Wno-unused", "-Wlong-long", "-Wlogical-op", "-g", "-std=c11", "-std=gnu99", "-ffreestanding", "-fno-builtin", "-fno-omit-frame-pointer", "-fno-stack-protector", "-fno-strict-aliasing", "-w"):
        yield [x, "-c", "b.c"], None
        yield ["a.c", x, "b.c", "-o", "out"], None
    # kinds of linking
    for x in (["-static"], ["-fPIC"], ["-fpic"], ["-s"], ["-static", "-s"], ["-fcommon"], ["-fno-common"]):
        yield x + ["a.c", "b.c"], None
        yield ["a.c", "b.c"] + x + ["-o", "out"], None
        yield x + ["a.c", "-L.", "-lba", "-o", "d/out"], None
    for x in (["-fPIC", "-shared"], ["-shared", "-fpic"]):
        yield x + ["b.c", "-o", "libq.so"], None
        yield x + ["b.c", "p.c"[:0] or "sp ace.c", "-o", "libq.so", "-Wl,-z,muldefs"], None
    # directories of libraries in every order, and every order of objects, archives, libraries and linker options
    L = [["-Ll1"], ["-L", "l1"], ["-Ll2"], ["-L", "l2"], ["-L."]]
    for k in range(4):
        for x in itertools.product(L if k < 3 else L[:4], repeat=k):
            d = [a for y in x for a in y]
            yield d + ["a.c", "-lz9"], None
            if k < 3:
                yield ["a.c", "-lz9"] + d, None
                yield ["a.c"] + d + ["-ly9", "-o", "out"], None
    I = ["a.c", "bo.o", "libba.a", "-lz9", "f.s", "-ly9", "-Wl,-z,muldefs"]
    for k in (2, 3, 4):
        for x in itertools.permutations(I, k):
            if "a.c" in x and (k < 4 or "-Wl,-z,muldefs" in x and c.thorough):
                yield ["-Ll1", "-Ll2"] + list(x), None
                if k == 3 and c.thorough:
                    yield ["-static"] + list(x)[:2] + ["-Ll2"] + list(x)[2:], None
    # bad command lines
    for x in (["-o"], ["-c", "one.c", "-o"], ["one.c", "-I"], ["one.c", "-D"], ["one.c", "-U"], ["one.c", "-x"], ["one.c", "-MF"], ["-nosuchoption", "one.c"], ["one.c", "-include"], ["one.c", "-L"], ["one.c", "-Xlinker"], ["one.c", "-idirafter"], ["-c", "-o", "nodir/x.o", "one.c"], ["-S", "-o", "nodir/x.s", "one.c"], ["-E", "-o", "nodir/x.i", "one.c"], ["-o", "nodir/x", "one.c"],
              ["-c", "-o", "d", "one.c"], ["-S", "-o", "d", "one.c"], ["-o", "d", "one.c"], ["-include", "nosuch.h", "one.c"]):
        yield x, None


def macros(c):
    """-D, -U and -include in every order"""
    ops = [["-DV"], ["-DV=2"], ["-D", "V=3"], ["-UV"], ["-U", "V"], ["-DV="], ["-DW=V"], ["-DF(a)=[a]"], ["-D", "F(a,b)=a b"], ["-DF()=z"], ["-DF(...)=v __VA_ARGS__"], ["-include", "v5.h"], ["-include", "u.h"], ["-DV=\"s\""], ["-DV=a=b"]]
    n = 2 if not c.thorough else 3
    for k in range(0, n + 1):
        for x in itertools.product(range(len(ops)), repeat=k):
            yield [a for i in x for a in ops[i]]


def check(c):
    r = Runner(c)
    jobs, seen = [], set()
    for args, stdin in combos(c):
        key = "cmd/" + " ".join(args)
        if key in seen:
            continue
        seen.add(key)
        jobs.append((args, stdin, key))
    for j in jobs[:: max(1, len(jobs) // 4)][:4]:
        c.sample({"command": " ".join(j[0])})
    pmap(r.case, jobs)
    md = os.path.join(c.scratch, "mac")
    os.makedirs(md)
    open(os.path.join(md, "v5.h"), "w").write("#ifdef V\nhadV V\n#undef V\n#endif\n#define V 5\n")
    open(os.path.join(md, "u.h"), "w").write("inu V W F(1)\n#undef V\n")
    open(os.path.join(md, "p.c"), "w").write("#ifdef V\nyes V\n#else\nno V\n#endif\nW F F(1) F(1,2) F()\n")

    def mac(args):
        a = sh(["gcc", "-E", "-P", "-w", "-undef", "-nostdinc"] + args + ["p.c"], cwd=md)
        b = sh([r.toycc] + args + ["-E", "p.c"], cwd=md)
        ta, tb = [x for x, _ in lex(a[1].decode())], [x for x, _ in lex(b[1].decode(errors="replace"))]
        if (a[0] == 0) != (b[0] == 0) or (a[0] == 0 and ta != tb):
            c.violation("macro/" + " ".join(args), f"got {tb} (rc={b[0]}), expected {ta} (rc={a[0]}) {b[2].decode(errors='replace')[-200:]}", " ".join(args))
        c.count(1, len(args), 1)
    pmap(mac, list(macros(c)))

    # the last of -fcommon and -fno-common counts, whatever stands between them
    open(os.path.join(md, "t.c"), "w").write("int t; static int s; int i = 1; extern int e; int *f(void) { return e ? &t : &s; }\n")

    def common(job):
        n, args = job
        o = os.path.join(md, f"t{n}.o")
        a = sh([GCC, "-ffreestanding"] + args + ["-c", "t.c", "-o", o + "g"], cwd=md)
        b = sh([r.toycc] + args + ["-c", "t.c", "-o", o], cwd=md)
        x, y = [re.findall(r" (\w) ([tsief])$", sh(["riscv64-linux-gnu-nm", f])[1].decode(), re.M) for f in (o + "g", o)]
        if a[0] or b[0] or sorted(x) != sorted(y):
            c.violation("common/" + " ".join(args), f"got {y} (rc={b[0]}), expected {x}", " ".join(args))
        c.count(1, len(args), 1)
    F = ["-fcommon", "-fno-common", "-fpic", "-fPIC", "-static", "-g", "-O2"]
    pmap(common, list(enumerate([list(x) for k in (1, 2, 3) for x in itertools.product(F, repeat=k) if "-fcommon" in x or "-fno-common" in x])))

    # with -E every input is C, whatever it is called
    def eall(names):
        a = sh(["gcc", "-E", "-P", "-undef", "-nostdinc", "-xc"] + names, cwd=r.base)
        b = sh([r.toycc, "-E"] + names, cwd=r.base)
        ta, tb = [[x for x, _ in lex(re.sub(r"(?m)^#.*", "", z[1].decode(errors="replace")))] for z in (a, b)]
        if a[0] or b[0] or ta != tb:
            c.violation("-E/" + " ".join(names), f"got {tb} (rc={b[0]}), expected {ta}", " ".join(names))
        c.count(1, len(names), 1)
    pmap(eall, [list(x) for k in (1, 2, 3) for x in itertools.permutations(["b.c", "t.txt", "noext", "h.h", "f.s", "sp ace.c"], k)])
    c.assumptions += ["the riscv64 gcc driver decides which files a command line produces; of two programs the exit status, of objects the defined symbols, of texts the functions they mention are compared"]


main("C27", check)
