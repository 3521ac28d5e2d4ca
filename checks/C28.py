"""C28: dependency output lists exactly the files read, in a form make understands, and does not change the compilation."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *


def parse_rules(text):
    """make's reading of a dependency file: [(targets, prerequisites)]"""
    text = re.sub(r"\\\n", " ", text)
    rules = []
    for line in text.split("\n"):
        if not line.strip():
            continue
        words, cur, i, colon = [], "", 0, None
        while i < len(line):
            ch = line[i]
            if ch == "\\" and i + 1 < len(line) and line[i + 1] in " \t#\\":
                n = 0
                while i + n < len(line) and line[i + n] == "\\":
                    n += 1
                nxt = line[i + n] if i + n < len(line) else ""
                if nxt and nxt in " \t#":
                    cur += "\\" * (n // 2)
                    if n % 2:
                        cur += nxt
                        i += n + 1
                    else:
                        i += n
                else:
                    cur += "\\" * n
                    i += n
                continue
            if ch == "$" and line[i:i + 2] == "$$":
                cur += "$"
                i += 2
                continue
            if ch in " \t":
                if cur:
                    words.append(cur)
                cur = ""
            elif ch == ":" and colon is None and (i + 1 == len(line) or line[i + 1] in " \t"):
                if cur:
                    words.append(cur)
                cur = ""
                colon = len(words)
            else:
                cur += ch
            i += 1
        if cur:
            words.append(cur)
        if colon is None:
            rules.append((None, words))
        else:
            rules.append((words[:colon], words[colon:]))
    return rules


def norm(rules):
    """one rule per target set; prerequisites as a set of normalised paths"""
    r = []
    for t, p in rules:
        r.append((tuple(sorted(os.path.normpath(x) for x in t)) if t is not None else None, frozenset(os.path.normpath(x) for x in p)))
    return r


class Runner:
    def __init__(self, c):
        self.c, self.toycc = c, c.build()
        self.seq = itertools.count()

    def go(self, cc, files, args):
        d = os.path.join(self.c.scratch, "d%d" % next(self.seq))
        os.makedirs(d)
        try:
            for n, t in files.items():
                p = os.path.join(d, n)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "w").write(t)
            rc, o, e = sh(cc + args, cwd=d, timeout=60)
            made = {}
            for dd, _, ns in os.walk(d):
                for n in ns:
                    r = os.path.relpath(os.path.join(dd, n), d)
                    if r not in files:
                        made[r] = open(os.path.join(dd, n), "rb").read()
            return rc, o, made, e
        finally:
            shutil.rmtree(d, True)

    def case(self, job):
        key, files, args = job
        if time.time() > self.c.deadline:
            self.c.extra["capped"] = True
            return
        g = self.go([GCC, "-w", "-ffreestanding"], files, args)
        t = self.go([self.toycc], files, args)
        what = None
        if (g[0] == 0) != (t[0] == 0):
            what = f"gcc ends with {g[0]}, toycc with {t[0]}: {(t[3] or g[3]).decode(errors='replace')[-300:]}"
        elif g[0] == 0:
            if set(g[2]) != set(t[2]):
                what = f"files written: {sorted(t[2])}, expected {sorted(g[2])}"
            else:
                for n in list(g[2]) + ["(stdout)"]:
                    a, b = (g[1], t[1]) if n == "(stdout)" else (g[2][n], t[2][n])
                    if a[:4] == b"\x7fELF" or b[:4] == b"\x7fELF":
                        if a[:4] != b[:4]:
                            what = f"{n} is not an object"
                        continue
                    if n.endswith((".s", ".i")) or (n == "(stdout)" and "-E" in args):
                        continue
                    ra, rb = norm(parse_rules(a.decode())), norm(parse_rules(b.decode(errors="replace")))
                    dir0 = lambda rs: sorted((t, tuple(sorted(p))) for t, p in set(rs))
                    if dir0(ra) != dir0(rb):
                        what = f"{n}: {dir0(rb)} expected {dir0(ra)}"
        if what:
            self.c.violation(key, what, f"command: toycc {' '.join(args)}\n" + "".join(f"--- {n}\n{x}\n" for n, x in files.items()) + f"--- output\n{t[1].decode(errors='replace')}\n{t[2]}")
        self.c.count(1, len(files), 1)


def graphs(n):
    """all include graphs over n headers in which main may include any and each may include later ones (guards allow cycles too)"""
    edges = [(i, j) for i in range(n + 1) for j in range(1, n + 1) if i < j]
    for bits in itertools.product((0, 1), repeat=len(edges)):
        yield [e for e, b in zip(edges, bits) if b]


def check(c):
    r = Runner(c)
    jobs = []
    n = 3 if not c.thorough else 4
    for k, es in enumerate(graphs(n)):
        files = {}
        for i in range(n + 1):
            inc = "".join(f'#include "h{j}.h"\n' for a, j in es if a == i)
            files["m.c" if i == 0 else f"h{i}.h"] = (f"#ifndef G{i}\n#define G{i}\n" + inc + f"extern int v{i};\n#endif\n") if i else inc + "int x;\n"
        for args in (["-M"], ["-MMD", "-c"], ["-M", "-MP"]):
            jobs.append((f"graph/{k}/{' '.join(args)}", files, args + ["m.c"]))
    # conditional, computed, repeated, once, missing-but-skipped, cyclic includes; -include; subdirectories; include_next
    base = {"m.c": "int x;\n", "a.h": "int a;\n", "b.h": "int b;\n", "inc/a.h": "int ia;\n", "inc/c.h": "#include \"a.h\"\n", "inc2/a.h": "int i2a;\n", "inc2/c.h": "int c2;\n", "once.h": "#pragma once\nint o;\n", "g.h": "#ifndef G\n#define G\n#include \"a.h\"\n#endif\n"}
    bodies = {"plain": "", "a": '#include "a.h"\n', "cond0": '#if 0\n#include "a.h"\n#endif\n', "cond1": '#if 1\n#include "a.h"\n#else\n#include "b.h"\n#endif\n', "condskip": '#ifdef NO\n#include "nosuch.h"\n#endif\n', "macro": '#define H "a.h"\n#include H\n', "macro2": '#define H <c.h>\n#include H\n', "twice": '#include "once.h"\n#include "once.h"\n', "guard": '#include "g.h"\n#include "g.h"\n', "angle": "#include <c.h>\n", "sub": '#include "inc/c.h"\n', "next": '#include <n.h>\n', "dot": '#include "./a.h"\n#include "inc/../b.h"\n', "missing": '#include "nosuch.h"\n', "D": '#ifdef D\n#include "b.h"\n#endif\n'}
    base["inc/n.h"] = "#include_next <n.h>\n"
    base["inc2/n.h"] = "int n;\n"
    flags = [["-Iinc"], ["-Iinc", "-Iinc2"], ["-Iinc2", "-Iinc"], ["-Iinc", "-DD", "-Iinc2"], ["-Iinc", "-include", "b.h", "-Iinc2"], ["-Iinc2", "-idirafter", "inc"], ["-Iinc", "-Iinc2", "-include", "a.h", "-include", "inc/c.h"]]
    modes = [["-M"], ["-M", "-MP"], ["-MD", "-c"], ["-MMD", "-c"], ["-MMD", "-MP", "-c"], ["-M", "-MF", "dep"], ["-MD", "-MF", "dep", "-c"], ["-MD", "-c", "-o", "d/out.o"], ["-MD", "-S"], ["-MD", "-S", "-o", "d/out.s"], ["-M", "-MT", "tgt"], ["-M", "-MT", "t1", "-MT", "t2"], ["-M", "-MQ", "a$b"], ["-M", "-MQ", "a b", "-MT", "c"], ["-MD", "-MT", "zz", "-c"], ["-MD", "-MP", "-MF", "d/x.d", "-MT", "d/y", "-c", "-o", "d/z.o"], ["-M", "-o", "dep"], ["-MMD", "-c", "-o", "x.y.o"], ["-MD", "-c", "-o", "noext"]]
    for bn, b in bodies.items():
        for f in flags:
            for m in modes if (f in (flags[1], flags[6])) or c.thorough else modes[:3]:
                if bn in ("macro2", "angle", "next") and f == ["-Iinc"] and bn == "next":
                    continue
                files = dict(base)
                files["m.c"] = b + "int x;\n"
                files["d/.keep"] = ""
                jobs.append((f"opt/{bn}/{' '.join(f)}/{' '.join(m)}", files, m + f + ["m.c"]))
    # names
    for nm in ["a b.h", "a#b.h", "a$b.h", "$$.h", "#.h", "a\\b.h", "a  b.h", "é.h", "a%b.h", "(x).h", "a=b.h", "\\ x.h"]:
        for m in (["-M"], ["-MD", "-c"], ["-M", "-MP"]):
            files = {"m.c": f'#include "{nm}"\nint x;\n', nm: "int h;\n"}
            jobs.append((f"name/{nm}/{' '.join(m)}", files, m + ["m.c"]))
    for nm in ["a b.c", "a$b.c", "a#b.c", "x.tar.c", "d/e.c", "d.e/f.c", "\\ x.c", "\\\\ y.c", "a\\ b.c", " z.c", "\t.c", "#.c", "$.c"]:
        for m in (["-M"], ["-MD", "-c"], ["-M", "-MP"], ["-MD", "-c", "-o", "o ut.o"], ["-MMD", "-S"]):
            jobs.append((f"main/{nm}/{' '.join(m)}", {nm: '#include "h.h"\nint x;\n', os.path.join(os.path.dirname(nm), "h.h"): "int h;\n"}, m + [nm]))
    # every sequence of up to 3 -MT and -MQ options
    T = ["x", "a b", "$y", "#z", "\\ b", "c\\\\ d", "p\tq", "$(V)", " l"]
    for k in (1, 2, 3):
        for seq in itertools.product(itertools.product(("-MT", "-MQ"), T if k < 3 or c.thorough else T[:3]), repeat=k):
            for m in (["-M"],) if k > 1 else (["-M"], ["-MD", "-c"], ["-MMD", "-MP", "-S"], ["-M", "-MF", "dep"], ["-MD", "-c", "-o", "q.o"]):
                jobs.append((f"targets/{' '.join(m)}/{' '.join(a + ' ' + repr(b) for a, b in seq)}", {"m.c": '#include "h.h"\n', "h.h": "int h;\n"}, m + [x for p in seq for x in p] + ["m.c"]))
    # several inputs
    for m in (["-MD", "-c"], ["-MMD", "-S"]):
        jobs.append((f"multi/{' '.join(m)}", {"p.c": '#include "h.h"\n', "q.c": '#include "i.h"\n', "h.h": "int h;", "i.h": "int i;"}, m + ["p.c", "q.c"]))
    jobs.append(("multi/-M", {"p.c": '#include "h.h"\n', "q.c": '#include "i.h"\n', "h.h": "int h;", "i.h": "int i;"}, ["-M", "p.c", "q.c"]))
    pmap(r.case, jobs)
    for j in jobs[:: max(1, len(jobs) // 4)][:4]:
        c.sample({"case": j[0]})

    # headers of the implementation: with -MMD none of them, with -MD every file that was read
    for hs in (["stddef.h"], ["stdarg.h", "stdbool.h"], ["stdio.h"], ["stdlib.h", "string.h"], ["stdatomic.h"]):
        files = {"m.c": "".join(f"#include <{h}>\n" for h in hs) + '#include "u.h"\nint x;\n', "u.h": "int u;\n"}
        t = r.go([r.toycc], files, ["-MMD", "-MP", "-c", "m.c"])
        rules = norm(parse_rules(t[2].get("m.d", b"").decode()))
        if t[0] != 0 or sorted(rules, key=str) != sorted([(("m.o",), frozenset({"m.c", "u.h"})), (("u.h",), frozenset())], key=str):
            c.violation(f"mmd/{'+'.join(hs)}", f"-MMD lists {rules}", files["m.c"])
        t = r.go([r.toycc], files, ["-MD", "-c", "m.c"])
        rules = norm(parse_rules(t[2].get("m.d", b"").decode()))
        got = rules[0][1] if rules else set()
        if t[0] != 0 or not all(any(x.endswith("/" + h) for x in got) for h in hs) or not all(os.path.exists(x) for x in got if x.startswith("/")):
            c.violation(f"md/{'+'.join(hs)}", f"-MD lists {sorted(got)}", files["m.c"])
        # the object is the one made without the option
        a, b = r.go([r.toycc], files, ["-S", "m.c"]), r.go([r.toycc], files, ["-MD", "-S", "m.c"])
        if a[2].get("m.s") != b[2].get("m.s"):
            c.violation(f"same/{'+'.join(hs)}", "the output depends on -MD", files["m.c"])
        c.count(3, 3, 3)

    # make itself: after touching any one file, exactly the objects that depend on it are rebuilt
    d = os.path.join(c.scratch, "mk")
    os.makedirs(d)
    fs = {"a.c": '#include "x y.h"\n#include "z#.h"\n', "b.c": '#include "z#.h"\n#include "$w.h"\n', "x y.h": "int xy;\n", "z#.h": '#include "k.h"\n', "$w.h": "int w;\n", "k.h": "int k;\n"}
    deps = {"a.c": {"a"}, "b.c": {"b"}, "x y.h": {"a"}, "z#.h": {"a", "b"}, "$w.h": {"b"}, "k.h": {"a", "b"}}
    for n, t in fs.items():
        open(os.path.join(d, n), "w").write(t)
    open(os.path.join(d, "Makefile"), "w").write(f"all: a.o b.o\n%.o: %.c\n\t@echo built $*\n\t@{r.toycc} -MD -MP -c $<\n-include a.d b.d\n")
    rc, o, e = sh(["make"], cwd=d)
    if rc:
        c.violation("make/first", f"make fails: {e.decode()[-300:]}", str(fs))
    for i, (n, want) in enumerate(deps.items()):
        now = time.time() + 100 * (i + 1)
        os.utime(os.path.join(d, n), (now, now))
        rc, o, e = sh(["make"], cwd=d)
        got = set(re.findall(r"built (\w+)", o.decode()))
        if rc != 0 or got != want:
            c.violation(f"make/{n}", f"after changing {n} make rebuilds {got}, expected {want}: {e.decode()[-200:]}", str(fs))
        for x in "ab":
            if os.path.exists(os.path.join(d, x + ".o")):
                os.utime(os.path.join(d, x + ".o"), (now + 50, now + 50))
        c.count(1, 1, 1)
    c.assumptions += ["gcc -M lists the right files", "make's quoting rules as modelled in parse_rules (and make itself for a sample of names)"]


main("C28", check)
