"""C20: #include finds the right file and reads it as often as it should."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
from pp import *


class Tree:
    """files: {path: text}; links: {path: target}; main: the file to preprocess; flags"""
    __slots__ = ("key", "files", "main", "flags", "links", "steps")

    def __init__(self, key, files, main="s/p.c", flags=(), links=None, steps=1):
        self.key, self.files, self.main, self.flags, self.links, self.steps = key, files, main, list(flags), links or {}, steps


class Runner:
    def __init__(self, c):
        self.c, self.toycc = c, c.build()
        self.seq = itertools.count()

    def write(self, t, d):
        for p, txt in t.files.items():
            f = os.path.join(d, p)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            if txt is None:
                os.makedirs(f, exist_ok=True)
            else:
                open(f, "w", newline="").write(txt)
        for p, to in t.links.items():
            os.makedirs(os.path.dirname(os.path.join(d, p)), exist_ok=True)
            os.symlink(to, os.path.join(d, p))

    def one(self, t):
        if time.time() > self.c.deadline:
            self.c.extra["capped"] = True
            return
        d = os.path.join(self.c.scratch, "t%d" % next(self.seq))
        os.makedirs(d)
        try:
            self.write(t, d)
            rc, o, e = sh(["gcc", "-E", "-P", "-w", "-undef", "-nostdinc", "-std=gnu11"] + t.flags + [t.main], cwd=d)
            src, so, se = sh([self.toycc] + t.flags + ["-E", "-o", "out.i", t.main], cwd=d, limit_as=2 << 30)
            got = None
            if src == 0:
                got = [x for x, _ in lex(open(os.path.join(d, "out.i"), errors="replace").read())]
            want = [x for x, _ in lex(o.decode(errors="replace"))] if rc == 0 else None
            what = None
            if (want is None) != (got is None):
                what = f"gcc {'fails' if want is None else 'succeeds'}, toycc {'fails' if got is None else 'succeeds'} (rc={src}): {(se or e).decode(errors='replace')[-200:]}"
            elif src not in (0, 1):
                what = f"toycc ended with {src}"
            elif got != want:
                i = next((i for i, (a, b) in enumerate(zip(got + [''] * 9, want + [''] * 9)) if a != b), 0)
                what = f"token {i}: got '{' '.join(got[max(0, i - 6):i + 6])}' expected '{' '.join(want[max(0, i - 6):i + 6])}'"
            if what:
                txt = f"flags: {' '.join(t.flags)}  main: {t.main}\n" + "".join(f"--- {p}\n{x}\n" for p, x in sorted(t.files.items(), key=lambda z: z[0]) if len(t.files) < 40 or p == t.main) + "".join(f"--- {p} -> {x}\n" for p, x in t.links.items())
                self.c.violation(t.key, what, txt)
            self.c.count(states=t.steps, transitions=t.steps, traces=1)
        finally:
            shutil.rmtree(d, True)

    def run(self, ts):
        ts = list(ts)
        for t in ts[:: max(1, len(ts) // 2)][:2]:
            self.c.sample({"case": t.key, "flags": t.flags, "main": t.files[t.main][:300]})
        pmap(self.one, ts)


FLAGS = [[], ["-Ii1"], ["-Ii1", "-Ii2"], ["-Ii2", "-Ii1"], ["-I", "i1", "-I", "i3"], ["-idirafter", "i1", "-Ii2"], ["-Ii3", "-idirafter", "i2", "-idirafter", "i1"], ["-Inone", "-Ii2", "-I", "none2", "-Ii1", "-Ii3"], ["-Ii1", "-Ii2", "-Ii3"], ["-I."], ["-Is", "-Ii2"]]
DIRS = [".", "s", "i1", "i2", "i3"]


def existence():
    """a header that exists in every subset of five directories, included in both forms, with and without #include_next"""
    for fi, fl in enumerate(FLAGS):
        for form in ('"%s"', "<%s>"):
            for nxt in ("", '#include_next "%s"\n', "#include_next <%s>\n"):
                files, body = {}, []
                for cfg in range(32):
                    name = f"vh{cfg}.h"
                    where = [d for i, d in enumerate(DIRS) if cfg >> i & 1]
                    usable = [d for d in where if d == "s" and form[0] == '"' or d in [f[2:] if f.startswith("-I") and len(f) > 2 else f for f in fl] or (d == "." and "-I." in fl)]
                    order = search(fl, form, where)
                    if not order:
                        continue      # not found: a separate case below
                    for d in where:
                        # the last one found must not ask for a next one
                        more = nxt % name if nxt and next_of(fl, form, where, d) else ""
                        files[f"{d}/{name}" if d != "." else name] = f"at_{d if d != '.' else 'dot'}_{cfg}\n{more}end_{cfg}\n"
                    body.append(f"c{cfg}\n#include {form % name}\n")
                if body:
                    files["s/p.c"] = "".join(body)
                    yield Tree(f"exist/{fi}/{form[0]}/{nxt[:14].strip()}{nxt[14:15]}", files, flags=fl, steps=len(body))


def path_of(fl):
    i, ps, after = 0, [], []
    while i < len(fl):
        if fl[i] == "-I":
            ps.append(fl[i + 1]); i += 2
        elif fl[i] == "-idirafter":
            after.append(fl[i + 1]); i += 2
        else:
            ps.append(fl[i][2:]); i += 1
    return ps + after


def search(fl, form, where):
    ps = path_of(fl)
    if form[0] == '"' and "s" in where:
        return ["s"] + [p for p in ps if p in where]
    return [p for p in ps if p in where]


def next_of(fl, form, where, d):
    """is there a file for #include_next in the copy in d?  (a copy found next to the includer restarts the search)"""
    ps = path_of(fl)
    if form[0] == '"' and d == "s" and "s" in where:
        # found beside p.c: the search starts at the first -I directory, which may find this copy again
        r = [p for p in ps if p in where]
        return bool(r) and r[0] != "s"
    if d not in ps:
        return False
    return any(p in where for p in ps[ps.index(d) + 1:])


def missing():
    for fi, fl in enumerate(FLAGS[:4]):
        for k, t in enumerate(['#include "vno.h"', "#include <vno.h>", '#include_next "vno.h"', "#include", "#include vno", "#include 3", "#include <i1>", "#include <vx.h", '#include "vx.h', "#define M\n#include M", "#define M 1\n#include M", '#include ""', "#include <>"]):
            yield Tree(f"missing/{fi}/{k}", {"s/p.c": f"a\n{t}\nb\n", "i1/i1/x.h": "x\n", "i1/vx.h": "x\n"}, flags=fl)
        # a directory of that name does not count
        yield Tree(f"dir/{fi}", {"s/p.c": '#include "vd.h"\n#include <vd.h>\n', "i1/vd.h": None, "i2/vd.h": "from i2\n"}, flags=fl)
        yield Tree(f"dir2/{fi}", {"s/p.c": '#include "vd.h"\n', "s/vd.h": None, "i1/vd.h": "from i1\n"}, flags=fl)


def relative():
    """quoted includes are relative to the including file"""
    for sub in itertools.product([0, 1], repeat=5):
        names = ["s/k.h", "i1/k.h", "i1/sub/k.h", "i2/k.h", "i2/sub/k.h"]
        ex = [n for n, b in zip(names, sub) if b]
        for k, inc in enumerate(['"k.h"', "<k.h>", '"../k.h"', '"sub/k.h"', "<sub/k.h>", '"./k.h"', '"sub/../k.h"']):
            for via in ("g.h", "sub/g.h"):
                files = {n: f"at {n.replace('/', ' ').replace('.', ' ')}\n" for n in ex}
                files["i1/" + via] = f"g\n#include {inc}\ng\n"
                files["i1/sub/x"] = files["i2/sub/x"] = ""
                files["s/p.c"] = f"#include <{via}>\nback\n#include \"{'k.h' if 's/k.h' in ex else via}\"\n"
                yield Tree(f"rel/{''.join(map(str, sub))}/{k}/{via}", files, flags=["-Ii1", "-Ii2"], steps=2)


def nexts():
    """#include_next after other files have been found in other directories"""
    opts = ["", "#include <b.h>\n", '#include "b.h"\n', "#include <c.h>\n"]
    for o1, o2 in itertools.product(opts, repeat=2):
        for bw in itertools.product([0, 1], repeat=3):
            if not any(bw):
                continue
            for aw in ((1, 1, 0), (1, 0, 1), (1, 1, 1)):
                files = {"s/p.c": "#include <a.h>\nmid\n#include <b.h>\n#include <a.h>\n", "i3/c.h": "c3\n", "i2/c.h": "c2\n#include_next <c.h>\n"}
                last = max(i for i in range(3) if aw[i])
                for i in range(3):
                    if aw[i]:
                        files[f"i{i + 1}/a.h"] = f"a{i + 1}\n{o1}{'#include_next <a.h>' if i != last else ''}\n{o2}enda{i + 1}\n"
                    if bw[i]:
                        files[f"i{i + 1}/b.h"] = f"b{i + 1}\n"
                yield Tree(f"next/{opts.index(o1)}{opts.index(o2)}/{''.join(map(str, bw))}/{''.join(map(str, aw))}", files, flags=["-Ii1", "-Ii2", "-Ii3"], steps=3)


def chains(full=False):
    """where #include_next continues in a file that was found beside its includer, or by the search, from a file found either way"""
    sub = lambda ds: [x for k in range(1, len(ds) + 1) for x in itertools.combinations(ds, k)]
    for xd, xf, yd, yf, zd, zf in itertools.product(["s", "i2"] + ["i1"] * full, ('"%s"', "<%s>"), sub(["s", "i1", "i2"] + ["i3"] * full), ('"%s"', "<%s>"), sub(["i1", "i2", "i3"]), ("<%s>", '"%s"')):
        files = {"s/p.c": f"#include {xf % 'vx.h'}\nmid\n#include {yf % 'vy.h'}\n", f"{xd}/vx.h": f"x\n#include {yf % 'vy.h'}\nendx\n"}
        for d in yd:
            files[f"{d}/vy.h"] = f"y {d}\n#include_next {zf % 'vz.h'}\nendy\n"
        for d in zd:
            files[f"{d}/vz.h"] = f"z {d}\n" + (f"#include_next {zf % 'vz.h'}\n" if d != zd[-1] else "")
        yield Tree(f"chain/{xd}{xf[0]}/{'+'.join(yd)}{yf[0]}/{'+'.join(zd)}{zf[0]}", files, flags=["-Ii1", "-Ii2", "-Ii3"], steps=4)


def forced():
    """-include: every placement of the file and of one it includes, under every order of the directories"""
    W = ["", "s/", "i1/", "i2/"]
    for a in itertools.product([0, 1], repeat=4):
        for b in itertools.product([0, 1], repeat=4):
            if b[0] and not all(b): continue       # toycc also looks in the working directory, last: see DESIGN.md
            files = {"s/p.c": "main\n#include \"vw.h\"\n" if b[1] or b[2] or b[3] else "main\n", "i1/k": "", "i2/k": ""}
            for w, x, y in zip(W, a, b):
                if x: files[w + "vv.h"] = f"v {w.strip('/')}\n#include \"vw.h\"\n"
                if y: files[w + "vw.h"] = f"w {w.strip('/')}\n"
            for k, fl in enumerate((["-Ii1", "-Ii2", "-include", "vv.h"], ["-include", "vv.h", "-Ii2", "-Ii1"], ["-include", "vv.h"], ["-Ii1", "-include", "vw.h", "-include", "vv.h"], ["-Is", "-include", "./vv.h"], ["-Ii2", "-idirafter", "s", "-include", "vv.h"])):
                yield Tree(f"forced/{''.join(map(str, a))}/{''.join(map(str, b))}/{k}", files, flags=fl, steps=2)


GUARDS = {
    "plain": "#ifndef G\n#define G\nbody\n#endif\n", "none": "body\n", "once": "#pragma once\nbody\n", "else": "#ifndef G\n#define G\nbody\n#else\nagain\n#endif\n",
    "elif": "#ifndef G\n#define G\nbody\n#elif 1\nagain\n#endif\n", "tail": "#ifndef G\n#define G\nbody\n#endif\ntail\n", "two": "#ifndef G\n#define G\nbody\n#endif\n#if 1\nmore\n#endif\n",
    "two0": "#ifndef G\n#define G\nbody\n#endif\nx\n#if 0\n#endif\n", "nested": "#ifndef G\n#define G\n#if 1\nbody\n#endif\n#endif\n", "nestelse": "#ifndef G\n#define G\n#if 0\nq\n#else\nbody\n#endif\n#endif\n",
    "head": "head\n#ifndef G\n#define G\nbody\n#endif\n", "other": "#ifndef G\n#define G2\nbody\n#endif\n", "undef": "#ifndef G\n#define G\nbody\n#undef G\n#endif\n", "ifdef": "#ifdef G\nbody\n#else\nfirst\n#define G\n#endif\n",
    "ifnot": "#if !defined G\n#define G\nbody\n#endif\n", "oncetail": "body\n#pragma once\n", "onceskip": "#if 0\n#pragma once\n#endif\nbody\n", "guardonce": "#ifndef G\n#define G\n#pragma once\nbody\n#endif\n", "guardnl": "\n\n/* c */ # ifndef G /* c */\n#define G\nbody\n#endif /* G */ // x",
    "value": "#ifndef G\n#define G 7\nbody G\n#endif\n", "empty": "", "cmt": "/* only a comment */", "ifonly": "#ifndef G\n#endif\n", "nested3": "#ifndef G\n#define G\n#ifndef H\n#define H\nbody\n#endif\nrest\n#endif\n", "iffollow": "#ifndef G\n#define G\n#ifdef Q\n#endif\n#endif\n#ifdef Q\n#else\nagain\n#endif\n", "func": "#ifndef G\n#define G(x) x\nG(body)\n#endif\n",
    "count": "#ifndef G\n#define G\n#define CNT 1\nbody\n#else\n#undef CNT\n#define CNT 2\n#endif\nCNT\n",
}


def guards(full=False):
    incs = ['#include "h.h"', '#include "./h.h"', '#include "../s/h.h"', "#undef G", "#define G", "#include <h.h>", "#undef H"]
    for g, text in GUARDS.items():
        for n in (1, 2, 3):
            for h in itertools.product(range(len(incs)), repeat=n):
                if not any(i in (0, 1, 2, 5) for i in h):
                    continue
                body = "".join(f"m{k}\n{incs[i]}\n" for k, i in enumerate(h)) + "#ifdef G\nG\n#endif\n"
                if n == 3 and not full and (1 in h or 6 in h and "H" not in text or 5 in h):
                    continue
                if any(a == 4 and b == 4 for a, b in zip(h, h[1:])):
                    continue
                yield Tree(f"guard/{g}/{''.join(map(str, h))}", {"s/p.c": body, "s/h.h": text}, flags=["-Is"], steps=n)
        yield Tree(f"guardlink/{g}", {"s/p.c": '#include "h.h"\n#include "l.h"\n#include "h.h"\n', "s/h.h": text}, links={"s/l.h": "h.h"})
        yield Tree(f"guardinc/{g}", {"s/p.c": '#include "h.h"\nm\n', "s/h.h": text}, flags=["-include", "s/h.h"])
        yield Tree(f"guardnest/{g}", {"s/p.c": '#include "a.h"\n#include "h.h"\n#include "a.h"\n', "s/a.h": 'a\n#include "h.h"\n', "s/h.h": text})


def forms():
    heads = {"nonl": "x y", "bs": "x \\\n", "dir": "#define Q 1", "dir2": "#if 1\nq\n#endif", "cmt": "x // c", "lp": "f(", "str": '"s"', "mac": "F", "crlf": "a\r\nb\r\n#define Q 2\r\n", "cr": "a\rb\r", "bom": "\ufeffx\n", "args": "F(\n"}
    for k, h in heads.items():
        for j, m in enumerate(['a\n#include "h.h"\nb Q\n', 'a\n#include "h.h"', '#define F(x) <x>\na F (\n1)\n#include "h.h"\n(2) Q\n', '#if 1\n#include "h.h"\n#endif\nQ\n', '#if 0\n#include "h.h"\n#else\nz\n#endif\nQ\n', '#define N "h.h"\n#include N\nQ\n', "#define N <h.h>\n#include N\nQ\n", "#define L <\n#define R >\n#include L h.h R\n" if 0 else "#define N h.h\n#define L <N>\n#include L\nQ\n", "#define S(x) #x\n#define X(x) S(x)\n#include X(h.h)\nQ\n", '# /* c */ include /* c */ "h.h" // c\nQ\n', '  #  include <h.h> /* c\n */\nQ\n', '#include "h.h"\n#include "h.h"\n', '\\\n#include \\\n"h.h"\nQ\n', 'x /*\n*/ #include "h.h"\nQ\n', '#include "h.h" /* a */ /* b */\nQ']):
            if k in ("lp", "args") and j == 2:
                continue
            if k in ("args", "mac") and j == 2:
                continue
            yield Tree(f"form/{k}/{j}", {"s/p.c": m, "s/h.h": h}, flags=["-Is"])
    for k, n in enumerate(["a b.h", "a-b.h", "a.b.c", "h", "ü.h", "a+b.h", "a'b.h", "a//b.h", "1.h", "a\\b.h", "%s.h"]):
        yield Tree(f"name/{k}/q", {"s/p.c": f'#include "{n}"\ny\n', "s/" + n.replace("//", "/"): "x\n"})
        if "'" not in n and "\\" not in n and "//" not in n:
            yield Tree(f"name/{k}/a", {"s/p.c": f'#include <{n}>\ny\n', "i1/" + n: "x\n"}, flags=["-Ii1"])
    # conditionals have to be closed in the file that opened them
    opens = ["#if 1\n", "#if 0\n", "#ifdef X\n", "#else\n", "#endif\n", "#elif 1\n", "#if 1\n#endif\n", "#if 0\n#else\n"]
    for a, b in itertools.product(range(len(opens)), repeat=2):
        yield Tree(f"cond/{a}/{b}", {"s/p.c": f'a\n#include "h.h"\nb\n{opens[b]}c\n', "s/h.h": f"h\n{opens[a]}g\n"})
        yield Tree(f"cond2/{a}/{b}", {"s/p.c": f'a\n#if 1\n#include "h.h"\nb\n{opens[b]}c\n#endif\n', "s/h.h": f"h\n{opens[a]}g\n"})
    # recursion
    yield Tree("self/endless", {"s/p.c": '#include "p.c"\n'})
    yield Tree("self/pair", {"s/p.c": '#include "h.h"\n', "s/h.h": 'h\n#include "g.h"\n', "s/g.h": 'g\n#include "h.h"\n'})
    yield Tree("self/counted", {"s/p.c": '#include "h.h"\n', "s/h.h": "#ifndef A\n#define A\n1\n#include \"h.h\"\n#elif !defined B\n#define B\n2\n#include \"h.h\"\n#else\n3\n#endif\nx\n"})
    for n in (2, 10, 50, 100, 150):
        f = {f"s/d{i}.h": f'b{i}\n#include "d{i + 1}.h"\ne{i}\n' for i in range(n)}
        f[f"s/d{n}.h"] = "leaf\n"
        f["s/p.c"] = '#include "d0.h"\n'
        yield Tree(f"deep/{n}", f, steps=n)
    for k, fl in enumerate([["-include", "s/a.h"], ["-include", "s/a.h", "-include", "s/b.h"], ["-include", "b.h", "-Is"], ["-include", "a.h", "-Ii1"], ["-DX=3", "-include", "s/a.h", "-UX"], ["-include", "s/b.h", "-DX=4"], ["-include", "none.h"], ["-include", "s/e.h"], ["-include", "s/e.h", "-include", "s/a.h", "-include", "s/e.h"]]):
        yield Tree(f"include/{k}", {"s/p.c": "X Y\n__FILE__\n" if 0 else "X Y\n", "s/a.h": "a X\n#define Y y\n", "s/b.h": "b X\n", "i1/a.h": "i1a\n", "s/e.h": ""}, flags=fl)


def check(c):
    r = Runner(c)
    for f in (existence, missing, relative, nexts, chains, forced, guards, forms):
        ts = list(f(c.thorough) if f in (guards, chains) else f())
        r.run(ts)
        c.extra[f.__name__] = len(ts)
    c.assumptions += ["gcc -E with the same directory tree and options is right", "the standard directories hold no file of the names used"]


main("C20", check)
