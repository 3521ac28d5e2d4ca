"""C22: line numbers and file names are right: __LINE__, __FILE__, diagnostics and debug locations."""
import itertools, os, sys, unicodedata
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
from pp import *

# every item is a number of whole lines; PP items may show their own lines
ITEMS = {
 "blank": "\n", "blank3": "\n\n\n", "code": "int v@;\n", "c1": "/* one */\n", "c2": "/* two\n lines */\n", "c3": "/*\n\n\n*/ int v@;\n", "lc": "// line \" '\n", "lcs": "// spliced \\\n comment\n",
 "spl": "int \\\nv@;\n", "spl2": "int v\\\n@\\\n;\n", "splend": "int v@; \\\n\n", "def": "#define M@ 1\n", "defs": "#define M@ 1 \\\n + 2 \\\n + 3\n", "deff": "#define F@(a, b) a \\\n b\nint v@;\n",
 "call": "#define F@(a, b) a b\nF@(int,\n v@)\n;\n", "call2": "#define F@(a) a\nF@\n(\nint v@;\n)\n", "empty": "#define E@\nE@ E@\nint v@;\n", "emptyf": "#define E@(x)\nE@(\n1\n)\nint v@;\n",
 "if0": "#if 0\n junk\n\n#endif\n", "if1": "#if 1\nint v@;\n#else\n junk\n#endif\n", "ifs": "#if 0 \\\n + 1\nint v@;\n#elif 1\n/*\n*/\n#endif\n", "inc": "#include \"h.h\"\n", "inc2": "#include \"h2.h\"\nint v@;\n",
 "str": "char *v@ = \"a\\\nb\";\n", "str2": "char *v@ = \"a\"\n\"b\"\n;\n", "crlf": "int v@;\r\n/* x\r\n */\r\n", "undef": "#undef QQ\n", "pragma": "#pragma foo\n", "tab": "\tint v@;\f\n", "null": "#\n", "ff": "\fint v@;\n", "vt": "\vint v@;\v\n", "ffl": "\f\n", "ws": " \t \n", "crlf2": "\r\n\r\n", "cont": "\\\n\\\n\n", "long": "int v@ = 0" + " + 1" * 600 + ";\n",
}
HDR = {"h.h": "extern int hx;\n\n/* c\n */\nextern int hy;\n", "h2.h": "#include \"h.h\"\n#define HH 1\n\nextern int hz;", "e.h": "int ok;\n\nint bad = undecl_h;\n", "f.h": "static int inh(void)\n{\n\n  hcall();\n  return 1;\n}\n"}


def build(names, esc=True):
    return "".join(ITEMS[n].replace("@", str(i)) for i, n in enumerate(names))


# (key, text, offset of the reported line within it, the text the caret points at)
ERRS = [
 ("undecl", "int f(void) { return undecl; }\n", 0, "undecl"), ("undecl2", "int f(void)\n{\n  return 1 +\n    undecl;\n}\n", 3, "undecl"), ("syntax", "int a b;\n", 0, "b"), ("syntax2", "int f(void) {\n  return 1\n}\n", 2, "}"),
 ("error", "#error stop\n", 0, None), ("error2", "int x;\n# error stop\n", 1, None), ("dir", "#frobnicate\n", 0, None), ("str", "char *s = \"abc;\n", 0, None), ("chr", "int c = 'abc;\n", 0, None), ("cmt", "int x; /* open\n\n", 0, "/* open"),
 ("num", "int x = 08;\n", 0, "08"), ("num2", "int x =\n  1.2.3;\n", 1, "1.2.3"), ("member", "struct S { int a; } s;\nint f(void) {\n  return s.zz;\n}\n", 2, None), ("arg", "#define ID(x) x\nint f(void) { return ID(\n  undecl); }\n", 2, "undecl"),
 ("arg2", "#define ID(x) (1 + x)\nint f(void) {\n return ID(1) + ID(undecl) ; }\n", 2, "undecl"), ("aftermac", "#define E\n#define N 5 \\\n +6\nint f(void) { return N E + undecl; }\n", 3, "undecl"), ("inc", "#include \"nosuch.h\"\n", 0, None),
 ("wide", "int é = 1; /* あい */ int z = undecl;\n", 0, "undecl"), ("goto", "int f(void) {\n\n goto nolabel;\n}\n", 2, None), ("redecl", "int f(void) { break; }\n", 0, None), ("case", "int f(void) {\n case 1: ;\n}\n", 1, None),
 ("hdr", "#include \"e.h\"\n", ("e.h", 3), "undecl_h"), ("lit", "int f(void) { 3\n = 4; }\n", None, None), ("elif", "#elif 1\n", 0, None), ("endif", "int x;\n\n#endif\n", 2, None), ("if", "#if 1 +\n#endif\n", None, None),
 ("ifopen", "#if 1\nint x;\n", 0, None), ("macargs", "#define F(a) a\nint x = F(1, 2);\n", 1, None), ("macopen", "#define F(a) a\nint x = F(1;\n\n", None, None), ("paste", "#define P(a,b) a##b\nint x\n = P(+, ;);\n", 2, None), ("spliced", "int f(void) { int x \\\n = 1; }\nint y = undecl;\n", 2, "undecl"),
]


def width(s):
    w = 0
    for ch in s:
        if ch == "\t":
            w += 8
        elif unicodedata.east_asian_width(ch) in "WF":
            w += 2
        elif not unicodedata.combining(ch):
            w += 1
    return w


class Runner:
    def __init__(self, c):
        self.c, self.toycc = c, c.build()
        self.seq = itertools.count()

    def run(self, txt, args):
        d = os.path.join(self.c.scratch, "d%d" % next(self.seq))
        os.makedirs(d)
        try:
            for n, t in HDR.items():
                open(os.path.join(d, n), "w").write(t)
            open(os.path.join(d, "f.c"), "w", newline="").write(txt)
            rc, o, e = sh([self.toycc] + args + ["-o", "o", "f.c"], cwd=d)
            p = os.path.join(d, "o")
            return rc, (open(p, errors="replace").read() if os.path.exists(p) else ""), e.decode(errors="replace")
        finally:
            shutil.rmtree(d, True)

    def diag(self, jobs):
        for names, (key, text, off, at) in jobs:
            if time.time() > self.c.deadline:
                self.c.extra["capped"] = True
                return
            pre = build(names)
            txt = pre + text
            k = f"diag/{'+'.join(names) or 'none'}/{key}"
            rc, o, e = self.run(txt, ["-S"])
            m = re.match(r"(.*?):(\d+):\n(.*)\n( *)\^ (.*)\n?", e)
            if rc != 1 or not m:
                self.c.violation(k, f"no located diagnostic: rc={rc} {e[-200:]!r}", txt)
                continue
            if off is None:
                lo = pre.count("\n") + 1
                ok = m[1] == "f.c" and lo <= int(m[2]) <= lo + text.count("\n")
                want = f"f.c, lines {lo}..{lo + text.count(chr(10))}"
            elif isinstance(off, tuple):
                ok, want = (os.path.normpath(m[1]), int(m[2])) == off, off
            else:
                line = pre.count("\n") + 1 + off
                ok, want = (m[1], int(m[2])) == ("f.c", line), ("f.c", line)
            if not ok:
                self.c.violation(k, f"reported at {m[1]}:{m[2]}, expected {want}: {m[5]}", txt)
                continue
            if at:
                src = text.split("\n")[off] if isinstance(off, int) else HDR[off[0]].split("\n")[off[1] - 1]
                if m[3] != src or len(m[4]) != width(src[:src.rindex(at)]):
                    self.c.violation(k, f"the caret under {m[3]!r} is in column {len(m[4])}, expected under {at!r} of {src!r}", txt + "\n" + e)
        self.c.count(len(jobs), len(jobs), len(jobs))

    def loc(self, jobs):
        """debug locations: the last .loc before each call names its line and file"""
        for names in jobs:
            if time.time() > self.c.deadline:
                self.c.extra["capped"] = True
                return
            pre = build(names)
            body = "int c1(void); int c2(void); int c3(void); int hcall(void);\n#include \"f.h\"\n#define TWO(a, b) a; b\nint main(void)\n{\n  c1();\n\n  if (inh()) /*\n*/\n    c2();\n  TWO(c3(),\n      inh());\n  return 0;\n}\n"
            txt = pre + body
            base = pre.count("\n") + 1
            rc, o, e = self.run(txt, ["-S"])
            k = f"loc/{'+'.join(names) or 'none'}"
            if rc != 0:
                self.c.violation(k, "rejected: " + e[-200:], txt)
                continue
            files, cur, seen = {}, None, {}
            for l in o.split("\n"):
                m = re.match(r'\s*\.file\s+(\d+)\s+"(.*)"', l)
                if m:
                    files[m[1]] = m[2]
                m = re.match(r"\s*\.loc\s+(\d+)\s+(\d+)", l)
                if m:
                    cur = (os.path.basename(files.get(m[1], "?")), int(m[2]))
                m = re.search(r"\b(c1|c2|c3|hcall)\b", l)
                if m and not re.match(r"\s*\.", l):
                    seen.setdefault(m[1], cur)
            want = {"c1": ("f.c", base + 5), "c2": ("f.c", base + 9), "c3": ("f.c", base + 10), "hcall": ("f.h", 4)}
            for s, w in want.items():
                if seen.get(s) != w:
                    self.c.violation(k, f"the call of {s} is located at {seen.get(s)}, expected {w}", txt)
                    break
        self.c.count(len(jobs), 4 * len(jobs), len(jobs))


def check(c):
    def setup(d):
        for n, t in HDR.items():
            open(os.path.join(d, n), "w").write(t)
        open(os.path.join(d, "l.h"), "w").write("[ __LINE__ __FILE__\n\n__LINE__ ]\n")
    names = list(ITEMS)
    # every kind of line end before every kind of line start
    toks = ["a", "1", "1.", '"s"', "'s'", "+", "++", "(", ")", "[", "]", "{", "}", ";", ",", ".", "...", "->", "<", ">>=", "~", "!", "?", ":", "=", "&", "|", "^", "%", "*", "/", "@", "`", "é", " ", "\t", "\f", "\v", "/**/", "/* */ ", "/*\n*/", "//c", "//\\\n", "\\\n", "\r", "#", "", "L", 'u8"x"', "e1+", "$", "_", "0x", "F", "E", "##"]
    rl = Runner(c)

    def ends(xs):
        for x in xs:
            txt, want, n = "#define F(a) a\n#define E\n", [], 3
            for y in toks:
                for z in ("", "\f", " ", "/**/"):
                    if "##" in (x, y) or x == "F" and y == "(":
                        continue
                    t = f"{x}\n{z}{y}\n;vfm __LINE__ vfe\n"
                    txt += t
                    n += t.count("\n")
                    want.append(n - 1)
            rc, o, e = rl.run(txt, ["-E"])
            got = [int(v) for v in re.findall(r";\s*vfm\s+(\d+)\s+vfe", o)]
            if rc != 0 or got != want:
                i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
                c.violation(f"ends/{x!r}", f"line {got[i:i+1]} instead of {want[i:i+1]}, rc={rc} {e[-200:]}", txt)
            c.count(len(want), len(want), len(want))
    pmap(ends, [[t] for t in toks])
    # every byte, and every pair of the special ones, in the name of the source and of a header
    def named(ks):
        for k in ks:
            for hdr in (0, 1):
                if hdr and any(x in k for x in b'"\n\r'):
                    continue
                d = os.path.join(c.scratch, "n%d" % next(rl.seq))
                os.makedirs(d)
                nm = b"x" + k + (b"y.h" if hdr else b"y.c")
                w = lambda n, t: open(os.path.join(d.encode(), n), "wb").write(t)
                f = b"char f[] = \"<<\" __FILE__ \">>\";\nint g(void)\n{ return undecl; }\n"
                w(nm, f.replace(b"undecl", b"1"))
                if hdr:
                    w(b"m.c", b'#include "' + nm + b'"\n')
                # the header's directory may be part of its name
                rc, o, e = sh([rl.toycc, "-c", "-o", "o.o", b"m.c" if hdr else nm], cwd=d)
                ob = open(d + "/o.o", "rb").read() if os.path.exists(d + "/o.o") else b""
                why = None
                if rc != 0: why = f"rc={rc} {e[-200:]!r}"
                elif b"<<" + nm + b">>" not in ob and b"<<./" + nm + b">>" not in ob: why = "__FILE__ does not spell it"
                elif b"\0" + nm + b"\0" not in ob: why = "the debug information does not name it"
                if not why:
                    w(nm, f)
                    rc, o, e = sh([rl.toycc, "-c", "-o", "o.o", b"m.c" if hdr else nm], cwd=d)
                    if rc != 1 or not re.match(rb"(\./)?" + re.escape(nm) + rb":3:\n", e): why = f"the diagnostic does not name it and line 3: rc={rc} {e[:200]!r}"
                if why:
                    c.violation(f"name/{'header' if hdr else 'source'} {nm!r}", why, f.decode())
                c.count(1, 3, 1)
                shutil.rmtree(d, True)
    sp = [b"\\", b'"', b"\n", b"n", b"%s", b" ", b"'", b"0", b"x41", b"#", b"\t", b"$", b"?"]
    ks = [bytes([b]) for b in range(1, 128) if b != 47] + [x.encode() for x in "éあ😀"] + [a + b for a in sp for b in sp]
    pmap(named, [ks[i::32] for i in range(32)])

    def post(toks):
        # files are named relative to the including one in two ways; unknown pragmas have no effect
        t = [x.replace('"./', '"').replace('\\"./', '\\"') for x in toks]
        r, i = [], 0
        while i < len(t):
            if t[i:i + 3] == ["#", "pragma", "foo"]:
                i += 3
            else:
                r.append(t[i])
                i += 1
        return r
    d = PPDiff(c, setup=setup, post=post)
    probes = {"line": "__LINE__ __FILE__", "inc": "#include \"l.h\"\n__LINE__ __FILE__", "mac": "#define L() __LINE__\n#define LL L()\nL() LL L (\n) __LINE__", "arg": "#define I(x) x __LINE__\nI(__LINE__) __LINE__",
              "if": "#if __LINE__ > 0\n__LINE__\n#endif", "str": "#define S(x) #x\n#define SS(x) S(x)\nSS(__LINE__) SS(__FILE__)", "cat": "#define C(a,b) a##b\n#define CC(a,b) C(a,b)\nCC(x,__LINE__)", "base": "__INCLUDE_LEVEL__ __LINE__", "file2": "#include \"h2.h\"\n__FILE__ __LINE__\n#include \"l.h\"\n__FILE__"}
    del probes["base"]
    pl = ["M", "F", "E"]
    ks = []
    n = 3 if c.thorough else 2
    for k in range(0, n + 1):
        for ns in itertools.product(names, repeat=k):
            for pn, p in probes.items():
                if k == n and pn not in ("line", "inc", "mac"):
                    continue
                t = build(ns) + p
                if "\r" in t:
                    continue
                names2 = set(re.findall(r"#define (\w+)", t))
                # items that use splices inside a line show it on the first line only in toycc: nothing in them is observed
                ks.append(PPCase(f"line/{'+'.join(ns) or 'none'}/{pn}", "", t, "\n".join("#undef " + x for x in sorted(names2)), None, k + 1))
    d.run(ks)
    # #line changes the file name and later numbers consistently (their base is fixed by the project's suite)
    r = Runner(c)
    for ns in itertools.chain([()], itertools.product(names, repeat=1)):
        t = "#line 100 \"g.c\"\n__LINE__\n" + build(ns) + "__LINE__ __FILE__\n#include \"h.h\"\n__FILE__\n"
        rc, o, e = r.run(t, ["-E"])
        toks = [x for x, _ in lex(o)]
        nums = [x for x in toks if x.isdigit()]
        fl = [x for x in toks if x == '"g.c"']
        dist = build(ns).count("\n") + 1
        if rc != 0 or len(nums) < 2 or len(fl) != 2 or int(nums[-1]) - int(next(x for x in nums if int(x) >= 100)) != dist:
            c.violation(f"hashline/{'+'.join(ns)}", f"after #line: {toks}", t)
        c.count(1, 1, 1)
    jobs = [(ns, e) for k in range(0, 2 if not c.thorough else 3) for ns in itertools.product(names, repeat=k) for e in ERRS]
    pmap(r.diag, [jobs[i::64] for i in range(64)])
    jobs = [ns for k in range(0, 3 if not c.thorough else 4) for ns in itertools.product(names, repeat=k)]
    pmap(r.loc, [jobs[i::64] for i in range(64)])
    c.assumptions += ["gcc -E numbers lines correctly", "lines of tokens that follow a splice within their own logical line are not observed (toycc counts the first physical line)", "the number #line gives the next line is fixed by the project's suite"]


main("C22", check)
