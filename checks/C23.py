"""C23: the layout of the source text does not change its meaning: splices, comments, white space, line ends, encoding."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
from pp import lex, PPDiff, PPCase


class Bad(Exception):
    pass


def model(t):
    """translation phases 2 and 3: the preprocessing tokens of a text, or Bad"""
    t = t.replace("\\\n", "")
    out, i = [], 0
    while i < len(t):
        ch = t[i]
        if t.startswith("//", i):
            while i < len(t) and t[i] != "\n":
                i += 1
        elif t.startswith("/*", i):
            j = t.find("*/", i + 2)
            if j < 0:
                raise Bad
            i = j + 2
        elif ch in " \n\t":
            i += 1
        elif ch in "\"'":
            j = i + 1
            while True:
                if j >= len(t) or t[j] == "\n":
                    raise Bad
                if t[j] == "\\":
                    j += 1
                    if j >= len(t) or t[j] == "\n":
                        raise Bad
                elif t[j] == ch:
                    break
                j += 1
            if ch == "'" and j == i + 1:
                raise Bad
            out.append(t[i:j + 1])
            i = j + 1
        elif ch.isalnum():
            j = i
            while j < len(t) and t[j].isalnum():
                j += 1
            out.append(t[i:j])
            i = j
        else:
            out.append(ch)
            i += 1
    return out


class Texts:
    """all texts over an alphabet, as whole files and in batches"""

    def __init__(self, c):
        self.c, self.toycc = c, c.build()
        self.wd = os.path.join(c.scratch, "t")
        os.makedirs(self.wd)
        self.seq = itertools.count()

    def pre(self, txt):
        i = next(self.seq)
        p = os.path.join(self.wd, f"f{i}.c")
        open(p, "w", newline="", encoding="utf-8").write(txt)
        try:
            rc, o, e = sh([self.toycc, "-E", "-o", p + ".i", p], cwd=self.wd, timeout=60)
            out = open(p + ".i", encoding="utf-8", errors="replace").read() if rc == 0 else None
            return rc, out, e
        finally:
            for x in (p, p + ".i"):
                if os.path.exists(x):
                    os.unlink(x)

    def want(self, t):
        try:
            return model(t)
        except Bad:
            return None

    def single(self, ts):
        for t in ts:
            if time.time() > self.c.deadline:
                self.c.extra["capped"] = True
                return
            self.check1(t)
        self.c.count(len(ts), len(ts), len(ts))

    def check1(self, t, note=""):
        w = self.want(t)
        rc, o, e = self.pre(t)
        g = [x for x, _ in lex(o)] if rc == 0 else None
        if w is None:
            if rc != 1 or not e:
                self.c.violation(f"text/{t!r}", f"an unclosed literal or comment is not diagnosed (rc={rc})", t)
        elif rc != 0:
            self.c.violation(f"text/{t!r}", f"rejected (rc={rc}): {e.decode(errors='replace')[-200:]}", t)
        elif g != w:
            self.c.violation(f"text/{t!r}{note}", f"read as {g}, expected {w}", t)

    def batch(self, ts):
        if time.time() > self.c.deadline:
            self.c.extra["capped"] = True
            return
        # the texts are followed by a line of their own, which must survive
        for crlf in (False, True):
            txt = "".join(f"{t}\nvfm {i} ;\n" for i, t in enumerate(ts))
            rc, o, e = self.pre(txt.replace("\n", "\r\n") if crlf else txt)
            toks = [x for x, _ in lex(o)] if rc == 0 else []
            res, cur, k = {}, [], 0
            while k < len(toks):
                if toks[k] == "vfm" and k + 2 < len(toks) and toks[k + 2] == ";":
                    res[int(toks[k + 1])] = cur
                    cur = []
                    k += 3
                else:
                    cur.append(toks[k])
                    k += 1
            for i, t in enumerate(ts):
                if res.get(i) != self.want(t):
                    self.check1(t.replace("\n", "\r\n") if crlf else t)
                    if rc == 0:
                        self.c.violation(f"text/{t!r}/batch", f"read as {res.get(i)}, expected {self.want(t)} (crlf={crlf})", txt)
                    elif self.c.nviol == 0 and i == len(ts) - 1:
                        self.c.violation("text/batch", f"rejected as a whole: {e.decode(errors='replace')[-300:]}", txt)
        self.c.count(2 * len(ts), 2 * len(ts), 2 * len(ts))


# "\u00b7" marks a place where white space is optional, a space one where it is needed
PROGS = {
"ops": "int·printf·(·)·;·long f·(·long a·,·long b·)·{·a·+=·b·++·;·a·<<=·2·;·b·>>=·1·;·if·(·a·!=·b·&&·a·<=·b·||·!·a·)·a·-=·--·b·;·return a·?·b·->*0·:·a·[·&·b·]·;·}\n".replace("b·->*0", "b").replace("a·[·&·b·]", "a·%·7"),
"lits": "char·*·s·=·\"ab/*c*/\"·\"d//e\\n\\\"\"·;·double d·=·1.5e+3·;·unsigned long u·=·0x1fUL·;·int c·=·'\\''·+·L'x'·+·'\"'·;·char·*·t·=·u8\"\\x41\"·;·float f·=·.5f·;\n",
"dirs": "#·define ADD·(·x·,·y·)·(·(·x·)·+·(·y·)·)\n#·define N 4\n#·if N·>·3·&&·defined ADD\nint v·[·N·]·=·{·ADD·(·1·,·N·)·,·[·2·]·=·ADD·(·N·,·ADD·(·2·,·3·)·)·}·;\n#·else\nint w·;\n#·endif\n".replace("ADD·(·x", "ADD(·x"),
"struct": "typedef struct S·{·int a·:·3·;·char b·[·4·]·;·struct S·*·n·;·}·S·;·int f·(·S·*·p·,·...·)·{·for·(·;·p·->·n·;·p·=·p·->·n·)·{·L1·:·p·->·a·|=·1·;·}·switch·(·p·->·a·)·{·case 1 ... 2·:·goto L1·;·default·:·return sizeof·(·S·)·;·}·return 0·;·}\n",
}
GAPS = ["/**/", "/* c */", "/*\n*/", "/*\"*/", "/*'*/", "/*//*/", "/***/", "/*/ */", "/* \\*/", " ", "\t", "  ", "\f", "\v", " \t /**/ /**/"]
NLS = ["\n", "\n\n", "//\n", "// c \" ' /*\n", "//\\\n continued\n", "\r\n", "\n/**/\n", "\\\n\n"]


class Layout:
    def __init__(self, c):
        self.c, self.toycc = c, c.build()
        self.wd = os.path.join(c.scratch, "l")
        os.makedirs(self.wd)
        self.seq = itertools.count()

    def asm(self, txt, name="f.c", raw=None):
        i = next(self.seq)
        d = os.path.join(self.wd, f"d{i}")
        os.makedirs(d)
        try:
            open(os.path.join(d, name), "wb").write(raw if raw is not None else txt.encode("utf-8"))
            rc, o, e = sh([self.toycc, "-S", "-o", "o.s", name], cwd=d)
            if rc != 0:
                return None, e.decode(errors="replace")
            a = open(os.path.join(d, "o.s"), errors="replace").read()
            return [l for l in a.split("\n") if not re.match(r"\s*\.(loc|file)\b", l)], ""
        finally:
            shutil.rmtree(d, True)

    def same(self, items):
        for key, base, txt in items:
            if time.time() > self.c.deadline:
                self.c.extra["capped"] = True
                return
            a, e = self.asm(txt) if isinstance(txt, str) else self.asm(None, raw=txt)
            if a is None:
                self.c.violation(key, f"rejected: {' '.join(e.split())[-250:]}", txt if isinstance(txt, str) else repr(txt))
            elif a != base:
                i = next((i for i, (x, y) in enumerate(itertools.zip_longest(a, base)) if x != y), 0)
                self.c.violation(key, f"compiled differently: line {i} '{(a + [''] * 9)[i] if i < len(a) else None}' instead of '{base[i] if i < len(base) else None}'", txt if isinstance(txt, str) else repr(txt))
        self.c.count(len(items), len(items), len(items))


def check(c):
    T = Texts(c)
    al = ["/", "*", "\n", '"', "'", "\\", "a", " "]
    n = 6 if not c.thorough else 7
    good, alone = [], []
    for k in range(0, n + 1):
        syms = al if k <= (5 if not c.thorough else 6) else ["/", "*", "\n", '"', "\\", "a"]
        for x in itertools.product(syms, repeat=k):
            t = "".join(x)
            if "\\ \n" in t or t.endswith("\\ "):
                continue                   # gcc and others splice here, too; C leaves white space at a line's end to the implementation
            w = T.want(t + "\n")
            try:
                open_end = t.endswith("\\")
            except IndexError:
                open_end = False
            if w is None or open_end:
                if k <= (4 if not c.thorough else 5):
                    alone.append(t + "\n")
            else:
                good.append(t)
    # whole files without a final newline
    eof = ["".join(x) for k in range(0, 5 if not c.thorough else 6) for x in itertools.product(al, repeat=k)]
    eof = [t for t in eof if "\\ \n" not in t and not t.endswith("\\ ") and not t.endswith("\\")]
    c.extra["texts"] = {"closed": len(good), "unclosed": len(alone), "files without a final newline": len(eof)}
    pmap(T.batch, [good[i:i + 800] for i in range(0, len(good), 800)])
    pmap(T.single, [alone[i::64] for i in range(64)])
    pmap(T.single, [eof[i::64] for i in range(64)])

    L = Layout(c)
    items = []
    for pn, p in PROGS.items():
        plain = p.replace("·", "")
        base, e = L.asm(plain)
        if base is None:
            c.violation(f"layout/{pn}", "rejected: " + e, plain)
            continue
        wide, _ = L.asm(p.replace("·", " "))
        if wide != base:
            c.violation(f"layout/{pn}/wide", "compiled differently with spaces between all tokens", p.replace("·", " "))
        # a splice at every position, one and two in a row, with both line ends, and at every pair of positions
        for i in range(len(plain)):
            for nm, s in (("", "\\\n"), ("2", "\\\n\\\n"), ("crlf", "\\\r\n")):
                items.append((f"splice{nm}/{pn}/{i}", base, plain[:i] + s + plain[i:]))
        for i in range(0, len(plain), 1 if c.thorough else 5):
            for j in range(i + 1, len(plain), 1 if c.thorough else 7):
                items.append((f"splice/{pn}/{i},{j}", base, plain[:i] + "\\\n" + plain[i:j] + "\\\n" + plain[j:]))
        items.append((f"splice/{pn}/all", base, "\\\n".join(plain)))
        # white space and comments at every place where there may be some
        depth = 0
        for i, ch in enumerate(p):
            line = p[p.rfind("\n", 0, i) + 1:i].replace("·", "")
            indir = line.startswith("#")
            instr = (line.replace('\\"', "").replace("'\"'", "").count('"') % 2) == 1
            if ch == "·" or (ch == " " and not instr):
                pre, post = p[:i].replace("·", ""), p[i + 1:].replace("·", "")
                for g in GAPS:
                    if indir and g in ("\f", "\v"):
                        continue           # only spaces and tabs may stand in a directive
                    items.append((f"gap/{pn}/{i}/{g!r}", base, pre + g + post))
                if not indir:
                    for g in NLS:
                        items.append((f"nl/{pn}/{i}/{g!r}", base, pre + g + post))
        # the whole text
        for nm, f in (("crlf", lambda s: s.replace("\n", "\r\n")), ("nofinal", lambda s: s.rstrip("\n")), ("bom", lambda s: "\ufeff" + s), ("bomcrlf", lambda s: "\ufeff" + s.replace("\n", "\r\n")),
                      ("lead", lambda s: "\n\n  \t/* x\n\n*/\n" + s), ("trail", lambda s: s + "//x"), ("trail2", lambda s: s + "/* x */"), ("trail3", lambda s: s + "\n\n\n \t"), ("trail4", lambda s: s + "//x\\\n"), ("cr", lambda s: s.replace("\n", "\r"))):
            items.append((f"whole/{pn}/{nm}", base, f(plain)))
    # characters outside ASCII may be spelled as universal character names
    for i, (a, b) in enumerate([("int é = 1; int *p = &é;\n", "int \\u00e9 = 1; int *p = &\\U000000e9;\n"), ("int xあ9 = 1;\n", "int x\\u30429 = 1;\n"), ('char *s = "あ\U0001f363";\n', 'char *s = "\\u3042\\U0001f363";\n'),
                                ('int a[] = L"é";\n', 'int a[] = L"\\u00e9";\n'), ("int c = L'あ';\n", "int c = L'\\u3042';\n"), ('char *s = "\\\\u3042";\n', 'char *s = "\\\\" "u3042";\n')]):
        base, e = L.asm(a)
        if base is None:
            c.violation(f"ucn/{i}", "rejected: " + e, a)
            continue
        items.append((f"ucn/{i}", base, b))
        for k in range(len(b)):
            items.append((f"ucn/{i}/splice/{k}", base, b[:k] + "\\\n" + b[k:]))
    pmap(L.same, [items[i::64] for i in range(64)])
    # what separates two tokens is one space when they are stringized, whatever it was; nothing is nothing
    seps = ["/**/", " ", "\\\n", "\n", "/* x */", "\t", "//\n", "/*\n*/", "\f", "\v", "\r\n"]
    atoms = ["a", "+", "1", '"s"', "-", "(b)", ",c"]
    ks = []
    for x, y in itertools.product(atoms, repeat=2):
        for k in range(0, 4 if c.thorough else 3):
            for ss in itertools.product(seps, repeat=k):
                if (x, y) in (("+", "+"), ("-", "-"), ("a", "a"), ("a", "1"), ("1", "1"), ("1", "a"), ("1", "+"), ("-", "1") , ("a", '"s"'), ("1", '"s"')) and not k:
                    continue
                s = "".join(ss)
                body = "".join(q for q in ss if q not in ("\n", "//\n", "\r\n", "\f", "\v"))
                ks.append(PPCase(f"gap string/{x}{y}/{'|'.join(repr(q)[1:-1] for q in ss)}", "", f"S({x}{s}{y}) S({s}{x}) S({x}{s}) X({x}{s}{y}) D({x}{s}{y}) V({s}{x}{s},{s}{y}{s})"))
                if "//" not in s:
                    ks.append(PPCase(f"gap body/{x}{y}/{'|'.join(repr(q)[1:-1] for q in ss)}", f"#define O {x}{body}{y}\n#define P{body} {x}\n#define Q(z) {x}{body}z{body}{y}", f"X(O) X(O{s}O) X(Q(1)) X(Q({s}2{s}))", "#undef O\n#undef P\n#undef Q"))
    pd = PPDiff(c)
    dd = "#undef S\n#undef X\n#undef D\n#undef V\n#define S(...) #__VA_ARGS__\n#define X(...) S(__VA_ARGS__)\n#define D(x, ...) S([x]) X({x})\n#define V(x, ...) #x #__VA_ARGS__"
    for k in ks:
        k.pre = dd + ("\n" + k.pre if k.pre else "")
    pd.run(list({k.key: k for k in ks}.values()))
    c.extra["separators between stringized tokens"] = len(ks)
    # a null character must not hide what follows it
    for i, (a, b) in enumerate([(b"int x;", b"int y@;\n"), (b"int x; // c", b"\nint y@;\n"), (b"", b"int y@;\n"), (b'char *s = "a', b'"; int y@;\n')]):
        t = a + b"\0" + b
        r, e = L.asm(None, raw=t)
        if r is not None:
            c.violation(f"nul/{i}", "the text after a null character is ignored", repr(t))
        c.count(1, 1, 1)
    # long lines, names, literals, and deep comments
    for nm, t in (("line", "int a = 0" + " + 1" * 20000 + ";\n"), ("name", "int " + "x" * 50000 + " = 5; int *p = &" + "x" * 50000 + ";\n"), ("str", 'char s[] = "' + "ab" * 50000 + '";\n'), ("comment", "/*" + "*" * 100000 + "/ int a;\n"), ("lines", "\n" * 100000 + "int a;\n"), ("splices", "int a" + "\\\n" * 20000 + "bc = 1;\n")):
        a, e = L.asm(t)
        if a is None:
            c.violation("long/" + nm, "rejected: " + e[-200:], t[:200])
        elif nm == "splices" and "abc:" not in "\n".join(a):
            c.violation("long/" + nm, "a name spliced 20000 times is not put together", t[:200])
        elif nm == "str" and "\n".join(a).count(".byte") < 100000 and "\n".join(a).count(".string") + "\n".join(a).count(".ascii") == 0:
            c.violation("long/" + nm, "a long string is shortened", t[:200])
        c.count(1, 1, 1)
    c.assumptions += ["the phase 2/3 model in checks/C23.py (splices, comments, literals) is right", "two assembly texts that differ only in .loc and .file lines are the same program"]


main("C23", check)
