"""Preprocessor checks: a lexer, a reference macro expander (the algorithm the standard's wording is based on) and
batches that compare toycc -E with gcc -E token by token."""
import os, re, itertools, shutil, tempfile, time
import vf
from vf import sh, pmap, JOBS

PUNCT = sorted("""... <<= >>= -> ++ -- << >> <= >= == != && || *= /= %= += -= &= ^= |= ## [ ] ( ) { } . & * + - ~ ! / % < > ^ | ? : ; = , #""".split(), key=len, reverse=True)
TOK = re.compile(r"""(?:u8|u|U|L)?"(?:\\.|[^"\\\n])*"|(?:u8|u|U|L)?'(?:\\.|[^'\\\n])*'|[A-Za-z_$\x80-\U0010ffff][A-Za-z_0-9$\x80-\U0010ffff]*|\.?[0-9](?:[eEpP][+-]|[A-Za-z_0-9.])*|"""
                 + "|".join(re.escape(p) for p in PUNCT) + r"|\S", re.S)


def lex(s):
    """[(text, preceded by whitespace)]"""
    r, end = [], 0
    for m in TOK.finditer(s):
        r.append((m.group(), m.start() != end))
        end = m.end()
    return r


def is_id(t):
    return bool(re.match(r"[A-Za-z_$\x80-\U0010ffff]", t)) and not t.endswith(("'", '"'))


class PPError(Exception):
    pass


class Ref:
    """macro expansion; a token is (text, space, hideset)"""

    def __init__(self, defs, limit=3000):
        self.m, self.limit = {}, limit
        for d in defs:
            m = re.match(r"(\w+)(\(([^)]*)\))?(.*)$", d, re.S)
            name, fn, ps, body = m.group(1), m.group(2), m.group(3), m.group(4)
            b = [(t, sp, frozenset()) for t, sp in lex(body)]
            if fn is None:
                self.m[name] = (None, None, b)
            else:
                p = [x.strip() for x in ps.split(",")] if ps.strip() else []
                va = None
                if p and p[-1].endswith("..."):
                    va = p[-1][:-3].strip() or "__VA_ARGS__"
                    p = p[:-1]
                self.m[name] = (p, va, b)

    def stringize(self, toks):
        s = ""
        for i, (t, sp, _) in enumerate(toks):
            if i and sp:
                s += " "
            if t.endswith(('"', "'")) and len(t) > 1:
                t = t.replace("\\", "\\\\").replace('"', '\\"')
            s += t
        return '"' + s + '"'

    def paste(self, a, b):
        x = a[0] + b[0]
        l = lex(x)
        if len(l) != 1:
            raise PPError("paste " + x)
        return (x, a[1], a[2] & b[2])

    def subst(self, name, args, vaname, va_present):
        ps, va, body = self.m[name]
        out, i, pending = [], 0, False
        PM = ("", False, frozenset())

        def put(toks):
            nonlocal pending
            toks = toks or [PM]
            if pending:
                pending = False
                l = out.pop()
                r = toks[0]
                if l[0] == "":
                    out.append((r[0], l[1], r[2]) if r[0] else l)
                elif r[0] == "":
                    out.append(l)
                else:
                    out.append(self.paste(l, r))
                out.extend(toks[1:])
            else:
                out.extend(toks)

        def first_space(toks, sp):
            return [(toks[0][0], sp, toks[0][2])] + list(toks[1:]) if toks else [("", sp, frozenset())]

        while i < len(body):
            t, sp, hs = body[i]
            nxt = body[i + 1][0] if i + 1 < len(body) else None
            if t == "#" and args is not None:
                if nxt not in args:
                    raise PPError("# without parameter")
                put([(self.stringize(args[nxt]), sp, frozenset())])
                i += 2
                continue
            if t == "##":
                if not out or i + 1 == len(body):
                    raise PPError("## at the edge")
                if args is not None and vaname and nxt == vaname and out and i >= 1 and body[i - 1][0] == ",":
                    # GNU comma deletion
                    if not args[nxt]:
                        if va_present is None or not va_present:
                            out.pop()
                        else:
                            out.pop() if not va_present else None
                    else:
                        out.extend(self.expand(args[nxt]))
                    i += 2
                    continue
                pending = True
                i += 1
                continue
            if args is not None and t == "__VA_OPT__" and vaname and nxt == "(":
                depth, j = 0, i + 1
                while True:
                    depth += body[j][0] == "("
                    depth -= body[j][0] == ")"
                    if not depth:
                        break
                    j += 1
                raise PPError("VA_OPT not modelled")
            if args is not None and t in args:
                if pending or nxt == "##":
                    put(first_space([(a, s, h) for a, s, h in args[t]], sp))
                else:
                    put(first_space(self.expand(args[t]), sp))
            else:
                put([(t, sp, hs)])
            i += 1
        return [x for x in out if x[0] != ""]

    def expand(self, ts, top=False):
        ts = list(reversed(ts))
        out, n = [], 0
        while ts:
            n += 1
            if n > self.limit:
                raise PPError("limit")
            t = ts.pop()
            if t[0] not in self.m or t[0] in t[2]:
                out.append(t)
                continue
            ps, va, body = self.m[t[0]]
            if ps is None:
                r = [(x, s, h | t[2] | {t[0]}) for x, s, h in self.subst(t[0], None, None, None)]
                if r:
                    r[0] = (r[0][0], t[1], r[0][2])
                ts.extend(reversed(r))
                continue
            if not ts or ts[-1][0] != "(":
                out.append(t)
                continue
            ts.pop()
            args, cur, depth = [], [], 0
            while True:
                if not ts:
                    raise PPError("unterminated")
                a = ts.pop()
                if a[0] == ")" and not depth:
                    close = a
                    break
                if a[0] == "," and not depth and (va is None or len(args) < len(ps)):
                    args.append(cur)
                    cur = []
                    continue
                depth += (a[0] == "(") - (a[0] == ")")
                cur.append(a)
            args.append(cur)
            if not ps and va is None and args == [[]]:
                args = []
            present = True
            if va is not None:
                if len(args) == len(ps):
                    args.append([])
                    present = False
                if len(args) != len(ps) + 1:
                    raise PPError("argument count")
                amap = dict(zip(ps + [va], args))
            else:
                if len(args) != len(ps):
                    raise PPError("argument count")
                amap = dict(zip(ps, args))
            hs = (t[2] & close[2]) | {t[0]}
            r = [(x, s, h | hs) for x, s, h in self.subst(t[0], amap, va, present)]
            if r:
                r[0] = (r[0][0], t[1], r[0][2])
            ts.extend(reversed(r))
        return out

    def run(self, text):
        return [t[0] for t in self.expand([(t, sp, frozenset()) for t, sp in lex(text)])]


class PPCase:
    """pre: directives; text: the text whose expansion is observed; post: directives that undo pre.
    alt: another acceptable token list (reference algorithm), or None"""
    __slots__ = ("key", "pre", "text", "post", "alt", "steps")

    def __init__(self, key, pre, text, post="", alt=None, steps=1):
        self.key, self.pre, self.text, self.post, self.alt, self.steps = key, pre, text, post, alt, steps


MARK = "vf_mark"


class PPDiff:
    def __init__(self, check, flags=(), gflags=(), setup=None, post=None):
        self.c, self.toycc = check, check.build()
        self.flags, self.gflags = list(flags), list(gflags)
        self.wd = tempfile.mkdtemp(prefix="pp-", dir=check.scratch)
        self.seq = itertools.count()
        self.setup = setup
        self.post = post or (lambda toks: toks)
        self.errors = 0

    def text(self, cases):
        out, lines = [], 1
        where = []
        for i, k in enumerate(cases):
            t = f"{k.pre}\n{MARK} {i} ;\n{k.text}\n;;\n{k.post}\n"
            where.append((lines, lines + t.count("\n")))
            lines += t.count("\n")
            out.append(t)
        return "".join(out) + f"{MARK} {len(cases)} ;\n", where

    def split(self, text, n):
        """tokens of every case; None where the markers are damaged"""
        toks = [t for t, _ in lex(text)]
        res, cur, i = {}, None, 0
        while i < len(toks):
            if toks[i] == MARK and i + 2 < len(toks) and toks[i + 2] == ";" and toks[i + 1].isdigit():
                cur = int(toks[i + 1])
                if cur < n:
                    res[cur] = []
                else:
                    cur = None
                i += 3
                continue
            if cur is not None:
                res[cur].append(toks[i])
            i += 1
        return res

    def invoke(self, cmd, d):
        return sh(cmd, cwd=d, timeout=120)

    def one(self, cases, d):
        txt, where = self.text(cases)
        src = os.path.join(d, "p.c")
        open(src, "w", encoding="utf-8", newline="").write(txt)
        if self.setup:
            self.setup(d)
        grc, go, ge = self.invoke(["gcc", "-E", "-w", "-std=gnu11", "-undef", "-nostdinc", "-P"] + self.gflags + ["p.c"], d)
        bad = set()
        for m in re.finditer(r"^p\.c:(\d+):\d+: (?:fatal )?error", ge.decode(errors="replace"), re.M):
            l = int(m[1])
            bad.update(i for i, (a, b) in enumerate(where) if a <= l < b)
        return txt, grc, self.split(go.decode(errors="replace"), len(cases)), bad, src

    def toy(self, d):
        rc, o, e = self.invoke([self.toycc] + self.flags + ["-E", "p.c", "-o", "p.i"], d)
        if rc == 0 and os.path.exists(os.path.join(d, "p.i")):
            return None, open(os.path.join(d, "p.i"), encoding="utf-8", errors="replace").read()
        return f"rc={rc} " + " ".join(e.decode(errors="replace").split())[-300:], None

    def batch(self, cases):
        if not cases:
            return
        if time.time() > self.c.deadline:
            self.c.extra["capped"] = True
            return
        d = os.path.join(self.wd, "b%d" % next(self.seq))
        os.makedirs(d)
        try:
            txt, grc, want, bad, src = self.one(cases, d)
            if bad:                          # constraint violations: not programs
                with self.c.lock:
                    self.errors += len(bad)
                shutil.rmtree(d)
                return self.batch([k for i, k in enumerate(cases) if i not in bad])
            if grc != 0:                     # an invocation that runs into the following cases
                shutil.rmtree(d)
                if len(cases) == 1:
                    with self.c.lock:
                        self.errors += 1
                    return
                m = len(cases) // 2
                self.batch(cases[:m])
                self.batch(cases[m:])
                return
            err, got = self.toy(d)
            if err:
                if len(cases) == 1:
                    self.report(cases[0], "rejects valid text: " + err, d)
                    return
                shutil.rmtree(d)
                m = len(cases) // 2
                self.batch(cases[:m])
                self.batch(cases[m:])
                return
            got = self.split(got, len(cases))
            for i, k in enumerate(cases):
                g, w = got.get(i), want.get(i)
                if w is None:
                    raise RuntimeError("reference lost case " + k.key)
                if g is None or (self.post(g) != self.post(w) and not (k.alt is not None and g == k.alt + [";", ";"])):
                    if len(cases) > 1:
                        dd = os.path.join(self.wd, "c%d" % next(self.seq))
                        os.makedirs(dd)
                        try:
                            _, _, w1, _, _ = self.one([k], dd)
                            err, g1 = self.toy(dd)
                            g1 = self.split(g1, 1).get(0) if g1 is not None else None
                            w1 = w1.get(0)
                        finally:
                            shutil.rmtree(dd, True)
                        if not err and g1 is not None and (self.post(g1) == self.post(w1) or (k.alt is not None and g1 == k.alt + [";", ";"])):
                            if g is None:
                                self.report(k, "its text vanished in the context of the batch", d, txt)
                            else:
                                self.report(k, f"(in the context of its batch) got '{' '.join(g)}' expected '{' '.join(w)}'", d, txt)
                            continue
                        g, w = g1 or [str(err)], w1
                    self.report(k, f"got '{' '.join(g or ['nothing'])}' expected '{' '.join(w)}'" + (f" or '{' '.join(k.alt)}'" if k.alt else ""), d)
            self.c.count(states=len(cases), transitions=sum(k.steps for k in cases), traces=len(cases))
        finally:
            shutil.rmtree(d, True)

    def report(self, k, what, d, txt=None):
        self.c.violation(k.key, what, (txt or self.text([k])[0]) + f"\n/* toycc {' '.join(self.flags)} -E, compared with gcc -E {' '.join(self.gflags)} as preprocessing tokens */")

    def run(self, cases, size=600):
        cases = list(cases)
        ks = {k.key for k in cases}
        if len(ks) != len(cases):
            raise RuntimeError("duplicate case keys")
        for k in cases[:: max(1, len(cases) // 3)][:3]:
            self.c.sample({"case": k.key, "source": (k.pre + " | " + k.text)[:400]})
        n = max((len(cases) + size - 1) // size, min(JOBS, len(cases)))
        pmap(self.batch, [x for x in (cases[i::n] for i in range(n)) if x])
        self.c.extra["constraint violations skipped"] = self.c.extra.get("constraint violations skipped", 0) + self.errors
        self.errors = 0
