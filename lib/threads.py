"""Explores all interleavings of small multi-threaded programs on the RV64 machine (rvmc mt)."""
import os, itertools, shutil, tempfile, time
import vf
from vf import sh, pmap, GCC, JOBS, VERIF
import machine

PRE = "#include <stdatomic.h>\n#include <stddef.h>\nextern long mt_out[16]; extern long mt_weak[8];\n"


class Prog:
    """'$' becomes a unique suffix; out: number of mt_out[] words that are the observation"""
    __slots__ = ("key", "decls", "init", "threads", "fini", "out", "weak")

    def __init__(self, key, decls, init, threads, fini, out, weak=False):
        self.key, self.decls, self.init, self.threads, self.fini, self.out, self.weak = key, decls, init, threads, fini, out, weak


class Threads:
    GFL = ["-O0", "-w", "-std=gnu11", "-fno-pic", "-ffreestanding", "-fno-stack-protector", "-U_FORTIFY_SOURCE", "-fno-asynchronous-unwind-tables", "-fwrapv", "-fsigned-char"]

    def __init__(self, check, spurious=1):
        self.c = check
        self.m = machine.Machine(check)
        self.seq = itertools.count()
        self.spur = spurious

    def text(self, ps):
        t = [PRE]
        for i, p in enumerate(ps):
            s = f"_{i}"
            t.append(p.decls.replace("$", s))
            t.append("void vi%d(void) { %s }" % (i, p.init.replace("$", s)))
            for j, x in enumerate(p.threads):
                t.append("void vt%d_%d(void) { %s }" % (i, j, x.replace("$", s)))
            t.append("void vo%d(void) { %s }" % (i, p.fini.replace("$", s)))
        return "\n".join(t) + "\n"

    def table(self, ps, d):
        q = lambda n, v: f".globl {n}\n{n}:\n" + "".join(f".quad {x}\n" for x in v)
        f = os.path.join(d, "tab.s")
        th = []
        for i, p in enumerate(ps):
            th += [f"vt{i}_{j}" if j < len(p.threads) else "0" for j in range(4)]
        open(f, "w").write(".data\n.align 3\n" + q("mt_ncases", [len(ps)]) + q("mt_threads", th) + q("mt_nthreads", [len(p.threads) for p in ps]) +
                           q("mt_nout", [p.out for p in ps]) + q("mt_init", [f"vi{i}" for i in range(len(ps))]) + q("mt_fini", [f"vo{i}" for i in range(len(ps))]) +
                           q("mt_out", [0] * 16) + ".align 6\n" + q("mt_weak", [0] * 8))
        return f

    def explore(self, obj, ps, d, weak, spur):
        exe, err = self.m.link([obj, self.table(ps, d)], d)
        if err:
            return None, "link: " + err
        rc, o, e = sh([self.m.rvmc, "mt", exe, "-s", str(spur)] + (["-w"] if weak else []), cwd=d, timeout=800)
        if rc != 0:
            return None, f"rvmc {rc} {e.decode(errors='replace')[:300]}"
        res = []
        for l in o.decode().splitlines():
            p = l.split(" ", 5)
            res.append((p[1], int(p[2]), int(p[3]), p[5] if p[1] == "BAD" else set(p[5].split(";")) if len(p) > 5 else {""}))
        return res, None

    def batch(self, ps):
        if time.time() > self.c.deadline:
            self.c.extra["capped"] = True
            return
        d = os.path.join(self.m.wd, "m%d" % next(self.seq))
        os.makedirs(d)
        try:
            src = os.path.join(d, "b.c")
            open(src, "w").write(self.text(ps))
            err = self.m.compile_toycc(src, d)
            if err:
                if len(ps) == 1:
                    self.report(ps[0], "toycc rejected a valid program: " + err)
                    return
                self.batch(ps[:len(ps) // 2])
                self.batch(ps[len(ps) // 2:])
                return
            self.m._must([GCC] + self.GFL + ["-c", src, "-o", os.path.join(d, "g.o")], cwd=d)
            ref, err = self.explore(os.path.join(d, "g.o"), ps, d, False, 0)
            if err:
                raise RuntimeError("reference: " + err)
            runs = [(False, self.spur)]
            if ps[0].weak:
                runs.append((True, 0))
                wref, err = self.explore(os.path.join(d, "g.o"), ps, d, True, 0)     # validates the weak model
                for p, g, r in zip(ps, wref or [], ref):
                    if g[0] != "OK" or not g[3] <= r[3]:
                        raise RuntimeError(f"weak model: reference code of {p.key} shows {g[3]} beyond {r[3]}")
            st = tr = 0
            for weak, spur in runs:
                got, err = self.explore(os.path.join(d, "t.o"), ps, d, weak, spur)
                if err:
                    if len(ps) == 1:
                        self.report(ps[0], err)
                        return
                    self.batch(ps[:len(ps) // 2])
                    self.batch(ps[len(ps) // 2:])
                    return
                for p, g, r in zip(ps, got, ref):
                    if r[0] != "OK":
                        raise RuntimeError(f"reference exploration of {p.key}: {r[3]}")
                    st += g[1]
                    tr += g[2]
                    mem = "weak memory" if weak else "sequentially consistent memory"
                    if g[0] != "OK":
                        self.report(p, f"{mem}: {g[3]}")
                    elif not g[3] <= r[3]:
                        self.report(p, f"{mem}: outcome {sorted(g[3] - r[3])[:4]} is possible but C allows only {sorted(r[3])[:12]}")
            self.c.count(states=st, transitions=tr, traces=sum(len(r[3]) for r in ref))
        finally:
            shutil.rmtree(d, True)

    def report(self, p, what):
        self.c.violation(p.key, what, self.text([p]) + "\n/* vt0_*: threads, vi0: before them, vo0: after them; explored by lib/rvmc.c mt */")

    def run(self, ps, size=24):
        ps = list(ps)
        assert len({p.key for p in ps}) == len(ps)
        for p in ps[:: max(1, len(ps) // 2)][:2]:
            self.c.sample({"program": p.key, "source": self.text([p])[len(PRE):][:500]})
        for w in (False, True):
            q = [p for p in ps if p.weak == w]
            if q:
                n = max((len(q) + size - 1) // size, min(JOBS, len(q)))
                pmap(self.batch, [q[i::n] for i in range(n)])
