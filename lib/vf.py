"""Shared machinery: scratch builds of /repo, differential batches, evidence,
known findings and reporting.  Nothing here samples: every check enumerates."""
import atexit, concurrent.futures as cf, fnmatch, itertools, json, os, re, shutil, signal, subprocess, sys
import tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
GCC = "riscv64-linux-gnu-gcc"
QEMU = ["qemu-riscv64", "-L", "/usr/riscv64-linux-gnu/"]
GCC_FLAGS = ["-O0", "-w", "-fwrapv", "-fsigned-char", "-fno-strict-aliasing", "-ffp-contract=off",
             "-std=gnu11", "-fno-builtin", "-fno-common"]
JOBS = min(8, os.cpu_count() or 1)
MAXV = int(os.environ.get("VF_MAXV", "3"))   # stop exploring after this many confirmed violations


class Stop(Exception):
    """enough violations found"""


def sh(cmd, cwd=None, timeout=60, env=None, inp=None, limit_as=None):
    """run a command; returns (rc, out, err); rc is -signal on a signal, 'timeout' on a timeout"""
    def pre():
        import resource
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
        if limit_as:
            resource.setrlimit(resource.RLIMIT_AS, (limit_as, limit_as))
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, preexec_fn=pre)
    try:
        o, e = p.communicate(inp, timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return "timeout", o, e


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.scratch = tempfile.mkdtemp(prefix=f"vf-{pid}-", dir=os.environ.get("VF_TMP", "/tmp"))
        atexit.register(shutil.rmtree, self.scratch, True)
        self.nviol = 0
        self.viol_keys = set()
        self.known_hit = {}
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.lock = threading.Lock()
        self.known = load_known(pid)
        self.deadline = self.t0 + (840 if not self.thorough else 36000)

    # ---- building ------------------------------------------------------
    def tree(self, name="src"):
        """a private copy of /repo's working tree, without its build output"""
        d = os.path.join(self.scratch, name)
        if not os.path.isdir(d):
            shutil.copytree(REPO, d, symlinks=True, ignore=lambda dd, ns: [
                n for n in ns if (n in (".git", "output") and os.path.samefile(dd, REPO)) or n.startswith("toycc-t")])
        return d

    def build(self, name="src", cc="gcc", env=None):
        d = self.tree(name)
        exe = os.path.join(d, "output", "toycc")
        if not os.path.exists(exe):
            rc, o, e = sh(["make", "-j8", "CC=" + cc, "output/toycc"], cwd=d, timeout=300, env=env)
            if rc != 0:
                sys.stderr.write(o.decode(errors="replace") + e.decode(errors="replace"))
                raise RuntimeError(f"building {d} failed")
            inc = os.path.join(d, "output", "include")
            shutil.rmtree(inc, True)
            shutil.copytree(os.path.join(d, "include"), inc)
        return exe

    # ---- counting ------------------------------------------------------
    def count(self, states=0, transitions=0, traces=0):
        with self.lock:
            self.states += states
            self.transitions += transitions
            self.traces += traces

    def sample(self, s, cap=6):
        with self.lock:
            if len(self.samples) < cap:
                self.samples.append(s)

    # ---- reporting -----------------------------------------------------
    def violation(self, key, what, replay_text):
        """key names the failing input; known findings are matched on it exactly"""
        with self.lock:
            if key in self.viol_keys:
                return
            self.viol_keys.add(key)
            if key in self.known:
                self.known_hit[key] = what
                return
            self.nviol += 1
            if self.nviol > MAXV:
                raise Stop()
            d = os.path.join(VERIF, "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{self.pid}-{self.nviol}.txt")
            with open(path, "w", errors="replace") as f:
                f.write(f"property: {self.pid}\nkey: {key}\nwhat: {what}\n\n{replay_text}\n")
            print(f"VIOLATION property={self.pid} replay={path}")
            print(f"  {key}: {what}"[:1500])
            sys.stdout.flush()
            if self.nviol >= MAXV:
                raise Stop()

    def finish(self):
        for k, what in sorted(self.known_hit.items()):
            print(f"KNOWN-FINDING: property={self.pid} {k}: {self.known[k]}")
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples or ["(none)"],
               "exhaustive": self.nviol == 0 and not self.extra.get("capped", False)}
        if self.level in ("fault_enumeration", "exploration"):
            cov["evaluations"] = self.traces
            cov["distinct_nontrivial"] = self.states
            cov.setdefault("rule", self.extra.pop("rule", "every point of the stated bounded space"))
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": self.nviol}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print(f"{self.pid} {self.tier}: states={self.states} transitions={self.transitions} "
              f"traces={self.traces} violations={self.nviol} known={len(self.known_hit)} wall={ev['wall_s']}s")
        return 1 if self.nviol else 0


def load_known(pid):
    """lines 'known: property=<id> case=<key> :: <what>'; 'fixed:' lines suppress nothing"""
    r = {}
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) case=(.*?) :: (.*)$", line.rstrip("\n"))
                if m and m[1] == pid:
                    r[m[2]] = m[3]
    except FileNotFoundError:
        pass
    return r


def main(pid, body, level="model_checking"):
    """run body(check) and turn the outcome into the interface's exit codes"""
    c = Check(pid, level)
    try:
        try:
            body(c)
        except Stop:
            pass
        rc = c.finish()
    except Exception:
        traceback.print_exc()
        # a violation already confirmed and printed stands, whatever went wrong after it
        rc = 2
        if c.nviol:
            c.extra["error"] = traceback.format_exc()
            rc = c.finish()
    shutil.rmtree(c.scratch, True)
    sys.stdout.flush()
    sys.exit(rc)


def pmap(fn, items, jobs=JOBS):
    """parallel map that stops early on Stop / errors"""
    items = list(items)
    res = [None] * len(items)
    with cf.ThreadPoolExecutor(jobs) as ex:
        futs = {ex.submit(fn, it): i for i, it in enumerate(items)}
        try:
            for f in cf.as_completed(futs):
                res[futs[f]] = f.result()
        except BaseException:
            for f in futs:
                f.cancel()
            raise
    return res


# ======================================================================
# differential batches: the same C text compiled by toycc and by the
# reference compiler, linked with the same driver, compared case by case
# ======================================================================
PRELUDE = """void O(long v); void OD(double d); void OF(float f); void OB(const void *p, long n); void OS(const char *s);
"""


class Case:
    """key: stable name; decls: file-scope text; body: statements; '$' becomes a unique suffix.
    steps: number of elementary transitions the case performs (for the evidence only)"""
    __slots__ = ("key", "decls", "body", "steps", "ref")

    def __init__(self, key, body, decls="", steps=1, ref=None):
        self.key, self.body, self.decls, self.steps, self.ref = key, body, decls, steps, ref


class Diff:
    def __init__(self, check, toycc=None, gcc_flags=None, toycc_flags=None, prelude=PRELUDE, regs=False, libs=None,
                 helper=None, helper_toycc=False, budget=10):
        self.c = check
        self.toycc = toycc or check.build()
        self.gflags = GCC_FLAGS + (gcc_flags or [])
        self.tflags = toycc_flags or []
        self.prelude = prelude
        self.regs = regs
        self.libs = libs or []
        self.budget = budget
        self.wd = tempfile.mkdtemp(prefix="diff-", dir=check.scratch)
        self.seq = itertools.count()
        d = os.path.join(self.wd, "drv.o")
        t = os.path.join(self.wd, "tramp.S")
        with open(t, "w") as f:
            f.write(subprocess.check_output([sys.executable, os.path.join(VERIF, "lib", "gen_tramp.py")], text=True))
        self._must([GCC, "-O1", "-c", os.path.join(VERIF, "lib", "driver.c"), "-o", d])
        self._must([GCC, "-c", t, "-o", t[:-1] + "o"])
        self.drv = [d, t[:-1] + "o"]
        self.href = []
        if helper:
            h = os.path.join(self.wd, "helper.c")
            open(h, "w").write(helper)
            self._must([GCC] + GCC_FLAGS + ["-c", h, "-o", h[:-1] + "o"])
            self.href = [h[:-1] + "o"]

    def _must(self, cmd, cwd=None):
        rc, o, e = sh(cmd, cwd=cwd, timeout=300)
        if rc != 0:
            raise RuntimeError(f"{' '.join(cmd)} failed ({rc}): {e.decode(errors='replace')[:3000]}")

    def text(self, cases):
        parts = [self.prelude]
        for i, k in enumerate(cases):
            s = f"_{i}"
            if k.decls:
                parts.append(k.decls.replace("$", s))
            parts.append("void vf_case%d(void){ %s }" % (i, k.body.replace("$", s)))
        return "\n".join(parts) + "\n"

    def table(self, n, d):
        p = os.path.join(d, "tab.s")
        with open(p, "w") as f:
            f.write(".data\n.align 3\n.globl vf_cases,vf_ncases\nvf_ncases: .quad %d\nvf_cases:\n" % n)
            for i in range(n):
                f.write(f".quad vf_case{i}\n")
        return p

    def compile_toycc(self, src, d):
        rc, o, e = sh([self.toycc] + self.tflags + ["-c", src, "-o", os.path.join(d, "t.o")], cwd=d, timeout=60)
        if rc == 0 and os.path.exists(os.path.join(d, "t.o")):
            return None
        t = e.decode(errors="replace")
        m = re.search(r"^ *\^ (.*)$", t, re.M)
        if m:    # toycc prints the offending line and then points into it
            ln = t.split("\n")
            k = next(i for i, x in enumerate(ln) if re.match(r" *\^ ", x))
            col = ln[k].index("^")
            t = f"{m[1]} near '{ln[k-1][max(0, col-30):col+40]}'" if k else m[1]
        return f"rc={rc} {' '.join(t.split())[-500:]}"

    def run_exe(self, exe, d, verbose=False, limit=None):
        a = ["-v"] if verbose else []
        if self.regs:
            a.append("-r")
        a.append("t%d" % (limit or self.budget))
        rc, o, e = sh(QEMU + [exe] + a, cwd=d, timeout=600)
        lines = {}
        for ln in o.decode(errors="replace").split("\n"):
            m = re.match(r"(\d+) ?(.*)$", ln)
            if m:
                lines[int(m[1])] = m[2]
        return lines, rc

    def one(self, cases, verbose=False, limit=None):
        """compile and run one batch; returns ('reject', msg) or ('ok', got, want)"""
        d = os.path.join(self.wd, "b%d" % next(self.seq))
        os.makedirs(d)
        try:
            src = os.path.join(d, "b.c")
            txt = self.text(cases)
            with open(src, "w") as f:
                f.write(txt)
            err = self.compile_toycc(src, d)
            if err:
                return ("reject", err)
            self._must([GCC] + self.gflags + ["-c", src, "-o", os.path.join(d, "g.o")], cwd=d)
            tab = self.table(len(cases), d)
            link = [GCC, "-static"] + self.drv + self.href + [tab]
            rc, o, e = sh(link + [os.path.join(d, "t.o"), "-o", os.path.join(d, "t")] + self.libs, cwd=d, timeout=120)
            if rc != 0:
                return ("reject", "link: " + e.decode(errors="replace")[:800])
            self._must(link + [os.path.join(d, "g.o"), "-o", os.path.join(d, "g")] + self.libs, cwd=d)
            got, _ = self.run_exe(os.path.join(d, "t"), d, verbose, limit)
            want, wrc = self.run_exe(os.path.join(d, "g"), d, verbose, limit)
            if len(want) != len(cases):
                raise RuntimeError(f"reference run ended early: {len(want)} of {len(cases)}, rc {wrc}")
            return ("ok", got, want)
        finally:
            shutil.rmtree(d, True)

    def report(self, case, kind, detail, ctx=None):
        src = self.text(ctx or [case])
        self.c.violation(case.key, f"{kind}: {detail}",
                         f"# compile the text below with toycc and with {GCC} {' '.join(self.gflags)}, "
                         f"link each with /verif/lib/driver.c, run with -v and compare\n{src}")

    def batch(self, cases):
        if time.time() > self.c.deadline:
            self.c.extra["capped"] = True
            return
        r = self.one(cases)
        if r[0] == "reject":
            if len(cases) == 1:
                self.report(cases[0], "toycc rejected or mis-assembled a valid program", r[1])
                return
            m = len(cases) // 2
            self.batch(cases[:m])
            self.batch(cases[m:])
            return
        got, want = r[1], r[2]
        for i, k in enumerate(cases):
            w = want[i]
            if "SIGNAL" in w:
                raise RuntimeError(f"reference run of {k.key} raised {w}")
            g = got.get(i)
            if g is None and i and got.get(i - 1) is None:
                break                    # the run died before this one; the first is reported
            if g != w:
                self.confirm(k, cases, i)
        self.c.count(states=len(cases), transitions=sum(k.steps for k in cases), traces=len(cases))

    def confirm(self, k, cases, i):
        r = self.one([k], verbose=True, limit=3 * self.budget)
        if r[0] == "reject":
            self.report(k, "toycc rejected a valid program", r[1])
            return
        g, w = r[1].get(0), r[2].get(0)
        if g != w:
            self.report(k, "observable behaviour differs from C", describe(g, w))
            return
        r = self.one(cases, verbose=True, limit=3 * self.budget)   # only in context
        if r[0] == "ok" and r[1].get(i) != r[2].get(i):
            self.report(k, "observable behaviour differs from C (in the context of its batch)",
                        describe(r[1].get(i), r[2].get(i)), cases)
        else:
            print(f"note: {k.key} did not fail again", file=sys.stderr)

    def run(self, cases, size=400):
        cases = list(cases)
        ks = set()
        for k in cases:
            if k.key in ks:
                raise RuntimeError("duplicate case key " + k.key)
            ks.add(k.key)
        for k in cases[:: max(1, len(cases) // 3)][:3]:
            self.c.sample({"case": k.key, "source": (k.decls + " | " + k.body)[:600]})
        n = max(1, (len(cases) + size - 1) // size)
        n = max(n, min(JOBS, len(cases)))
        chunks = [cases[i::n] for i in range(n)]
        pmap(self.batch, [c for c in chunks if c])


class PairDiff(Diff):
    """two translation units per batch: the callers (vf_case functions) and the peers they call.  Every mix of the two
    compilers must behave like the reference compiler alone.  A case's 'ref' is the text of its peer unit; decls go to both."""
    MIX = (("toycc", "gcc"), ("gcc", "toycc"), ("toycc", "toycc"))

    def __init__(self, check, peer_prelude="", gcc_opt=(), link=("-static",), shared=False, **kw):
        super().__init__(check, **kw)
        self.link, self.shared = list(link), shared       # shared: the peers form a shared library
        self.peer_prelude = peer_prelude
        self.gcc_opt = list(gcc_opt)

    def peer_text(self, cases):
        parts = [self.prelude, self.peer_prelude]
        for i, k in enumerate(cases):
            parts.append((k.decls + " " + k.ref).replace("$", f"_{i}"))
        return "\n".join(parts) + "\n"

    def comp(self, who, src, obj, d):
        if who == "gcc":
            self._must([GCC] + self.gflags + self.gcc_opt + ["-c", src, "-o", obj], cwd=d)
            return None
        err = self.compile_toycc(src, d)
        if not err:
            os.rename(os.path.join(d, "t.o"), obj)
        return err

    def one(self, cases, verbose=False, limit=None):
        d = os.path.join(self.wd, "b%d" % next(self.seq))
        os.makedirs(d)
        try:
            objs, errs = {}, {}
            for role, txt in (("c", self.text(cases)), ("p", self.peer_text(cases))):
                src = os.path.join(d, role + ".c")
                with open(src, "w") as f:
                    f.write(txt)
                for who in ("gcc", "toycc"):
                    obj = os.path.join(d, f"{role}-{who}.o")
                    err = self.comp(who, src, obj, d)
                    if err:
                        return ("reject", f"{'caller' if role == 'c' else 'callee'} unit: {err}")
                    objs[role, who] = obj
            tab = self.table(len(cases), d)
            out = {}
            for mix in (("gcc", "gcc"),) + self.MIX:
                exe = os.path.join(d, "x")
                peer = objs["p", mix[1]]
                if self.shared:
                    rc, o, e = sh([GCC, "-shared", peer, "-o", d + "/libp.so"], cwd=d, timeout=120)
                    if rc != 0:
                        return ("reject", f"link shared {mix}: " + e.decode(errors="replace")[:800])
                    peer = d + "/libp.so"
                rc, o, e = sh([GCC] + self.link + self.drv + self.href + [tab, objs["c", mix[0]], peer, "-Wl,-rpath," + d, "-o", exe] + self.libs, cwd=d, timeout=120)
                if rc != 0:
                    return ("reject", f"link {mix}: " + e.decode(errors="replace")[:800])
                out[mix], _ = self.run_exe(exe, d, verbose, limit)
            want = out.pop(("gcc", "gcc"))
            if len(want) != len(cases):
                raise RuntimeError(f"reference run ended early: {len(want)} of {len(cases)}")
            got = {i: tuple((m, out[m].get(i)) for m in self.MIX) for i in range(len(cases))}
            return ("ok", got, {i: tuple((m, w) for m in self.MIX) for i, w in want.items()})
        finally:
            shutil.rmtree(d, True)

    def batch(self, cases):
        if time.time() > self.c.deadline:
            self.c.extra["capped"] = True
            return
        r = self.one(cases)
        if r[0] == "reject":
            if len(cases) == 1:
                self.report(cases[0], "toycc rejected or mis-assembled a valid program", r[1])
                return
            m = len(cases) // 2
            self.batch(cases[:m])
            self.batch(cases[m:])
            return
        for i, k in enumerate(cases):
            if "SIGNAL" in r[2][i][0][1]:
                raise RuntimeError(f"reference run of {k.key} raised {r[2][i][0][1]}")
        dead = {m for i in range(len(cases)) for m, g in r[1][i] if g is None}
        died = set()
        for i, k in enumerate(cases):
            bad = [m for (m, g), (_, w) in zip(r[1][i], r[2][i]) if g != w and not (g is None and m in died)]
            died |= {m for m, g in r[1][i] if g is None}
            if bad:
                self.confirm2(k, bad)
        self.c.count(states=len(cases), transitions=sum(k.steps for k in cases) * 3, traces=3 * len(cases))

    def confirm2(self, k, bad):
        r = self.one([k], verbose=True, limit=3 * self.budget)
        if r[0] == "reject":
            self.report(k, "toycc rejected a valid program", r[1])
            return
        for (m, g), (_, w) in zip(r[1][0], r[2][0]):
            if g != w:
                self.c.violation(k.key, f"caller by {m[0]}, callee by {m[1]}: differs from the platform ABI: {describe(g, w)}",
                                 f"# caller unit (compile with {m[0]}):\n{self.text([k])}\n# callee unit (compile with {m[1]}):\n{self.peer_text([k])}\n# link with /verif/lib/driver.c")
                return
        print(f"note: {k.key} did not fail again alone ({bad})", file=sys.stderr)


def describe(g, w):
    if g is None:
        return "the program died before finishing this case; expected " + str(w)[:200]
    ga, wa = g.split("|")[0].split(), w.split("|")[0].split()
    for j, (x, y) in enumerate(itertools.zip_longest(ga, wa)):
        if x != y:
            return f"observation #{j}: got {x} expected {y}; tail got '{g.split('|')[-1].strip()}' expected '{w.split('|')[-1].strip()}'"
    return f"got '{g[-200:]}' expected '{w[-200:]}'"
