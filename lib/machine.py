"""Runs cases on the explicit-state RV64 machine (rvmc) instead of qemu: same programs, machine-level invariants."""
import os, sys, itertools, subprocess, tempfile, shutil, time
import vf
from vf import sh, pmap, GCC, VERIF, JOBS

STUBS = r"""
	.text
	.macro stub n, k
	.globl \n
	.type \n, @function
\n:	li a7, \k
	ecall
	ret
	.endm
	stub O, 1
	stub OD, 2
	stub OF, 3
	stub OB, 4
	.globl __tls_get_addr
	.type __tls_get_addr, @function
__tls_get_addr:
	ld a0,8(a0)
	li t0,0x800
	add a0,a0,t0
	add a0,a0,tp
	addi sp,sp,-16
	sd a0,0(sp)
	li a7,6
	ecall
	ld a0,0(sp)
	addi sp,sp,16
	ret
	.globl setjmp
setjmp:
	sd ra,0(a0)
	sd sp,8(a0)
	sd s0,16(a0)
	sd s1,24(a0)
	sd s2,32(a0)
	sd s3,40(a0)
	sd s4,48(a0)
	sd s5,56(a0)
	sd s6,64(a0)
	sd s7,72(a0)
	sd s8,80(a0)
	sd s9,88(a0)
	sd s10,96(a0)
	sd s11,104(a0)
	li a0,0
	ret
	.globl longjmp
longjmp:
	ld ra,0(a0)
	ld sp,8(a0)
	ld s0,16(a0)
	ld s1,24(a0)
	ld s2,32(a0)
	ld s3,40(a0)
	ld s4,48(a0)
	ld s5,56(a0)
	ld s6,64(a0)
	ld s7,72(a0)
	ld s8,80(a0)
	ld s9,88(a0)
	ld s10,96(a0)
	ld s11,104(a0)
	mv a0,a1
	ret
	.globl _setjmp
	_setjmp = setjmp
"""
LIBC = r"""
typedef unsigned long size_t;
void OB(const void *, long);
void *memset(void *d, int c, size_t n) { char *p = d; while (n--) *p++ = c; return d; }
void *memcpy(void *d, const void *s, size_t n) { char *p = d; const char *q = s; while (n--) *p++ = *q++; return d; }
void *memmove(void *d, const void *s, size_t n) { char *p = d; const char *q = s; if (p < q) while (n--) *p++ = *q++; else while (n--) p[n] = q[n]; return d; }
int memcmp(const void *a, const void *b, size_t n) { const unsigned char *p = a, *q = b; for (; n--; p++, q++) if (*p != *q) return *p - *q; return 0; }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return *(unsigned char *)a - *(unsigned char *)b; }
void OS(const char *s) { OB(s, strlen(s) + 1); }
extern void (*__init_array_start[])(void), (*__init_array_end[])(void);
void vf_init(void) { for (void (**f)(void) = __init_array_start; f < __init_array_end; f++) (*f)(); }
"""


def build_rvmc(check):
    exe = os.path.join(check.scratch, "rvmc")
    if not os.path.exists(exe):
        rc, o, e = sh(["gcc", "-O2", "-frounding-math", "-o", exe, os.path.join(VERIF, "lib", "rvmc.c"), "-lm"])
        if rc:
            raise RuntimeError("rvmc: " + e.decode(errors="replace"))
    return exe


class Machine(vf.Diff):
    """a Diff whose run() executes toycc's code only, on rvmc"""
    OPT = ["-O1", "-U_FORTIFY_SOURCE", "-ffreestanding", "-fno-tree-loop-distribute-patterns", "-fno-stack-protector", "-fno-pic", "-fno-asynchronous-unwind-tables"]
    capture = None

    def __init__(self, check, toycc=None, gcc_flags=None, toycc_flags=None, prelude=vf.PRELUDE, regs=False, libs=None, helper=None, helper_toycc=False, budget=10, peer_prelude="", gcc_opt=()):
        self.c, self.toycc = check, toycc or check.build()
        self.tflags, self.prelude, self.peer_prelude = toycc_flags or [], prelude, peer_prelude
        self.gflags = []
        self.wd = tempfile.mkdtemp(prefix="mach-", dir=check.scratch)
        self.seq = itertools.count()
        self.rvmc = build_rvmc(check)
        self.base = []
        for n, t, fl in (("stubs.S", STUBS, []), ("libc.c", LIBC, self.OPT), ("helper.c", helper, self.OPT)):
            if t:
                f = os.path.join(self.wd, n)
                open(f, "w").write(t)
                self._must([GCC, "-w"] + fl + ["-c", f, "-o", f + ".o"])
                self.base.append(f + ".o")
        t = os.path.join(self.wd, "tramp.S")
        open(t, "w").write(subprocess.check_output([sys.executable, os.path.join(VERIF, "lib", "gen_tramp.py")], text=True))
        self.qbase = []
        for f in [os.path.join(VERIF, "lib", "driver.c"), t] + ([os.path.join(self.wd, "helper.c")] if helper else []):
            o = os.path.join(self.wd, os.path.basename(f) + ".q.o")
            self._must([GCC, "-w", "-O1", "-c", f, "-o", o])
            self.qbase.append(o)

    def link(self, objs, d, extra=()):
        exe = os.path.join(d, "x")
        rc, o, e = sh([GCC, "-static", "-nostdlib", "-no-pie", "-Wl,-Ttext-segment=0x10000", "-Wl,-z,max-page-size=4096", "-Wl,-z,norelro", "-Wl,-e,0", "-Wl,--build-id=none", "-Wl,--no-warn-rwx-segments"] + objs + self.base + list(extra) + ["-lgcc", "-o", exe], cwd=d, timeout=120)
        return exe, (e.decode(errors="replace") if rc else None)

    def units(self, cases):
        u = [self.text(cases)]
        if any(k.ref for k in cases):
            u.append("\n".join([self.prelude, self.peer_prelude] + [(k.decls + " " + (k.ref or "")).replace("$", f"_{i}") for i, k in enumerate(cases)]) + "\n")
        return u

    def one(self, cases):
        d = os.path.join(self.wd, "b%d" % next(self.seq))
        os.makedirs(d)
        try:
            objs = []
            for i, t in enumerate(self.units(cases)):
                src = os.path.join(d, f"u{i}.c")
                open(src, "w").write(t)
                err = self.compile_toycc(src, d)
                if err:
                    return ("reject", err)
                os.rename(os.path.join(d, "t.o"), os.path.join(d, f"u{i}.o"))
                objs.append(os.path.join(d, f"u{i}.o"))
            exe, err = self.link(objs + [self.table(len(cases), d)], d)
            if err:
                return ("reject", "link: " + err[:1500])
            rc, o, e = sh([self.rvmc, "run", exe], cwd=d, timeout=600)
            if rc != 0:
                raise RuntimeError(f"rvmc failed ({rc}): {e.decode(errors='replace')[:500]}")
            res = {}
            for l in o.decode().splitlines():
                p = l.split(" ", 2)
                res[int(p[0])] = (p[1], p[2])
            if self.conform(len(cases)):
                self.replay(objs, d, cases, res)
            return ("ok", res)
        finally:
            shutil.rmtree(d, True)

    conformed = 0

    def conform(self, n):
        """the machine model is bound to the implementation it models by replaying a part of every family under qemu"""
        with self.c.lock:
            self.conformed += n
            return self.conformed <= self.CONFORM

    CONFORM = 1200

    def replay(self, objs, d, cases, res):
        exe = os.path.join(d, "q")
        rc, o, e = sh([GCC, "-static"] + self.qbase + objs + [os.path.join(d, "tab.s"), "-o", exe], cwd=d, timeout=120)
        if rc:
            return
        rc, o, e = sh(vf.QEMU + [exe, "t20"], cwd=d, timeout=600)
        n = 0
        for l in o.decode(errors="replace").splitlines():
            p = l.split()
            i = int(p[0])
            if res[i][0] != "OK":
                continue
            if p[1:3] != res[i][1].split()[:2]:
                raise RuntimeError(f"machine model and qemu disagree on {cases[i].key}: {res[i][1]} / {l}")
            n += 1
        with self.c.lock:
            self.c.extra["machine runs replayed under qemu"] = self.c.extra.get("machine runs replayed under qemu", 0) + n

    def batch(self, cases):
        if time.time() > self.c.deadline:
            self.c.extra["capped"] = True
            return
        r = self.one(cases)
        if r[0] == "reject":
            if len(cases) == 1:
                self.skipped.append(cases[0].key)      # acceptance is decided by other properties
                return
            m = len(cases) // 2
            self.batch(cases[:m])
            self.batch(cases[m:])
            return
        tr = 0
        for i, k in enumerate(cases):
            st, txt = r[1][i]
            if st == "OK":
                tr += int(txt.split()[2])
            else:
                self.c.violation(self.tag + k.key, "machine-level invariant broken: " + txt, "\n/* ---- next unit ---- */\n".join(self.units([k])) + "\n/* compile with toycc, link with the stubs in lib/machine.py, run with rvmc */")
        self.c.count(states=len(cases), transitions=tr, traces=3 * len(cases))

    tag = ""

    def run(self, cases, size=400):
        self.skipped = []
        cases = list(cases)
        if Machine.select:
            cases = [k for i, k in enumerate(cases) if Machine.select(i, k)]
        if not cases:
            return
        self.c.sample({"case": self.tag + cases[len(cases) // 2].key, "source": (cases[len(cases) // 2].decls + " | " + cases[len(cases) // 2].body)[:500]})
        n = max((len(cases) + size - 1) // size, min(JOBS, len(cases)))
        pmap(self.batch, [x for x in (cases[i::n] for i in range(n)) if x])
        self.c.extra.setdefault("programs per family", {})
        f = self.tag.strip(": ")
        self.c.extra["programs per family"][f] = self.c.extra["programs per family"].get(f, 0) + len(cases) - len(self.skipped)

    select = None


def families(check, names):
    """runs the program families of other checks on the machine"""
    import importlib.util
    saved = vf.main, vf.Diff, vf.PairDiff
    for n in names:
        bodies = {}
        cls = type("M" + n, (Machine,), {"tag": n + ": "})
        vf.main = lambda pid, body, **kw: bodies.setdefault(pid, body)
        vf.Diff = vf.PairDiff = cls
        try:
            spec = importlib.util.spec_from_file_location("fam_" + n, os.path.join(VERIF, "checks", n + ".py"))
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
            keep = check.assumptions, check.extra.get("bounds")
            bodies[n](check)
            check.assumptions = keep[0]
            check.extra["bounds"] = keep[1]
        finally:
            vf.main, vf.Diff, vf.PairDiff = saved
