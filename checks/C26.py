"""C26: success is reported only for complete output; every failure is reported and leaves no debris."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

FILES = {"a.c": '#include "h.h"\nint foo(void);\nint main(void) { return foo() - V; }\n', "b.c": '#include "h.h"\nint foo(void) { return V; }\n' + "".join(f"int f{i}(int a) {{ return a * {i}; }}\n" for i in range(80)), "h.h": "#define V 42\n", "f.s": ".globl foo\nfoo: li a0, 42\n ret\n", "one.c": '#include "h.h"\nint main(void) { return V; }\n'}
SCEN = {
 "link1": (["-o", "out", "one.c"], ["out"]), "link2": (["-o", "out", "a.c", "b.c"], ["out"]), "aout": (["one.c"], ["a.out"]), "links": (["-o", "out", "a.c", "f.s"], ["out"]), "obj": (["-c", "b.c"], ["b.o"]), "obj2": (["-c", "a.c", "b.c"], ["a.o", "b.o"]), "objo": (["-c", "-o", "out.o", "b.c"], ["out.o"]),
 "asm": (["-S", "b.c"], ["b.s"]), "asmo": (["-S", "-o", "out.s", "b.c"], ["out.s"]), "pre": (["-E", "-o", "out.i", "b.c"], ["out.i"]), "dep": (["-M", "-o", "out.d", "b.c"], ["out.d"]), "depf": (["-MD", "-MF", "x.d", "-c", "b.c"], ["b.o", "x.d"]), "as": (["-c", "f.s"], ["f.o"]), "incl": (["-include", "h.h", "-c", "b.c"], ["b.o"]),
 "prestd": (["-E", "b.c"], []), "asmstd": (["-S", "-o", "-", "b.c"], []), "depstd": (["-M", "b.c"], []),
}
STAGES = {"link1": "cal", "link2": "cacal", "links": "caal", "obj": "ca", "obj2": "caca", "asm": "c", "pre": "c", "dep": "c", "as": "a", "depf": "ca", "aout": "cal"}
OUTPUTS = re.compile(r"(a\.out|out|.*\.(o|s|i|d))$")
ERRS = {"openat": ["ENOENT", "EMFILE", "EACCES", "EIO"], "read": ["EIO", "EINTR"], "write": ["ENOSPC", "EIO", "EINTR"], "close": ["EIO"], "brk": ["ENOMEM"], "mmap": ["ENOMEM"], "clone": ["EAGAIN"], "clone3": ["EAGAIN"], "vfork": ["EAGAIN"], "fork": ["EAGAIN"], "execve": ["ENOENT", "E2BIG"], "wait4": ["EINTR"], "fstat": ["EIO"], "lseek": ["ESPIPE"], "unlink": ["EACCES"], "getcwd": ["ENOENT"], "readlink": ["EIO"], "fcntl": ["EINVAL"], "getdents64": ["EIO"]}


class Runner:
    def __init__(self, c):
        self.c, self.toycc = c, c.build()
        self.seq = itertools.count()
        self.base = {}

    def env(self, d):
        os.makedirs(d)
        for n, t in FILES.items():
            open(os.path.join(d, n), "w").write(t)

    def outs(self, d):
        r = {}
        for n in sorted(os.listdir(d)):
            if n not in FILES and n not in ("bin", "log", "w"):
                r[n] = open(os.path.join(d, n), "rb").read() if os.path.isfile(os.path.join(d, n)) else None
        return r

    def run(self, scen, wrap=None, pre=(), bindir=None, argv0=None):
        """runs one command line in a fresh directory"""
        d = os.path.join(self.c.scratch, "d%d" % next(self.seq))
        self.env(d)
        try:
            env = dict(os.environ)
            args = SCEN[scen][0]
            if bindir:
                b = os.path.join(d, "bin")
                os.makedirs(b)
                bindir(b, d)
                env["PATH"] = b + ":" + env["PATH"]
            cmd = [self.toycc] + args
            if wrap:
                w = os.path.join(d, "w")
                os.makedirs(w)
                if os.path.isdir(os.path.dirname(self.toycc) + "/include"):
                    os.symlink(os.path.dirname(self.toycc) + "/include", os.path.join(w, "include"))
                wrap(os.path.join(w, "toycc"), d)
                if argv0:
                    cmd = ["bash", "-c", 'exec -a "$0" "$@"', os.path.join(w, "toycc")] + list(pre) + [self.toycc] + args
            elif pre:
                cmd = list(pre) + cmd
            rc, o, e = sh(cmd, cwd=d, env=env, timeout=60)
            log = open(os.path.join(d, "log")).read() if os.path.exists(os.path.join(d, "log")) else ""
            return rc, o, e, self.outs(d), log
        finally:
            shutil.rmtree(d, True)

    def baseline(self, scen):
        if scen not in self.base:
            a, b = self.run(scen), self.run(scen)
            if a[0] != 0 or a[3].keys() != b[3].keys() or set(a[3]) != set(SCEN[scen][1]):
                self.c.violation(f"base/{scen}", f"toycc {' '.join(SCEN[scen][0])} without any fault: rc={a[0]}, writes {sorted(a[3])}, expected {SCEN[scen][1]} {a[2].decode(errors='replace')[-200:]}", str(SCEN[scen]))
                self.base[scen] = None
            else:
                same = all(a[3][n] == b[3][n] for n in a[3])
                self.base[scen] = (a[1], a[3], same)
        return self.base[scen]

    def judge(self, key, scen, r, text, faulted=True, may_leave_tmp=False):
        rc, o, e, outs, log = r
        base = self.baseline(scen)
        if base is None:
            return
        tmp = [n for n in outs if n not in SCEN[scen][1]]
        what = None
        if rc == 0:
            if set(outs) - set(tmp) != set(SCEN[scen][1]):
                what = f"success is reported, but only {sorted(outs)} of {SCEN[scen][1]} exist"
            elif base[2] and any(outs[n] != base[1][n] for n in SCEN[scen][1]) or (not SCEN[scen][1] and o != base[0]):
                what = "success is reported, but the output differs from that of a run without the fault"
        elif rc == "timeout":
            what = "does not end"
        elif not e and rc == 1:
            what = f"fails (rc={rc}) without a message"
        else:
            bad = [n for n in SCEN[scen][1] if n in outs and base[2] and outs[n] != base[1][n]]
            if bad:
                what = f"fails, but leaves an incomplete {bad}"
        if not what and tmp and not may_leave_tmp:
            what = f"leaves {tmp} behind (rc={rc})"
        if what:
            self.c.violation(key, what, text + f"\ncommand: toycc {' '.join(SCEN[scen][0])}\nrc={rc}\nstderr: {e.decode(errors='replace')}\nfiles: {FILES}")

    # ---- A: how the stages end ------------------------------------------------
    def stage(self, job):
        scen, pos, how = job
        if time.time() > self.c.deadline:
            self.c.extra["capped"] = True
            return
        st = STAGES[scen]
        # the pos-th subprocess ends as 'how' says; all of them are recorded
        act = {"exit": lambda v: f"echo failed >&2; exit {v}", "sig": lambda v: f"echo dying >&2; exec python3 -c 'import os, signal, time; s = signal.SIG{v}; s in (signal.SIGKILL,) or signal.signal(s, signal.SIG_DFL); os.kill(os.getpid(), s); time.sleep(5)'"}

        def script(tool, real, d):
            kind = tool
            b = f'#!/bin/bash\nn=$(cat {d}/log 2>/dev/null | wc -l)\necho "{kind} $*" >> {d}/log\nulimit -c 0\nif [ "$n" = {pos} ]; then\n'
            b += (act[how[0]](how[1]) if how[0] in act else "exit 1") + "\nfi\n" + f'exec {real} "$@"\n'
            return b

        def bindir(b, d):
            for t in ("as", "ld"):
                p = os.path.join(b, "riscv64-linux-gnu-" + t)
                open(p, "w").write(script(t[0], "/usr/bin/riscv64-linux-gnu-" + t, d))
                os.chmod(p, 0o755)
                if how[0] == "noexec" and st[pos] == t[0]:
                    os.unlink(p)
                    open(p, "w").write("junk")
                    os.chmod(p, 0o755)

        def wrap(p, d):
            open(p, "w").write(script("c", self.toycc, d))
            os.chmod(p, 0o755)
            if how[0] in ("noexec", "missing") and st[pos] == "c":
                os.unlink(p)
        r = self.run(scen, wrap=wrap, bindir=bindir, argv0=True)
        key = f"stage/{scen}/{pos}{st[pos]}/{how[0]}{how[1]}"
        ok = how == ("exit", 0)
        if (how[0] in ("noexec", "missing")) and st[pos] != "c" and how[0] == "missing":
            return
        if ok:
            if r[0] != 0:
                return                 # a stage that pretends success without output makes a later one fail
            return
        self.judge(key, scen, r, f"subprocess {pos} ({st[pos]}) ends with {how}")
        if r[0] == 0:
            self.c.violation(key, f"success although the subprocess ended with {how}", str(job))
        ran = [x.split()[0] for x in r[4].split("\n") if x]
        if len(ran) > pos + 1:
            self.c.violation(key + "/later", f"stages run: {ran}, although number {pos} failed", r[4])
        self.c.count(1, pos + 1, 1)

    # ---- B: system call faults -------------------------------------------------
    def calls(self, scen, who):
        """how often each system call is made by the driver or by the compiler process"""
        if who == "driver":
            out = os.path.join(self.c.scratch, f"cnt-{scen}")
            self.run(scen, pre=["strace", "-f", "-b", "execve", "-o", out])
        else:
            out = os.path.join(self.c.scratch, f"cntc-{scen}")

            def wrap(p, d):
                open(p, "w").write(f'#!/bin/bash\nexec strace -o {out} {self.toycc} "$@"\n')
                os.chmod(p, 0o755)
            self.run(scen, wrap=wrap, argv0=True)
        n = {}
        if os.path.exists(out):
            pids = {}
            for l in open(out, errors="replace"):
                m = re.match(r"(?:(\d+) +)?(\w+)\(", l)
                if m:
                    pids.setdefault(m[1], {}).setdefault(m[2], 0)
                    pids[m[1]][m[2]] += 1
            for p in pids.values():
                for k, v in p.items():
                    n[k] = max(n.get(k, 0), v)
        return n

    def fault(self, job):
        scen, who, call, err, when = job
        if time.time() > self.c.deadline:
            self.c.extra["capped"] = True
            return
        inj = f"inject={call}:error={err}:when={when}"
        if who == "driver":
            r = self.run(scen, pre=["strace", "-f", "-b", "execve", "-o", "/dev/null", "-e", inj])
        else:
            def wrap(p, d):
                open(p, "w").write(f'#!/bin/bash\nexec strace -o /dev/null -e {inj} {self.toycc} "$@"\n')
                os.chmod(p, 0o755)
            r = self.run(scen, wrap=wrap, argv0=True)
        self.judge(f"fault/{scen}/{who}/{call}/{err}/{when}", scen, r, f"strace {inj} on the {who}", may_leave_tmp=call == "unlink" or (who == "driver" and (r[0] not in (0, 1) or call in ("brk", "mmap", "munmap"))))
        self.c.count(1, 1, 1)


def check(c):
    r = Runner(c)
    for s in SCEN:
        r.baseline(s)
    # A
    jobs = []
    hows = [("exit", v) for v in ((1, 2, 3, 127, 128, 255) if not c.thorough else range(1, 256))] + [("sig", s) for s in ("HUP", "INT", "QUIT", "ILL", "ABRT", "BUS", "FPE", "KILL", "USR1", "SEGV", "PIPE", "ALRM", "TERM", "XCPU", "SYS")] + [("noexec", "")]
    for scen, st in STAGES.items():
        for pos in range(len(st)):
            for h in hows:
                jobs.append((scen, pos, h))
    pmap(r.stage, jobs)
    c.extra["stage_outcomes"] = len(jobs)
    # B
    jobs = []
    rc, o, e = sh(["strace", "-o", "/dev/null", "true"])
    if rc == 0:
        scens = ["link2", "links", "objo", "asmo", "pre", "dep", "depf", "incl", "prestd"] if not c.thorough else list(SCEN)
        cnt = {}
        for (s, w), n in zip([(s, w) for s in scens for w in ("driver", "cc1")], pmap(lambda x: r.calls(*x), [(s, w) for s in scens for w in ("driver", "cc1")])):
            cnt[s, w] = n
        for (s, w), n in cnt.items():
            for call, k in n.items():
                if call not in ERRS:
                    continue
                for err in ERRS[call]:
                    for i in range(2 if call == "execve" else 1, k + 1):
                        jobs.append((s, w, call, err, i))
        pmap(r.fault, jobs)
        c.extra["system_call_faults"] = len(jobs)
    else:
        c.extra["system_call_faults"] = "strace cannot trace here: " + e.decode(errors="replace")[-100:]
    # C: places that cannot be read or written
    d = os.path.join(c.scratch, "places")
    os.makedirs(os.path.join(d, "dir"))
    for n, t in FILES.items():
        open(os.path.join(d, n), "w").write(t)
    open(os.path.join(d, "err.c"), "w").write("int f(void) { return x; }\n")
    open(os.path.join(d, "old.o"), "w").write("old")
    for args in (["-S", "-o", "/dev/full", "b.c"], ["-E", "-o", "/dev/full", "b.c"], ["-M", "-o", "/dev/full", "b.c"], ["-M", "-MF", "/dev/full", "b.c"], ["-MD", "-MF", "/dev/full", "-c", "-o", "q.o", "b.c"], ["-S", "-o", "dir/no/x.s", "b.c"], ["-E", "-o", "dir/no/x", "b.c"], ["-c", "-o", "dir/no/x.o", "b.c"], ["-o", "dir/no/x", "one.c"], ["-MD", "-MF", "dir/no/x.d", "-c", "b.c"],
                 ["-c", "dir"], ["-E", "dir"], ["-S", "-xc", "dir"], ["-c", "-xc", "dir"], ["-c", "nosuch.c"], ["-o", "p", "nosuch.c"], ["-o", "p", "nosuch.o"], ["-c", "-o", "dir", "b.c"], ["-S", "-o", "dir", "b.c"], ["-E", "-o", "dir", "b.c"], ["-o", "p", "a.c"], ["-c", "err.c"], ["-S", "err.c"], ["-o", "p", "err.c"], ["-o", "p", "one.c", "err.c"], ["-c", "a.c", "err.c"], ["-include", "dir", "-c", "b.c"]):
        rc, o, e = sh([r.toycc] + args, cwd=d)
        left = [n for n in os.listdir(d) if n not in FILES and n not in ("dir", "err.c", "old.o", "a.o") and not (n == "q.o")]
        if rc != 1 or not e:
            c.violation("place/" + " ".join(args), f"rc={rc}, {'no ' if not e else ''}message", " ".join(args))
        elif left:
            c.violation("place/" + " ".join(args), f"leaves {left}", " ".join(args))
        for n in left:
            os.unlink(os.path.join(d, n)) if os.path.isfile(os.path.join(d, n)) else None
        c.count(1, 1, 1)
    for args in (["-E", "b.c"], ["-S", "-o", "-", "b.c"], ["-M", "b.c"]):
        p = subprocess.Popen([r.toycc] + args, cwd=d, stdout=open("/dev/full", "w"), stderr=subprocess.PIPE)
        e = p.communicate()[1]
        if p.returncode != 1 or not e:
            c.violation("place/stdout full/" + " ".join(args), f"rc={p.returncode} with a full standard output", " ".join(args))
        c.count(1, 1, 1)
    c.assumptions += ["the assembler and linker themselves report their failures", "strace's fault injection behaves like the kernel's errors"]


main("C26", check)
