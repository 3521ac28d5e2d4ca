"""Runs the compiler proper in-process on large numbers of inputs (lib/inproc.c): every input in a child of its own."""
import glob, os, shutil, struct, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf

# the undefined behaviours that end in a crash or a wild access; arithmetic wrap-around is left alone
UBSAN = "-fsanitize=null,bounds,object-size,return,unreachable,integer-divide-by-zero,vla-bound -fno-sanitize-recover=all"
ASAN = "-fsanitize=address," + UBSAN[len("-fsanitize="):]


class InProc:
    def __init__(self, c, flags, name):
        """builds the current tree with its main renamed, linked with the harness"""
        self.c = c
        d = c.tree("ip-" + name)
        rc, o, e = vf.sh(["make", "-k", "-j8", f"CC=gcc -O1 -g1 {flags} -Dmain=toycc_main", "output/toycc"], cwd=d, timeout=600)
        objs = [os.path.join(r, f) for r, _, fs in os.walk(os.path.join(d, "output")) for f in fs if f.endswith(".o")]
        self.exe = os.path.join(d, "inproc")
        rc, o2, e2 = vf.sh(["gcc", "-g1"] + flags.split() + [os.path.join(vf.VERIF, "lib", "inproc.c")] + objs + ["-o", self.exe], timeout=300)
        if rc != 0:
            sys.stderr.write((o + e + o2 + e2).decode(errors="replace")[-4000:])
            raise RuntimeError("building the in-process harness failed")
        shutil.copytree(os.path.join(d, "include"), os.path.join(d, "output", "include"), dirs_exist_ok=True)
        self.dir, self.n = d, 0
        self.args = ["toycc", "-S", "-o", "/dev/null", "-cc1", "-cc1-input", "@", "-cc1-output", "/dev/null", "@"]
        a = self.run([b"int x;\n", b"int x = ;\n"])
        if not (a[0][0] == 0 and a[1][0] == 1 and a[1][1]):   # the internal interface changed: go through the driver
            self.real = c.build("real-" + name, cc=f"gcc -O1 -g1 {flags}")
            self.args = [self.real, "-S", "-o", "/dev/null", "@"]

    def run(self, cases, limit=5, args=None):
        """[(status, stderr text)]; status is -signal for a signal; 98/99 are sanitizer reports"""
        cases = [x.encode("latin1") if isinstance(x, str) else x for x in cases]
        n = max(1, min(vf.JOBS, len(cases)))
        self.n += 1
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=4000:detect_stack_use_after_return=0",
                   UBSAN_OPTIONS="halt_on_error=1:exitcode=98:print_stacktrace=1")

        def one(k):
            part = cases[k::n]
            b = os.path.join(self.dir, f"r{self.n}-{k}")
            with open(b + ".in", "wb") as f:
                for d in part:
                    f.write(struct.pack("<I", len(d)) + d)
            subprocess.run([self.exe, b + ".in", b + ".out", b + ".c", str(limit)] + list(args or self.args), env=env, check=True,
                           stdin=subprocess.DEVNULL, cwd=self.dir)
            d = open(b + ".out", "rb").read()
            r, i = [], 0
            while i < len(d):
                ln, = struct.unpack_from("<I", d, i)
                st, _, m = d[i + 4:i + 4 + ln].partition(b" ")
                r.append((int(st), m.decode(errors="replace")))
                i += 4 + ln
            for x in (".in", ".out", ".c", ".c.err"):
                os.unlink(b + x)
            if len(r) != len(part):
                raise RuntimeError("in-process run ended early")
            return r
        res = [None] * len(cases)
        for k, r in enumerate(vf.pmap(one, range(n))):
            res[k::n] = r
        return res
