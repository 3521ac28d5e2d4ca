"""C14: generated code keeps the machine-level contract: stack, callee-saved registers, nothing uninitialised."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
import machine
from machine import Machine, families

PRE = PRELUDE + """
typedef unsigned long size_t; void *alloca(size_t);
long f1(long a); long f2(long a, long b); long f9(long a, long b, long c, long d, long e, long f, long g, long h, long i);
double fd(double a, double b); float ff(float a, float b);
struct S3 { long a, b, c; }; struct S3 s3(long a); long us3(struct S3 s, long b); long vf(int n, ...);
"""
HELP = """
#include <stdarg.h>
void O(long); void OD(double); void OF(float);
long f1(long a) { O(a); return a + 1; }
long f2(long a, long b) { O(a); O(b); return a * 3 + b; }
long f9(long a, long b, long c, long d, long e, long f, long g, long h, long i) { O(a); O(e); O(h); O(i); return a + b + c + d + e + f + g + h * 2 + i * 3; }
double fd(double a, double b) { OD(a); return a - b; }
float ff(float a, float b) { OF(a); return a - b; }
struct S3 { long a, b, c; }; struct S3 s3(long a) { struct S3 s = {a, a + 1, a + 2}; O(a); return s; }
long us3(struct S3 s, long b) { O(s.a); O(s.c); return s.a + s.b * 2 + s.c * 3 + b; }
long vf(int n, ...) { va_list ap; va_start(ap, n); long r = 0; for (int i = 0; i < n; i++) r = r * 3 + va_arg(ap, long); O(r); return r; }
"""
# expressions with the hole @ evaluated while temporaries are pending
CTX = {
 "add": "x = 5 + @", "addl": "x = @ + 5", "cmp": "x = y < @", "mul3": "x = y * (3 + (7 - @))", "assign": "a[i] = @", "asgadd": "a[i] += @",
 "call1": "x = f1(@)", "call2a": "x = f2(@, 4)", "call2b": "x = f2(4, @)", "callnest": "x = f2(f1(2), f2(@, 3))", "call9": "x = f9(1,2,3,4,5,6,7,8,@)",
 "call9a": "x = f9(@,2,3,4,5,6,7,8,f1(9))", "fcall": "d = fd(1.5, @)", "fadd": "d = d + (1.5 - @)", "ffc": "g = ff(g, @)", "structarg": "x = us3(s3(1), @)",
 "structarg2": "x = us3(s3(@), 3)", "vararg": "x = vf(3, 1L, (long)@, 2L)", "index": "x = a[@]", "cond": "x = y ? @ : 3", "logic": "x = 1 + (y && @)", "comma": "x = 1 + (y, @)",
 "shift": "x = 1 << (@)", "deref": "x = 2 + *(a + @)", "member": "x = 1 + (s3(@).b)", "ld": "q = q + (1.25L * @)", "bf": "b.m = 2 + @", "neg": "x = 1 - -(1 + @)",
 "div": "x = 100 / (1 + @)", "ret": "return x + @",
}
JUMPS = {"goto": "if (k == 1) goto out;", "break": "if (k == 1) break;", "continue": "if (k == 1) continue;", "return": "if (k == 1) return 77;", "none": "",
         "gotoin": "if (k == 1) goto in; y++; in: y += 2;", "inner": "for (int j = 0; j < 3; j++) { if (j == k) break; if (j > k) continue; f1(j); }", "switch": "switch (k) { case 1: break; case 2: f1(5); default: f1(6); }",
         "cgoto": "void *p = k == 1 ? &&out : &&on; goto *p; on: f1(2);"}
PRES = {"none": "", "alloca": "char *al = alloca(8 * k + 9); al[0] = k; al[8 * k + 8] = 3;", "call": "f2(k, 2);", "vla": "char vl[k + 1]; vl[k] = 7;"}

def own():
    for (cn, ce), (jn, j), (pn, p) in itertools.product(CTX.items(), JUMPS.items(), PRES.items()):
        hole = "({ %s %s f1(k); })" % (p, j)
        loop = "for (k = 0; k < 3; k++) { %s; O(x); OD(d); f9(1,2,3,4,5,6,7,8,9); }" % ce.replace("@", hole)
        fn = "long t$(void) { long x = 1, y = 2, a[8] = {0}, i = 1; int k; double d = 0.5; float g = 0.25; long double q = 1; struct { int m : 20, n : 12; } b = {1, 2}; %s out: f2(x, y); f1(b.m); OD(q); OF(g); vf(2, x, y); return x + y; }" % loop
        yield Case(f"pending {cn} / {jn} / {pn}", "O(t$());", fn, steps=10)
    # many iterations of a jump out of a pending expression: the stack must not grow
    for (cn, ce), jn in itertools.product(CTX.items(), ("goto", "continue")):
        if cn == "ret": continue
        hole = "({ if (k >= 0) %s; 4; })" % ("goto again" if jn == "goto" else "continue")
        fn = "long t$(void) { long x = 1, y = 2, a[8] = {0}, i = 1; int k; double d = 0.5; float g = 0.25; long double q = 1; struct { int m : 20, n : 12; } b = {1, 2}; for (k = 0; k < 300000; k++) { again: if (++k > 300000) return x; %s; } return x; }" % ce.replace("@", hole)
        yield Case(f"stack growth {cn} / {jn}", "O(t$());", fn, steps=300000)

# thread-local and global objects as operands: in position-independent code their addresses come from calls and tables
TLSPRE = """
static _Thread_local long tl; _Thread_local int tg; static _Thread_local long ta[4]; static _Thread_local double td; static _Thread_local struct { long a; int m : 20, n : 12; } ts;
long gx; static long gs[4]; extern long gx; static long tcall(long a, long b) { tl += a; return tl - b; }
"""
HOLES = {"tl": "tl", "set": "(tl = k)", "inc": "tl++", "elem": "ta[k]", "setelem": "(ta[k] = tl)", "addr": "(&ta[1])[k]", "member": "ts.a", "bits": "(ts.m += 3)", "int": "tg--", "double": "(long)(td += 0.5)", "glob": "gx++", "stat": "(gs[k] += tl)", "call": "f1(tl)", "own": "tcall(tl, tg)", "two": "(tl + (tg + (ta[1] - (tl * ts.n))))", "fn": "(tl ? tcall : f2)(tl, gx)", "cond": "(tl ? tg : ts.a)"}

def tls():
    dst = {"keep": "x", "tl": "tl", "ta": "ta[tl & 3]", "gx": "gx", "ts": "ts.n"}
    for (cn, ce), (hn, h), (dn, d) in itertools.product(CTX.items(), HOLES.items(), dst.items()):
        if dn != "keep" and not ce.startswith("x = "): continue
        e = d + ce[1:] if ce.startswith("x = ") else ce
        e = e.replace("@", h)
        fn = "long t$(void) { long x = 1, y = 2, a[64] = {0}, i = 1; int k; double d = 0.5; float g = 0.25; long double q = 1; struct { int m : 20, n : 12; } b = {1, 2}; tl = 1; tg = 2; td = 1; ts.a = 3; ts.m = 1; ts.n = 2; gx = 4; for (k = 0; k < 4; k++) ta[k] = gs[k] = k; for (k = 0; k < 2; k++) { %s; O(x); OD(d); O(tl); O(tg); O(ts.a + ts.m + ts.n); O(gx); OD(td); O(ta[0] + ta[1] * 2 + ta[2] * 4); } f1(b.m); OD(q); OF(g); return x; }" % e
        yield Case(f"thread-local {cn} / {hn} / {dn}", "O(t$());", fn, steps=20)

class Own(Machine):
    tag = "own: "

class Tls(Machine):
    tag = "thread-local: "

class Pic(Machine):
    tag = "pic: "

def body(c):
    m = Own(c, prelude=PRE, helper=HELP)
    m.run(own())
    Tls(c, prelude=PRE + TLSPRE, helper=HELP).run(tls())
    Pic(c, prelude=PRE + TLSPRE, helper=HELP, toycc_flags=["-fPIC"]).run(itertools.chain(tls(), (k for k in own() if "growth" not in k.key)))
    Machine.select = lambda i, k: not k.key.startswith("libc")
    families(c, os.environ.get("FAM", "C01 C03 C08 C10 C11 C12 C13 C15").split())
    c.extra.pop("bound", None)
    c.extra["bounds"] = "30 pending-operand contexts x 9 jump forms x 4 allocation forms, stack growth over 300000 jumps, the contexts x 17 operands in thread-local and global objects x 5 destinations, with and without -fPIC, and every program of the families of C01 C03 C08 C10 C11 C12 C13 C15; each under 3 fill patterns of all undefined registers and stack bytes; up to 10^8 instructions per run"
    c.assumptions = ["lib/rvmc.c models RV64GC; part of every family is replayed under qemu-riscv64 and must agree",
                     "helpers playing the platform's functions overwrite every caller-saved register and all memory below sp"]
main("C14", body)
