"""C30: atomic operations are indivisible and sequentially consistent under every interleaving."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
from threads import Threads, Prog

INT = {"bool": "_Bool", "schar": "signed char", "uchar": "unsigned char", "short": "short", "ushort": "unsigned short",
       "int": "int", "uint": "unsigned", "long": "long", "ulong": "unsigned long"}
FLT = {"float": "float", "double": "double"}
# operations on the atomic object @ (an lvalue); the value of each expression is recorded
OPS = {
 "preinc": "++@", "predec": "--@", "postinc": "@++", "postdec": "@--",
 "add": "@ += 3", "sub": "@ -= 5", "mul": "@ *= 3", "div": "@ /= 2",
 "xchg": "atomic_exchange(&@, 9)", "cas": "({ T e = @; int r = atomic_compare_exchange_strong(&@, &e, 77); r * 1000 + (long)e; })",
 "casloop": "({ T e = @; while (!atomic_compare_exchange_weak(&@, &e, e * 2 + 1)); (long)e; })", "store": "@ = 12", "load": "@",
}
IOPS = {
 "mod": "@ %= 7", "and": "@ &= 0x35", "or": "@ |= 0x48", "xor": "@ ^= 0x7f", "shl": "@ <<= 2", "shr": "@ >>= 1",
 "fadd": "atomic_fetch_add(&@, 4)", "fsub": "atomic_fetch_sub(&@, 6)", "for": "atomic_fetch_or(&@, 0x81)", "fxor": "atomic_fetch_xor(&@, 0x55)", "fand": "atomic_fetch_and_explicit(&@, 0x1e, memory_order_relaxed)",
 "xchge": "atomic_exchange_explicit(&@, 200, memory_order_acquire)", "cass": "({ T e = 20; int r = atomic_compare_exchange_strong_explicit(&@, &e, 5, memory_order_seq_cst, memory_order_relaxed); r * 1000 + (long)e; })",
}
LOC = {
 "global": ("_Atomic T g$;", "g$", ""),
 "member": ("struct S$ { char p; _Atomic T m; char q; } s$;", "s$.m", "s$.p = 1; s$.q = 2;"),
 "array": ("_Atomic T a$[5]; int i$ = 3;", "a$[i$]", "a$[2] = 3; a$[4] = 1;"),
 "pointer": ("_Atomic T o$; _Atomic T *volatile p$;", "(*p$)", "p$ = &o$;"),
}

def atomicity(thorough):
    for tn, t in {**INT, **FLT}.items():
        ops = dict(OPS)
        if tn in INT:
            ops.update(IOPS)
        if tn == "bool":
            ops = {k: v for k, v in ops.items() if k not in ("fadd", "fsub", "for", "fxor", "fand", "predec", "postdec")}   # not defined for bool / gcc differs
        pairs = list(itertools.combinations_with_replacement(ops, 2))
        for (o1, o2) in pairs:
            for ln, (decl, lv, ini) in LOC.items():
                if not thorough and ln != "global" and o1 != o2:
                    continue
                body = lambda o, k: "mt_out[%d] = (long)(%s);" % (k, ops[o].replace("@", lv).replace("T ", t + " "))
                yield Prog(f"{tn} {ln}: {o1} || {o2}", decl.replace("T ", t + " "), ini + f"{lv} = 20;",
                           [body(o1, 0), body(o2, 1)], f"mt_out[2] = {lv}; mt_out[3] = ({lv} * 1000);" + ("mt_out[4] = s$.p * 16 + s$.q;" if ln == "member" else "mt_out[4] = a$[2] * 16 + a$[4];" if ln == "array" else ""), 5)
    # three threads, and two operations in a thread
    for tn in ("schar", "ushort", "int", "long", "double"):
        t = INT.get(tn) or FLT[tn]
        for o in ("preinc", "postinc", "add", "sub", "xchg", "casloop") + (("xor", "fadd") if tn in INT else ()):
            e = {**OPS, **IOPS}[o].replace("@", "g$").replace("T ", t + " ")
            yield Prog(f"{tn} three threads: {o}", f"_Atomic {t} g$;", "g$ = 3;", [f"mt_out[{k}] = (long)({e});" for k in range(3)], "mt_out[3] = g$;", 4)
            yield Prog(f"{tn} two per thread: {o}", f"_Atomic {t} g$;", "g$ = 3;", [f"mt_out[{2*k}] = (long)({e}); mt_out[{2*k+1}] = (long)({e});" for k in range(2)], "mt_out[4] = g$;", 5)
    # pointers
    for n, (e1, e2) in {"inc": ("g$++", "g$++"), "add": ("g$ += 2", "g$ -= 1"), "xchg": ("atomic_exchange(&g$, a$ + 1)", "g$ += 3"), "cas": ("({ int *e = a$ + 4; atomic_compare_exchange_strong(&g$, &e, a$ + 6) ? a$ : e; })", "g$--"),
                        "fadd": ("({ int *e = g$; while (!atomic_compare_exchange_weak(&g$, &e, e + 1)); e; })", "--g$")}.items():
        for dn, d in {"qual": "int a$[16]; int *_Atomic g$;", "spec": "int a$[16]; _Atomic(int *) g$;", "typedef": "int a$[16]; typedef int *P$; _Atomic P$ g$;"}.items():
            yield Prog(f"pointer {dn}: {n}", d, "g$ = a$ + 4;", [f"mt_out[0] = ({e1}) - a$;", f"mt_out[1] = ({e2}) - a$;"], "mt_out[2] = g$ - a$;", 3)
    # every name of the header is an atomic type, and so is every other way to spell one
    NAMES = "bool char schar uchar short ushort int uint long ulong llong ullong char16_t char32_t wchar_t int_least8_t uint_least8_t int_least16_t uint_least16_t int_least32_t uint_least32_t int_least64_t uint_least64_t int_fast8_t uint_fast8_t int_fast16_t uint_fast16_t int_fast32_t uint_fast32_t int_fast64_t uint_fast64_t intptr_t uintptr_t size_t ptrdiff_t intmax_t uintmax_t".split()
    SP = {f"atomic_{n}": f"atomic_{n} g$;" for n in NAMES}
    SP.update({"after": "int _Atomic g$;", "paren": "_Atomic(short) g$;", "static": "static _Atomic unsigned char g$;", "volatile": "volatile _Atomic int g$;", "const typedef": "typedef _Atomic long T$; T$ g$;", "typeof": "_Atomic int h$; typeof(h$) g$;", "middle": "unsigned _Atomic long g$;", "twice": "_Atomic _Atomic int g$;", "paren typedef": "typedef unsigned short U$; _Atomic(U$) g$;", "extern": "extern _Atomic int g$; _Atomic int g$;", "array typedef": "typedef _Atomic int A$[2]; A$ a$;", "union": "union { _Atomic int m; char c; } u$;", "struct typedef": "typedef struct { char x; atomic_int m; } S$; S$ u$;", "enum": "enum E$ { Z$, Y$ = 1000 }; _Atomic enum E$ g$;"})
    for n, d in SP.items():
        lv = "a$[1]" if n == "array typedef" else "u$.m" if n in ("union", "struct typedef") else "g$"
        for o, (e1, e2) in {"inc": ("++@", "@++"), "add": ("@ += 3", "@ += 5"), "sub": ("@ -= 1", "@ -= 2"), "xor": ("@ ^= 1", "@ ^= 2")}.items():
            if n == "atomic_bool" and o == "sub":
                continue
            yield Prog(f"name {n}: {o}", d, f"{lv} = {0 if 'bool' in n else 20};", [f"mt_out[0] = (long)({e1});".replace("@", lv), f"mt_out[1] = (long)({e2});".replace("@", lv)], f"mt_out[2] = {lv};", 3)
    # a neighbour in the same word is written at the same time by plain stores
    for tn in ("bool", "schar", "uchar", "short", "ushort"):
        t = INT[tn]
        for o in OPS:
            if tn == "bool" and o in ("predec", "postdec"):
                continue
            for pos in range(4 if tn in ("bool", "schar", "uchar") else 2):
                n = 4 if "char" in tn or tn == "bool" else 2
                for other in range(n):
                    if other == pos:
                        continue
                    mem = "".join(f"{'_Atomic ' if k == pos else ''}{t} m{k}; " for k in range(n))
                    e = OPS[o].replace("@", f"s$.m{pos}").replace("T ", t + " ")
                    yield Prog(f"neighbour {tn} {o} at {pos}, plain store at {other}", "struct S$ { %s} s$;" % mem, f"s$.m{pos} = 20;",
                               [f"mt_out[0] = (long)({e});", f"s$.m{other} = 1;"], " ".join(f"mt_out[{k+1}] = s$.m{k};" for k in range(n)), 5)
    # operands that are themselves calls or atomic operations
    for n, e in {"nested": "g$ += h$++", "call": "g$ += f$()", "fetchnest": "atomic_fetch_add(&g$, atomic_fetch_add(&h$, 2))", "xchgnest": "atomic_exchange(&g$, atomic_exchange(&h$, 6))",
                 "casnest": "({ int e = 4, r = atomic_compare_exchange_strong((f$(), &g$), (f$(), &e), f$() + h$); r * 100 + e; })", "cond": "g$ += h$ ? ++h$ : --h$", "addr": "*(f$(), &g$) -= 2"}.items():
        yield Prog(f"operands: {n}", "_Atomic int g$, h$; int f$(void) { long a[4] = {1,2,3,4}; int s = 0; for (int i = 0; i < 4; i++) s += a[i] * 3; return s + (h$ & 1); }", "g$ = 4; h$ = 1;",
                   [f"mt_out[0] = {e};", f"mt_out[1] = {e};"], "mt_out[2] = g$; mt_out[3] = h$;", 4)

WR = {"assign": "@ = V", "store": "atomic_store(&@, V)", "xchg": "atomic_exchange(&@, V)", "fadd": "atomic_fetch_add(&@, V)", "plus": "@ += V", "cas": "({ T e = 0; atomic_compare_exchange_strong(&@, &e, V); })"}
RD = {"read": "@", "load": "atomic_load(&@)", "fadd0": "atomic_fetch_add(&@, 0)", "cas": "({ T e = 100; atomic_compare_exchange_strong(&@, &e, 101); e; })"}

def litmus(thorough):
    types = {"int": "int", "uchar": "unsigned char", "long": "long"}
    if thorough:
        types["short"] = "short"
    for tn, t in types.items():
        loc = lambda v: f"(*(_Atomic {t} *)&mt_weak[{v}])"
        for (wn, w), (rn, r) in itertools.product(WR.items(), RD.items()):
            W = lambda v, x=1: w.replace("@", loc(v)).replace("V", str(x)).replace("T ", t + " ") + ";"
            R = lambda v, k: f"mt_out[{k}] = {r.replace('@', loc(v)).replace('T ', t + ' ')};"
            tests = {
             "SB": ([W(0) + R(1, 0), W(1) + R(0, 1)], 2),
             "MP": ([W(0) + W(1), R(1, 0) + R(0, 1)], 2),
             "LB": ([R(0, 0) + W(1), R(1, 1) + W(0)], 2),
             "S": ([W(0, 2) + W(1), R(1, 0) + W(0)], 1), "R": ([W(0) + W(1), W(1, 2) + R(0, 0)], 1),
             "CoRR": ([W(0), R(0, 0) + R(0, 1)], 2), "CoRW": ([R(0, 0) + W(0), W(0, 2)], 1),
             "MPdata": (["mt_weak[2] = 7;" + W(0), R(0, 0) + "mt_out[1] = mt_out[0] ? mt_weak[2] : 7;"], 2),
            }
            if tn == "int" or thorough:
                tests["WRC"] = ([W(0), R(0, 0) + W(1), R(1, 1) + R(0, 2)], 3)
                if wn in ("assign", "xchg") and rn in ("read", "load"):
                    tests["IRIW"] = ([W(0), W(1), R(0, 0) + R(1, 1), R(1, 2) + R(0, 3)], 4)
                    tests["3.SB"] = ([W(0) + R(1, 0), W(1) + R(2, 1), W(2) + R(0, 2)], 3)
            for k, (th, n) in tests.items():
                yield Prog(f"litmus {tn} {k}: {wn}/{rn}", "", "", th, f"mt_out[{n}] = {loc(0)} * 16 + {loc(1)};", n + 1, weak=True)
        # fences between plain (relaxed) accesses
        P = lambda v, x=1: f"*({t} volatile *)&mt_weak[{v}] = {x};"
        Q = lambda v, k: f"mt_out[{k}] = *({t} volatile *)&mt_weak[{v}];"
        F = "atomic_thread_fence(memory_order_seq_cst);"
        yield Prog(f"litmus {tn} fence SB", "", "", [P(0) + F + Q(1, 0), P(1) + F + Q(0, 1)], "", 2, weak=True)
        yield Prog(f"litmus {tn} fence MP", "", "", [P(0) + F + P(1), Q(1, 0) + F + Q(0, 1)], "", 2, weak=True)
    # locks protecting plain data
    cnt = "mt_weak[1]"
    for n, (lock, unlock) in {
      "flag": ("while (atomic_flag_test_and_set(L)) ;", "atomic_flag_clear(L);"), "flagx": ("while (atomic_flag_test_and_set_explicit(L, memory_order_acquire)) ;", "atomic_flag_clear_explicit(L, memory_order_release);"),
      "xchg": ("while (atomic_exchange(L, 1)) ;", "*L = 0;"), "cas": ("for (_Bool e = 0; !atomic_compare_exchange_weak(L, &e, 1); e = 0) ;", "atomic_store(L, 0);")}.items():
        for th, k in ((2, 1), (2, 2), (3, 1)):
            lt = "atomic_flag" if n.startswith("flag") else "atomic_bool"
            body = f"{lt} *L = ({lt} *)&mt_weak[0]; for (int i = 0; i < {k}; i++) {{ {lock} long v = {cnt}; {cnt} = v + 1; mt_weak[2] = mt_weak[2] + 10; {unlock} }}"
            yield Prog(f"lock {n}: {th} threads x {k}", "", "", [body] * th, f"mt_out[0] = {cnt}; mt_out[1] = mt_weak[2]; mt_out[2] = *(char *)&mt_weak[0];", 3, weak=True)
    # Dekker / Peterson
    for tn, t in (("int", "int"), ("uchar", "unsigned char")):
        l = lambda v: f"(*(_Atomic {t} *)&mt_weak[{v}])"
        th = [f"{l(me)} = 1; {l(2)} = {1-me}; while ({l(1-me)} && {l(2)} == {1-me}) ; mt_weak[4] = mt_weak[4] + 1; {l(me)} = 0;" for me in (0, 1)]
        yield Prog(f"Peterson lock {tn}", "", "", th, "mt_out[0] = mt_weak[4];", 1, weak=True)

SEQ = PRELUDE + "#include <stdatomic.h>\n"
def sequential():
    vals = {"bool": [0, 1], "schar": [-128, -1, 0, 5, 127], "uchar": [0, 1, 128, 255], "short": [-32768, -1, 0, 7, 32767], "ushort": [0, 1, 40000, 65535],
            "int": [-2147483648, -1, 0, 9, 2147483647], "uint": [0, 1, 3000000000, 4294967295], "long": [-2**63, -1, 0, 11, 2**31, 2**40 + 5, 2**63 - 1], "ulong": [0, 2**40, 2**63, 2**64 - 1],
            "float": [0, 1.5, -7], "double": [0, 1.5, -7, 1e10]}
    lit = lambda v: str(v) if isinstance(v, float) else f"({v}ULL)" if v >= 2**31 else f"({v+1}LL-1)" if v < 0 else str(v)
    for tn, t in {**INT, **FLT}.items():
        ops = dict(OPS)
        if tn in INT:
            ops.update(IOPS)
        ex = "OD" if tn in FLT else "O"
        for o, e in ops.items():
            if tn == "bool" and o in ("fadd", "fsub", "for", "fxor", "fand", "predec", "postdec"):
                continue
            for ln, (decl, lv, ini) in LOC.items():
                b = ini
                for v in vals[tn]:
                    b += f"{lv} = {lit(v)}; {ex}({e.replace('@', lv).replace('T ', t + ' ')}); {ex}({lv});"
                yield Case(f"seq {tn} {ln} {o}", b, decl.replace("T ", t + " "), steps=len(vals[tn]))
            yield Case(f"seq {tn} local {o}", "_Atomic %s x; long guard = 3; " % t + "".join(f"x = {lit(v)}; {ex}({e.replace('@', 'x').replace('T ', t + ' ')}); {ex}(x); O(guard);" for v in vals[tn]), "", steps=len(vals[tn]))
        for v, w in itertools.product(vals[tn], repeat=2):
            yield Case(f"seq {tn} cas {v} {w}", f"_Atomic {t} x = {lit(v)}; {t} e = {lit(w)}; O(atomic_compare_exchange_strong(&x, &e, 1)); {ex}(x); {ex}(e);")
            yield Case(f"seq {tn} exchange {v} {w}", f"struct {{ char a; _Atomic {t} x; char b; }} s = {{3, {lit(v)}, 4}}; {ex}(atomic_exchange(&s.x, {lit(w)})); {ex}(s.x); O(s.a); O(s.b);")
    for td in "bool char schar uchar short ushort int uint long ulong llong ullong char16_t char32_t wchar_t int_least8_t uint_least8_t int_least16_t uint_least16_t int_least32_t uint_least32_t int_least64_t uint_least64_t intptr_t uintptr_t size_t ptrdiff_t intmax_t uintmax_t".split():
        if td == "wchar_t":
            continue
        yield Case(f"seq typedef atomic_{td}", f"atomic_{td} x = -1; O(sizeof x); O(x); x++; O(x); x -= 7; O(x); O(atomic_is_lock_free(&x) != 0);")
    yield Case("seq names", "atomic_flag f = ATOMIC_FLAG_INIT; O(atomic_flag_test_and_set(&f)); O(atomic_flag_test_and_set(&f)); atomic_flag_clear(&f); O(atomic_flag_test_and_set(&f)); atomic_int i = ATOMIC_VAR_INIT(5); O(i); atomic_init(&i, 6); O(atomic_load_explicit(&i, memory_order_acquire)); atomic_store_explicit(&i, 9, memory_order_release); O(i); memory_order m = memory_order_seq_cst; O(m == memory_order_seq_cst); atomic_signal_fence(m); atomic_thread_fence(m); O(kill_dependency(i));")

def body(c):
    Diff(c, prelude=SEQ).run(sequential())
    t = Threads(c)
    t.run(atomicity(c.thorough))
    t.run(litmus(c.thorough))
    c.extra["bounds"] = "all pairs of 26 atomic operations over 11 types in two threads (each operation with itself through members, arrays and pointers), three threads, two operations per thread, neighbours in the same word; litmus shapes SB MP LB S R WRC IRIW 3.SB CoRR x 6 ways to write x 4 ways to read x 3 types under weak memory; locks; every interleaving of shared accesses with up to 1 spurious store-conditional failure per thread"
    c.assumptions = ["the set of outcomes of gcc's code under sequential consistency is the set C allows for these programs (all are data-race free except the fence litmus tests)",
                     "weak memory is a view machine whose behaviours are a subset of RVWMO without load-to-store reordering"]
main("C30", body)
