"""C19: the tables of names behave as maps for every history of insertions, removals and lookups."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
from pp import *


def fnv(s):
    h = 0xcbf29ce484222325
    for ch in s.encode():
        h = (h * 0x100000001b3) & (1 << 64) - 1
        h ^= ch
    return h


def colliding(n, bits=14, off=0):
    """identifiers that fall into one bucket (+ off) of every table of at most 2**bits buckets"""
    seen = {}
    for t in itertools.product("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789", repeat=3):
        s = "".join(t)
        if s[0].isdigit():
            continue
        l = seen.setdefault(fnv(s) & (1 << bits) - 1, [])
        l.append(s)
        if len(l) == n:
            return l
    raise RuntimeError("no colliding names")


def histories(names, depth):
    """every history of #define NAME 1 / #define NAME 2 / #undef NAME, observed after its last step (its prefixes are histories too)"""
    ops = [(o, k) for k in range(len(names)) for o in "12u"]
    for n in range(1, depth + 1):
        for h in itertools.product(ops, repeat=n):
            lines = []
            for o, k in h:
                lines.append(f"#undef {names[k]}" if o == "u" else f"#define {names[k]} {o}{k}")
            obs = " ".join(names) + "\n" + "\n".join(f"#ifdef {x}\nY{i}\n#else\nN{i}\n#endif" for i, x in enumerate(names))
            # a second definition with another body is a constraint violation for gcc unless undefined first: what is expected is computed
            val = {}
            for o, k in h:
                val[k] = None if o == "u" else f"{o}{k}"
            want = [val.get(i) or x for i, x in enumerate(names)] + [f"{'Y' if val.get(i) else 'N'}{i}" for i in range(len(names))]
            yield h, "\n".join(lines), obs, want


def check(c):
    exe = c.build()
    # 1. the table itself
    src = c.tree()
    hm = os.path.join(c.scratch, "hm")
    # linked with everything but toycc's own main function, so that the table may use what it likes
    objs = []
    for dd, _, ns in os.walk(os.path.join(src, "output")):
        objs += [os.path.join(dd, n) for n in ns if n.endswith(".o")]
    objs = [x for x in objs if os.path.dirname(os.path.relpath(x, os.path.join(src, "output"))) in ("", "parser", "preprocessor")]
    mo = os.path.join(c.scratch, "notmain.o")
    rc = 1
    for x in list(objs):
        if os.path.basename(x) == "main.o":
            rc, o, e = sh(["objcopy", "--redefine-sym", "main=toycc_main", x, mo])
            objs[objs.index(x)] = mo
    if rc == 0:
        rc, o, e = sh(["gcc", "-O1", "-w", "-I" + src, "-o", hm, os.path.join(VERIF, "lib", "hashmc.c")] + objs)
    if rc == 0:
        depth, keys, last = (6, 3, 26) if not c.thorough else (7, 3, 50)
        jobs = [(depth, keys, f, f) for f in range(0, last + 1)] + [(5, 4, f, f) for f in range(0, last + 1, 1 if c.thorough else 4)] + ([(6, 4, f, f) for f in range(0, 27)] if c.thorough else [])

        def one(j):
            rc, o, e = sh([hm] + [str(x) for x in j], timeout=800 if not c.thorough else 8000)
            m = re.search(r"DONE (\d+) (\d+)", o.decode())
            if m:
                c.count(states=int(m[1]), transitions=int(m[2]), traces=int(m[1]))
            elif rc == 3:
                c.violation("table/" + o.decode().strip()[:150], o.decode().strip(), f"lib/hashmc.c {' '.join(map(str, j))} linked with /repo/hashmap.c\n" + o.decode())
            else:
                c.violation(f"table/crash/{j}", f"the table crashed or did not return (rc={rc}) while exploring histories {j}", f"lib/hashmc.c {' '.join(map(str, j))} linked with /repo/hashmap.c\n" + o.decode() + e.decode())
        pmap(one, jobs)
        c.extra["table"] = f"all histories of {depth} operations on {keys} colliding keys, starting from 0..{last} other entries"
    else:
        c.extra["table"] = "the table has another interface: only explored through the preprocessor"
    # 2. the macro table, through #define and #undef
    d = PPDiff(c)
    ks = []
    for names, depth in ((colliding(3), 4), (colliding(2), 6 if not c.thorough else 7)):
        for h, pre, obs, want in histories(names, depth):
            key = "".join(f"{o}{k}" for o, k in h)
            ks.append(PPCase(f"macro/{len(names)}/{key}", pre, obs, "\n".join("#undef " + x for x in names), None, len(h)))
    d.run(ks)
    # 3. many macros: fills that make the table grow, every one of them removed and looked up
    for n in (10, 50, 200, 1000, 5000):
        txt = "\n".join(f"#define n{i} v{i}" for i in range(n))
        for step in (1, 2, 3, 7):
            rm = "\n".join(f"#undef n{i}" for i in range(0, n, step))
            again = "\n".join(f"#define n{i} w{i}" for i in range(0, n, 2 * step))
            allnames = " ".join(f"n{i}" for i in range(n))
            d.run([PPCase(f"many/{n}/{step}", txt + "\n" + rm + "\n" + again, allnames, "\n".join(f"#undef n{i}" for i in range(n)), None, n)])
    c.assumptions += ["the histories on the table use the interface in hashmap.h", "gcc -E is right about #define and #undef histories"]


main("C19", check)
