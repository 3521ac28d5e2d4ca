#!/usr/bin/env python3
"""Generate /verif/seeded/<id>/ from tools/seeds.py against /repo's HEAD and confirm each planted bug in a scratch
copy: it applies, builds, passes the stable tests, and its demo passes without and fails with it.
usage: mkseed.py [-n] [-j JOBS] [id ...]     (-n: regenerate the files only, no confirmation)"""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from seeds import SEEDS

DEMO_C = '''#!/bin/bash
# compiles the program beside this script with the compiler under test and runs it: it exits 0 when C is obeyed
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 99
trap 'rm -rf "$w"' EXIT
timeout 60 ./output/toycc -c "$here/demo.c" -o "$w/demo.o" || exit 1
%sriscv64-linux-gnu-gcc -static "$w/demo.o" %s-o "$w/demo" -lm -lpthread || exit 1
timeout 60 qemu-riscv64 -L /usr/riscv64-linux-gnu/ "$w/demo"
'''
DEMO_SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
T=$PWD/output/toycc
w=$(mktemp -d) || exit 99
trap 'rm -rf "$w"' EXIT
cd "$w" || exit 99
%s
'''

def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)

def gen(s):
    d = os.path.join(V, "seeded", s["id"])
    shutil.rmtree(d, True); os.makedirs(d)
    wt = tempfile.mkdtemp(prefix="seed-")
    try:
        r = os.path.join(wt, "r")
        sh(["git", "clone", "-q", "/repo", r], check=True)
        for f, old, new in s["edits"]:
            p = os.path.join(r, f); t = open(p).read()
            if t.count(old) != 1:
                return f"{s['id']}: {f}: text occurs {t.count(old)} times: {old[:60]!r}"
            open(p, "w").write(t.replace(old, new))
        diff = sh(["git", "-C", r, "diff"]).stdout
        root = sh(["git", "-C", r, "rev-list", "--max-parents=0", "HEAD"]).stdout.strip()
        for f in {e[0] for e in s["edits"]}:
            gone = [int(x) for x in sh(f"diff --old-line-format='%dn ' --unchanged-line-format='' --new-line-format='' <(git -C {r} show HEAD:{f}) {r}/{f}", shell=True, executable="/bin/bash").stdout.split()]
            for ln in gone:
                b = sh(["git", "-C", r, "blame", "-l", "-s", "-L", f"{ln},{ln}", "HEAD", "--", f]).stdout
                if root[:30] not in b: print(f"  note {s['id']}: {f}:{ln} is not an original line")
    finally:
        shutil.rmtree(wt, True)
    open(d + "/patch.diff", "w").write(diff)
    if "demo_c" in s:
        open(d + "/demo.c", "w").write(s["demo_c"])
        h1 = h2 = ""
        if "peer_c" in s:
            open(d + "/peer.c", "w").write(s["peer_c"])
            h1 = 'riscv64-linux-gnu-gcc -O0 -w -c "$here/peer.c" -o "$w/peer.o" || exit 1\n'; h2 = '"$w/peer.o" '
        t = DEMO_C % (h1, h2)
    else:
        t = DEMO_SH % s["demo_sh"]
        for n, x in s.get("files", {}).items():
            open(os.path.join(d, n), "w").write(x)
    open(d + "/demo.sh", "w").write(t); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    return None

def confirm(s):
    d = os.path.join(V, "seeded", s["id"])
    wt = tempfile.mkdtemp(prefix="seed-")
    try:
        r = os.path.join(wt, "repo")
        sh(["git", "clone", "-q", "/repo", r], check=True)
        for n in ("build.sh", "test.sh"):
            t = open("/opt/vp/" + n).read().replace("/opt/vp/build.sh", wt + "/build.sh")
            open(os.path.join(wt, n), "w").write(t.replace("cd /repo", "cd " + r))
        dd = os.path.join(wt, "demo"); shutil.copytree(d, dd)
        def build(): return sh(["bash", wt + "/build.sh"])
        def demo():
            try: return sh(["bash", dd + "/demo.sh"], cwd=r, timeout=300)
            except subprocess.TimeoutExpired: return None
        b = build()
        if b.returncode: return f"{s['id']}: clean build failed"
        x = demo()
        if x is None or x.returncode: return f"{s['id']}: demo fails on the clean tree: {x and (x.stdout + x.stderr)[-400:]}"
        a = sh(["git", "-C", r, "apply", d + "/patch.diff"])
        if a.returncode: return f"{s['id']}: does not apply {a.stderr}"
        b = build()
        if b.returncode: return f"{s['id']}: build failed {b.stderr[-500:]}"
        x = demo()
        if x is not None and x.returncode == 0: return f"{s['id']}: demo passes with the bug"
        sh(["bash", wt + "/test.sh", wt + "/res.json"])
        base = json.load(open("/opt/vp/BASELINE.json")); res = json.load(open(wt + "/res.json"))
        def ps(x):
            for k in ("stable", "passed", "tests"):
                if k in x:
                    v = x[k]
                    return set(v) if isinstance(v, list) else {a for a, c in v.items() if c in ("PASS", "passed", True)}
        m = ps(base) - ps(res)
        if m: return f"{s['id']}: breaks {len(m)} stable tests: {sorted(m)[:5]}"
        return f"{s['id']}: ok"
    finally:
        shutil.rmtree(wt, True)

def main():
    a = sys.argv[1:]; n = "-n" in a; a = [x for x in a if x != "-n"]
    j = 3
    if "-j" in a: i = a.index("-j"); j = int(a[i + 1]); del a[i:i + 2]
    ss = [s for s in SEEDS if not a or s["id"] in a]
    def work(s):
        e = gen(s)
        return e or (s["id"] + ": generated" if n else confirm(s))
    with cf.ThreadPoolExecutor(j) as ex:
        for m in ex.map(work, ss): print(m, flush=True)
main()
