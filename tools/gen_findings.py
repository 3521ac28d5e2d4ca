#!/usr/bin/env python3
"""Writes known_findings.txt: 'known:' lines from tools/known.txt, and one 'fixed:' line per fix commit in /repo.
tools/fixed_map.txt: '<property> <start of commit subject>' per line."""
import os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
m = [l.rstrip("\n").split(" ", 1) for l in open(V + "/tools/fixed_map.txt") if l.strip()]
out = ["# Findings of this verification work in henryZe/toycc.",
       "# known: property=<id> case=<failing input> :: <what fails>   -- suppressed by exactly that case key",
       "# fixed: property=<id> <commit> <what failed>                 -- suppresses nothing"]
kp = V + "/tools/known.txt"
if os.path.exists(kp):
    out += [l.rstrip("\n") for l in open(kp) if l.strip()]
miss = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    p = next((a for a, b in m if s.startswith(b)), None)
    if not p:
        miss.append(s)
    else:
        out.append(f"fixed: property={p} {h} {s}")
open(V + "/known_findings.txt", "w").write("\n".join(out) + "\n")
for s in miss:
    print("UNMAPPED", s)
