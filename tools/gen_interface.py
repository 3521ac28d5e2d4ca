#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique, note, level="model_checking", observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note, level=level, observe=observe or ["behaviour of the compiled program under qemu-riscv64"]))
REF = "Oracle: the installed riscv64 gcc at -O0 -fwrapv, trusted; "
CG, TY, PA, IN, DE, SC, CO = "codegen.c", "type.c", "parser/parser.c", "parser/initializer.c", "parser/declarator.c", "parser/scope.c", "parser/common.c"
PP, TK, MN, HM, ST = "preprocessor/preprocess.c", "tokenize.c", "main.c", "hashmap.c", "string.c"
exec(open(os.path.join(V, "tools", "properties_table.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(V, "checks", p["id"] + ".py")) and p["id"] not in NOTYET:
        checks.append({"property": p["id"], "quick_cmd": f"python3 checks/{p['id']}.py", "thorough_cmd": f"VERIF_TIER=thorough python3 checks/{p['id']}.py",
                       "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "check under construction")})
json.dump({"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0,'lib'); import vf\"", "checks": checks, "not_applicable": na,
           "notes": "No hooks are needed: every check builds a private copy of /repo's working tree and drives the built compiler. See DESIGN.md."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
