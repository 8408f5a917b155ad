#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py."""
import json, os
from props import PROPS, NOT_APPLICABLE
here = os.path.dirname(os.path.abspath(__file__))
TECH = "symbolic execution of the Go SSA of /repo with an SMT solver (z3), bounded; counterexamples replayed natively"
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")
na = {n["property"] for n in NOT_APPLICABLE}
m = {
    "version": 1,
    "setup_cmd": "./build.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "./check.sh %s quick" % p["id"],
        "thorough_cmd": "./check.sh %s thorough" % p["id"],
        "technique": p.get("tech", TECH),
        "level": "model_checking",
        "level_note": p["note"],
    } for p in PROPS if p["id"] not in na],
    "not_applicable": NOT_APPLICABLE,
    "notes": "No hooks in /repo: harnesses are compiled into the packages through an overlay. Known findings: known-findings.txt.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]

# DESIGN.md from DESIGN.tmpl: what decides each property, and which planted bugs are caught
import glob, re
rows = []
for p in PROPS:
    rows.append("### %s %s\n\n%s\n" % (p["id"], p["title"], p["statement"]))
    if p.get("how"):
        rows.append(p["how"] + "\n")
    for f in sorted(glob.glob(os.path.join(here, "harness/*/*.go"))):
        s = open(f).read()
        for m_ in re.finditer(r"// (\w+):? (.*(?:\n// .*)*)\n//\n//verif:harness property=(\S+)(.*)\n(?://verif:bound (.*)\n)?", s):
            name, doc, props, opts, bound = m_.groups()
            if p["id"] not in props.split(","):
                continue
            uf = re.search(r"uf=(\S+)", opts)
            rows.append("- `%s` (%s): %s Bound: %s.%s" % (name, os.path.relpath(f, here), doc.replace("\n// ", " ").strip(), bound or "none besides the types",
                        " Uninterpreted: " + ", ".join("`%s`" % u.split("/")[-1] for u in uf.group(1).split(";")) + "." if uf else ""))
    rows.append("")
for n in NOT_APPLICABLE:
    rows.append("### %s not applicable: %s\n" % (n["property"], n["reason"]))
caught = {}
try:
    for l in open(os.path.join(here, "tools/caught.txt")):
        k, v = l.rstrip("\n").split(" ", 1)
        caught[k] = v
except FileNotFoundError:
    pass
bugs = ["| change | property | what it breaks | needs | caught |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(here, "seeded/*/meta.json"))):
    b = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    bugs.append("| %s | %s | %s | %s | %s |" % (i, b["property"], b["what_it_breaks"], b["needs"], caught.get(i, "not tried")))
t = open(os.path.join(here, "DESIGN.tmpl")).read()
open(os.path.join(here, "DESIGN.md"), "w").write(t.replace("PROPTABLE", "\n".join(rows).strip()).replace("BUGTABLE", "\n".join(bugs)))
