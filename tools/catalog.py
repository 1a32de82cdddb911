#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/catalog.py  rewrites both."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = "include/nil/blueprint/"
P = []          # properties in order
NA = []         # not applicable


def prop(id, title, statement, over, quant, why, files, mech, technique, note, na=None):
    assert len(title) <= 80, (id, len(title))
    P.append((dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])), technique, note))
    if na:
        NA.append(dict(property=id, reason=na))


def emit():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, _, _ in P:
            f.write(json.dumps(p) + "\n")
    na = {x["property"] for x in NA}
    checks = []
    for p, technique, note in P:
        if p["id"] in na:
            continue
        cmd = "python3 check.py " + p["id"]
        checks.append(dict(property=p["id"], quick_cmd=cmd, thorough_cmd=cmd, evidence_file="evidence/%s.json" % p["id"],
                           technique=technique, level="model_checking", level_note=note))
    m = dict(version=1, setup_cmd="python3 check.py --build", checks=checks, not_applicable=NA,
             notes="Every check compiles a harness from /verif/harness against the headers in /repo's working tree and enumerates a "
                   "bounded space completely; see DESIGN.md.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


for part in sorted(os.listdir(os.path.join(HERE, "tools", "catalog.d"))):
    if part.endswith(".py"):
        exec(compile(open(os.path.join(HERE, "tools", "catalog.d", part)).read(), part, "exec"))
emit()
