"""Regenerates properties.jsonl and MANIFEST.json from catalog.py and the property
modules that exist."""

import ast
import json
import os

from catalog import PROPS

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
NA = {}


def const(pid, name):
    tree = ast.parse(open(os.path.join(HERE, "props", pid + ".py")).read())
    for n in tree.body:
        if isinstance(n, ast.Assign) and n.targets[0].id == name:
            return ast.literal_eval(n.value)


with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        q = {k: v for k, v in p.items() if k not in ("technique", "note")}
        f.write(json.dumps(q) + "\n")
checks, na = [], []
for p in PROPS:
    pid = p["id"]
    if not os.path.exists(os.path.join(HERE, "props", pid + ".py")):
        na.append(dict(property=pid, reason=NA.get(pid, "check not built yet")))
        continue
    checks.append(dict(
        property=pid,
        quick_cmd=f"./check {pid} --tier quick",
        thorough_cmd=f"./check {pid} --tier thorough",
        evidence_file=f"evidence/{pid}.json",
        technique=p["technique"],
        level=const(pid, "LEVEL"),
        level_note=p["note"] + "; trusts the reference implementation in mc/ and the stated bounds",
    ))
json.dump(
    dict(version=1, setup_cmd="./check --selftest", checks=checks, not_applicable=na,
         notes="No hooks: every check drives the public API of /repo's working tree directly."),
    open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
