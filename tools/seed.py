"""Confirm a planted bug: python3 tools/seed.py FILE.py [id ...]

FILE.py defines BUGS, a list of dicts id, property, edits=[(file, old, new), ...], needs, breaks, demo
(python source).  For each: applies the edit in a scratch copy, runs the demonstration on both trees, the
repository's tests on the changed one, and the check of the property.  Confirmed bugs are written to
/verif/seeded/<id>/.  Development aid: no check uses it.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

PY = "/opt/venv/bin/python"
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **(env or {}))
    return subprocess.run(cmd, cwd=cwd, env=e, shell=True, capture_output=True, text=True, timeout=timeout)


def tests(tree):
    out = os.path.join(tree, "_res")
    os.makedirs(out, exist_ok=True)
    for x64, pre in ((0, "float32"), (1, "x64")):
        sh(f"{PY} -m pytest tests -q -p no:cacheprovider -n 8 --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 "
           f"--junit-prefix={pre} --junitxml={out}/{pre}.xml", tree, dict(PYTHONPATH=tree + "/src", JAX_ENABLE_X64=str(x64)))
    r = sh(f"{PY} /opt/vp/results.py {out}/r.json 'junit:{out}/*.xml'", tree)
    d = json.load(open(f"{out}/r.json"))
    return BASE - set(d["passed"])


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    pick = set(sys.argv[2:])
    for b in bugs:
        if pick and b["id"] not in pick:
            continue
        tree = tempfile.mkdtemp(prefix="seed_")
        sh(f"cp -a /repo/. {tree}/", "/")
        try:
            for f, old, new in b["edits"]:
                p = os.path.join(tree, "src/jaxoplanet", f)
                s = open(p).read()
                assert s.count(old) == 1, (b["id"], f, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            diff = sh("git diff -- src", tree).stdout
            dd = tempfile.mkdtemp(prefix="demo_")
            open(dd + "/demo.py", "w").write(b["demo"].lstrip())
            open(dd + "/demo.sh", "w").write('#!/bin/sh\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            run = "sh " + dd + "/demo.sh"
            if b["demo"]:
                clean = sh(run, "/repo", dict(PYTHONPATH="/repo/src"))
                bad = sh(run, tree, dict(PYTHONPATH=tree + "/src"))
            else:
                # screening only: a change with no demonstration yet is never saved
                os.environ["FAST"] = "1"
            if b["demo"] and (clean.returncode != 0 or bad.returncode == 0):
                print(b["id"], "DEMO clean", clean.returncode, "patched", bad.returncode, (clean.stderr or bad.stdout)[-600:], flush=True)
                continue
            # FAST: only show whether the check sees it
            missing = {"not run"} if os.environ.get("FAST") else tests(tree)
            r = sh(f"/verif/check {b['property']}", "/verif", dict(VERIF_REPO=tree))
            line = [x for x in r.stdout.splitlines() if "VIOLATION" in x or "held" in x or "first of" in x]
            print(b["id"], b["property"], "tests", "OK" if not missing else f"BROKEN {len(missing)}: {sorted(missing)[:3]}", "| check exit", r.returncode, (line or [r.stdout[-200:] + r.stderr[-200:]])[0][:260], flush=True)
            if not missing:
                out = "/verif/seeded/" + b["id"]
                os.makedirs(out, exist_ok=True)
                open(out + "/patch.diff", "w").write(diff)
                for x in ("demo.py", "demo.sh"):
                    shutil.copy(dd + "/" + x, out)
                json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(out + "/meta.json", "w"), indent=1)
            shutil.rmtree(dd)
        finally:
            shutil.rmtree(tree, ignore_errors=True)


main()
