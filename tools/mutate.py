"""Mutation sweep (development aid; no check uses it).

python3 tools/mutate.py FILE CHECKS MAX [SKIP]: changes one expression of src/jaxoplanet/FILE at a time in a scratch
copy and runs the checks in the given order until one raises an alarm; prints the changes that none noticed.
"""
import ast
import copy
import os
import random
import shutil
import subprocess
import sys
import tempfile

SWAP = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Mod: ast.Add, ast.Pow: ast.Mult, ast.FloorDiv: ast.Mult}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
NAMES = {"greater": "less", "less": "greater", "greater_equal": "greater", "less_equal": "less", "logical_and": "logical_or", "logical_or": "logical_and", "sin": "cos", "cos": "sin", "maximum": "minimum", "minimum": "maximum", "square": "abs", "ceil": "floor", "floor": "ceil", "sum": "max"}


def in_doc(node):
    return False


def mutants(tree):
    """yields (line, description, function applying the change to a copy)"""
    nodes = list(ast.walk(tree))
    skip = set()
    for n in nodes:
        if isinstance(n, ast.Raise | ast.Assert | ast.Import | ast.ImportFrom | ast.AnnAssign):
            if not isinstance(n, ast.AnnAssign):
                skip |= {id(m) for m in ast.walk(n)}
        if isinstance(n, ast.arg) and n.annotation:
            skip |= {id(m) for m in ast.walk(n.annotation)}
        if isinstance(n, ast.FunctionDef) and n.returns:
            skip |= {id(m) for m in ast.walk(n.returns)}
        if isinstance(n, ast.AnnAssign):
            skip |= {id(m) for m in ast.walk(n.annotation)}
    for i, n in enumerate(nodes):
        if id(n) in skip:
            continue

        def put(desc, fn, i=i, n=n):
            return n.lineno, desc, (i, fn)

        if isinstance(n, ast.BinOp) and type(n.op) in SWAP:
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) or isinstance(n.op, ast.BitOr):
                continue
            yield put(f"{type(n.op).__name__}->{SWAP[type(n.op)].__name__}", lambda m: setattr(m, "op", SWAP[type(m.op)]()))
        elif isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            yield put(f"{type(n.ops[0]).__name__} flipped", lambda m: m.ops.__setitem__(0, CMP[type(m.ops[0])]()))
        elif isinstance(n, ast.Constant) and isinstance(n.value, int | float) and not isinstance(n.value, bool):
            yield put(f"{n.value} changed", lambda m: setattr(m, "value", m.value + 1 if isinstance(m.value, int) else m.value * 1.5 + 0.01))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield put(f"{n.value} flipped", lambda m: setattr(m, "value", not m.value))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
            yield put("minus dropped", lambda m: setattr(m, "op", ast.UAdd()))
        elif isinstance(n, ast.BoolOp):
            yield put("and/or", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And()))
        elif isinstance(n, ast.Attribute) and n.attr in NAMES and isinstance(n.value, ast.Name) and n.value.id in ("jnp", "jnpu", "np"):
            yield put(f"{n.attr}->{NAMES[n.attr]}", lambda m: setattr(m, "attr", NAMES[m.attr]))
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr == "where" and len(n.args) == 3:
                yield put("where->first", lambda m: m.args.__setitem__(0, ast.parse("True").body[0].value))
                yield put("where->second", lambda m: m.args.__setitem__(0, ast.parse("False").body[0].value))
            for k in range(len(n.keywords)):
                if n.keywords[k].arg not in (None, "default", "static_argnames", "static_argnums", "signature", "strict", "units", "converter", "static"):
                    yield put(f"keyword {n.keywords[k].arg} dropped", lambda m, k=k: m.keywords.pop(k))
            if len(n.args) == 2 and not isinstance(n.args[1], ast.Starred) and isinstance(n.func, ast.Attribute):
                yield put("arguments swapped", lambda m: m.args.reverse())
        elif isinstance(n, ast.IfExp):
            yield put("if-expression reversed", lambda m: (lambda a, b: (setattr(m, "body", b), setattr(m, "orelse", a)))(m.body, m.orelse))


def main():
    file, checks, cap = sys.argv[1], sys.argv[2].split(","), int(sys.argv[3])
    skip = int(sys.argv[4]) if len(sys.argv) > 4 else 0
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    src = open(f"/repo/src/jaxoplanet/{file}").read()
    tree = ast.parse(src)
    ms = list(mutants(tree))
    random.Random(file).shuffle(ms)
    tmp = tempfile.mkdtemp(prefix="mut_")
    shutil.copytree("/repo/src", tmp + "/src", ignore=shutil.ignore_patterns("__pycache__"))
    surv = 0
    for line, desc, (i, fn) in ms[skip : skip + cap]:
        t = copy.deepcopy(tree)
        fn(list(ast.walk(t))[i])
        old, new = ast.unparse(tree).splitlines(), ast.unparse(ast.fix_missing_locations(t)).splitlines()
        diff = [(a.strip(), b.strip()) for a, b in zip(old, new) if a != b][:1]
        open(f"{tmp}/src/jaxoplanet/{file}", "w").write("\n".join(new) + "\n")
        caught = None
        for c in checks:
            r = subprocess.run([root + "/check", c, "--tier", "quick"], env=dict(os.environ, VERIF_REPO=tmp), capture_output=True, text=True)
            if r.returncode:
                caught = f"{c}:{r.returncode}"
                break
        if not caught:
            surv += 1
        print("SURVIVED" if not caught else "caught " + caught, f"{file}:{line} {desc} | {diff[0] if diff else ''}", flush=True)
    print(f"{file}: {len(ms)} possible, {surv} survivors of {min(cap, len(ms))}", flush=True)
    shutil.rmtree(tmp)


main()
