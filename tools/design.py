"""Writes DESIGN.md from catalog.py, the property modules, known_findings.txt, seeded/ and the text below."""
import ast, glob, json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + "/mc")
from catalog import PROPS

HEAD = open(R + "/tools/design_head.md").read()
TAIL = open(R + "/tools/design_tail.md").read()
COST = {}
for l in open(R + "/tools/costs.txt"):
    p, tier, n, s = l.split()
    COST[p, tier] = (int(n), float(s))


def consts(pid):
    t = ast.parse(open(f"{R}/mc/props/{pid}.py").read())
    d = dict(doc=ast.get_docstring(t))
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("RULE", "ASSUME", "LEVEL"):
            d[n.targets[0].id] = ast.literal_eval(n.value)
    return d


out = [HEAD, "\n## Per property\n"]
for p in PROPS:
    c = consts(p["id"])
    cost = "; ".join(f"{t}: {COST[p['id'], t][0]} states in {COST[p['id'], t][1]:.0f} s" for t in ("quick", "thorough") if (p["id"], t) in COST)
    out.append(
        f"### {p['id']} {p['title']}\n\n"
        f"*Decided by*: {p['technique']} (level: {c['LEVEL']}).\n"
        f"*Explored*: {c['RULE']}.\n"
        f"*Oracle*: {p['note']}; {'; '.join(c['ASSUME'])}.\n"
        f"*Cost on 8 cores*: {cost or 'see evidence'}.\n"
        f"*Why beyond the tests*: {p['why_tests_cant']}\n")
out.append(TAIL)
out.append("\n## Planted bugs and what catches them\n\n| id | property | needs | caught by |\n|---|---|---|---|\n")
caught = {}
if os.path.exists(R + "/tools/seed_results.txt"):
    for l in open(R + "/tools/seed_results.txt"):
        i, r = l.split(None, 1)
        caught[i] = r.strip()
for f in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(f)); i = f.split("/")[-2]
    out.append(f"| {i} | {m['property']} | {m['needs'].replace('|','/')} | {caught.get(i, '?')} |\n")
out.append("\n## Known findings and fixes\n\n" + "".join("- " + l for l in open(R + "/known_findings.txt") if not l.startswith("#")))
open(R + "/DESIGN.md", "w").write("\n".join(out[:2]) + "\n" + "\n".join(out[2:2 + len(PROPS)]) + "\n" + "".join(out[2 + len(PROPS):]))
