"""Writes DESIGN.md from tools/design/*.md, properties.jsonl, the checks' descriptions and tools/design/{costs,catches}.json."""
import ast
import glob
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(HERE, "tools", "design")


def rd(n):
    p = os.path.join(D, n)
    return open(p).read() if os.path.exists(p) else ""


costs = json.loads(rd("costs.json") or "{}")
why = json.loads(rd("why.json") or "{}")
out = [rd("head.md"), "\n## Properties and how each is decided\n"]
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    f = os.path.join(HERE, "mc", "checks", p["id"].lower() + ".py")
    out.append("\n### %s %s\n" % (p["id"], p["title"]))
    if not os.path.exists(f):
        out.append("Not built.\n")
        continue
    m = ast.parse(open(f).read())
    env = {}
    for n in m.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("BOUNDS", "ASSUMPTIONS"):
            try:
                env[n.targets[0].id] = eval(compile(ast.Expression(n.value), f, "eval"))
            except Exception:  # noqa
                pass
    out.append(" ".join((ast.get_docstring(m) or "").split()) + "\n")
    b = env.get("BOUNDS", {})
    if b:
        out.append("* Bounds, quick: %s." % b.get("quick", ""))
        out.append("* Bounds, thorough: %s." % b.get("thorough", ""))
    for a in env.get("ASSUMPTIONS", []):
        out.append("* Assumption: %s." % a)
    why.setdefault(p["id"], p["why_tests_cant"])
    if p["id"] in why:
        out.append("* Beyond the tests: %s" % why[p["id"]])
    c = costs.get(p["id"])
    if c:
        out.append("* Cost (8 cores): quick %s s, thorough %s s." % (c[0], c[1] or "(not timed)"))
    out.append("")
out.append("No property is listed as not applicable: for each of them the space can be enumerated within useful bounds.\n")
out.append(rd("tail.md"))
seeds = sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json")))
if seeds:
    catches = json.loads(rd("catches.json") or "{}")
    out.append("\n## Planted changes (seeded/) and which checks catch them\n\n| change | property | what it breaks | caught by (quick) |\n|---|---|---|---|")
    for s in seeds:
        m = json.load(open(s))
        i = os.path.basename(os.path.dirname(s))
        out.append("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "/"), ", ".join(catches.get(i, [])) or "(not run)"))
    out.append(rd("after.md"))
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")
