"""DESIGN.md = design_head.md + one section per property (from the check modules) + planted bugs + design_tail.md"""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda p: open(os.path.join(V, p)).read()
props = [json.loads(l) for l in rd("properties.jsonl").splitlines()]
ns = {}
exec(rd("tools/props_tech.py"), ns)
out = [rd("tools/design_head.md"), "\n## Properties\n"]
for p in props:
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    if i in ns["NOT_APPLICABLE"]:
        out.append("Not addressed by this family here: %s\n" % ns["NOT_APPLICABLE"][i])
        continue
    t = ast.parse(rd("checks/%s.py" % i.lower()))
    c = {n.targets[0].id: eval(compile(ast.Expression(n.value), "", "eval")) for n in t.body
         if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("RULE", "ASSUMPTIONS")}
    sc = []
    for n in t.body:
        if isinstance(n, ast.FunctionDef) and n.decorator_list:
            kw = {k.arg: k.value.value for k in n.decorator_list[0].keywords if k.arg in ("quick", "thorough")}
            d = ast.get_docstring(n)
            sc.append("`%s` (%s/%s)%s" % (n.name, kw.get("quick"), kw.get("thorough"), ": " + " ".join(d.split()) if d else ""))
    out.append("*Technique.* %s.\n" % ns["TECH"][i])
    out.append("*Workload and oracle.* %s\n" % c["RULE"])
    out.append("*Scenarios (cases quick/thorough).* %s.\n" % "; ".join(sc).replace(".;", ";").rstrip("."))
    out.append("*Beyond the tests.* %s\n" % p["why_tests_cant"])
    if c.get("ASSUMPTIONS"):
        out.append("*Assumptions.* %s.\n" % "; ".join(c["ASSUMPTIONS"]))
if ns["NOT_APPLICABLE"]:
    out.append("\n## Not applicable\n" + "\n".join("* %s: %s" % kv for kv in ns["NOT_APPLICABLE"].items()) + "\n")
k = json.loads(rd("KNOWN_FINDINGS.json"))["findings"]
out.append("\n## Defects found in the original tree\nEach was shown by a check against the real code. Repaired in small `fix:` commits:\n")
for f in k:
    if f["status"] == "fixed":
        out.append("* %s" % f["what"].replace("fixed: property=", ""))
kn = [f for f in k if f["status"] != "fixed"]
if kn:
    out.append("\nRecorded, not repaired (reported as KNOWN-FINDING):\n")
    out += ["* %s (%s): %s" % (f["id"], f["property"], f["what"]) for f in kn]
out.append("\n## Planted bugs\n`tools/seedcheck.py` applies each to a scratch copy and runs its property's quick check (seed 1).\n")
res = {}
if os.path.exists(V + "/tools/seeds.txt"):
    for l in rd("tools/seeds.txt").splitlines():
        w = l.split()
        if len(w) > 2:
            res[w[0]] = " ".join(w[2:])
out.append("| bug | property | needs | result (check:violation lines) |\n|---|---|---|---|")
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    b = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    out.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"], res.get(b, "?")))
out.append("")
out.append(rd("tools/design_tail.md"))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
