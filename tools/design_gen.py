"""writes DESIGN.md from tools/design.md, the property table and the modules of the checks"""
import importlib, json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, R)
import runpy
T = {json.loads(l)["id"]: json.loads(l) for l in open(R + "/properties.jsonl")}
M = {(c.get("property") or c.get("id")): c for c in json.load(open(R + "/MANIFEST.json"))["checks"]}
out = [open(R + "/tools/design.md").read()]
for i in sorted(T):
    p = T[i]; out.append("### %s %s\n" % (i, p["title"]))
    out.append(p["statement"] + "\n")
    f = R + "/vpbt/props/%s.py" % i.lower()
    if i in M and os.path.exists(f):
        m = importlib.import_module("vpbt.props." + i.lower())
        out.append("* **Decided by**: %s." % M[i].get("technique", ""))
        out.append("* **Generated / oracle**: %s." % m.RULE)
        out.append("* **Parts** (cases quick/thorough): " + ", ".join("%s %d/%d" % (q.name, q.quick, q.thorough) for q in m.PARTS) + ".")
        out.append("* **Limits**: " + "; ".join(m.ASSUMPTIONS) + ".")
    w = p.get("why_tests_cant") or p.get("why_not_unit_tests") or p.get("why") or ""
    if w:
        out.append("* **Why tests cannot**: %s" % w)
    out.append("")
out.append(open(R + "/tools/design_tail.md").read())
rows = []
for s in sorted(os.listdir(R + "/seeded")) if os.path.isdir(R + "/seeded") else []:
    f = R + "/seeded/%s/meta.json" % s
    if os.path.exists(f):
        d = json.load(open(f)); rows.append("| %s | %s | %s | %s |" % (s, d["property"], d["what_it_breaks"].replace("|", "/"), d.get("caught_by", d["property"])))
out.append("| change | property | what it breaks | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
open(R + "/DESIGN.md", "w").write("\n".join(out))
