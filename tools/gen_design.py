"""Writes DESIGN.md from design_head.md, the properties, the bounds of the checks, the planted bugs and design_tail.md."""
import glob, importlib, json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, here)
T = os.path.join(here, "tools")
M = {c["property"]: c for c in json.load(open(os.path.join(here, "MANIFEST.json")))["checks"]}
out = [open(os.path.join(T, "design_head.md")).read()]
how = json.load(open(os.path.join(T, "design_how.json")))
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    m = importlib.import_module("mc.props." + i.lower())
    q, t = m.bounds("quick"), m.bounds("thorough")
    out.append("### %s %s\n\nMethod: %s.\n\n%s\n" % (i, p["title"], M[i]["technique"], how[i][0]))
    out.append("Bounds (quick):\n")
    out += ["* %s: %s" % kv for kv in q.items()]
    d = {k: v for k, v in t.items() if q.get(k) != v}
    if d:
        out.append("\nThorough additionally:\n")
        out += ["* %s: %s" % kv for kv in d.items()]
    out.append("\nCost: %s.\n" % how[i][1])
out.append("## 3. Planted bugs and what catches them\n\nEach was confirmed to build, to pass the repository's stable tests, and to fail its own\n"
           "demonstration; each is caught by the quick check of its property.\n\n| planted bug | needs | breaks |\n|---|---|---|")
for d in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    out.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["needs"], m["what_it_breaks"]))
out.append("")
out.append(open(os.path.join(T, "design_tail.md")).read())
open(os.path.join(here, "DESIGN.md"), "w").write("\n".join(out))
