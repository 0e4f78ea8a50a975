"""Fill the generated tables of DESIGN.md from tools/design.md, tools/fixed.json, seeded/ and tools/caught.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(os.path.join(V, "tools/design.md")).read()
fixed = "\n".join("* %s (%s): %s" % tuple(x) for x in json.load(open(os.path.join(V, "tools/fixed.json"))))
p = os.path.join(V, "tools/caught.json")
caught = json.load(open(p)) if os.path.exists(p) else {}
rows = ["| change | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for s in sorted(os.listdir(os.path.join(V, "seeded"))):
    d = json.load(open(os.path.join(V, "seeded", s, "meta.json")))
    rows.append("| %s | %s | %s | %s | %s |" % (s, d["property"], d["what_it_breaks"], d["needs"], caught.get(s, "?")))
open(os.path.join(V, "DESIGN.md"), "w").write(t.replace("@@FIXED@@", fixed).replace("@@SEEDS@@", "\n".join(rows)))
