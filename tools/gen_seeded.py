"""Writes tools/seeded.md from seeded/*/meta.json and tools/caught.json ({id: [checks that report it]})."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(V + "/tools/caught.json"))
out = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % i))
    c = caught.get(i)
    out.append("| %s: %s | %s | %s | %s |" % (i, m["what_it_breaks"], m["property"], m["needs"],
               "not tried yet" if c is None else ", ".join(c) or "none"))
open(V + "/tools/seeded.md", "w").write("\n".join(out) + "\n")
