#!/usr/bin/env python3
# rewrites the generated tables of DESIGN.md (defects from known_findings.json, planted bugs from seeded/*/meta.json)
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
k = json.load(open(V + "/known_findings.json"))
out = ["## Genuine defects", "Recorded, not repaired (a `KNOWN-FINDING` line, matched by key):"]
for f in k["findings"]: out.append("* %s (%s, `%s`): %s. %s" % (f["id"], f["property"], f["match"], f["what"], f.get("why", "")))
out += ["", "Repaired, one `fix:` commit each (%d):" % len(k["fixed"]), "", "| property | commit | what failed |", "|--|--|--|"]
for f in k["fixed"]:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", f); out.append("| %s | %s | %s |" % m.groups())
out += ["", "## Planted bugs", "Each is caught by the quick check of the property in its first column (seed 1).", "", "| folder in `seeded/` | breaks | needs |", "|--|--|--|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d))); out.append("| %s | %s | %s |" % (d, m["what_it_breaks"], m["needs"]))
t = open(V + "/DESIGN.md").read(); mark = "<!-- generated by tools/gen_design.py -->"
open(V + "/DESIGN.md", "w").write(t.split(mark)[0].rstrip() + "\n\n" + mark + "\n" + "\n".join(out) + "\n")
