#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. Usage: python3 tools/props.py"""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, tech=None, note=None, na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note, na=na, state=state))

def claim(id, tech, note=""):
    x = [y for y in P if y["id"] == id][0]
    assert not x["na"], id
    x["tech"], x["note"] = tech, note

I, H, S, F, C, X, G = "inputs", "histories", "schedules", "fault_sequences", "crash_points", "configurations", "programs"
ENG = "Decided on the SSA form of the current source; trusts go/ssa, the engine's library models and the obligation table, and reports a violation whenever a construct can not be resolved. "

exec(open(os.path.join(here, "tools", "list.py")).read())

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        assert re.match(r"^[A-Z][0-9]{2,3}$", x["id"])
        n = len(re.findall(r"\.(?:\s|$)", x["statement"]))
        assert n <= 3, (x["id"], n)
        a = dict(files=x["files"], mechanism=[dict(name=n, where=w) for n, w in x["mech"]])
        if x["state"]:
            a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in x["state"]]
        f.write(json.dumps(dict(id=x["id"], title=x["title"], statement=x["statement"],
            quantifier=dict(over=x["over"], text=x["text"]), why_tests_cant=x["why"], anchors=a)) + "\n")
checks, na = [], []
for x in P:
    if x["tech"]:
        checks.append(dict(property=x["id"], quick_cmd="./check.sh %s quick" % x["id"], thorough_cmd="./check.sh %s thorough" % x["id"],
            technique=x["tech"], level="other", level_note=ENG + (x["note"] or "")))
    else:
        na.append(dict(property=x["id"], reason=x["na"] or "no check yet: the analysis for it is not built"))
m = dict(version=1, setup_cmd="./build.sh", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(P), "properties,", len(checks), "claimed")
