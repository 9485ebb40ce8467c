#!/usr/bin/env python3-vt
"""Writes DESIGN.md from tools/design_head.md, the check modules and seeded/."""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/lib", V + "/checks"]
o = [open(V + "/tools/design_head.md").read(), "## Property by property\n"]
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    m = importlib.import_module(p["id"].lower())
    o.append("### %s %s\n" % (p["id"], p["title"]))
    o.append("%s\n" % p["statement"])
    o.append("* Method: %s." % m.TECHNIQUE.rstrip("."))
    o.append("* Generated: %s" % m.RULE)
    o.append("* Strength: %s" % m.NOTE)
    o.append("* Cases: " + "; ".join("%s %s quick, %s thorough" % (x.name, x.quick, x.thorough) if x.strategy is not None else
                                    "%s (%s)" % (x.name, "coverage-guided") for x in m.PARTS) + ".")
    o.append("* Why tests cannot: %s" % p["why_tests_cant"])
    o.append("* Anchors: %s\n" % ", ".join(sorted({"%s (%s)" % (a["name"], a["where"].split("/")[-1]) for a in p["anchors"]["mechanism"]})))
c = V + "/tools/caught.json"
S = sorted(glob.glob(V + "/seeded/*/meta.json"))
if S:
    caught = json.load(open(c)) if os.path.exists(c) else {}
    o.append("## Planted bugs (`seeded/`)\n")
    o.append("Each was written from a property and the code, confirmed by its own demonstration, and then run against the checks "
             "(quick tier, seed 1).\n")
    o.append("| bug | property | needs | caught by |\n|---|---|---|---|")
    for f in S:
        d = json.load(open(f))
        i = os.path.basename(os.path.dirname(f))
        o.append("| %s | %s | %s | %s |" % (i, d["property"], d["needs"].replace("|", "/"), ", ".join(caught.get(i, [])) or "?"))
open(V + "/DESIGN.md", "w").write("\n".join(o) + "\n")
