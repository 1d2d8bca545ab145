"""Adds entries for repairs to known_findings.json: add_fixed.py C07 <commit>..."""
import json, subprocess, sys
p = "/verif/known_findings.json"
k = json.load(open(p))
for h in sys.argv[2:]:
    s = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%h %s", h], text=True).strip()
    h, msg = s.split(" ", 1)
    e = "fixed: property=%s %s %s" % (sys.argv[1], h, msg.replace("fix: ", "", 1))
    if e not in k["fixed"]:
        k["fixed"].append(e)
json.dump(k, open(p, "w"), indent=1)
open(p, "a").write("\n")
