"""Fills in the generated parts of DESIGN.md: repairs per property and planted bugs."""
import collections, glob, json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
s = open(os.path.join(V, "DESIGN.md")).read()


def put(name, text):
    global s
    s = re.sub(r"(<!-- %s -->\n).*?(<!-- end -->)" % name, lambda m: m.group(1) + text + m.group(2), s, flags=re.S)


fixed = json.load(open(os.path.join(V, "known_findings.json")))["fixed"]
n = collections.Counter(re.search(r"property=(C\d+)", f).group(1) for f in fixed)
put("fixes", "%d \"fix:\" commits in /repo: %s.\n" % (len(fixed), ", ".join("%s %d" % x for x in sorted(n.items()))))
rows = ["| planted bug | what breaks | needs | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["what_it_breaks"].replace("|", "/"), d["needs"].replace("|", "/"), d["property"]))
put("planted", "\n".join(rows) + "\n")
open(os.path.join(V, "DESIGN.md"), "w").write(s)
