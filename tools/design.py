"""Refreshes the generated lists of DESIGN.md (defects, planted bugs, not applicable)."""
import json, re, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); p = V + "/DESIGN.md"; s = open(p).read()
K = json.load(open(V + "/known-findings.json")); M = json.load(open(V + "/MANIFEST.json"))
d = [re.match(r"fixed: property=(\w+) (\w+) (.*)", x).groups() for x in K["fixed"]]; f = ["* **KNOWN (not repaired)** %s" % (x if isinstance(x, str) else json.dumps(x)) for x in K["findings"]]
parts = {"DEFECTS": "\n".join(["* **%s** (%s): %s" % (a, c, t) for a, c, t in d] + f)}
rows = ["| change | property = check that catches it | needs | breaks |", "|---|---|---|---|"]
for x in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(x)); rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(x)), m["property"], m["needs"], m["what_it_breaks"]))
parts["SEEDS"] = "\n".join(rows)
na = M["not_applicable"]; na = na.items() if isinstance(na, dict) else [(x["property"] if "property" in x else x["id"], x["reason"]) for x in na]
parts["NA"] = "\n".join("* **%s**: %s" % x for x in na)
for k, v in parts.items():
    s = s.replace("@@%s@@" % k, "<!-- BEGIN %s -->\n<!-- END %s -->" % (k, k))
    s = re.sub(r"(<!-- BEGIN %s -->\n).*?(<!-- END %s -->)" % (k, k), lambda m: m.group(1) + v + "\n" + m.group(2), s, flags=re.S)
open(p, "w").write(s)
