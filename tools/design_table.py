"""Rewrites section 10 of DESIGN.md from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = set("c03-raw-reopen c04-bytes-capacity c05-omitempty-negzero c05-omitempty-high c07-html-xor c08-large-alias c11-int64-wrap c11-uint64-wrap c12-ci-last c13-huge-value c14-rest-spaces c14-interface-flags c15-number-flag c15-slice-spare c20-encode-error c20-colour-file".split())
extra = os.path.join(V, "tools", "missed_first.txt")
if os.path.exists(extra):
    missed |= set(open(extra).read().split())
rows = ["| change | check | what it breaks |", "|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    c = m.get("caught", True)
    rows.append("| %s%s | %s | %s |" % (d, " †" if d in missed else "", m["property"], m["what_it_breaks"].replace("|", "\\|")))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
head = s[:s.index("## 10.")]
open(p, "w").write(head + "## 10. Planted bugs and the checks that catch them\n\n" + "\n".join(rows) + "\n")
