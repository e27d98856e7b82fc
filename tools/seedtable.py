#!/usr/bin/env python3
"""seedtable.py LOG...: writes the table of planted bugs into DESIGN.md, from
seeded/*/meta.json and the output of tools/seedtest.sh."""
import glob, json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for f in sys.argv[1:]:
    for line in open(f, errors="replace"):
        w = line.split()
        if len(w) > 3 and w[2] in ("CAUGHT", "MISSED"):
            case = re.search(r"-(case\S+|once\S*|enum\S*|huge\S*)\.json", line)
            res[w[0]] = (w[1], w[2], w[3])
rows = ["| change | what it breaks | needs | result |", "|---|---|---|---|"]
n = 0
for m in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    sid = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    p, what, t = res.get(sid, (d["property"], "not run", ""))
    n += what == "CAUGHT"
    if what == "CAUGHT":
        r = "caught by %s (%s)" % (p, t)
    else:
        r = what.lower()
    rows.append("| %s | %s | %s | %s |" % (sid, d["what_it_breaks"].replace("|", "\\|"), d["needs"].replace("|", "\\|"), r))
s = open(ROOT + "/DESIGN.md").read()
s = s[:s.index("## 7. Planted")] + """## 7. Planted bugs

%d changes are kept in `seeded/`, each written from a property's text and the code, confirmed to pass the existing tests
and to fail its demonstration. The quick check of its own property catches %d of them (time until the verdict in
brackets, build included). How checks had to be strengthened for those first missed is in §8.

""" % (len(rows) - 2, n) + "\n".join(rows) + "\n\n" + s[s.index("## 8."):] if "## 8." in s else None
open(ROOT + "/DESIGN.md", "w").write(s)
print(n, len(rows) - 2)
