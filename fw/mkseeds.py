"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json (a note in brackets is kept)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + "/DESIGN.md"
L = open(p).read().split("\n")
i = L.index("| id | needs |"); j = i
while j < len(L) and L[j].startswith("|"): j += 1
notes = {}
for l in L[i + 2:j]:
    m = re.match(r"\| (\S+) \| (.*) \|$", l); n = re.search(r"\s(\([^()]*(added|extended|strengthened)[^()]*\))$", m.group(2))
    if n: notes[m.group(1)] = n.group(1)
rows = []
for s in sorted(os.listdir(V + "/seeded")):
    d = json.load(open("%s/seeded/%s/meta.json" % (V, s)))
    n = d["needs"].replace("|", "/")
    rows.append("| %s | %s%s |" % (s, n, " " + notes[s] if s in notes and notes[s] not in n else ""))
L[i + 2:j] = rows
open(p, "w").write("\n".join(L))
