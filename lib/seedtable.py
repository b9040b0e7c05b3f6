"""Rewrites the table of planted bugs in DESIGN.md (between the two markers) from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A, B = "<!-- seeds:begin -->", "<!-- seeds:end -->"
LATE = set(open(V + "/lib/late.txt").read().split())
rows = ["| change | what it breaks | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d, i = json.load(open(f)), f.split("/")[-2]
    g = lambda k: str(d[k]).replace("|", "/").replace("\n", " ")
    rows.append(f"| {i} | {g('what_it_breaks')} | {g('needs')} | {d['property']}{' (after strengthening)' if i in LATE else ''} |")
s = open(V + "/DESIGN.md").read()
i, j = s.index(A) + len(A), s.index(B)
open(V + "/DESIGN.md", "w").write(s[:i] + "\n" + "\n".join(rows) + "\n" + s[j:])
print(len(rows) - 2, "changes")
