"""Rewrites the generated parts of DESIGN.md (fixes, planted bugs)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/DESIGN.md").read()
k = json.load(open(V + "/known_findings.json"))
rows = []
for e in k["fixed"]:
    t = e if isinstance(e, str) else " ".join(str(x) for x in e.values())
    rows.append("- " + t)
caught = {}
p = V + "/tools/caught.json"
if os.path.exists(p):
    caught = json.load(open(p))
b = ["| planted change | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    b.append(f"| {d} | {m['property']} | {m['needs']} | {caught.get(d, m['property'] + ' (quick)')} |")
def put(s, tag, body):
    return re.sub(rf"(<!-- {tag} -->\n).*?(<!-- /{tag} -->)", lambda m: m.group(1) + body + "\n" + m.group(2), s, flags=re.S)
s = put(s, "fixes", "\n".join(rows))
s = put(s, "bugs", "\n".join(b))
open(V + "/DESIGN.md", "w").write(s)
