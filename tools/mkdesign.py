"""Writes DESIGN.md: tools/design.md plus tables made from properties.jsonl, known-findings.jsonl and seeded/."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(os.path.join(V, "tools", "design.md")).read()
kf = [json.loads(l) for l in open(os.path.join(V, "known-findings.jsonl"))]
known = "\n".join(f"- **{d['id']}** ({d['property']}): {d['what']}." for d in kf if d["status"] == "known")
fixed = "\n".join(f"- {d['property']} `{d['commit']}`: {d['what']}." for d in kf if d["status"] == "fixed")
res = json.load(open(os.path.join(V, "tools", "seed-results.json")))
rows = ["| planted bug | what it breaks | needs | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    i = m.split("/")[-2]
    rows.append(f"| {i} | {d['what_it_breaks']} | {d['needs']} | {', '.join(res.get(i, [])) or '-'} |")
open(os.path.join(V, "DESIGN.md"), "w").write(text.replace("@KNOWN@", known).replace("@FIXED@", fixed).replace("@SEEDS@", "\n".join(rows)))
