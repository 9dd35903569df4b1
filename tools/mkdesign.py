"""Write DESIGN.md from DESIGN.in.md, known_findings.json, the seeded bugs and the manifest."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(V + "/tools/DESIGN.in.md").read()
man = json.load(open(V + "/MANIFEST.json"))
kf = json.load(open(V + "/known_findings.json"))
na = "\n".join("* **%s**: %s" % (x["property_id"] if "property_id" in x else x.get("id", x.get("property")), x["reason"])
               for x in man["not_applicable"])
text = text.replace("@@C26@@", na)
text = text.replace("@@FIXED@@", "\n".join("* " + x for x in kf["fixed"]))
known = []
for x in kf["findings" if "findings" in kf else "known"]:
    known.append("* %s: %s" % (x.get("property"), x.get("what") or x.get("text") or json.dumps(x)))
text = text.replace("@@KNOWN@@", "\n".join(known))
rows = ["| planted bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
caught = json.load(open(V + "/tools/caught.json"))
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.append("| %s | %s | %s | %s |" % (d, caught.get(d, "not caught"), m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
text = text.replace("@@SEEDS@@", "\n".join(rows))
text = text.replace("@@SWEEP@@", open(V + "/tools/sweep.txt").read().strip())
open(V + "/DESIGN.md", "w").write(text)
left = re.findall(r"@@\w+@@", text)
assert not left, left
