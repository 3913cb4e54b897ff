"""Refill the generated parts of DESIGN.md (between <!-- X --> and <!-- /X -->) from known_findings.json and seeded/."""
import glob, json, os, re
V = "/verif"
k = json.load(open(f"{V}/known_findings.json"))
known = "\n".join(f"* {e['property']} `{e['key']}`: {e['what']}" for e in k["known"])
fixed = "\n".join("* " + re.sub(r"^fixed: property=(\S+) (\S+) ", r"\1 `\2` ", e) for e in sorted(k["fixed"]))
caught = json.load(open(f"{V}/tools/caught.json")) if os.path.exists(f"{V}/tools/caught.json") else {}
rows = []
for d in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    m = json.load(open(d)); i = d.split("/")[-2]
    rows.append((m["property"], i, f"| {m['property']} | {i} | {m['what_it_breaks']} | {m['needs']} | {caught.get(i, 'X')} |"))
seeded = "| property | id | breaks | needs | caught |\n|---|---|---|---|---|\n" + "\n".join(r[2] for r in sorted(rows))
s = open(f"{V}/DESIGN.md").read()
for n, t in (("KNOWN", known), ("FIXED", fixed), ("SEEDED", seeded)):
    s = re.sub(rf"<!-- {n} -->.*?<!-- /{n} -->", lambda m: f"<!-- {n} -->\n{t}\n<!-- /{n} -->", s, flags=re.S)
open(f"{V}/DESIGN.md", "w").write(s)
