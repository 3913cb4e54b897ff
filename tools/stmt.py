"""stmt.py ID 'new statement' : rewrite one statement in properties.jsonl"""
import json, sys
out = []
for l in open("properties.jsonl"):
    d = json.loads(l)
    if d["id"] == sys.argv[1]:
        d["statement"] = sys.argv[2]
    out.append(json.dumps(d))
open("properties.jsonl", "w").write("\n".join(out) + "\n")
