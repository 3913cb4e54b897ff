"""Regenerate MANIFEST.json: every property with a harness/cNN.py is claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTE = ("TLA+ model is the oracle; TLC generates the circuits/histories and judges every recorded result of the real "
        "code; bounded sizes, parameters sampled from a fixed seed; floating point compared with tolerance")
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/harness/{i.lower()}.py"):
        checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                       "technique": "TLA+ specification checked with TLC; trace validation of the real code (and TLC-generated behaviours replayed into it)",
                       "level": "model_checking", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": "specification part and conformance driver not built yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed")
