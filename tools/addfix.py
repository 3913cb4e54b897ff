"""addfix.py PROP 'commit subject fragment' 'what failed' - append a fixed entry with the commit's hash"""
import json, subprocess, sys
p = "/verif/known_findings.json"
k = json.load(open(p))
log = subprocess.run("git -C /repo log --format='%h %s'", shell=True, capture_output=True, text=True).stdout.splitlines()
hh = [l.split()[0] for l in log if sys.argv[2] in l]
assert len(hh) == 1, hh
e = f"fixed: property={sys.argv[1]} {hh[0]} {sys.argv[3]}"
if e not in k["fixed"]:
    k["fixed"].append(e)
json.dump(k, open(p, "w"), indent=1)
