"""Writes the levels and techniques of MANIFEST.json from checks.json."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deductive verification (Verus) of contracts on the extracted code; bounded stand-in for the rest"
N = "Contracts of the functions named in the evidence are discharged by Verus on text extracted from /repo on every run; functions not under contract are covered by a bounded stand-in; the trusted base is listed in the evidence"
P = "Part of the property is decided by contracts discharged by Verus (named in the evidence); the rest only by a bounded check of the real code against an independent reference, so the property as a whole is not claimed as proved"
m = json.load(open(f"{R}/MANIFEST.json")); cs = json.load(open(f"{R}/checks.json"))
for c in m["checks"]:
    k = cs[c["property"]]
    if k.get("proof"):
        c["technique"] = T; c["level"] = k["level"]; c["level_note"] = (N if k["level"] == "proof" else P) + (". " + k["note"] if k.get("note") else "")
json.dump(m, open(f"{R}/MANIFEST.json", "w"), indent=1); open(f"{R}/MANIFEST.json", "a").write("\n")
