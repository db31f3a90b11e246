"""Writes MANIFEST.json from the checks which exist in bin/lib/checks.py."""
import json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
src = "".join(open(os.path.join(VERIF, "bin/lib", f)).read() for f in sorted(os.listdir(os.path.join(VERIF, "bin/lib"))) if f.endswith(".py"))
have = set(re.findall(r"@check\ndef (C\d\d)\(", src))
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
TV = "trace validation with TLC against the TLA+ specification"
TECH = {
 "C01": ("spec/Sem.tla, Values.tla", ""), "C04": ("spec/BinTree.tla", "all behaviours of the specified tree are enumerated by TLC and replayed into binTreeState"),
}
NOTE = json.load(open(os.path.join(HERE, "levels.json")))
m = {"version": 1, "setup_cmd": "bash /verif/bin/setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in have:
        n = NOTE[i]
        m["checks"].append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 bin/check.py %s" % i,
                            "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py %s" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": n["technique"],
                            "level": "model_checking", "level_note": n["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check built yet"})
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks;", [x["property"] for x in m["not_applicable"]])
