"""known_findings.jsonl from the fix commits (property per commit) and the list of findings which were not repaired."""
import json, os, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PROP = json.load(open(os.path.join(HERE, "fixes.json")))
out = []
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if s.startswith("fix: "):
        p = PROP[s[5:30]]
        out.append({"kind": "fixed", "property": p, "commit": h, "what": s[5:], "entry": "fixed: property=%s %s %s" % (p, h, s[5:])})
for k in json.load(open(os.path.join(HERE, "known.json"))):
    out.append(dict(k, kind="known"))
with open(os.path.join(VERIF, "known_findings.jsonl"), "w") as fh:
    for o in out:
        fh.write(json.dumps(o) + "\n")
print(len(out))
