"""Writes the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
    "cut-array-end": "loops cut everywhere", "var-id-byte": "variable numbers beyond a byte", "slow-number-tolerance": "close numbers (and tables of all pairs)",
    "exact-float-equals": "floats within the tolerance", "round-to-int": "rounding of large floats", "is-not-null-missing": "IS NOT NULL of missing fields",
    "array-index-wrap": "arrays of 1,000 elements", "dotted-name": "names with points next to paths", "odd-operator": "tables of operators",
    "deep-skip": "deep values which are skipped", "merged-by-text": "look-alike expressions", "long-key-prefix": "long keys", "sign-in-place": "outputting twice",
    "raw-spelling-removed": "look-alikes of keys", "multi-line": "more of the syntax of regular expressions", "number-text-cut": "numbers of up to 308 digits",
    "micro-only": "dates next to one another",
}
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append((m["property"], d, m["what_it_breaks"], MISSED.get(d, "")))
rows.sort()
t = "| property | change | breaks | first missed; added |\n|---|---|---|---|\n" + "".join("| %s | %s | %s | %s |\n" % tuple(x.replace("|", "\\|") for x in r) for r in rows)
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- table -->.*?(?=\n\nBesides these)", lambda _: "<!-- table -->\n" + t.rstrip(), s, flags=re.S)
open(p, "w").write(s)
print(len(rows))
