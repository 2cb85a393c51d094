"""Fills DESIGN.md's generated parts from the worlds, the property list and seeded/."""
import glob, importlib, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
out = []
for p in P:
    i = p["id"]
    if i[0] == "N":
        continue
    out.append("### %s %s\n" % (i, p["title"]))
    path = V + "/dst/worlds/%s.py" % i.lower()
    if os.path.exists(path):
        W = importlib.import_module("dst.worlds." + i.lower()).WORLD
        out.append("*How:* %s.  *A run:* %s.  *Reach measure:* %s.  *Real code:* %s.  *Stubbed:* %s.  *Assumes:* %s.  *Bounds:* %d runs quick, "
                   "%d thorough.\n" % (W.technique, W.rule, W.states_measure, ", ".join(W.real), ", ".join(W.stub) or "nothing",
                                       "; ".join(W.assumptions) or "nothing", W.quick_runs, W.thorough_runs))
        if getattr(W, "design", ""):
            out.append(W.design.strip() + "\n")
    else:
        out.append("Not built yet.\n")
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    k = os.path.basename(os.path.dirname(d))
    rows.append("| %s | %s | %s | %s |" % (k, m["property"], m["needs"], caught.get(k, "-")))
s = open(V + "/DESIGN.md").read()
s = re.sub(r"(?s)(## Per property\n).*?(\n## Not applicable)", lambda m: m.group(1) + "\n" + "\n".join(out) + m.group(2), s)
s = re.sub(r"(?s)(## Planted changes \(`seeded/`\)\n).*", lambda m: m.group(1) + "\n" + "\n".join(rows) + "\n", s)
open(V + "/DESIGN.md", "w").write(s)
