"""Writes /verif/MANIFEST.json from properties.jsonl, the worlds that exist and the not-applicable list."""
import importlib, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
ns = {"__name__": "x", "__file__": os.path.join(V, "tools", "gen_properties.py")}
exec(open(os.path.join(V, "tools", "gen_properties.py")).read(), ns)
exec(open(os.path.join(V, "tools", "more_properties.py")).read(), ns)
NA = dict(ns["NA"])
checks, na = [], []
for p in ns["P"]:
    i = p["id"]
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
        continue
    path = os.path.join(V, "dst", "worlds", i.lower() + ".py")
    if not os.path.exists(path):
        na.append(dict(property=i, reason="no check built yet; the technique applies (see DESIGN.md) but nothing is claimed."))
        continue
    W = importlib.import_module("dst.worlds." + i.lower()).WORLD
    checks.append(dict(property=i, quick_cmd="/opt/venv/bin/python check.py %s" % i,
                       thorough_cmd="/opt/venv/bin/python check.py %s --tier thorough" % i,
                       evidence_file="evidence/%s.json" % i,
                       technique=W.technique, level=W.level,
                       level_note=getattr(W, "note", "Seeded search over histories and fault sequences; a sample, not a proof. "
                                          + "Trusts: " + "; ".join(W.assumptions))))
man = dict(version=1, setup_cmd="/opt/venv/bin/python -c \"import dst.cli, dst.core, dst.faults, dst.overlay\"",
           hooks=dict(guard="PYSTATSM_DST", enable="no hooks were needed in /repo: the simulator uses generator arguments, "
                      "monkey-patching from its own process and the interpreter's trace hook, so the guard is never read",
                      source_commits=[]),
           checks=checks, not_applicable=na,
           notes="python check.py <ID> [--tier quick|thorough] [--seed N] [--runs N] [--replay FILE]; VERIF_SEED is honoured. Each check "
                 "compiles /repo's working tree in a scratch directory and removes it.")
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
