"""Writes MANIFEST.json from properties.jsonl and checks/*.py."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(V, "checks", pid + ".py")):
        src = open(os.path.join(V, "checks", pid + ".py")).read()
        ns = {}
        for key in ("TECHNIQUE", "LEVEL_NOTE"):
            m = importlib.import_module("checks." + pid)
            ns[key] = getattr(m, key)
        checks.append(dict(property=pid, quick_cmd=f"./check.py {pid} --tier quick", thorough_cmd=f"./check.py {pid} --tier thorough",
                           evidence_file=f"evidence/{pid}.json", technique=ns["TECHNIQUE"], level=getattr(m, "LEVEL", "exploration"), level_note=ns["LEVEL_NOTE"]))
    else:
        na.append(dict(property=pid, reason="no check built yet"))

man = dict(version=1, setup_cmd="./setup.sh",
           hooks=dict(guard="VMON_NO_HOOKS", enable="no hooks are compiled into or added to /repo: the monitors attach through public attributes, user functions and rebuilt extension variants", source_commits=[]),
           checks=checks, not_applicable=na,
           notes="Runtime monitoring only. ./check.py <ID> [--tier quick|thorough] [--replay FILE]; see DESIGN.md.")
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
