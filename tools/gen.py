"""Writes properties.jsonl and MANIFEST.json from tools/props.py and the checks that exist."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
import props
TECH = "property-based testing: Hypothesis-generated models and inputs against an independent first-principles reference and metamorphic laws, with shrinking"
TECHH = "stateful property-based testing: generated call histories and data subsets against an independent reference model, with shrinking"
NOTE = getattr(props, "NOTE", {})
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in props.P:
        assert len(p["title"]) <= 80, p["id"]
        n = p["statement"].count(". ") + 1
        assert n <= 3, (p["id"], n)
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in props.P:
    k = p["id"]
    if os.path.exists(os.path.join(here, "checks", k.lower() + ".py")):
        checks.append({"property": k, "quick_cmd": f"python3 run.py {k} --tier quick",
                       "thorough_cmd": f"python3 run.py {k} --tier thorough", "evidence_file": f"evidence/{k}.json",
                       "technique": TECHH if "histories" in p["quantifier"]["over"] else TECH, "level": "exploration",
                       "level_note": NOTE.get(k, "random search over generated cases within the domain stated in DESIGN.md; never establishes absence of violations; floating-point agreement to a stated tolerance")})
    else:
        na.append({"property": k, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 run.py --selftest", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every check imports the library from /repo/src and observes its public API. run.py re-executes itself with /opt/venv/bin/python."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
