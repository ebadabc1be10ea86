"""Assembles DESIGN.md: tools/design_head.md, a section per property (from tools/props.py, the checks themselves and REACH), seeded bugs, fixes."""
import os, sys, json, importlib
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
for p in (here, "/repo/src", here + "/tools"):
    sys.path.insert(0, p)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import props
from design_reach import REACH
from lib.harness import MORE
out = [open(here + "/tools/design_head.md").read()]
out.append("## The properties\n\nCounts are cases at quick / thorough. Cost is wall time of the quick tier on 8 cores.\n")
for p in props.P:
    k = p["id"]
    m = importlib.import_module("checks." + k.lower())
    ev = here + f"/evidence/{k}.json"
    cost = ""
    if os.path.exists(ev):
        e = json.load(open(ev))
        if e["tier"] == "quick":
            cost = f" Cost about {max(1, round(e['wall_s']))} s."
    out.append(f"### {k} {p['title']}\n")
    out.append(m.RULE[0].upper() + m.RULE[1:] + ".")
    out.append("\nSub-checks: " + "; ".join(f"`{s.name}` {s.quick * MORE.get(k, 1)}/{max(s.thorough, 4 * s.quick * MORE.get(k, 1))}" + (f" ({s.what})" if s.what else "") for s in m.SUBS) + "." + cost)
    out.append("\nBounds: " + "; ".join(m.ASSUMPTIONS) + ".")
    out.append("\nReach: " + REACH[k] + "\n")
out.append("## Planted bugs\n\nEach is in `seeded/<id>/`, passes the repository's stable tests, and was written from the property's text. "
           "'caught' = exit 1 with this property's VIOLATION line at quick tier, seed 1.\n")
out.append("| id | property | breaks | needs | result |\n|---|---|---|---|---|")
res = json.load(open(here + "/tools/seeded_results.json")) if os.path.exists(here + "/tools/seeded_results.json") else {}
for d in sorted(os.listdir(here + "/seeded")):
    j = json.load(open(f"{here}/seeded/{d}/meta.json"))
    out.append(f"| {d} | {j['property']} | {j['what_it_breaks']} | {j['needs']} | {res.get(d, '?')} |")
tail = here + "/tools/design_tail.md"
out.append("\n" + (open(tail).read() if os.path.exists(tail) else ""))
out.append("## Repaired defects\n")
for f in json.load(open(here + "/known_findings.json"))["fixed"]:
    out.append("* " + f[len("fixed: "):])
open(here + "/DESIGN.md", "w").write("\n".join(out) + "\n")
