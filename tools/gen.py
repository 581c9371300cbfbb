#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run: python3 tools/gen.py)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"

PROPS = []
def P(id, title, statement, over, text, why, files, mech, observe, level, technique, note, hook=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                      files=files, mech=mech, observe=observe, level=level, technique=technique, note=note, hook=hook))

BZ, BU, TR, PU = "PathLib/Bezier.py", "PathLib/BezierUtilities.py", "PathLib/Transform.py", "PathLib/PathUtilities.py"
CF, MI, SP, CO, CP = "PathLib/CurveFitting.py", "PathLib/MatrixInversion.py", "PathLib/SegmentPen.py", "PathLib/Color.py", "PathLib/ContourPlotter.py"

exec(open(os.path.join(ROOT, "tools", "props.py"), encoding="utf-8").read())

with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf-8") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": p["hook"]},
        }, ensure_ascii=False) + "\n")

checks, na = [], []
for p in PROPS:
    if os.path.exists(os.path.join(ROOT, "checks", p["id"].lower() + ".py")):
        checks.append({"property": p["id"],
                       "quick_cmd": f"{PY} run.py {p['id']} --tier quick",
                       "thorough_cmd": f"{PY} run.py {p['id']} --tier thorough",
                       "evidence_file": f"evidence/{p['id']}.json",
                       "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": "check not built yet"})
for pid, reason in globals().get("NOT_APPLICABLE", {}).items():
    na.append({"property": pid, "reason": reason})
m = {"version": 1, "setup_cmd": f"{PY} run.py --selftest", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every check drives the public API of the unmodified sources, imported from /repo's working tree. "
              "C23/C24 import the plotting modules against a stand-in for the unavailable FontDocTools package (verif mc/stubs)."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
print(len(PROPS), "properties,", len(checks), "checks")

# DESIGN.md
sys_path = os.path.join(ROOT, "tools")
ns = {}
exec(open(os.path.join(sys_path, "design_props.py"), encoding="utf-8").read(), ns)
d = open(os.path.join(sys_path, "design_head.md"), encoding="utf-8").read()
costs = {}
if os.path.exists(os.path.join(sys_path, "costs.json")):
    costs = json.load(open(os.path.join(sys_path, "costs.json")))
for p in PROPS:
    enum, oracle, bounds, why = ns["N"][p["id"]]
    d += f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n"
    d += f"* *technique*: {p['technique']} (level {p['level']})\n* *enumerated*: {enum}\n* *oracle*: {oracle}\n"
    if bounds != "-":
        d += f"* *bounds and scope*: {bounds}\n"
    d += f"* *beyond the tests*: {p['why']}" + (f" ({why})" if why != "-" else "") + "\n"
    if p["id"] in costs:
        d += f"* *cost* (8 cores): {costs[p['id']]}\n"
    d += "\n"
d += open(os.path.join(sys_path, "design_tail.md"), encoding="utf-8").read()
cj = os.path.join(sys_path, "caught.json")
if os.path.exists(cj):
    caught = json.load(open(cj))
    d += "## Planted bugs (seeded/) and the checks that catch them (quick tier)\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n"
    for b in sorted(caught):
        mp = os.path.join(ROOT, "seeded", b, "meta.json")
        if os.path.exists(mp):
            m = json.load(open(mp, encoding="utf-8"))
            d += f"| {b} | {m['property']} | {m['needs']} | {', '.join(caught[b]) or '-'} |\n"
open(os.path.join(ROOT, "DESIGN.md"), "w", encoding="utf-8").write(d)
