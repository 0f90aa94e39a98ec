#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json (the property table lives here)"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation: seeded schedule and fault search over the real code, replayable minimised traces"
P = []
def prop(id, title, statement, over, quant, why, files, mech, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed="none"), _note=note))

exec(open(os.path.join(ROOT, "tools", "props_table.py")).read())

NOTE = ("Seeded search, not proof: the search samples schedules, faults and workloads. The whole library runs unmodified (real threads, real work-stealing pool, real locks) "
        "under a scheduler that owns every futex, atomic, user callback and system call; interleavings are sequentially consistent. ")
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        q = {k: v for k, v in p.items() if not k.startswith("_")}
        f.write(json.dumps(q) + "\n")
checks = []
for p in P:
    if p["id"] in NA: continue
    checks.append(dict(property=p["id"], quick_cmd=f"bin/check {p['id']} quick", thorough_cmd=f"bin/check {p['id']} thorough",
        technique=TECH, level="exploration", level_note=NOTE + p["_note"]))
m = dict(version=1, setup_cmd="bash sim/build.sh", checks=checks,
    not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
    notes="No hooks in /repo: every seam is at the libc / atomic-instruction level, so the shipped sources are compiled as they are.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
