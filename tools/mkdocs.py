#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing it)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(id, title, statement, over, text, why, files, mech, observe, level="exploration", note="", state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": "none"}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    PROPS.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a), level, note))



exec(open(os.path.join(HERE, "tools", "properties.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as fp:
    for p, _, _ in PROPS:
        fp.write(json.dumps(p, ensure_ascii=True) + "\n")
    for p, _ in NA:
        fp.write(json.dumps(p, ensure_ascii=True) + "\n")
man = {
    "version": 1,
    "setup_cmd": "bash bin/setup",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3 bin/check %s --tier quick" % p["id"],
        "thorough_cmd": "python3 bin/check %s --tier thorough" % p["id"],
        "technique": "deterministic simulation with fault injection",
        "level": lv,
        "level_note": note + " Seeded search: a clean batch is evidence over the explored runs, not a proof." ,
    } for p, lv, note in PROPS],
    "not_applicable": [{"property": p["id"], "reason": r} for p, r in NA],
    "notes": "One simulator (sim/) runs the library, all modules, the command line tool and the table compiler inside one process on a simulated operating system; see DESIGN.md. No hooks in /repo: the seam is libc symbol interposition.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fp:
    json.dump(man, fp, indent=1)
    fp.write("\n")
