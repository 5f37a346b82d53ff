#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md.in, properties.py, props.py, known-findings.txt, seeded/ and tools/caught.txt."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(H, "sim"))
import props as S
PROPS = []


def P(id, title, statement, over, text, why, files, mech, observe, level="exploration", note="", state=None):
    PROPS.append((id, title, statement, over, text, why, files, mech, observe, note))


ns = dict(P=P)
exec(open(os.path.join(H, "tools", "properties.py")).read(), ns)
out = []
for (id, title, statement, over, text, why, files, mech, observe, note) in PROPS:
    s = S.PROPS[id]
    out.append("### %s  %s\n\n*Specified:* %s  Over %s.\n\n*Generated and injected:* %s.\n\n*Oracle:* %s\n\n*Measure of distinct states:* %s.  *Quick:* up to %d runs, %d s.\n\n*Why tests cannot:* %s\n" % (
        id, title, statement, text.replace("for all", "all"), s["rule"], note, s["measure"], s["quick_runs"], s["quick_secs"], why))
    if s["assumptions"]:
        out.append("*Assumptions:* %s.\n" % "; ".join(s["assumptions"]))
na = ["* **%s %s** -- %s" % (p["id"], p["title"], r) for p, r in ns["NA"]] or ["(none)"]
fixed = []
for ln in open(os.path.join(H, "known-findings.txt")):
    if ln.startswith("fixed: property="):
        w = ln.split(None, 3)
        fixed.append("* %s, `%s`: %s" % (w[1].split("=")[1], w[2], w[3].strip()))
caught = {}
for ln in open(os.path.join(H, "tools", "caught.txt")):
    w = ln.rstrip("\n").split("\t")
    if len(w) >= 2:
        caught[w[0]] = w[1]
pl = ["| change | property | needs | result |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", d, "meta.json")))
    pl.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "\\|"), caught.get(d, "?")))
t = open(os.path.join(H, "tools", "design.md.in")).read()
for k, v in (("PROPS", out), ("NA", na), ("FIXED", fixed), ("PLANTED", pl), ("FALSE", [])):
    t = t.replace("@@%s@@" % k, "\n".join(v))
open(os.path.join(H, "DESIGN.md"), "w").write(t)
