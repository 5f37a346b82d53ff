#!/usr/bin/env python3
"""Writes sim/scores.h: what the documented scorers and bonus tables count, as of the pinned tree (their sources are
web pages named there; there is nothing else to take them from)."""
import os, re, sys
R = sys.argv[1] if len(sys.argv) > 1 else "/repo"
out = {}
for n in ("CJK", "LATIN1"):
    out["SC_" + n] = ["%s-%s=%s" % m for m in re.findall(r"\{\s*0x([0-9A-F]+),\s*0x([0-9A-F]+),\s*(\d+)\s*\}", open(R + "/modules/scorer/%s.c" % n).read())]
for n in ("ZH-BONUS", "ZH-BONUS-PHRASE"):
    v = []
    for l in open(R + "/modules/inter/%s.txt" % n):
        l = l.split("#")[0].split()
        if len(l) == 2:
            k, w = l[0], l[1].split(",")
            assert w[0][0] == "?" and ",".join(w[1:]) == k
            v.append("%s=%d" % (k.replace(",", "."), int(w[0][1:], 16)))
    out["SC_" + n.replace("-", "_")] = v
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sim", "scores.h"), "w") as h:
    h.write("// Written by tools/mkscores.py.\n#pragma once\n")
    for n, v in out.items():
        h.write("static const char %s[] =\n" % n)
        for i in range(0, len(v), 12): h.write('\t"%s "\n' % " ".join(v[i:i + 12]))
        h.write('\t"";\n')
