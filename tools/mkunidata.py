#!/usr/bin/env python3
"""Writes sim/unidata.h: what Unicode 13.0 says about decomposition, combining classes, composition and case
folding, width and blocks, taken from Python's unicodedata (newer characters left out with perl's \\p{In}).  Independent of the
tables of the repository."""
import json, os, subprocess, unicodedata as U
new = set(int(x, 16) for x in subprocess.run(["perl", "-e", r'for $i (0xA0..0x10FFFF){next if $i>=0xD800&&$i<0xE000; printf "%X\n",$i if chr($i)!~/\p{In=13.0}/ && chr($i)=~/\p{In=15.0}/}'], capture_output=True, text=True, check=True).stdout.split())
cps = [c for c in range(0xA0, 0x110000) if not 0xD800 <= c < 0xE000 and not 0xAC00 <= c <= 0xD7A3 and c not in new]
out = {"UD_CANON": [], "UD_COMPAT": [], "UD_CCC": [], "UD_COMP": [], "UD_FOLD": []}
for c in [*range(0x20, 0x7F)] + cps:
    s = chr(c)
    d, k = U.normalize("NFD", s), U.normalize("NFKD", s)
    hx = lambda t: ".".join("%X" % ord(x) for x in t)
    if d != s: out["UD_CANON"].append("%X=%s" % (c, hx(d)))
    if k != d: out["UD_COMPAT"].append("%X=%s" % (c, hx(k)))
    if U.combining(s): out["UD_CCC"].append("%X=%X" % (c, U.combining(s)))
    f = U.decomposition(s)
    if f and f[0] != "<" and len(f.split()) == 2 and U.normalize("NFC", d) == s: out["UD_COMP"].append("%X=%s" % (c, ".".join("%X" % int(x, 16) for x in f.split())))
    if s.casefold() != s: out["UD_FOLD"].append("%X=%s" % (c, hx(s.casefold())))
# Case mappings: the simple one, or the full one where there is no simple one.
uc = subprocess.run(["perl", "-MUnicode::UCD=charinfo", "-e", r'for $i (0..0x1FFFF){next if $i>=0x3400&&$i<0xA000||$i>=0xAC00&&$i<0xF900; my $c=charinfo($i) or next; printf "%X %s %s\n",$i,$c->{upper}||"-",$c->{lower}||"-" if 1}'], capture_output=True, text=True, check=True).stdout.splitlines()
simple = {int(a, 16): (b, c) for a, b, c in (l.split() for l in uc)}
ok = [c for c in [*range(0x20, 0x7F)] + cps if U.category(chr(c)) != "Cn"]
for n, i, full in (("UD_UPPER", 0, str.upper), ("UD_LOWER", 1, str.lower)):
    out[n] = []
    for c in ok:
        s = simple.get(c, ("-", "-"))[i]
        t = hx(full(chr(c))) if s == "-" else "%X" % int(s, 16)
        if t != "%X" % c: out[n].append("%X=%s" % (c, t))
# Widths, raised and lowered letters, and letters that are an ASCII one with marks.
wide, sup, sub, asc = [(0x20, 0x3000), (0x309B, 0xFF9E), (0x309C, 0xFF9F)], {}, {}, []
for c in ok:
    d = U.decomposition(chr(c)).split()
    if len(d) == 2 and d[0] in ("<wide>", "<narrow>") and c not in (0x3000, 0xFF9E, 0xFF9F): wide.append((int(d[1], 16), c) if d[0] == "<wide>" else (c, int(d[1], 16)))
    if len(d) == 2 and d[0] == "<super>": sup.setdefault(int(d[1], 16), []).append(c)
    if len(d) == 2 and d[0] == "<sub>": sub.setdefault(int(d[1], 16), []).append(c)
    d = U.normalize("NFD", chr(c))
    t = "".join(x for x in d if not U.combining(x))
    if len(d) > len(t) and len(U.decomposition(chr(c)).split()) == 2 and t.isascii() and t.isalpha(): asc.append("%X=%s" % (c, hx(t)))
wide[1:3] = [(0xFF9E, 0x309B), (0xFF9F, 0x309C)]
out["UD_FULL"] = ["%X=%X" % x for x in wide]
out["UD_SUPER"] = ["%X=%s" % (k, ".".join("%X" % x for x in v)) for k, v in sup.items()]
out["UD_SUB"] = ["%X=%s" % (k, ".".join("%X" % x for x in v)) for k, v in sub.items()]
out["UD_ASCII"] = asc
def runs(of):
    r, a, k0 = [], None, None
    for c in range(0x110001):
        k = of(c) if c < 0x110000 else None
        if k != k0:
            if k0: r.append("%X-%X=%s" % (a, c - 1, k0))
            a, k0 = c, k
    return r
def width(c):  # full, half, ambiguous, none; characters this data cannot speak for are left out
    if 0xD800 <= c < 0xE000 or c in new: return None
    e, k = U.east_asian_width(chr(c)), U.category(chr(c))
    if k == "Cc": return "N"
    if k == "Cn": return None
    return {"F": "F", "W": "F", "A": "A"}.get(e, "H")
out["UD_WIDTH"] = runs(width)
# Classes of characters by the names of Unicode blocks.
blocks = {}
for l in subprocess.run(["perl", "-MUnicode::UCD", "-e", r'my $b=Unicode::UCD::charblocks(); for my $n (keys %$b){printf "%X %X %s\n",$_->[0],$_->[1],$n for @{$b->{$n}}}'], capture_output=True, text=True, check=True).stdout.splitlines():
    a, b, n = l.split(" ", 2); blocks[n] = (int(a, 16), int(b, 16))
blocks["Egyptian Hieroglyph Format Controls"] = (0x13430, 0x1343F)  # as of 13.0
names = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "classes.json")))
out["UD_CLASS"] = ["%s=%s" % (k, ",".join("%X-%X" % (blocks[n] if isinstance(n, str) else tuple(n)) for n in v)) for k, v in sorted(names.items())]
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sim", "unidata.h"), "w") as h:
    h.write("// Written by tools/mkunidata.py: Unicode 13.0, from Python's unicodedata.\n#pragma once\n")
    for n, v in out.items():
        h.write("static const char %s[] =\n" % n)
        line = ""
        for x in v:
            line += x + " "
            if len(line) > 180: h.write('\t"%s"\n' % line); line = ""
        h.write('\t"%s";\n' % line)
