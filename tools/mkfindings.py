#!/usr/bin/env python3
"""Writes known_findings.txt: repaired defects (and, were there any, recorded ones)."""
import subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = dict(l.split(":") for l in """78dd67b:P01
5b95997:P01
28841a8:P01
f54a455:P01
99e2b2e:P03
ce368cf:P01
df0fe08:P03
fcfdf20:P03
d8d1400:R05
aeb4e64:R06
b62b24b:S01
b1a4526:S01
badcc6e:R02
005b2b2:R02
199dabe:R03
c270fff:R03
bea0669:R04
b769cf1:R01
a9c1f0b:R01
ed574b2:P04
994b921:P04
c78a4e6:P03
0213255:P03
b53dcdf:P03
3b9dbe9:P03
6dc0411:P03
76b0dc3:P03
87eb1ba:P03
56266c3:P03
6d69fd8:P03
57b1000:C03
191ef9a:P03
5f88f74:C03
a901fd2:D05
d0ebb55:D06
b103076:D06
b6aaedf:D02
08bdb6d:R05
0eab496:S01
779b91a:P01
3f6e53f:P01
60d4d1c:P03
00855f1:P03
2d87b8f:P04
f639c7d:S01
abf2ac5:P05
d95f5b9:R01""".split())
EXTRA = [l for l in open(os.path.join(V, "tools", "findings_extra.txt"))] if os.path.exists(os.path.join(V, "tools", "findings_extra.txt")) else []
for l in EXTRA:
    if l.startswith("map "): a, b = l.split()[1].split(":"); MAP[a] = b
out = []
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix:"): out.append("fixed: property=%s %s %s" % (MAP[h[:7]], h, s[5:]))
out += [l.rstrip() for l in EXTRA if not l.startswith("map ")]
open(os.path.join(V, "known_findings.txt"), "w").write("\n".join(out) + "\n")
