#!/usr/bin/env python3
"""Writes known_findings.txt from /repo's fix commits (hash, subject) and the properties each of them belongs to."""
import os, subprocess
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = """P14 P14 P14 P15 P15 P17 P17 P16 P01 P02 P07 P07 P07 P04 P07 P04 P07 P05 P06 P05 P19 P19 P19 P10 P10 P03 P03 P10 P03 P04
P06 P09 P09 P09 P09 P07 P07 P07 P07 P10 P25 P19 P25 P10 P25 P20 P20 P20 P20 P20 P20 P27 P27 P27 P27 P27 P27 P27 P27 P21 P27 P27 P27 P27 P27
P21 P21 P22 P22 P22 P22 P23 P23 P23 P23 P24 P24 P18 P18 P18 P18 P18 P18 P11 P11 P11 P08 P08 P11 P08 P11 P11 P11 P08 P08 P08 P11 P13
P12 P12 P13 P13 P28 P26 P26 P26 P26 P26 P26 P26 P08 P08 P08 P08 P05""".split()
EXTRA = {}  # subject start -> property, for later commits
for line in open(os.path.join(VERIF, "tools", "findings_extra.txt")) if os.path.exists(os.path.join(VERIF, "tools", "findings_extra.txt")) else []:
    p, s = line.rstrip("\n").split(" ", 1)
    EXTRA[s] = p
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "2710fee..HEAD"], text=True).splitlines()
log = [l for l in log if l.split(" ", 1)[1].startswith("fix:")]
with open(os.path.join(VERIF, "known_findings.txt"), "w") as f:
    f.write("# Genuine defects. 'known:' lines (none at present) are reported as KNOWN-FINDING and suppress that violation key only;\n"
            "# 'fixed:' lines suppress nothing.\n")
    for i, l in enumerate(log):
        h, s = l.split(" ", 1)
        p = PROPS[i] if i < len(PROPS) else next(v for k, v in EXTRA.items() if s.startswith(k))
        f.write("fixed: property=%s %s %s\n" % (p, h, s[5:]))
assert len(log) >= len(PROPS), (len(log), len(PROPS))
print(len(log), "fixes")
