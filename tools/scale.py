#!/usr/bin/env python3
"""scale.py ID FACTOR: multiply the case counts of a check (a development helper)."""
import glob, re, sys
for f in glob.glob(f"/verif/harness/checks/{sys.argv[1]}_*.[ch]pp"):
    s = open(f).read()
    k = float(sys.argv[2])
    s2 = re.sub(r"PROP\((\w+), (\d+), (\d+)\)", lambda m: f"PROP({m[1]}, {int(int(m[2])*k)}, {int(int(m[3])*k)})", s)
    if s2 != s: open(f, "w").write(s2)
