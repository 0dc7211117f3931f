#!/usr/bin/env python3
"""origin.py: which removed lines of the seeded patches stem from the original commit"""
import os, re, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "0bae237"
for i in sys.argv[1:] or sorted(os.listdir(HERE + "/seeded")):
    n = m = 0
    f = None
    for l in open("%s/seeded/%s/patch.diff" % (HERE, i)):
        if l.startswith("--- "):
            f = l.split()[1][2:]
            bl = subprocess.run(["git", "-C", "/repo", "blame", "-s", f], capture_output=True, text=True).stdout.splitlines()
            continue
        if l.startswith("+++ "):
            continue
        k = re.match(r"@@ -(\d+)", l)
        if k:
            at = int(k.group(1))
            continue
        if l.startswith("-"):
            if l[1:].strip():
                o = bl[at - 1].startswith("^" + BASE)
                n += o
                m += not o
            at += 1
        elif l.startswith(" "):
            at += 1
    print("%-34s original %d own %d%s" % (i, n, m, "" if n else "   <-----"))
