#!/usr/bin/env python3
"""mkseed.py: helper to write a seeded change: seed(id, property, needs, breaks, [(file, old, new)...], {name: text}, demo)"""
import json, os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def seed(i, prop, needs, breaks, edits, files, demo):
    d = os.path.join(HERE, "seeded", i)
    os.makedirs(d, exist_ok=True)
    a = []
    for f in {e[0] for e in edits}:
        s = o = open("/repo/" + f).read()
        for e in edits:
            if e[0] != f:
                continue
            assert s.count(e[1]) == 1, (f, s.count(e[1]), e[1])
            s = s.replace(e[1], e[2])
        with tempfile.TemporaryDirectory() as t:
            for side, text in (("a", o), ("b", s)):
                p = os.path.join(t, side, f)
                os.makedirs(os.path.dirname(p))
                open(p, "w").write(text)
            a.append(subprocess.run(["diff", "-u", "a/" + f, "b/" + f], cwd=t, stdout=subprocess.PIPE, text=True).stdout)
    open(d + "/patch.diff", "w").write("".join(a))
    for n, text in files.items():
        open(os.path.join(d, n), "w").write(text)
    open(d + "/demo.sh", "w").write(demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)


DEMO = """#!/bin/bash
# run in /repo
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -g -w %s -Isrc/include "$D/demo.cc" $(ls src/lib/*.cc | grep -v kqueue) %s -o "$T/demo" -lpthread -ldl -lrt || exit 2
cd "$T" && %s timeout 100 ./demo
"""


def demo(cflags="", ldflags="", env=""):
    return DEMO % (cflags, ldflags, env)
