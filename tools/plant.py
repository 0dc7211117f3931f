#!/usr/bin/env python3
"""Seeded changes. plant.py verify ID...: apply, build, stable tests, demo with and without (in a private copy mounted over /repo);
plant.py check ID...: run the property's quick check on the changed tree; plant.py both ID...; plant.py list"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")


def ns(copy, cmd, timeout=1500):
    try:
        return subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (copy, cmd)],
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess([], 124, "timeout")


def one(i, what):
    d = os.path.join(SEED, i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="plant-")
    res = []
    try:
        copy = os.path.join(tmp, "repo")
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        subprocess.run(["git", "-C", copy, "checkout", "-q", "--", "."], check=True)
        demo = os.path.join(tmp, "demo")
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        if what in ("verify", "both"):
            ns(copy, "bash /opt/vp/build.sh")
            r = ns(copy, "timeout 300 bash %s/demo.sh" % demo)
            res.append("demo(clean)=%s" % ("ok" if r.returncode == 0 else "BAD rc=%d %s" % (r.returncode, r.stdout[-600:])))
        a = subprocess.run(["git", "-C", copy, "apply", os.path.join(d, "patch.diff")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if a.returncode:
            return i, ["patch does not apply: " + a.stdout]
        if what in ("verify", "both"):
            out = os.path.join(tmp, "t.json")
            r = ns(copy, "bash /opt/vp/test.sh %s" % out)
            t = json.load(open(out))
            base = json.load(open("/opt/vp/BASELINE.json"))
            stable = base["stable"]
            missing = [x for x in stable if x not in t["passed"]] if isinstance(stable, list) else t["failed"]
            res.append("tests=%s" % ("ok" if not missing and t["passed"] else "BAD %s %s" % (missing[:5], r.stdout[-300:])))
            r = ns(copy, "timeout 300 bash %s/demo.sh" % demo)
            res.append("demo(patched)=%s" % ("fails rc=%d" % r.returncode if r.returncode else "BAD passes"))
        if what in ("check", "both"):
            r = ns(copy, "cd %s && VERIF_SEED=1 VERIF_TIER=quick python3 check.py %s quick" % (HERE, meta["property"]))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            m = [l for l in r.stdout.splitlines() if l.startswith(("message", "violation"))]
            res.append("check=%s" % ("caught: %s" % " ".join(m)[:200] if r.returncode == 1 and v else "MISSED rc=%d %s" % (r.returncode, r.stdout[-200:])))
    finally:
        shutil.rmtree(tmp)
    return i, res


if __name__ == "__main__":
    ids = sys.argv[2:] or sorted(os.listdir(SEED))
    if sys.argv[1] == "list":
        print("\n".join(ids))
    for i in ids if sys.argv[1] != "list" else []:
        i, res = one(i, sys.argv[1])
        print(i, json.load(open(os.path.join(SEED, i, "meta.json")))["property"], "|", " | ".join(res), flush=True)
