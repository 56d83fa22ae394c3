#!/usr/bin/env python3
"""plant.py verify <id> [check ids...]: apply a seeded change to /repo, build, run the stable tests, its demo and checks, and undo it.
Development tool; no check uses it."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"


def sh(c, cwd=R, t=1200):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t)
    return p.returncode, p.stdout


def stable():
    rc, o = sh("bash /opt/vp/build.sh")
    if rc:
        return "build failed: " + o[-500:]
    sh("bash /opt/vp/test.sh /tmp/plant.json")
    base = json.load(open("/opt/vp/BASELINE.json")); now = json.load(open("/tmp/plant.json"))
    def ids(x):
        for k in ("stable", "passed", "pass", "tests"):
            if isinstance(x, dict) and k in x:
                v = x[k]
                return set(v) if isinstance(v, list) else set(k for k, s in v.items() if s in ("passed", "pass", True))
        raise SystemExit("unknown layout: %s" % list(x)[:5])
    miss = ids(base) - ids(now)
    return "tests lost: %s" % sorted(miss)[:5] if miss else None


def main():
    ident, checks = sys.argv[1], sys.argv[2:]
    d = os.path.join(V, "seeded", ident)
    meta = json.load(open(d + "/meta.json"))
    assert sh("git status --porcelain")[1].strip() == "", "repo not clean"
    rc, o = sh("bash %s/demo.sh" % d); print("demo on the unchanged tree:", rc)
    if rc:
        print(o[-800:]); return
    rc, o = sh("git apply %s/patch.diff" % d)
    if rc:
        print(o); return
    try:
        print("stable tests:", stable() or "kept")
        rc, o = sh("bash %s/demo.sh" % d); print("demo with the change:", rc, o[-200:].replace("\n", " | "))
        for c in checks or [meta["property"]]:
            rc, o = sh("VERIF_SEED=1 VERIF_TIER=quick python3 check.py %s quick" % c, cwd=V)
            v = [l for l in o.splitlines() if l.startswith("VIOLATION") or l.startswith("  key")]
            print("check", c, "rc", rc, "|", v[:2] if v else o[-300:])
    finally:
        sh("git checkout -- .")
        sh("bash /opt/vp/build.sh")
main()
