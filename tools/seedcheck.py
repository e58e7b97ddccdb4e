#!/usr/bin/env python3
"""Confirm seeded changes: seedcheck.py [--nocheck] ID...

For each: demo on the clean tree, apply to /repo, build, stable tests, demo, check; undo.
"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def tests():
    out = "/tmp/seedtest.json"
    sh(["bash", "/opt/vp/test.sh", out])
    d = json.load(open(out))
    passed = d.get("passed", d.get("pass", []))
    return sorted(stable - set(passed))


nocheck = "--nocheck" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(V + "/seeded"))
assert not sh(["git", "-C", R, "status", "--porcelain"]).stdout.strip(), "repo not clean"
for i in ids:
    d = os.path.join(V, "seeded", i)
    if not os.path.isdir(d):
        d = os.path.join(V, "grammar_bugs", i)
    meta = json.load(open(d + "/meta.json"))
    line = [i, meta["property"]]
    env = {k: v for k, v in os.environ.items() if not k.startswith(("GO", "VERIF"))}
    if "--fast" not in sys.argv:
        p = sh(["bash", d + "/demo.sh"], cwd=R, env=env)
        line.append("clean demo %d" % p.returncode)
        if p.returncode:
            line.append(p.stdout[-600:])
    p = sh(["git", "-C", R, "apply", d + "/patch.diff"])
    if p.returncode:
        print(i, "DOES NOT APPLY", p.stdout[:300])
        continue
    try:
        if "--fast" not in sys.argv:
            p = sh(["bash", "/opt/vp/build.sh"])
            line.append("build %d" % p.returncode)
            if p.returncode:
                line.append(p.stdout[-600:])
            bad = tests()
            line.append("tests lost %s" % bad[:5])
            p = sh(["bash", d + "/demo.sh"], cwd=R, env=env)
            line.append("patched demo %d: %s" % (p.returncode, p.stdout.strip()[-200:]))
        if not nocheck:
            t = time.time()
            for tier in ("quick",):
                p = sh([sys.executable, V + "/run.py", meta["property"]], env=dict(os.environ, VERIF_TIER=tier, VERIF_SEED="1"))
                v = [l for l in p.stdout.splitlines() if l.startswith(("VIOLATION", "ERROR"))]
                line.append("check %d (%.0fs) %s" % (p.returncode, time.time() - t, "; ".join(v)[:300]))
    finally:
        sh(["git", "-C", R, "checkout", "--", "."])
    print(" | ".join(line), flush=True)
