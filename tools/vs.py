#!/usr/bin/env python3
"""vs.py SUB [checks [seed]]: run one sub-check and print a short summary (development)."""
import json, os, subprocess, sys, time
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
t = time.time()
p = subprocess.run([sys.executable, os.path.join(root, "run.py"), "--sub"] + sys.argv[1:], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
out = p.stdout.decode("utf8", "replace")
try:
    d, end = json.JSONDecoder().raw_decode(out)
    f = d.pop("failure", None)
    print("exit", p.returncode, "%.1fs" % (time.time() - t), "evals", d["evals"], "excluded", d["excluded"], "nontrivial", d["nontrivial"])
    print("  ", d["labels"])
    for s in d["samples"] or []:
        print("   sample", json.dumps(s)[:300])
    if f:
        print("FAIL", f["message"][:2500])
        print("case", json.dumps(f["case"])[:1500])
        json.dump({"sub": f["sub"], "seed": f["seed"], "case": f["case"], "message": f["message"]}, open("/tmp/last.json", "w"), indent=1)
except ValueError:
    print("exit", p.returncode, out[-3000:])
err = [l for l in p.stderr.decode("utf8", "replace").splitlines() if "Unknown character" not in l]
print("\n".join(err)[-2500:])
