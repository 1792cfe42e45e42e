#!/usr/bin/env python3
"""Applies every planted bug to /repo in turn, runs the check of its property, undoes it; writes tools/caught.json.
usage: sweep.py [id ...]"""
import glob, json, os, subprocess, sys
V, R = "/verif", "/repo"
f = f"{V}/tools/caught.json"
res = json.load(open(f)) if os.path.exists(f) else {}
for d in sorted(glob.glob(f"{V}/seeded/*")):
    b = os.path.basename(d)
    if len(sys.argv) > 1 and b not in sys.argv[1:]:
        continue
    p = json.load(open(f"{d}/meta.json"))["property"]
    try:
        subprocess.run(["git", "-C", R, "apply", f"{d}/patch.diff"], check=True)
        o = subprocess.run(["python3", "check.py", p], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_TIER="quick", VERIF_SEED="1"))
    finally:
        subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
    hit = o.returncode == 1 and f"VIOLATION property={p}" in o.stdout
    res[b] = p if hit else f"missed (exit {o.returncode})"
    print(b, res[b], flush=True)
    json.dump(res, open(f, "w"), indent=1, sort_keys=True)
