#!/usr/bin/env python3
"""Turns bug descriptions (python modules with BUGS = [dict(...)]) into /verif/seeded/<id>/ after confirming each in a
scratch copy: it builds, the stable tests pass, the demonstration passes without and fails with the change; then
runs the property's check with the change applied to /repo and undoes it.
usage: plant.py FILE.py [id ...]"""
import importlib.util, json, os, shutil, subprocess, sys
V, R, WT = "/verif", "/repo", "/tmp/plant_wt"
DEMO = '''#!/bin/bash
# usage: run with cwd = the repository; exit 0 iff the property's demonstration holds
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 99
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs" && cp "$here/demo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
%s
EOF
cd "$d" && CARGO_TARGET_DIR="$d/target" CARGO_INCREMENTAL=0 timeout -k 5 250 cargo run -q --offline 2>&1
'''


def sh(cmd, cwd=None, timeout=900, env=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e)
    return p.returncode, p.stdout


def lock():
    out, drop = [], False
    txt = open(f"{V}/harness/Cargo.lock").read()
    return txt.replace('name = "toppo_harness"', 'name = "demo"')


def main():
    spec = importlib.util.spec_from_file_location("b", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for b in m.BUGS:
        if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]:
            continue
        if not os.path.exists(WT):
            shutil.copytree(R, WT, symlinks=True)
        sh("git checkout -q -- . && git fetch -q origin 2>/dev/null; git checkout -q $(git -C /repo rev-parse HEAD) 2>/dev/null || (git pull -q /repo HEAD)", cwd=WT)
        sh(f"git fetch -q {R} HEAD && git checkout -q FETCH_HEAD", cwd=WT)
        d = f"{V}/seeded/{b['id']}"
        os.makedirs(d, exist_ok=True)
        open(f"{d}/main.rs", "w").write(b["demo"])
        open(f"{d}/demo.lock", "w").write(lock())
        open(f"{d}/demo.sh", "w").write(DEMO % "\n".join(f'{x} = {{ path = "$repo/{x}" }}' for x in b["deps"]))
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        rc0, o0 = sh(["bash", f"{d}/demo.sh"], cwd=WT)
        for f, old, new in b["edits"]:
            s = open(f"{WT}/{f}").read()
            assert s.count(old) == 1, (b["id"], f, old, s.count(old))
            open(f"{WT}/{f}", "w").write(s.replace(old, new))
        open(f"{d}/patch.diff", "w").write(sh("git diff", cwd=WT)[1])
        rct, ot = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8 --skip lin_alg::matrix_test::numerical_functionality_test::", cwd=WT)
        bad = [l for l in ot.splitlines() if l.startswith("error") or "FAILED" in l]
        rc1, o1 = sh(["bash", f"{d}/demo.sh"], cwd=WT)
        print(b["id"], "demo clean", rc0, "| tests", rct, bad[:6], "| demo patched", rc1, flush=True)
        if rc0 != 0:
            print(o0[-800:])
        sh("git checkout -q -- .", cwd=WT)
        if not (rc0 == 0 and rct == 0 and rc1 != 0):
            print("   NOT KEPT")
            print(o1[-500:])
            shutil.rmtree(d)
            continue
        if os.environ.get("NOCHECK"):
            continue
        try:
            sh(f"git apply {d}/patch.diff", cwd=R)
            for p in [b["property"]] + b.get("also", []):
                rc, o = sh(["python3", "check.py", p], cwd=V, env={"VERIF_TIER": "quick"})
                v = [l for l in o.splitlines() if "VIOLATION" in l]
                print("   check", p, "exit", rc, v[:1] or o.splitlines()[-1:], flush=True)
        finally:
            sh("git checkout -q -- .", cwd=R)


main()
