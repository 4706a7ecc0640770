#!/usr/bin/env python3
"""Plant the bugs of tools/seeds.py: write /verif/seeded/<id>/ (patch.diff, demo.sh, meta.json, ...).
usage: seed.py [ID...]   build and confirm the named (default: all) bugs
       seed.py --run [ID...]  run the quick check of each bug's property against it
Everything happens in a scratch copy, except --run, which applies the patch to /repo and undoes it."""
import os, sys, subprocess, json, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/tools")
from seeds import SEEDS
WT = "/tmp/seed_wt"
DEMO = r'''#!/bin/bash
# Run with the current directory at the cglinalg repository. Exit 0 if the behaviour is right.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf -- "$d"' EXIT
mkdir -p "$d/demo/src"
cp "$here/demo.rs" "$d/demo/src/main.rs"
cp -r "$here/approx_cmp" "$d/approx_cmp"
cp "$here/lock" "$d/demo/Cargo.lock"
cat >"$d/demo/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
cglinalg_numeric = { path = "$repo/crates/cglinalg_numeric" }
cglinalg_trigonometry = { path = "$repo/crates/cglinalg_trigonometry" }
cglinalg_core = { path = "$repo/crates/cglinalg_core" }
cglinalg_transform = { path = "$repo/crates/cglinalg_transform" }
approx_cmp = { path = "../approx_cmp" }
[patch."https://github.com/lambdaxymox/approx_cmp/"]
approx_cmp = { path = "../approx_cmp" }
[profile.dev]
debug = false
T
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$d/target
cd "$d/demo" && cargo run --offline -q 2>"$d/log" || { tail -5 "$d/log"; exit 1; }
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def make(s):
    d = f"{ROOT}/seeded/{s['id']}"
    shutil.rmtree(WT, ignore_errors=True)
    r = sh(f"git clone -q /repo {WT}"); assert r.returncode == 0, r.stderr
    for f, old, new in s["edits"]:
        p = f"{WT}/crates/{f}"
        t = open(p).read()
        n = s.get("nth", 0)
        assert t.count(old) >= 1, (s["id"], f, "not found: " + old)
        if "nth" not in s: assert t.count(old) == 1, (s["id"], f, "ambiguous %d: " % t.count(old) + old)
        parts = t.split(old)
        t = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
        open(p, "w").write(t)
    diff = sh(f"git -C {WT} diff").stdout
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.rs", "w").write("#![allow(unused_imports)]\nuse cglinalg_core::*;\nuse cglinalg_numeric::*;\nuse cglinalg_transform::*;\nuse cglinalg_trigonometry::*;\n\n" + s.get("pre", "") + "fn main() {\n" + s["demo"].strip("\n") + "\n}\n")
    shutil.copytree(ROOT + "/approx_cmp", d + "/approx_cmp", ignore=shutil.ignore_patterns("target"))
    lock = open(ROOT + "/harness/Cargo.lock").read().replace('name = "cglmc"', 'name = "demo"')
    open(d + "/lock", "w").write(lock)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    good = sh(f"timeout 250 bash {d}/demo.sh", cwd="/repo")
    bad = sh(f"timeout 250 bash {d}/demo.sh", cwd=WT)
    # the stable tests
    st = sh(f"sed 's#/repo#{WT}#g' /opt/vp/scope.rs > /tmp/seed_scope.rs; cd {WT} && rustc --edition 2021 --test -C overflow-checks=off -o /tmp/seed_tests /tmp/seed_scope.rs 2>&1 && /tmp/seed_tests -q")
    compiles = "error[" not in bad.stdout and "could not compile" not in bad.stdout
    ok = good.returncode == 0 and bad.returncode != 0 and compiles and st.returncode == 0
    print(s["id"], s["property"], "ok" if ok else f"BAD good={good.returncode} {good.stdout[-600:]} bad={bad.returncode} {bad.stdout[-300:]} tests={st.returncode} {st.stdout[-300:]}", flush=True)
    return ok
def run(s):
    d = f"{ROOT}/seeded/{s['id']}"
    assert not sh("git -C /repo status --porcelain").stdout.strip()
    r = sh(f"git -C /repo apply {d}/patch.diff"); assert r.returncode == 0, r.stderr
    try:
        r = sh(f"{ROOT}/check.sh {s['property']} quick")
    finally:
        sh("git -C /repo checkout -- .")
    hit = r.returncode == 1 and f"VIOLATION property={s['property']}" in r.stdout
    print(s["id"], s["property"], "CAUGHT" if hit else f"MISSED rc={r.returncode} {r.stdout[-300:]}", flush=True)
    return hit
a = sys.argv[1:]
f = run if "--run" in a else make
ids = [x for x in a if not x.startswith("--")]
res = [f(s) for s in SEEDS if not ids or s["id"] in ids]
print(sum(res), "of", len(res))
shutil.rmtree(WT, ignore_errors=True)
