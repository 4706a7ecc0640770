#!/usr/bin/env python3
"""Value profile: which kinds of operand values each numbered operation sees over all checks (no change switched on).
usage: profile.py [file substring]; prints the operations that never see a kind of value."""
import os, subprocess, sys
W = "/tmp/mut"; BIN = W + "/target/quick/"
bins = sorted(f[:-3] for f in os.listdir(W + "/harness/src/bin") if f.endswith(".rs"))
env0 = dict(os.environ, VERIF_ROOT=W, VERIF_TIER="quick", VERIF_SEED="1", CGL_MUT="0")
os.makedirs(W + "/trace", exist_ok=True)
prof = {}
def one(b):
    t = f"{W}/trace/{b}"
    if "--cached" not in sys.argv:
        r = subprocess.run([BIN + b, "quick"], env=dict(env0, CGL_MUT_TRACE=t), capture_output=True, text=True)
        if r.returncode: print("baseline fails:", b, r.stdout[-300:])
    if not os.path.exists(t + ".profile"): return
    for l in open(t + ".profile"):
        k, v = map(int, l.split()); prof[k] = prof.get(k, 0) | v
for b in bins: one(b)
names = {2: "f64", 4: "f32", 8: "int", 16: ">100", 32: ">1e6", 64: "<1e-2", 128: "<1e-6", 256: "neg", 512: "frac"}
mut = {}
want = [a for a in sys.argv[1:] if not a.startswith("--")]
for l in open(W + "/mutants.tsv"):
    k, f, line, kind, text = l.rstrip("\n").split("\t"); k = int(k)
    if want and not any(w in f for w in want): continue
    p = prof.get(k, 0)
    if not p & 6: continue
    miss = [n for b, n in names.items() if not p & b and b != 8]
    if miss: print(os.path.basename(os.path.dirname(os.path.dirname(f))).replace("cglinalg_", ""), os.path.basename(f), line, kind, text[:60], "|", " ".join(miss))
