#!/usr/bin/env python3
"""Runs every numbered change against the checks that execute it. usage: run.py [--jobs N] [id ...]; results in /tmp/mut/results.tsv"""
import os, subprocess, sys, threading, queue, time
W = "/tmp/mut"
BIN = W + "/target/quick/"
bins = sorted(f for f in os.listdir(W + "/harness/src/bin"))
bins = [b[:-3] for b in bins if b.endswith(".rs")]
env0 = dict(os.environ, VERIF_ROOT=W, VERIF_TIER="quick", VERIF_SEED="1")
os.makedirs(W + "/trace", exist_ok=True)
hits = {}; dur = {}
for b in bins:
    t = f"{W}/trace/{b}"
    t0 = time.time()
    r = subprocess.run([BIN + b, "quick"], env=dict(env0, CGL_MUT_TRACE=t, CGL_MUT="0"), capture_output=True, text=True)
    dur[b] = time.time() - t0
    if r.returncode: print("baseline fails:", b, r.stdout[-500:])
    hits[b] = set(map(int, open(t).read().split())) if os.path.exists(t) else set()
    print(b, len(hits[b]), "%.1f s" % dur[b], flush=True)
mut = {}
for l in open(W + "/mutants.tsv"):
    f = l.rstrip("\n").split("\t"); mut[int(f[0])] = f
done = set()
res = W + "/results.tsv"
if os.path.exists(res) and "--fresh" not in sys.argv: done = {int(l.split("\t")[0]) for l in open(res)}
elif os.path.exists(res): os.remove(res)
args = [int(a) for a in sys.argv[1:] if a.isdigit()]
jobs = 4
q = queue.Queue()
for k in (args or sorted(mut)):
    if k not in done or args: q.put(k)
lock = threading.Lock(); count = {}
killers = {}
def order(k):
    f = mut[k][1]
    return sorted((b for b in bins if k in hits[b]), key=lambda b: (-killers.get((f, b), 0), dur[b]))
def work():
    while True:
        try: k = q.get_nowait()
        except queue.Empty: return
        bs = order(k); st = "uncovered" if not bs else "SURVIVED"; who = ""
        for b in bs:
            try:
                r = subprocess.run([BIN + b, "quick"], env=dict(env0, CGL_MUT=str(k), CGLMC_FAILFAST="1"), capture_output=True, timeout=120).returncode
            except subprocess.TimeoutExpired: r = 99
            if r != 0:
                st = "killed"; who = b
                with lock: killers[(mut[k][1], b)] = killers.get((mut[k][1], b), 0) + 1
                break
        with lock:
            count[st] = count.get(st, 0) + 1
            open(res, "a").write("\t".join([str(k), st, who] + mut[k][1:]) + "\n")
            if sum(count.values()) % 200 == 0: print(count, flush=True)
ts = [threading.Thread(target=work) for _ in range(jobs)]
[t.start() for t in ts]; [t.join() for t in ts]
print(count)
