#!/usr/bin/env python3
"""Value-dependent faults at every arithmetic operation (see fault() and picked() in mutsw.rs), after prepare.py.
usage: modes.py [--jobs N] [--file SUBSTRING] [--modes 1,2,..] [id ...]; results appended to /tmp/mut/modes.tsv:
killed, survived (the fault took effect and no check noticed) or idle (no check has such values there)."""
import os, subprocess, sys, threading, queue, time
W = "/tmp/mut"; BIN = W + "/target/quick/"
bins = sorted(f[:-3] for f in os.listdir(W + "/harness/src/bin") if f.endswith(".rs"))
env0 = dict(os.environ, VERIF_ROOT=W, VERIF_TIER="quick", VERIF_SEED="1")
def opt(n, d):
    if n in sys.argv: i = sys.argv.index(n); v = sys.argv[i + 1]; del sys.argv[i:i + 2]; return v
    return d
jobs = int(opt("--jobs", 6)); sub = opt("--file", ""); modes = [int(x) for x in opt("--modes", "1,2,3,4,5,6,7,8,9,10,20,21,22,23,24,25,26,27,28").split(",")]
os.makedirs(W + "/trace", exist_ok=True); os.makedirs(W + "/fired", exist_ok=True)
hits = {}; dur = {}
for b in bins:
    t = f"{W}/trace/{b}"; t0 = time.time()
    r = subprocess.run([BIN + b, "quick"], env=dict(env0, CGL_MUT_TRACE=t, CGL_MUT="0"), capture_output=True, text=True)
    dur[b] = time.time() - t0
    if r.returncode: print("baseline fails:", b, r.stdout[-500:])
    hits[b] = {}
    if os.path.exists(t + ".profile"):
        for l in open(t + ".profile"):
            k, v = map(int, l.split()); hits[b][k] = v
def fires(b, k, m): return hits[b].get(k, 0) >> (9 + m if m < 20 else m) & 1
mut = {}
for l in open(W + "/mutants.tsv"):
    f = l.rstrip("\n").split("\t"); mut[int(f[0])] = f
res = W + "/modes.tsv"; done = set()
if os.path.exists(res): done = {tuple(map(int, l.split("\t")[:2])) for l in open(res)}
KINDS = {"add", "sub", "mul", "div", "add_assign", "sub_assign", "mul_assign", "div_assign"}
ids = [int(a) for a in sys.argv[1:] if a.isdigit()] or [k for k in sorted(mut) if mut[k][3] in KINDS and sub in mut[k][1]]
q = queue.Queue()
for k in ids:
    for m in modes:
        if m == 23 and mut[k][3][:3] in ("mul", "div") or m == 24 and mut[k][3][:3] in ("add", "sub"): continue
        if (k, m) not in done or len(sys.argv) > 1: q.put((k, m))
print(q.qsize(), "runs", flush=True)
lock = threading.Lock(); count = {}; killers = {}
def work(n):
    while True:
        try: k, m = q.get_nowait()
        except queue.Empty: return
        f = mut[k][1]; fired = False; st = None; who = ""
        for b in sorted((b for b in bins if fires(b, k, m)), key=lambda b: (-killers.get((f, b), 0), dur[b])):
            F = f"{W}/fired/{n}"
            open(F, "w").write("0")
            try: r = subprocess.run([BIN + b, "quick"], env=dict(env0, CGL_MUT=str(k), CGL_MODE=str(m), CGL_FIRED=F, CGLMC_FAILFAST="1"), capture_output=True, timeout=120).returncode
            except subprocess.TimeoutExpired: r = 99
            if r: st, who = "killed", b; break
            if open(F).read() == "1": fired = True; who += b + " "
        st = st or ("SURVIVED" if fired else "idle")
        with lock:
            if st == "killed": killers[(f, who)] = killers.get((f, who), 0) + 1
            count[st] = count.get(st, 0) + 1
            open(res, "a").write("\t".join([str(k), str(m), st, who] + mut[k][1:]) + "\n")
            if sum(count.values()) % 500 == 0: print(count, q.qsize(), flush=True)
ts = [threading.Thread(target=work, args=(i,)) for i in range(jobs)]
[t.start() for t in ts]; [t.join() for t in ts]
print(count)
