#!/usr/bin/env python3
"""Builds, in /tmp/mut, a copy of the library that holds every numbered change and the checks linked against it."""
import json, os, re, shutil, subprocess, sys
W = "/tmp/mut"
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(os.path.dirname(HERE))
os.makedirs(W, exist_ok=True)
def sh(*a, **k): return subprocess.run(a, text=True, capture_output=True, **k)
def fresh():
    shutil.rmtree(W + "/repo", ignore_errors=True)
    os.makedirs(W + "/repo"); subprocess.run("git -C /repo archive HEAD | tar x -C " + W + "/repo", shell=True, check=True)
    shutil.copy(HERE + "/mutsw.rs", W + "/repo/crates/cglinalg_numeric/src/mutsw.rs")
def harness():
    for d in ("harness", "approx_cmp"):
        shutil.rmtree(f"{W}/{d}", ignore_errors=True)
        shutil.copytree(f"{ROOT}/{d}", f"{W}/{d}", ignore=shutil.ignore_patterns("target"))
    p = W + "/harness/Cargo.toml"; s = open(p).read().replace('"/repo', f'"{W}/repo')
    s = s.replace('[profile.quick]\ninherits = "release"\nopt-level = 0', '[profile.quick]\ninherits = "release"\nopt-level = 1')
    open(p, "w").write(s)
    shutil.copy(ROOT + "/known_findings.txt", W)
    p = W + "/harness/src/lib.rs"; s = open(p).read()
    a = "            self.t.failure_count += 1;"
    assert a in s
    open(p, "w").write(s.replace(a, "            if std::env::var_os(\"CGLMC_FAILFAST\").is_some() { std::process::exit(1); }\n" + a))
    os.makedirs(W + "/evidence/replay", exist_ok=True)
env = dict(os.environ, CARGO_TARGET_DIR=W + "/target", CARGO_NET_OFFLINE="true")
harness()
dropped = set()
if os.path.exists(W + "/dropped.txt") and "--keep" in sys.argv: dropped = set(map(int, open(W + "/dropped.txt").read().split()))
for it in range(60):
    open(W + "/dropped.txt", "w").write(" ".join(map(str, sorted(dropped))))
    fresh()
    r = sh("/tmp/mt-target/release/mutate", W + "/repo", W + "/mutants.tsv", W + "/dropped.txt"); print(r.stderr.strip())
    p = W + "/repo/crates/cglinalg_numeric/src/lib.rs"; s = open(p).read()
    s += "\n#[doc(hidden)]\npub mod mutsw;\n"; open(p, "w").write(s)
    r = sh("cargo", "check", "--profile", "quick", "--offline", "--message-format=json", "--lib", cwd=W + "/harness", env=env)
    new = set(); errs = 0
    for l in r.stdout.splitlines():
        try: m = json.loads(l)
        except ValueError: continue
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error": continue
        errs += 1
        found = False
        spans = sorted(m["message"]["spans"], key=lambda x: not x["is_primary"])
        for sp in spans:
            while True:
                fn = sp["file_name"]; fn = fn if fn.startswith("/") else None
                base = sp["file_name"]
                cand = base if base.startswith("/") else None
                if cand is None:
                    for c in ("cglinalg_numeric", "cglinalg_trigonometry", "cglinalg_core", "cglinalg_transform"):
                        if f"/{c}/" in m.get("manifest_path", "") or m.get("target", {}).get("name") == c:
                            cand = f"{W}/repo/crates/{c}/" + base if base.startswith("src") else base
                if cand and os.path.exists(cand) and W in cand and not cand.endswith("mutsw.rs"):
                    t = open(cand, "rb").read().decode()
                    b = t.encode()
                    a, e = sp["byte_start"], sp["byte_end"]
                    hits = [(x.start(), int(x.group(1))) for x in re.finditer(r"mutsw::\w+\((\d+)", t)] if len(b) == len(t) else [(len(t[:x.start()].encode()), int(x.group(1))) for x in re.finditer(r"mutsw::\w+\((\d+)", t)]
                    inside = [k for p_, k in hits if a - 30 <= p_ <= e]
                    before = [k for p_, k in hits if p_ < a]
                    if inside: new.add(inside[0]); found = True
                    elif before: new.add(before[-1]); found = True
                    break
                if sp.get("expansion"): sp = sp["expansion"]["span"]; continue
                break
            if found: break
        if not found and "aborting" not in m["message"]["message"]: print("unmapped:", m["message"]["rendered"][:400])
    print("iteration", it, "errors", errs, "dropping", len(new))
    if errs == 0:
        if r.returncode: print(r.stderr[-2000:])
        break
    if not (new - dropped): print(r.stdout[-3000:]); break
    dropped |= new
r = sh("cargo", "build", "--profile", "quick", "--offline", "--bins", cwd=W + "/harness", env=env); print(r.stderr[-300:])
