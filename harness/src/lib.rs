//! Bounded exhaustive exploration of the real cglinalg code against plain reference models.
//!
//! A check is a set of *sections*. A section enumerates a finite space of cases completely; a case
//! drives the real library through one sequence of calls and compares every observed result with
//! the reference model. Counters (cases, compared calls, distinct observed outcomes) are measured
//! and written to the evidence file.
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub mod flat;
pub mod grid;
pub mod model;
pub mod xf;
pub use flat::Flat;

pub const MAX_FLAT: usize = 96;

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub section: String,
    pub case: String,
    pub op: String,
    pub got: String,
    pub want: String,
    pub known: Option<String>,
}

#[derive(Default)]
struct Totals {
    cases: u64,
    ops: u64,
    outcomes: HashSet<u64>,
    outcomes_capped: u64,
    samples: Vec<String>,
    failures: Vec<Failure>,
    failure_count: u64,
    known_hits: BTreeMap<String, (u64, String)>,
    /// Extra explicit states (breadth-first searches report their own state count).
    bfs_states: u64,
    bfs_transitions: u64,
}

pub struct Known {
    pub key: String,
    pub what: String,
}

pub struct Ctx {
    pub id: &'static str,
    pub tier: Tier,
    full: bool,
    pub seed: u64,
    pub threads: usize,
    only: Option<String>,
    t0: Instant,
    known: Vec<Known>,
    sections: Mutex<BTreeMap<String, Totals>>,
    bounds: Mutex<Vec<String>>,
    assumptions: Mutex<Vec<String>>,
    evidence: String,
    root: String,
}

/// One section of one thread.
pub struct Sec<'a> {
    ctx: &'a Ctx,
    name: &'a str,
    t: Totals,
    case_no: u64,
    sample_every: u64,
    slot: usize,
}

/// What each thread is doing, for the watchdog: 0 when outside a case, else a number unique to the case.
static BUSY: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
static DONE: AtomicU64 = AtomicU64::new(0);
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);
static NAMES: Mutex<Vec<(usize, String)>> = Mutex::new(Vec::new());
/// A call that has not returned after this many seconds never will: cases take microseconds.
const HANG_S: u64 = 150;

fn slot(name: &str) -> usize {
    let i = NEXT_SLOT.fetch_add(1, Ordering::Relaxed) % BUSY.len();
    let mut n = NAMES.lock().unwrap();
    n.retain(|(j, _)| *j != i);
    n.push((i, name.to_string()));
    i
}

/// Every library call terminates: a case (or a whole run) without progress is a violation, not a
/// check that gives no answer.
fn watchdog(id: &'static str, root: String, tier: &'static str) {
    std::thread::spawn(move || {
        let mut since = [(0u64, 0u64); 64];
        let mut idle = (0u64, 0u64);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let mut stuck = None;
            for (i, b) in BUSY.iter().enumerate() {
                let v = b.load(Ordering::Relaxed);
                if v != 0 && v == since[i].0 {
                    since[i].1 += 1;
                    if since[i].1 > HANG_S {
                        stuck = Some((i, v));
                    }
                } else {
                    since[i] = (v, 0);
                }
            }
            let d = DONE.load(Ordering::Relaxed);
            idle = if d == idle.0 { (d, idle.1 + 1) } else { (d, 0) };
            let what = match stuck {
                Some((i, v)) => {
                    let names = NAMES.lock().unwrap();
                    let name = names.iter().find(|(j, _)| *j == i).map(|(_, n)| n.clone()).unwrap_or_default();
                    format!("section: {name}\ncase: number {} of its thread\nobserved: a library call that does not return\nexpected: a value\nreplay: ./check.sh {id} {tier} --section '{name}'\n", v - 1)
                }
                None if idle.1 > 2 * HANG_S => "observed: a library call that does not return while the cases are prepared\nexpected: a value\n".to_string(),
                None => continue,
            };
            let _ = std::fs::create_dir_all(format!("{root}/evidence/replay"));
            let path = format!("{root}/evidence/replay/{id}.txt");
            let _ = std::fs::write(&path, format!("property: {id}\ntier: {tier}\n\n{what}"));
            let ev = format!(
                "{{\"property\": {}, \"tier\": \"{tier}\", \"seed\": 1, \"level\": \"model_checking\", \"coverage\": {{\"states\": 0, \"transitions\": {d}, \"traces_validated_against_impl\": {d}, \"exhaustive\": false, \"samples\": [{}]}}, \"wall_s\": {HANG_S}, \"violations\": 1}}\n",
                js(id), js(&what)
            );
            let _ = std::fs::write(format!("{root}/evidence/{id}.json"), ev);
            println!("{what}");
            println!("VIOLATION property={id} replay={path}");
            std::process::exit(1);
        }
    });
}

/// One case: the observation sink.
pub struct Case<'c> {
    pub ops: u64,
    digest: u64,
    known: &'c [Known],
    fail: Option<(String, String, String)>,
    known_hits: Vec<(String, String)>,
}

const OUTCOME_CAP: usize = 400_000;

fn mix(mut h: u64, v: u64) -> u64 {
    h ^= v.wrapping_add(0x9e37_79b9_7f4a_7c15).wrapping_add(h << 6).wrapping_add(h >> 2);
    h = h.wrapping_mul(0xff51_afd7_ed55_8ccd);
    h ^ (h >> 32)
}

fn same_exact(a: f64, b: f64) -> bool {
    (a == b) || (a.is_nan() && b.is_nan())
}

/// Factor on every tolerance, from CGL_TIGHT (1 when unset): how far the comparisons are from
/// alarming on mere rounding is measured by running with a factor below 1.
fn tighten() -> f64 {
    static F: std::sync::OnceLock<f64> = std::sync::OnceLock::new();
    *F.get_or_init(|| std::env::var("CGL_TIGHT").ok().and_then(|v| v.parse().ok()).unwrap_or(1.0))
}

impl<'c> Case<'c> {
    #[inline]
    fn observe(&mut self, vals: &[f64]) {
        let mut h = self.digest;
        for v in vals {
            h = mix(h, (v + 0.0).to_bits());
        }
        self.digest = h;
    }
    fn bad(&mut self, op: &str, got: String, want: String) {
        if self.fail.is_none() {
            self.fail = Some((op.to_string(), got, want));
        }
    }
    /// The observed value equals the expected one exactly (0 == -0, NaN == NaN).
    pub fn eq<A: Flat, B: Flat>(&mut self, op: &str, got: A, want: B) -> bool {
        let mut g = flat::Buf::new();
        let mut w = flat::Buf::new();
        got.flat(&mut g);
        want.flat(&mut w);
        self.eq_buf(op, &g, &w)
    }
    #[inline(never)]
    fn eq_buf(&mut self, op: &str, g: &flat::Buf, w: &flat::Buf) -> bool {
        self.ops += 1;
        self.observe(g.as_slice());
        let ok = g.len() == w.len() && g.as_slice().iter().zip(w.as_slice()).all(|(a, b)| same_exact(*a, *b));
        if !ok {
            self.bad(op, format!("{:?}", g.as_slice()), format!("{:?}", w.as_slice()));
        }
        ok
    }
    /// Bit for bit (the sign of zero matters).
    #[inline]
    pub fn bits<A: Flat, B: Flat>(&mut self, op: &str, got: A, want: B) -> bool {
        self.ops += 1;
        let mut g = flat::Buf::new();
        let mut w = flat::Buf::new();
        got.flat(&mut g);
        want.flat(&mut w);
        self.observe(g.as_slice());
        let ok = g.len() == w.len()
            && g.as_slice().iter().zip(w.as_slice()).all(|(a, b)| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()));
        if !ok {
            self.bad(op, format!("{:?}", g.as_slice()), format!("{:?}", w.as_slice()));
        }
        ok
    }
    /// Every component within `tol * max(1, largest |expected| component)`.
    pub fn close<A: Flat, B: Flat>(&mut self, op: &str, got: A, want: B, tol: f64) -> bool {
        let mut g = flat::Buf::new();
        let mut w = flat::Buf::new();
        got.flat(&mut g);
        want.flat(&mut w);
        self.close_buf(op, &g, &w, tol)
    }
    #[inline(never)]
    fn close_buf(&mut self, op: &str, g: &flat::Buf, w: &flat::Buf, tol: f64) -> bool {
        self.ops += 1;
        self.observe(g.as_slice());
        let tol = tol * tighten();
        let ok = flat::close(g.as_slice(), w.as_slice(), tol);
        if !ok {
            self.bad(op, format!("{:?}", g.as_slice()), format!("{:?} (tolerance {tol:e})", w.as_slice()));
        }
        ok
    }
    /// Every component within `tol` times the largest |expected| component, however small that is.
    pub fn rel<A: Flat, B: Flat>(&mut self, op: &str, got: A, want: B, tol: f64) -> bool {
        self.scaled(op, got, want, 0.0, tol)
    }
    /// Every component within `tol` times the largest of `scale` and the |expected| components.
    pub fn scaled<A: Flat, B: Flat>(&mut self, op: &str, got: A, want: B, scale: f64, tol: f64) -> bool {
        let mut g = flat::Buf::new();
        let mut w = flat::Buf::new();
        got.flat(&mut g);
        want.flat(&mut w);
        self.scaled_buf(op, &g, &w, scale, tol)
    }
    #[inline(never)]
    fn scaled_buf(&mut self, op: &str, g: &flat::Buf, w: &flat::Buf, scale: f64, tol: f64) -> bool {
        self.ops += 1;
        self.observe(g.as_slice());
        let tol = tol * tighten();
        let (gs, ws) = (g.as_slice(), w.as_slice());
        let m = ws.iter().fold(scale, |m, x| if x.abs() > m { x.abs() } else { m });
        let ok = gs.len() == ws.len() && gs.iter().zip(ws).all(|(a, b)| same_exact(*a, *b) || (a - b).abs() <= tol * m);
        if !ok {
            self.bad(op, format!("{gs:?}"), format!("{ws:?} (tolerance {tol:e} of {m:e})"));
        }
        ok
    }
    /// Close to the expected value, or (only while the finding is listed) to the value the listed
    /// defect produces. Anything else is an unlisted violation.
    pub fn close_or_known<A: Flat, B: Flat, C: Flat>(&mut self, op: &str, key: &str, got: A, want: B, listed: C, tol: f64) -> bool {
        let mut g = flat::Buf::new();
        let mut w = flat::Buf::new();
        let mut l = flat::Buf::new();
        got.flat(&mut g);
        want.flat(&mut w);
        listed.flat(&mut l);
        if !flat::close(g.as_slice(), w.as_slice(), tol)
            && flat::close(g.as_slice(), l.as_slice(), tol)
            && self.known.iter().any(|k| k.key == key)
        {
            self.ops += 1;
            self.observe(g.as_slice());
            self.known_hits.push((key.to_string(), format!("{op}: got {:?}, expected {:?}", g.as_slice(), w.as_slice())));
            return true;
        }
        self.close(op, got, want, tol)
    }
    /// A truth observed on the implementation.
    #[inline]
    pub fn truth(&mut self, op: &str, ok: bool) -> bool {
        self.ops += 1;
        self.digest = mix(self.digest, ok as u64);
        if !ok {
            self.bad(op, "false".into(), "true".into());
        }
        ok
    }
    pub fn truth_with(&mut self, op: &str, ok: bool, got: impl FnOnce() -> String) -> bool {
        self.ops += 1;
        self.digest = mix(self.digest, ok as u64);
        if !ok {
            self.bad(op, got(), "holds".into());
        }
        ok
    }
    #[inline]
    pub fn same<T: PartialEq + std::fmt::Debug>(&mut self, op: &str, got: T, want: T) -> bool {
        self.ops += 1;
        let ok = got == want;
        for b in format!("{got:?}").bytes() {
            self.digest = mix(self.digest, b as u64);
        }
        if !ok {
            self.bad(op, format!("{got:?}"), format!("{want:?}"));
        }
        ok
    }
    pub fn text(&mut self, op: &str, got: &str, want: &str) -> bool {
        self.ops += 1;
        for b in got.bytes() {
            self.digest = mix(self.digest, b as u64);
        }
        if got != want {
            self.bad(op, got.to_string(), want.to_string());
        }
        got == want
    }
    /// The call must panic.
    pub fn panics(&mut self, op: &str, f: impl FnOnce()) -> bool {
        self.ops += 1;
        let r = catch_unwind(AssertUnwindSafe(f)).is_err();
        self.digest = mix(self.digest, r as u64);
        if !r {
            self.bad(op, "returned normally".into(), "panic".into());
        }
        r
    }
    pub fn failed(&self) -> bool {
        self.fail.is_some()
    }
}

impl<'a> Sec<'a> {
    pub fn tier(&self) -> Tier {
        if self.ctx.full {
            Tier::Thorough
        } else {
            Tier::Quick
        }
    }
    #[inline]
    pub fn case(&mut self, desc: impl Fn() -> String, f: impl FnOnce(&mut Case)) {
        let mut c = Case { ops: 0, digest: 0x1234_5678, known: &self.ctx.known, fail: None, known_hits: Vec::new() };
        BUSY[self.slot].store(self.case_no + 2, Ordering::Relaxed);
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut c)));
        BUSY[self.slot].store(0, Ordering::Relaxed);
        DONE.fetch_add(1, Ordering::Relaxed);
        if let Err(e) = r {
            let msg = if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else {
                "panic".into()
            };
            c.bad("(call sequence)", format!("panicked: {msg}"), "a value".into());
        }
        self.t.cases += 1;
        self.t.ops += c.ops;
        if self.t.outcomes.len() < OUTCOME_CAP {
            self.t.outcomes.insert(c.digest);
        } else if !self.t.outcomes.contains(&c.digest) {
            self.t.outcomes_capped += 1;
        }
        self.case_no += 1;
        if self.t.samples.len() < 2 && (self.case_no == 1 || self.case_no == self.sample_every) {
            self.t.samples.push(format!("{}: {} [{} calls compared]", self.name, desc(), c.ops));
        }
        for (k, what) in c.known_hits.drain(..) {
            let e = self.t.known_hits.entry(k).or_insert_with(|| (0, format!("{} {}", desc(), what)));
            e.0 += 1;
        }
        if let Some((op, got, want)) = c.fail {
            self.t.failure_count += 1;
            if self.t.failures.len() < 3 {
                self.t.failures.push(Failure { section: self.name.to_string(), case: desc(), op, got, want, known: None });
            }
        }
    }
    /// Record states/transitions of an explicit-state search done inside this section.
    pub fn search(&mut self, states: u64, transitions: u64) {
        self.t.bfs_states += states;
        self.t.bfs_transitions += transitions;
    }
}

impl Ctx {
    pub fn start(id: &'static str) -> Ctx {
        std::panic::set_hook(Box::new(|_| {}));
        let mut tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let mut only = None;
        let args: Vec<String> = std::env::args().collect();
        let mut i = 1;
        while i < args.len() {
            match args[i].as_str() {
                "quick" => tier = Tier::Quick,
                "thorough" => tier = Tier::Thorough,
                "--section" => {
                    i += 1;
                    only = Some(args[i].clone());
                }
                _ => {}
            }
            i += 1;
        }
        let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        // Known findings: lines "property<TAB>key<TAB>what"; lines starting with "fixed:" or '#' list nothing.
        let mut known = Vec::new();
        if let Ok(s) = std::fs::read_to_string(format!("{root}/known_findings.txt")) {
            for l in s.lines() {
                let f: Vec<&str> = l.split('\t').collect();
                if f.len() == 3 && f[0] == id {
                    known.push(Known { key: f[1].to_string(), what: f[2].to_string() });
                }
            }
        }
        watchdog(id, root.clone(), if tier == Tier::Quick { "quick" } else { "thorough" });
        let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
        Ctx {
            id,
            tier,
            full: tier == Tier::Thorough || std::env::var("CGL_FULL").as_deref() == Ok("1"),
            seed,
            threads,
            only,
            t0: Instant::now(),
            known,
            sections: Mutex::new(BTreeMap::new()),
            bounds: Mutex::new(Vec::new()),
            assumptions: Mutex::new(Vec::new()),
            evidence: format!("{root}/evidence/{id}.json"),
            root,
        }
    }
    /// Whether to explore the full bounds: always in the thorough tier, and in the quick tier for the
    /// properties whose full bounds take only seconds (check.sh).
    pub fn thorough(&self) -> bool {
        self.full
    }
    /// A value for the small bounds, the full bounds and the thorough tier.
    pub fn grade<T>(&self, small: T, full: T, deepest: T) -> T {
        if self.tier == Tier::Thorough {
            deepest
        } else {
            self.pick(small, full)
        }
    }
    /// A value for the small and one for the full bounds.
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
    pub fn bound(&self, s: &str) {
        self.bounds.lock().unwrap().push(s.to_string());
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }
    fn skip(&self, name: &str) -> bool {
        matches!(&self.only, Some(o) if o != name)
    }
    fn merge(&self, name: &str, t: Totals) {
        let mut m = self.sections.lock().unwrap();
        let e = m.entry(name.to_string()).or_default();
        e.cases += t.cases;
        e.ops += t.ops;
        e.outcomes_capped += t.outcomes_capped;
        e.bfs_states += t.bfs_states;
        e.bfs_transitions += t.bfs_transitions;
        if e.outcomes.is_empty() {
            e.outcomes = t.outcomes;
        } else {
            for o in t.outcomes {
                if e.outcomes.len() < 4 * OUTCOME_CAP {
                    e.outcomes.insert(o);
                } else {
                    e.outcomes_capped += 1;
                }
            }
        }
        if e.samples.len() < 2 {
            e.samples.extend(t.samples.into_iter().take(1));
        }
        e.failure_count += t.failure_count;
        if e.failures.len() < 3 {
            e.failures.extend(t.failures);
        }
        for (k, (n, d)) in t.known_hits {
            let x = e.known_hits.entry(k).or_insert((0, d));
            x.0 += n;
        }
    }
    /// A section enumerated by one thread.
    pub fn section(&self, name: &str, f: impl FnOnce(&mut Sec)) {
        if self.skip(name) {
            return;
        }
        let mut s = Sec { ctx: self, name, t: Totals::default(), case_no: 0, sample_every: 37, slot: slot(name) };
        f(&mut s);
        self.merge(name, s.t);
    }
    /// A section whose `n` work items are all run, spread over the threads.
    pub fn par(&self, name: &str, n: usize, f: impl Fn(usize, &mut Sec) + Sync) {
        if self.skip(name) {
            return;
        }
        let next = AtomicUsize::new(0);
        let chunk = (n / (self.threads * 16)).max(1);
        std::thread::scope(|sc| {
            let mut hs = Vec::new();
            for _ in 0..self.threads.min(n.max(1)) {
                hs.push(sc.spawn(|| {
                    let mut s = Sec { ctx: self, name, t: Totals::default(), case_no: 0, sample_every: 37, slot: slot(name) };
                    loop {
                        let i = next.fetch_add(chunk, Ordering::Relaxed);
                        if i >= n {
                            break;
                        }
                        for j in i..(i + chunk).min(n) {
                            f(j, &mut s);
                        }
                    }
                    s.t
                }));
            }
            for h in hs {
                match h.join() {
                    Ok(t) => self.merge(name, t),
                    Err(_) => {
                        // only a library call can panic here; the outcome is reported by check.sh
                        eprintln!("panicked in section {name}, while its cases were prepared");
                        std::process::exit(101);
                    }
                }
            }
        });
    }
    /// Print the verdict, write evidence, exit.
    pub fn finish(self) -> ! {
        let m = self.sections.into_inner().unwrap();
        let mut cases = 0u64;
        let mut ops = 0u64;
        let mut outcomes = 0u64;
        let mut bfs_s = 0u64;
        let mut bfs_t = 0u64;
        let mut nfail = 0u64;
        let mut samples = Vec::new();
        let mut sec_json = Vec::new();
        let mut fails: Vec<Failure> = Vec::new();
        let mut known_hits: BTreeMap<String, (u64, String)> = BTreeMap::new();
        let mut vacuous = Vec::new();
        for (name, t) in &m {
            cases += t.cases;
            ops += t.ops;
            let out = t.outcomes.len() as u64 + t.outcomes_capped;
            outcomes += out;
            bfs_s += t.bfs_states;
            bfs_t += t.bfs_transitions;
            nfail += t.failure_count;
            fails.extend(t.failures.iter().cloned());
            for (k, (n, d)) in &t.known_hits {
                let x = known_hits.entry(k.clone()).or_insert((0, d.clone()));
                x.0 += n;
            }
            if t.ops == 0 {
                vacuous.push(name.clone());
            }
            samples.extend(t.samples.iter().take(1).cloned());
            sec_json.push(format!(
                "{{\"section\": {}, \"cases\": {}, \"calls_compared\": {}, \"distinct_outcomes\": {}, \"search_states\": {}, \"search_transitions\": {}}}",
                js(name), t.cases, t.ops, out, t.bfs_states, t.bfs_transitions
            ));
        }
        samples.truncate(40);
        let wall = self.t0.elapsed().as_secs_f64();
        let tier = if self.tier == Tier::Quick { "quick" } else { "thorough" };
        let replay_run = self.only.is_some();
        let list = |v: &[String]| v.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ");
        let states = outcomes + bfs_s;
        let ev = format!(
            "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": true,\n  \"rule\": \"states: distinct observed outcomes (plus search states); transitions: library results compared with the reference model (plus search transitions); traces: complete cases executed on the real code\",\n  \"sections\": [\n   {}\n  ],\n  \"bounds\": [{}],\n  \"known_findings_hit\": [{}],\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            js(self.id), tier, self.seed, states, ops + bfs_t, cases,
            sec_json.join(",\n   "),
            list(&self.bounds.into_inner().unwrap()),
            list(&known_hits.keys().cloned().collect::<Vec<_>>()),
            list(&samples),
            list(&self.assumptions.into_inner().unwrap()),
            wall, nfail
        );
        if !replay_run {
            let _ = std::fs::create_dir_all(format!("{}/evidence", self.root));
            if let Err(e) = std::fs::write(&self.evidence, ev) {
                eprintln!("ERROR: cannot write evidence: {e}");
                std::process::exit(2);
            }
        }
        println!(
            "{} {tier}: {} sections, {cases} cases, {} calls compared, {states} distinct outcomes/states, {nfail} failing, {wall:.1} s",
            self.id, m.len(), ops + bfs_t
        );
        for k in &self.known {
            if let Some((n, d)) = known_hits.get(&k.key) {
                println!("KNOWN-FINDING: property={} {} [{} cases, e.g. {}]", self.id, k.what, n, d);
            }
        }
        if m.is_empty() || !vacuous.is_empty() {
            eprintln!("ERROR: vacuous sections: {vacuous:?}");
            std::process::exit(2);
        }
        if nfail > 0 {
            let dir = format!("{}/evidence/replay", self.root);
            let _ = std::fs::create_dir_all(&dir);
            let path = format!("{dir}/{}.txt", self.id);
            let mut s = String::new();
            s.push_str(&format!("property: {}\ntier: {tier}\n", self.id));
            for f in &fails {
                s.push_str(&format!(
                    "\nsection: {}\ncase: {}\ncall: {}\nobserved: {}\nexpected: {}\nreplay: ./check.sh {} {tier} --section '{}'\n",
                    f.section, f.case, f.op, f.got, f.want, self.id, f.section
                ));
            }
            let _ = std::fs::write(&path, &s);
            for f in fails.iter().take(4) {
                println!("  {} | {} | {} | got {} | want {}", f.section, f.case, f.op, f.got, f.want);
            }
            println!("VIOLATION property={} replay={path}", self.id);
            std::process::exit(1);
        }
        std::process::exit(0);
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
