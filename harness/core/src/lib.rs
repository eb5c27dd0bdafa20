//! Shared machinery: run reporting, exhaustive choice enumeration, scratch dirs,
//! and the in-process libc interposer (fault / crash / clock / hash-seed control).
pub mod fsx;
pub mod sched;
pub mod thr;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::Instant;

pub const VERIF: &str = "/verif";

/// One check run. Counters are measured, never estimated.
pub struct Run {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    start: Instant,
    states: AtomicU64,
    transitions: AtomicU64,
    traces: AtomicU64,
    evals: AtomicU64,
    samples: Mutex<Vec<Value>>,
    distinct: Mutex<HashSet<u64>>,
    bounds: Mutex<BTreeMap<String, Value>>,
    parts: Mutex<BTreeMap<String, BTreeMap<String, u64>>>,
    violations: Mutex<Vec<(String, String, Value)>>,
    known: Vec<(String, String)>,
    known_hit: Mutex<BTreeMap<String, String>>,
    rule: Mutex<String>,
    pub max_viol: usize,
}

static CHILD: std::sync::OnceLock<std::path::PathBuf> = std::sync::OnceLock::new();
fn monotonic() -> Instant { Instant::now() }

impl Run {
    pub fn new(prop: &str, thorough: bool) -> Run {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut known = vec![];
        if let Ok(t) = std::fs::read_to_string(format!("{VERIF}/known_findings.json")) {
            let v: Value = serde_json::from_str(&t).expect("known_findings.json");
            for f in v["findings"].as_array().cloned().unwrap_or_default() {
                if f["property"] == prop {
                    known.push((f["key"].as_str().unwrap().to_string(), f["what"].as_str().unwrap().to_string()));
                }
            }
        }
        Run { prop: prop.into(), thorough, seed, start: monotonic(), states: 0.into(), transitions: 0.into(), traces: 0.into(),
            evals: 0.into(), samples: Default::default(), distinct: Default::default(), bounds: Default::default(), parts: Default::default(),
            violations: Default::default(), known, known_hit: Default::default(), rule: Default::default(), max_viol: 5 }
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T { if self.thorough { thorough } else { quick } }
    pub fn state(&self, n: u64) { self.states.fetch_add(n, Relaxed); }
    pub fn trans(&self, n: u64) { self.transitions.fetch_add(n, Relaxed); }
    pub fn trace(&self, n: u64) { self.traces.fetch_add(n, Relaxed); }
    pub fn eval(&self, n: u64) { self.evals.fetch_add(n, Relaxed); }
    /// Record the hash of an observed outcome (vacuity indicator).
    pub fn outcome<T: Hash>(&self, t: &T) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        t.hash(&mut h);
        let mut d = self.distinct.lock().unwrap();
        if d.len() < 5_000_000 { d.insert(h.finish()); }
    }
    pub fn sample(&self, v: Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 12 { s.push(v); }
    }
    pub fn bound(&self, k: &str, v: impl Into<Value>) { self.bounds.lock().unwrap().insert(k.into(), v.into()); }
    pub fn rule(&self, s: &str) { *self.rule.lock().unwrap() = s.into(); }
    pub fn part(&self, part: &str, k: &str, n: u64) {
        *self.parts.lock().unwrap().entry(part.into()).or_default().entry(k.into()).or_default() += n;
    }
    /// Report that the property does not hold for `key` (a stable identification of input/history).
    pub fn fail(&self, key: &str, msg: String, replay: Value) {
        if let Some((k, w)) = self.known.iter().find(|(k, _)| k == key) {
            self.known_hit.lock().unwrap().insert(k.clone(), w.clone());
            return;
        }
        let n = {
            let mut v = self.violations.lock().unwrap();
            if v.iter().any(|(k, _, _)| k == key) { return; }
            v.push((key.into(), msg, replay));
            v.len()
        };
        if n >= self.max_viol { self.finish_inner(false); }
    }
    pub fn violated(&self) -> bool { !self.violations.lock().unwrap().is_empty() }
    pub fn finish(&self) -> ! { self.finish_inner(true) }
    /// Run `f(shard, shards)` in `k` forked processes (for checks that use process-global fault control) and merge
    /// their counters. Must be called while the process is single-threaded.
    pub fn sharded(&'static self, k: usize, f: impl Fn(usize, usize)) {
        let dir = scratch("shards");
        let mut pids = vec![];
        for i in 0..k {
            let pid = unsafe { libc::fork() };
            assert!(pid >= 0, "fork");
            if pid == 0 {
                SCRATCH.lock().unwrap().clear();
                CHILD.set(dir.join(format!("{i}.json"))).unwrap();
                f(i, k);
                self.finish_inner(true)
            }
            pids.push(pid);
        }
        let mut complete = true;
        for (i, pid) in pids.into_iter().enumerate() {
            let mut st = 0;
            unsafe { libc::waitpid(pid, &mut st, 0) };
            let Ok(t) = std::fs::read_to_string(dir.join(format!("{i}.json"))) else {
                // an abort or stack overflow inside the code under test ends the shard: that is a failure of the code, not of the check
                self.violations.lock().unwrap().push((format!("shard-died:{i}"), format!("a process exploring shard {i} died (wait status {st:#x})"), json!({"shard": i, "of": k})));
                complete = false;
                continue;
            };
            let v: Value = serde_json::from_str(&t).unwrap();
            let n = |k: &str| v[k].as_u64().unwrap();
            self.state(n("states")); self.trans(n("transitions")); self.trace(n("traces")); self.eval(n("evals"));
            complete &= v["complete"].as_bool().unwrap();
            for h in v["distinct"].as_array().unwrap() { self.distinct.lock().unwrap().insert(h.as_u64().unwrap()); }
            for s in v["samples"].as_array().unwrap() { self.sample(s.clone()); }
            for (k, b) in v["bounds"].as_object().unwrap() { self.bound(k, b.clone()); }
            for (p, m) in v["parts"].as_object().unwrap() { for (k, n) in m.as_object().unwrap() { self.part(p, k, n.as_u64().unwrap()); } }
            for (k, w) in v["known"].as_object().unwrap() { self.known_hit.lock().unwrap().insert(k.clone(), w.as_str().unwrap().into()); }
            for x in v["violations"].as_array().unwrap() {
                let mut l = self.violations.lock().unwrap();
                let key = x[0].as_str().unwrap().to_string();
                if l.len() < 8 && !l.iter().any(|y| y.0 == key) { l.push((key, x[1].as_str().unwrap().into(), x[2].clone())); }
            }
            if !v["rule"].as_str().unwrap().is_empty() { self.rule(v["rule"].as_str().unwrap()); }
        }
        if !complete { self.finish_inner(false) }
    }
    fn dump(&self, path: &std::path::Path, complete: bool) -> ! {
        let v = json!({"states": self.states.load(Relaxed), "transitions": self.transitions.load(Relaxed), "traces": self.traces.load(Relaxed), "evals": self.evals.load(Relaxed),
            "complete": complete, "distinct": *self.distinct.lock().unwrap(), "samples": *self.samples.lock().unwrap(), "bounds": *self.bounds.lock().unwrap(),
            "parts": *self.parts.lock().unwrap(), "known": *self.known_hit.lock().unwrap(), "violations": *self.violations.lock().unwrap(), "rule": *self.rule.lock().unwrap()});
        std::fs::write(path, v.to_string()).unwrap();
        scratch_cleanup();
        unsafe { libc::_exit(0) }
    }
    fn finish_inner(&self, complete: bool) -> ! {
        if let Some(p) = CHILD.get() { fsx::disarm(); fsx::unjail(); self.dump(p, complete) }
        fsx::disarm();
        fsx::unjail();
        unsilence();
        let viol = self.violations.lock().unwrap();
        let _ = std::fs::create_dir_all(format!("{VERIF}/evidence"));
        let wall = self.start.elapsed().as_secs_f64();
        let rep = format!("{VERIF}/evidence/{}.replay.json", self.prop);
        if viol.is_empty() { let _ = std::fs::remove_file(&rep); } else {
            let v: Vec<Value> = viol.iter().map(|(k, m, r)| json!({"key": k, "message": m, "replay": r})).collect();
            std::fs::write(&rep, serde_json::to_string_pretty(&json!({"property": self.prop, "violations": v})).unwrap()).unwrap();
        }
        let known = self.known_hit.lock().unwrap();
        let ev = json!({
            "property": self.prop,
            "tier": if self.thorough {"thorough"} else {"quick"},
            "seed": self.seed,
            "level": "model_checking",
            "wall_s": (wall * 1000.0).round() / 1000.0,
            "coverage": {
                "states": self.states.load(Relaxed),
                "transitions": self.transitions.load(Relaxed),
                "traces_validated_against_impl": match self.traces.load(Relaxed) { 0 => self.evals.load(Relaxed), n => n },
                "evaluations": self.evals.load(Relaxed),
                "distinct_nontrivial": self.distinct.lock().unwrap().len(),
                "rule": *self.rule.lock().unwrap(),
                "exhaustive": complete,
                "bounds": *self.bounds.lock().unwrap(),
                "parts": *self.parts.lock().unwrap(),
                "samples": *self.samples.lock().unwrap(),
            },
            "violations": viol.len(),
            "known_findings_reproduced": known.keys().collect::<Vec<_>>(),
        });
        std::fs::write(format!("{VERIF}/evidence/{}.json", self.prop), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
        for (k, w) in known.iter() {
            println!("KNOWN-FINDING: property={} {} [{}]", self.prop, w, k);
        }
        scratch_cleanup();
        println!("{}: states={} transitions={} evaluations={} traces={} distinct={} wall={:.1}s", self.prop, self.states.load(Relaxed),
            self.transitions.load(Relaxed), self.evals.load(Relaxed), self.traces.load(Relaxed), self.distinct.lock().unwrap().len(), wall);
        for (k, m, _) in viol.iter() { println!("  broken [{k}]: {m}"); }
        let code = if viol.is_empty() { 0 } else {
            println!("VIOLATION property={} replay={}", self.prop, rep);
            1
        };
        use std::io::Write;
        let _ = std::io::stdout().flush();
        unsafe { libc::_exit(code) }
    }
}

/// Depth-first enumeration of every sequence of choices a closure makes.
pub struct Chooser { prefix: Vec<usize>, pub trace: Vec<(usize, usize)>, diverged: Option<usize> }
impl Chooser {
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0);
        let i = self.trace.len();
        if i < self.prefix.len() && self.prefix[i] >= n && self.diverged.is_none() { self.diverged = Some(i); }
        // a replayed prefix may offer fewer choices than before only when the run itself is not repeatable
        let c = if i < self.prefix.len() { self.prefix[i].min(n - 1) } else { 0 };
        self.trace.push((c, n));
        c
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.choose(xs.len())] }
    pub fn path(&self) -> Vec<usize> { self.trace.iter().map(|t| t.0).collect() }
}
/// Runs `f` once per complete choice sequence; returns the number of executions.
pub fn explore(mut f: impl FnMut(&mut Chooser)) -> u64 {
    let mut prefix = vec![];
    let mut n = 0;
    loop {
        let mut c = Chooser { prefix: prefix.clone(), trace: vec![], diverged: None };
        f(&mut c);
        n += 1;
        let mut t = c.trace;
        if let Some(i) = c.diverged { t.truncate(i); }
        loop {
            match t.pop() {
                None => return n,
                Some((c, k)) if c + 1 < k => { t.push((c + 1, k)); break; }
                _ => {}
            }
        }
        prefix = t.iter().map(|x| x.0).collect();
    }
}

/// Parallel map over indices 0..n on all cores (for pure in-memory checks).
pub fn par(n: usize, f: impl Fn(usize) + Sync) {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let k = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
    std::thread::scope(|s| {
        for _ in 0..k {
            std::thread::Builder::new().stack_size(32 << 20).spawn_scoped(s, || loop {
                let i = next.fetch_add(1, Relaxed);
                if i >= n { break; }
                f(i);
            }).unwrap();
        }
    });
}

pub fn sequences<T: Clone>(alpha: &[T], max: usize) -> Vec<Vec<T>> {
    let mut out: Vec<Vec<T>> = vec![vec![]];
    let mut last: Vec<Vec<T>> = vec![vec![]];
    for _ in 0..max {
        let mut nx = vec![];
        for l in &last { for a in alpha { let mut v = l.clone(); v.push(a.clone()); nx.push(v); } }
        out.extend(nx.iter().cloned());
        last = nx;
    }
    out
}
pub fn permutations<T: Clone>(xs: &[T]) -> Vec<Vec<T>> {
    if xs.is_empty() { return vec![vec![]]; }
    let mut out = vec![];
    for i in 0..xs.len() {
        let mut r = xs.to_vec();
        let x = r.remove(i);
        for mut p in permutations(&r) { p.insert(0, x.clone()); out.push(p); }
    }
    out
}
/// All subsets of size <= k (as index lists).
pub fn subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    fn go(n: usize, k: usize, from: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if k == 0 { return; }
        for i in from..n { cur.push(i); out.push(cur.clone()); go(n, k - 1, i + 1, cur, out); cur.pop(); }
    }
    go(n, k, 0, &mut vec![], &mut out);
    out
}

/// Run `f`, turning a panic into Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() { s.clone() } else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else { "panic".into() }
    })
}
static SAVED_OUT: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(-1);
/// Send the process' stdout/stderr to /dev/null (the code under test prints) until the run finishes.
pub fn silence() {
    unsafe {
        let keep = libc::dup(1);
        SAVED_OUT.store(keep, Relaxed);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY, 0);
        libc::dup2(null, 1);
        libc::dup2(null, 2);
    }
}
pub fn unsilence() {
    let k = SAVED_OUT.swap(-1, Relaxed);
    if k >= 0 { use std::io::Write; let _ = std::io::stdout().flush(); unsafe { libc::dup2(k, 1); libc::dup2(k, 2); } }
}
pub fn quiet_panics() { if std::env::var_os("MC_PANICS").is_some() { return; }  std::panic::set_hook(Box::new(|_| {})); }

// ---- scratch directories (tmpfs when available) ----
static SCRATCH: Mutex<Vec<std::path::PathBuf>> = Mutex::new(vec![]);
pub fn scratch(tag: &str) -> std::path::PathBuf {
    let base = if std::fs::metadata("/dev/shm").map(|m| m.is_dir()).unwrap_or(false) { "/dev/shm" } else { "/tmp" };
    let p = std::path::PathBuf::from(format!("{base}/mc-{}-{tag}", std::process::id()));
    let _ = std::fs::remove_dir_all(&p);
    std::fs::create_dir_all(&p).expect("scratch");
    SCRATCH.lock().unwrap().push(p.clone());
    p
}
pub fn scratch_cleanup() {
    for p in SCRATCH.lock().unwrap().drain(..) { let _ = std::fs::remove_dir_all(p); }
}

/// Deterministic dump of a directory tree: relative path -> contents.
pub fn tree(root: &std::path::Path) -> BTreeMap<String, String> {
    fn go(root: &std::path::Path, p: &std::path::Path, out: &mut BTreeMap<String, String>) {
        let Ok(rd) = std::fs::read_dir(p) else { return };
        for e in rd.flatten() {
            let path = e.path();
            let rel = path.strip_prefix(root).unwrap().to_string_lossy().to_string();
            let Ok(md) = std::fs::symlink_metadata(&path) else { continue };
            if md.file_type().is_symlink() {
                out.insert(rel, format!("-> {}", std::fs::read_link(&path).unwrap_or_default().display()));
            } else if md.is_dir() {
                out.insert(format!("{rel}/"), String::new());
                go(root, &path, out);
            } else {
                out.insert(rel, String::from_utf8_lossy(&std::fs::read(&path).unwrap_or_default()).to_string());
            }
        }
    }
    let mut out = BTreeMap::new();
    go(root, root, &mut out);
    out
}

/// Poll a future to completion on the current thread (no runtime needed unless the future wants one).
pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

// ---- watchdog: a single step that never returns is a violation, not a lost check ----
type Slot = std::sync::Arc<(AtomicU64, Mutex<(String, [u64; 4])>)>;
static SLOTS: Mutex<Vec<Slot>> = Mutex::new(vec![]);
thread_local! { static SLOT: Slot = { let s: Slot = Default::default(); SLOTS.lock().unwrap().push(s.clone()); s } }
fn now_ms() -> u64 {
    // raw syscall: immune to the harness' own clock control
    let mut t: libc::timespec = unsafe { std::mem::zeroed() };
    unsafe { libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC, &mut t) };
    t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000 + 1
}
/// Mark the current thread as executing one step of the code under test.
pub fn step_begin(what: &str, at: [u64; 4]) { SLOT.with(|s| { let mut g = s.1.lock().unwrap(); if g.0 != what { g.0 = what.into(); } g.1 = at; drop(g); s.0.store(now_ms(), Relaxed) }) }
pub fn step_end() { SLOT.with(|s| s.0.store(0, Relaxed)) }
/// Start a thread that reports a violation when one step runs longer than `secs`.
pub fn watchdog(r: &'static Run, secs: u64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let n = now_ms();
        let stuck = SLOTS.lock().unwrap().iter().find_map(|s| { let t = s.0.load(Relaxed); (t != 0 && n > t + secs * 1000).then(|| s.1.lock().unwrap().clone()) });
        if let Some((w, at)) = stuck {
            r.fail("no-termination", format!("{w} {at:?} did not finish within {secs} s"), json!({"step": w, "at": at}));
            r.finish_inner(false);
        }
    });
}
