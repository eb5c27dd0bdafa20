//! C01: the payload cache. Its state is the directory tree, explored breadth-first over all operations (interrupted
//! ones included); faults and crashes at every filesystem step; all schedules of two processes at filesystem calls.
use mccore::*;
use rez_next_package::package_cache::{CacheConfig, CacheStatus, PackageCache, VariantHandle};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashSet, VecDeque};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

/// indices of pkg-1.0 whose handles fall into one bucket with the current naming (found by search)
const SAME: [usize; 31] = [13331, 62014, 63094, 74748, 78594, 79050, 86990, 101730, 115143, 158190, 283073, 397811, 442974, 457808, 460992, 477766, 479666, 479956, 482621, 493332, 506308, 513995, 532612, 576901, 611463, 618824, 670527, 684223, 687642, 714737, 739808];

fn handles() -> Vec<VariantHandle> {
    let h = |i: usize| VariantHandle::new("pkg".into(), Some("1.0".into()), Some(i));
    let mut v = vec![h(SAME[0]), h(SAME[1])];
    // same text when written as key=value lists
    let mut a = h(7); a.attributes.insert("k".into(), "v, z=w".into());
    let mut b = h(7); b.attributes.insert("k".into(), "v".into()); b.attributes.insert("z".into(), "w".into());
    v.push(a); v.push(b);
    // same directory on a case-insensitive layout, and in the same bucket
    v.push(VariantHandle::new("PKG".into(), Some("1.0".into()), Some(160764)));
    v
}
fn many() -> Vec<VariantHandle> { SAME.iter().map(|i| VariantHandle::new("pkg".into(), Some("1.0".into()), Some(*i))).collect() }

struct W { cache: PathBuf, src: Vec<PathBuf>, want: Vec<BTreeMap<String, String>>, hs: Vec<VariantHandle> }
impl W {
    fn new(tag: &str, hs: Vec<VariantHandle>) -> W {
        let base = scratch(tag);
        let mut src = vec![]; let mut want = vec![];
        for i in 0..hs.len() {
            let d = base.join(format!("src{i}"));
            std::fs::create_dir_all(d.join("sub")).unwrap();
            std::fs::write(d.join("common"), format!("payload of {i}")).unwrap();
            std::fs::write(d.join(format!("only{i}")), "x").unwrap();
            std::fs::write(d.join("sub/deep"), format!("deep {i}")).unwrap();
            want.push(tree(&d)); src.push(d);
        }
        W { cache: base.join("cache"), src, want, hs }
    }
    fn reset(&self) { let _ = std::fs::remove_dir_all(&self.cache); std::fs::create_dir_all(&self.cache).unwrap(); }
    fn open(&self, max_age: Option<u64>) -> PackageCache { PackageCache::with_config(&self.cache, CacheConfig { min_free_space_bytes: 0, max_age_secs: max_age, ..Default::default() }).unwrap() }
    /// what is wrong with the answers of the cache now; `must`: handles that have to be found
    fn judge(&self, must: &BTreeSet<usize>, never: &BTreeSet<usize>) -> Option<String> {
        let c = self.open(None);
        for (i, h) in self.hs.iter().enumerate() {
            let (st, p) = c.get_cached_root(h);
            if st == CacheStatus::Found {
                let Some(p) = p else { return Some(format!("variant {i} is found without a path")) };
                if never.contains(&i) { return Some(format!("variant {i} was removed but is found at {}", p.display())); }
                let t = tree(&p);
                if t != self.want[i] { return Some(format!("variant {i} is found at {} which holds {t:?}", p.strip_prefix(&self.cache).unwrap_or(&p).display())); }
            } else if must.contains(&i) { return Some(format!("variant {i} was added and not removed but the cache says {st:?}")); }
        }
        for (h, p, st) in c.list_cached() {
            if st != CacheStatus::Found { continue; }
            let Some(i) = self.hs.iter().position(|x| x.name == h.name && x.version == h.version && x.index == h.index && x.attributes == h.attributes) else { return Some(format!("a variant that was never added is listed: {h:?}")) };
            if never.contains(&i) { return Some(format!("variant {i} was removed but is listed as found")); }
            let t = tree(&p);
            if t != self.want[i] { return Some(format!("variant {i} is listed as found at {} which holds {t:?}", p.strip_prefix(&self.cache).unwrap_or(&p).display())); }
        }
        None
    }
    fn canon(&self) -> Vec<(String, String)> {
        // entries of the trash have random names
        let mut trash = vec![]; let mut o = vec![];
        for (k, v) in tree(&self.cache) {
            match k.strip_prefix(".sys/to_delete/") { Some(r) => trash.push((r.splitn(2, '/').nth(1).unwrap_or("").to_string(), v)), None => o.push((k, v)) }
        }
        trash.sort(); o.extend(trash); o
    }
}
const SEC: i64 = 1_000_000_000;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op { Add(usize, bool), Remove(usize), Clean, CleanOld, CleanStalled, AddDies(usize, u64, bool), RemoveDies(usize, u64) }
#[derive(Clone, Default, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
struct Model { must: BTreeSet<usize>, maybe: BTreeSet<usize>, stuck: BTreeSet<usize> } // maybe: interrupted, may or may not be found; stuck: an interrupted copy may be lying around

/// Runs the operation; returns what it reported, the number of filesystem steps, and whether the model allows it.
fn apply(w: &W, m: &mut Model, op: Op) -> (String, Option<String>) {
    let c = w.open(if op == Op::CleanOld { Some(1000) } else { None });
    match op {
        Op::Add(i, force) => {
            let r = guard(|| c.add_variant(&w.hs[i], &w.src[i], force));
            match r {
                Err(p) => (format!("panic {p}"), Some(format!("add panicked: {p}"))),
                Ok(Err(e)) => (format!("{e}"), Some(format!("adding variant {i} failed on a healthy filesystem: {e}"))),
                Ok(Ok((st, p))) => {
                    let bad = match st {
                        CacheStatus::Created | CacheStatus::Found => {
                            let t = tree(&p);
                            if t != w.want[i] { Some(format!("add reports {st:?} at {} which holds {t:?}", p.display())) }
                            else if st == CacheStatus::Created && m.must.contains(&i) { Some("add created a second copy of a cached variant".into()) }
                            else { m.must.insert(i); m.maybe.remove(&i); None }
                        }
                        CacheStatus::Copying | CacheStatus::CopyStalled if m.stuck.contains(&i) => None,
                        _ => Some(format!("add of variant {i} reports {st:?}")),
                    };
                    (format!("{st:?}"), bad)
                }
            }
        }
        Op::Remove(i) => {
            let (st, _) = c.remove_variant(&w.hs[i]);
            let bad = match st {
                CacheStatus::Removed if m.must.contains(&i) || m.maybe.contains(&i) => { m.must.remove(&i); m.maybe.remove(&i); None }
                CacheStatus::NotFound if !m.must.contains(&i) => { m.maybe.remove(&i); None }
                CacheStatus::Copying | CacheStatus::CopyStalled if m.stuck.contains(&i) => None,
                _ => Some(format!("remove of variant {i} reports {st:?}")),
            };
            (format!("{st:?}"), bad)
        }
        Op::Clean => { let s = c.clean(None); (format!("{}", s.entries_deleted), None) }
        Op::CleanOld => {
            fsx::clock_set_offset(2000 * SEC);
            let s = c.clean(None);
            fsx::clock_set_offset(0);
            m.must.clear(); m.maybe.clear(); m.stuck.clear();
            (format!("{}", s.entries_deleted), None)
        }
        Op::CleanStalled => {
            fsx::clock_set_offset(400 * SEC);
            let s = c.clean(None);
            fsx::clock_set_offset(0);
            m.stuck.clear();
            (format!("{}", s.entries_deleted), None)
        }
        Op::AddDies(i, at, torn) => {
            fsx::arm(&w.cache, fsx::Plan::Crash { at, torn });
            let r = guard(|| c.add_variant(&w.hs[i], &w.src[i], true));
            let died = fsx::crashed();
            fsx::disarm();
            if died { if !m.must.contains(&i) { m.maybe.insert(i); m.stuck.insert(i); } }
            else if matches!(r, Ok(Ok((CacheStatus::Created | CacheStatus::Found, _)))) { m.must.insert(i); m.maybe.remove(&i); }
            (format!("died {died}"), None)
        }
        Op::RemoveDies(i, at) => {
            fsx::arm(&w.cache, fsx::Plan::Crash { at, torn: false });
            let r = guard(|| c.remove_variant(&w.hs[i]));
            let died = fsx::crashed();
            fsx::disarm();
            if died { if m.must.remove(&i) { m.maybe.insert(i); } }
            else if matches!(r, Ok((CacheStatus::Removed, _))) { m.must.remove(&i); m.maybe.remove(&i); }
            (format!("died {died}"), None)
        }
    }
}
fn never(w: &W, m: &Model) -> BTreeSet<usize> { (0..w.hs.len()).filter(|i| !m.must.contains(i) && !m.maybe.contains(i)).collect() }

fn histories(r: &'static Run, shard: usize, shards: usize) {
    let w = W::new("hist", handles());
    let depth = r.pick(3, 4);
    let mut ops = vec![];
    for i in [0usize, 1, 2, 3, 4] { ops.push(Op::Add(i, false)); }
    for i in [0usize, 1, 2, 3, 4] { ops.push(Op::Remove(i)); }
    ops.extend([Op::Clean, Op::CleanStalled, Op::CleanOld]);
    for at in 0..r.pick(14u64, 24) { ops.push(Op::AddDies(0, at, at % 2 == 1)); }
    for at in [2u64, 5, 8] { ops.push(Op::AddDies(1, at, true)); }
    for at in 0..5 { ops.push(Op::RemoveDies(0, at)); }
    if shard == 0 { r.bound("history depth", depth); r.bound("history alphabet", ops.len()); }
    // the first operation is split over the shards
    let mut seen: HashSet<u64> = HashSet::new();
    let mut q: VecDeque<Vec<Op>> = VecDeque::new();
    for (k, o) in ops.iter().enumerate() { if k % shards == shard { q.push_back(vec![*o]); } }
    while let Some(path) = q.pop_front() {
        w.reset();
        let mut m = Model::default();
        let mut last = (String::new(), None);
        for o in &path { last = apply(&w, &mut m, *o); }
        r.trans(1); r.eval(1);
        let bad = last.1.or_else(|| w.judge(&m.must, &never(&w, &m)));
        if let Some(b) = bad {
            let cls = b.split(|c: char| c.is_ascii_digit()).next().unwrap_or("").trim().to_string();
            r.fail(&format!("history:{cls}"), format!("after {path:?}: {b}"), json!({"ops": format!("{path:?}")}));
            if r.violated() { return; }
        }
        r.outcome(&last.0);
        if !seen.insert(hash_of(&(w.canon(), &m))) { continue; }
        r.state(1); r.trace(1);
        if path.len() == 3 { r.sample(json!({"ops": format!("{path:?}"), "found": m.must, "interrupted": m.maybe})); }
        if path.len() < depth { for o in &ops { let mut p = path.clone(); p.push(*o); q.push_back(p); } }
    }
}

/// a fault or crash at every filesystem step of every operation, from several starting states
fn faults(r: &'static Run, shard: usize, shards: usize) {
    let w = W::new("fault", handles());
    let starts: Vec<Vec<Op>> = vec![vec![], vec![Op::Add(0, true)], vec![Op::Add(0, true), Op::Add(1, true)], vec![Op::AddDies(0, 9, false)], vec![Op::Add(0, true), Op::Add(1, true), Op::Remove(0)], vec![Op::Add(1, true), Op::Add(0, true)]];
    let targets = [Op::Add(0, false), Op::Add(1, true), Op::Remove(0), Op::Remove(1), Op::Clean, Op::CleanStalled, Op::CleanOld];
    let mut job = 0;
    for (si, st) in starts.iter().enumerate() { for op in targets { for mode in 0..5 { 
        job += 1; if job % shards != shard { continue; }
        for at in 0..80u64 {
            w.reset();
            let mut m = Model::default();
            for o in st { apply(&w, &mut m, *o); }
            let before = m.clone();
            let c = w.open(if op == Op::CleanOld { Some(1000) } else { None });
            let plan = match mode { 0 => fsx::Plan::Fault { at, errno: libc::EIO }, 1 => fsx::Plan::Fault { at, errno: libc::ENOSPC }, 2 => fsx::Plan::Fault { at, errno: libc::EACCES }, 3 => fsx::Plan::Crash { at, torn: false }, _ => fsx::Plan::Crash { at, torn: true } };
            fsx::set_read_faults(mode < 3);
            match op { Op::CleanOld => fsx::clock_set_offset(2000 * SEC), Op::CleanStalled => fsx::clock_set_offset(400 * SEC), _ => {} }
            fsx::arm(&w.cache, plan);
            let res: Result<String, String> = guard(|| match op {
                Op::Add(i, f) => match c.add_variant(&w.hs[i], &w.src[i], f) { Ok((s, _)) => format!("{s:?}"), Err(_) => "Err".into() },
                Op::Remove(i) => format!("{:?}", c.remove_variant(&w.hs[i]).0),
                _ => { c.clean(None); "clean".into() }
            });
            let died = fsx::crashed();
            let (n, log) = fsx::disarm();
            fsx::set_read_faults(false);
            fsx::clock_set_offset(0);
            if n <= at && !died { break; }
            r.trans(1); r.eval(1); r.state(1);
            let step = log.get(at as usize).cloned().unwrap_or_default();
            let what = format!("start {si}, {op:?}, {} at step {at} ({})", ["EIO", "ENOSPC", "EACCES", "crash", "crash in mid-write"][mode], step.split('/').next_back().unwrap_or(""));
            let rep = || json!({"start": format!("{st:?}"), "op": format!("{op:?}"), "mode": mode, "step": at, "log": log});
            let bad = match &res {
                Err(p) => Some(format!("panic: {p}")),
                Ok(s) => {
                    r.outcome(&(s.clone(), mode, format!("{op:?}")));
                    // what must still be there / not be there
                    let (mut must, mut nev) = (before.must.clone(), never(&w, &before));
                    match op {
                        Op::Add(i, _) => { nev.remove(&i); if !died && (s == "Created" || s == "Found") { must.insert(i); } }
                        Op::Remove(i) => { must.remove(&i); if !died && s == "Removed" { nev.insert(i); } }
                        Op::CleanOld => { must.clear(); }
                        _ => {}
                    }
                    w.judge(&must, &nev)
                }
            };
            if let Some(b) = bad { let op0 = format!("{op:?}"); r.fail(&format!("fault:{}:{}", op0.split('(').next().unwrap(), if mode < 3 { "error" } else { "crash" }), format!("{what}: {b}"), rep()); continue; }
            // repeat on a healthy filesystem
            let again = (|| -> Option<String> {
                if mode >= 3 { fsx::clock_set_offset(400 * SEC); w.open(None).clean(None); fsx::clock_set_offset(0); }
                match op {
                    Op::Add(i, f) => {
                        if mode < 3 && before.stuck.contains(&i) { return None; }
                        let c = w.open(None);
                        let x = guard(|| c.add_variant(&w.hs[i], &w.src[i], f));
                        match x {
                            Ok(Ok((CacheStatus::Created | CacheStatus::Found, p))) if tree(&p) == w.want[i] => {}
                            Ok(Ok((s, p))) => return Some(format!("adding it again reports {s:?} with {:?}", tree(&p))),
                            Ok(Err(e)) => return Some(format!("adding it again fails: {e}")),
                            Err(e) => return Some(format!("adding it again panics: {e}")),
                        }
                        let mut must = before.must.clone(); must.insert(i);
                        let mut nev = never(&w, &before); nev.remove(&i);
                        w.judge(&must, &nev)
                    }
                    Op::Remove(i) => {
                        let s = w.open(None).remove_variant(&w.hs[i]).0;
                        if before.stuck.contains(&i) && mode < 3 { return None; }
                        if !matches!(s, CacheStatus::Removed | CacheStatus::NotFound) { return Some(format!("removing it again reports {s:?}")); }
                        let mut must = before.must.clone(); must.remove(&i);
                        let mut nev = never(&w, &before); nev.insert(i);
                        w.judge(&must, &nev)
                    }
                    _ => None,
                }
            })();
            if let Some(b) = again { let op0 = format!("{op:?}"); r.fail(&format!("repeat:{}:{}", op0.split('(').next().unwrap(), if mode < 3 { "error" } else { "crash" }), format!("{what}: {b}"), rep()); }
        }
    } } }
}

/// a bucket that outgrows one letter: all adds, then every single removal followed by new adds
fn many_entries(r: &'static Run, shard: usize, shards: usize) {
    let w = W::new("many", many());
    let n = w.hs.len();
    let mut buckets = BTreeSet::new();
    for gone in 0..n - 1 {
        if gone % shards != shard { continue; }
        w.reset();
        let c = w.open(None);
        let mut must = BTreeSet::new();
        for i in 0..n - 1 {
            let x = c.add_variant(&w.hs[i], &w.src[i], true);
            r.trans(1);
            match x { Ok((_, p)) => { buckets.insert(p.parent().map(Path::to_path_buf)); } Err(e) => { r.fail("many:add", format!("adding variant number {i} to a bucket failed: {e}"), json!({"i": i})); return; } }
            must.insert(i);
            if gone == shard || i >= 24 { if let Some(b) = w.judge(&must, &(i + 1..n).collect()) { r.fail("many:add", format!("after adding {} variants to one bucket: {b}", i + 1), json!({"added": i + 1})); return; } r.eval(1); r.state(1); }
        }
        c.remove_variant(&w.hs[gone]); must.remove(&gone);
        c.add_variant(&w.hs[n - 1], &w.src[n - 1], true).ok(); must.insert(n - 1);
        c.add_variant(&w.hs[gone], &w.src[gone], true).ok(); must.insert(gone);
        r.trans(3); r.eval(1); r.state(1); r.trace(1);
        if let Some(b) = w.judge(&must, &BTreeSet::new()) { r.fail("many:readd", format!("{} variants in a bucket, number {gone} removed, two added: {b}", n - 1), json!({"removed": gone})); return; }
    }
    r.part("buckets", "distinct buckets used by the many-entries part", buckets.len() as u64 * (shard == 0) as u64);
    // not enough room
    if shard == 0 {
        w.reset();
        let c = PackageCache::with_config(&w.cache, CacheConfig { min_free_space_bytes: u64::MAX, ..Default::default() }).unwrap();
        let x = guard(|| (c.variant_meets_space_requirements(&w.src[0]), c.add_variant(&w.hs[0], &w.src[0], false).map(|x| x.0)));
        match x { Ok((false, Ok(CacheStatus::Skipped))) => {} o => r.fail("space", format!("adding without room reports {o:?}"), json!({})) }
        if let Some(b) = w.judge(&BTreeSet::new(), &(0..n).collect()) { r.fail("space", format!("adding without room: {b}"), json!({})); }
        r.eval(1);
    }
}

/// two processes using the cache at once
fn races(r: &'static Run, shard: usize, shards: usize) {
    #[derive(Clone, Copy, Debug)]
    enum A { Add(usize), Get(usize), Del(usize), Stalled }
    use A::*;
    // (already cached, interrupted copies, programs, whether a lookup's path can be judged while others run)
    let sc: Vec<(Vec<usize>, Vec<usize>, Vec<Vec<A>>, bool)> = vec![
        (vec![], vec![], vec![vec![Add(0)], vec![Add(1)]], true),
        (vec![], vec![], vec![vec![Add(0)], vec![Add(0)]], true),
        (vec![], vec![], vec![vec![Add(0)], vec![Get(0)]], true),
        (vec![1], vec![], vec![vec![Add(0)], vec![Get(1), Get(0)]], true),
        (vec![0], vec![], vec![vec![Del(0)], vec![Add(1)]], false),
        (vec![0], vec![], vec![vec![Get(0)], vec![Del(0), Add(1)]], false),
        (vec![0], vec![], vec![vec![Del(0)], vec![Del(0), Add(1)]], false),
        (vec![0, 1], vec![], vec![vec![Del(0)], vec![Del(1)]], false),
        (vec![1], vec![0], vec![vec![Stalled], vec![Get(0), Get(1)]], false),
        (vec![], vec![0], vec![vec![Stalled, Add(0)], vec![Add(1)]], false),
        (vec![], vec![], vec![vec![Add(2)], vec![Add(3)]], true),
    ];
    let bound = r.pick(2, 3);
    if shard == 0 { r.bound("preemptions per schedule of two processes", bound); }
    let w = Arc::new(W::new("race", handles()));
    for (k, (pre, inter, progs, judgeable)) in sc.iter().enumerate() {
        if k % shards != shard { continue; }
        let mut seen = 0u64;
        explore(|ch| {
            if r.violated() { return; }
            w.reset();
            for i in pre { w.open(None).add_variant(&w.hs[*i], &w.src[*i], true).unwrap(); }
            for i in inter { let mut m = Model::default(); apply(&w, &mut m, Op::AddDies(*i, 9, false)); }
            let bad: Arc<Mutex<Option<String>>> = Default::default();
            let results: Arc<Mutex<Vec<(usize, String, String)>>> = Default::default();
            let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
            if progs.iter().flatten().any(|a| matches!(a, Stalled)) { fsx::clock_set_offset(400 * SEC); }
            for (t, p) in progs.iter().enumerate() {
                let (w, bad, results, p, judgeable) = (w.clone(), bad.clone(), results.clone(), p.clone(), *judgeable);
                bodies.push(Box::new(move || {
                    let c = w.open(None);
                    for a in p {
                        let res = match a {
                            Add(i) => match c.add_variant(&w.hs[i], &w.src[i], true) { Ok((s, p)) => (format!("{s:?}"), Some((i, s, Some(p)))), Err(_) => ("Err".into(), None) },
                            Get(i) => { let (s, p) = c.get_cached_root(&w.hs[i]); (format!("{s:?}"), Some((i, s, p))) }
                            Del(i) => (format!("{:?}", c.remove_variant(&w.hs[i]).0), None),
                            Stalled => { c.clean(None); ("clean".into(), None) }
                        };
                        if let (true, Some((i, CacheStatus::Found | CacheStatus::Created, Some(p)))) = (judgeable, &res.1) {
                            let t = fsx::unscheduled(|| tree(p));
                            if t != w.want[*i] { *bad.lock().unwrap() = Some(format!("variant {i} reported {} at {} which holds {t:?}", res.0, p.display())); }
                        }
                        results.lock().unwrap().push((t, format!("{a:?}"), res.0));
                    }
                }));
            }
            let log = fsx::run_threads(&w.cache, ch, bound, bodies);
            fsx::clock_set_offset(0);
            seen += 1;
            r.trans(log.len() as u64);
            let res = results.lock().unwrap().clone();
            r.outcome(&(k, &res));
            let mut must: BTreeSet<usize> = BTreeSet::new();
            if *judgeable { must.extend(pre); for (_, a, s) in &res { if s == "Created" || s == "Found" { for i in 0..5 { if *a == format!("Add({i})") { must.insert(i); } } } } }
            if res.len() != progs.iter().map(Vec::len).sum::<usize>() { *bad.lock().unwrap() = Some(format!("a process died: {res:?}")); }
            if *judgeable { for (_, a, s) in &res { if s == "Err" { *bad.lock().unwrap() = Some(format!("{a} failed because of a concurrent process")); } } }
            let b = bad.lock().unwrap().clone().or_else(|| w.judge(&must, &BTreeSet::new()));
            r.eval(1);
            if let Some(b) = b { r.fail(&format!("race:{k}"), format!("two processes {progs:?}, schedule {:?}: {b}", ch.path()), json!({"programs": format!("{progs:?}"), "schedule": log, "choices": ch.path(), "results": res})); }
        });
        r.state(seen); r.trace(seen);
        r.part("schedules", &format!("{progs:?}"), seen);
    }
}

pub fn run(r: &'static Run) {
    r.rule("a run is non-trivial if it changed the cache directory; distinct counts distinct (operation, reported status) combinations");
    r.sharded(8, |s, n| {
        watchdog(r, 300);
        fsx::clock_freeze(std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos() as i64);
        many_entries(r, s, n);
        faults(r, s, n);
        races(r, s, n);
        histories(r, s, n);
    });
}
