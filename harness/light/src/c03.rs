//! C03: package-definition caches (in memory, on disk) and the repository cache.
use crate::c02::{linearizable, Ev, Op as LOp, Res};
use mccore::*;
use rez_next_package::Package;
use rez_next_package_cache::PackageCache;
use rez_next_repository::cache::{CacheConfig, RepositoryCache};
use serde_json::json;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

const SEC: i64 = 1_000_000_000;
const T0: u64 = 1_700_000_000;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op { Put(usize), Get(usize), Del(usize), Clear, Stale, Tick, Newer(usize), Older(usize), Gone(usize), Reopen, Corrupt(usize, u8) }
use Op::*;
struct W { root: PathBuf, src: Vec<PathBuf>, mt: Vec<i64>, file: bool }
impl W {
    fn new(root: &Path, file: bool) -> W {
        let _ = std::fs::remove_dir_all(root);
        std::fs::create_dir_all(root.join("src")).unwrap();
        let w = W { root: root.to_path_buf(), src: (0..2).map(|i| root.join("src").join(format!("p{i}.py"))).collect(), mt: vec![0; 2], file };
        for i in 0..2 { w.write_src(i); }
        w
    }
    fn write_src(&self, i: usize) {
        std::fs::write(&self.src[i], "x").unwrap();
        std::fs::File::options().append(true).open(&self.src[i]).unwrap().set_modified(UNIX_EPOCH + Duration::from_secs((T0 as i64 - 1000 + self.mt[i]) as u64)).unwrap();
    }
    fn cache_dir(&self) -> PathBuf { self.root.join("cache") }
    fn open(&self) -> PackageCache { (if self.file { PackageCache::new_file_based(self.cache_dir()).unwrap() } else { PackageCache::new_in_memory() }).with_default_ttl(Duration::from_secs(10)) }
    fn files(&self) -> Vec<PathBuf> { let mut v: Vec<_> = std::fs::read_dir(self.cache_dir()).map(|d| d.flatten().map(|e| e.path()).filter(|p| p.extension().is_some_and(|e| e == "json")).collect()).unwrap_or_default(); v.sort(); v }
}
/// what is stored for a key: (data, time stored, source mtime at that time); None = nothing
type St = Option<(u64, u64, i64)>;
fn garble(f: &Path, how: u8) {
    let b = std::fs::read(f).unwrap();
    let n = match how { 0 => b[..0].to_vec(), 1 => b[..b.len() / 2].to_vec(), 2 => b[..b.len() - 1].to_vec(), 3 => vec![0xff, 0xfe, 0], 4 => b"{}".to_vec(), _ => b"[1, 2]".to_vec() };
    std::fs::write(f, n).unwrap();
}
fn put(c: &PackageCache, w: &W, i: usize, v: u64) -> Result<(), String> { c.put_package(&w.src[i], &format!("p{i}"), "1", &format!("data {v} \"quoted\" \u{e9}")).map_err(|e| e.to_string()) }
fn get(c: &PackageCache, w: &W, i: usize) -> Result<Option<(String, String)>, String> { c.get(&w.src[i]).map(|o| o.map(|p| (p.name, p.data))).map_err(|e| e.to_string()) }
fn val(i: usize, v: u64) -> (String, String) { (format!("p{i}"), format!("data {v} \"quoted\" \u{e9}")) }

fn histories(r: &'static Run, root: &Path, shard: usize, shards: usize) {
    let depth = r.pick(5, 6);
    for file in [false, true] {
        let mut ops = vec![Put(0), Get(0), Del(0), Put(1), Get(1), Clear, Stale, Tick, Newer(0), Older(0), Gone(0)];
        if file { ops.extend([Reopen, Corrupt(0, 0), Corrupt(0, 1), Corrupt(0, 3), Corrupt(0, 4)]); }
        let seqs: Vec<Vec<Op>> = sequences(&ops, depth).into_iter().filter(|s| s.len() == depth && matches!(s[0], Put(_)) && matches!(s[depth - 1], Get(_)) && !(file && r.pick(true, false) && s.contains(&Stale))).collect();
        for (k, s) in seqs.iter().enumerate() {
            if k % shards != shard { continue; }
            fsx::clock_set_offset(0);
            let mut w = W::new(root, file);
            let mut c = w.open();
            let mut m: Vec<St> = vec![None; 2];
            // entries that may legitimately have been lost (their file was damaged)
            let mut maybe = vec![false; 2];
            let mut own: BTreeMap<usize, PathBuf> = BTreeMap::new();
            let (mut now, mut v) = (0u64, 0u64);
            r.state(1);
            for (j, op) in s.iter().enumerate() {
                r.trans(1);
                v += 1;
                let bad = |what: String| r.fail(&format!("hist:{file}:{:?}", &s[..=j]), format!("{} cache after {:?}: {what}", if file { "on-disk" } else { "in-memory" }, &s[..=j]), json!({"on_disk": file, "operations": format!("{:?}", &s[..=j])}));
                let exists = |w: &W, i: usize| w.src[i].exists();
                match *op {
                    Put(i) => {
                        let before = w.files();
                        if let Err(e) = put(&c, &w, i, v) { bad(format!("store failed: {e}")); }
                        let mt = if exists(&w, i) { w.mt[i] } else { 1000 + now as i64 };
                        m[i] = Some((v, now, mt)); maybe[i] = false;
                        if file { if let Some(f) = w.files().into_iter().find(|f| !before.contains(f)) { own.insert(i, f); } }
                    }
                    Get(i) => {
                        let got = get(&c, &w, i);
                        r.eval(1);
                        let want = m[i].filter(|(_, t, mt)| now <= t + 10 && exists(&w, i) && *mt == w.mt[i]).map(|(v, _, _)| val(i, v));
                        r.outcome(&(file, got.is_ok(), got.as_ref().ok().map(|g| g.is_some()), want.is_some()));
                        match got {
                            Err(e) => bad(format!("lookup failed: {e}")),
                            Ok(Some(g)) if Some(&g) != want.as_ref() => bad(format!("lookup gave {g:?}, want {want:?}")),
                            Ok(None) if want.is_some() && !maybe[i] => bad(format!("lookup gave nothing, want {want:?}")),
                            _ => {}
                        }
                        if want.is_none() { m[i] = None; }
                    }
                    Del(i) => { if let Err(e) = c.remove(&w.src[i]).map_err(|e| e.to_string()) { bad(format!("removal failed: {e}")); } m[i] = None; }
                    Clear | Stale => {
                        let res = if *op == Clear { c.clear().map_err(|e| e.to_string()) } else { c.invalidate_stale().map(|_| ()).map_err(|e| e.to_string()) };
                        if let Err(e) = res { bad(format!("clearing failed: {e}")); }
                        // dropping stale entries may drop fresh ones too
                        if *op == Clear { m = vec![None; 2]; } else { maybe = vec![true; 2]; }
                    }
                    Tick => { fsx::clock_add(6 * SEC); now += 6; }
                    Newer(i) => { w.mt[i] += 5; w.write_src(i); }
                    Older(i) => { w.mt[i] -= 5; w.write_src(i); }
                    Gone(i) => { let _ = std::fs::remove_file(&w.src[i]); }
                    Reopen => c = w.open(),
                    Corrupt(i, how) => if let Some(f) = own.get(&i) { if f.exists() { garble(f, how); maybe[i] = true; } },
                }
            }
        }
        r.part(if file { "on-disk" } else { "in-memory" }, "histories", (seqs.len() / shards) as u64);
    }
    if shard == 0 { r.bound("history depth", depth as u64); }
    fsx::clock_set_offset(0);
}
/// every byte prefix of a cache file, and single damaged bytes
fn torn(r: &'static Run, root: &Path) {
    let w = W::new(root, true);
    put(&w.open(), &w, 0, 1).unwrap();
    let Some(f) = w.files().first().cloned() else { r.fail("no-file", "the on-disk cache stored no file".into(), json!({})); return };
    let full = std::fs::read(&f).unwrap();
    for n in 0..full.len() {
        std::fs::write(&f, &full[..n]).unwrap();
        let c = w.open();
        r.state(1); r.trans(3); r.eval(2);
        let got = get(&c, &w, 0);
        if got != Ok(None) { r.fail(&format!("torn:{n}"), format!("cache file torn after {n} of {} bytes: lookup gives {got:?}", full.len()), json!({"bytes": n})); }
        let again = put(&c, &w, 0, 2).and_then(|_| get(&w.open(), &w, 0));
        if again != Ok(Some(val(0, 2))) { r.fail(&format!("torn-again:{n}"), format!("cache file torn after {n} bytes: storing again gives {again:?}"), json!({"bytes": n})); }
    }
    r.part("torn files", "prefixes", full.len() as u64);
}
/// a crash or an error at every filesystem step of every operation
fn faults(r: &'static Run, root: &Path) {
    for pre in [vec![], vec![0], vec![0, 1]] { for op in [Put(0), Del(0), Clear, Get(0)] { for mode in 0..5 {
        let mut at = 0;
        loop {
            let w = W::new(root, true);
            { let c = w.open(); for i in &pre { put(&c, &w, *i, 1).unwrap(); } }
            let c = w.open();
            fsx::set_read_faults(mode >= 3);
            fsx::arm(&w.cache_dir(), match mode { 0 => fsx::Plan::Crash { at, torn: false }, 1 => fsx::Plan::Crash { at, torn: true }, 2 => fsx::Plan::Fault { at, errno: libc::ENOSPC }, 3 => fsx::Plan::Fault { at, errno: libc::EIO }, _ => fsx::Plan::Fault { at, errno: libc::EACCES } });
            let res: Result<Option<(String, String)>, String> = guard(|| match op { Put(_) => put(&c, &w, 0, 2).map(|_| None), Del(_) => c.remove(&w.src[0]).map(|_| None).map_err(|e| e.to_string()), Clear => c.clear().map(|_| None).map_err(|e| e.to_string()), _ => get(&c, &w, 0) }).unwrap_or_else(|p| Err(format!("panicked: {p}")));
            let (n, log) = fsx::disarm();
            fsx::set_read_faults(false);
            r.state(1); r.trans(1); r.eval(1);
            if n <= at { break; }
            let bad = |what: String| r.fail(&format!("fault:{op:?}:{mode}:{at}:{}", pre.len()), format!("{op:?} with {} stored entries and {} at step {at} ({}): {what}", pre.len(), ["a crash", "a torn-write crash", "ENOSPC", "EIO", "EACCES"][mode], log.get(at as usize).map(|l| l.rsplit('/').next().unwrap_or("").to_string()).unwrap_or_default()), json!({"operation": format!("{op:?}"), "mode": mode, "step": at, "stored": pre}));
            if matches!(op, Get(_)) { match &res { Ok(None) => {}, Ok(g) if pre.contains(&0) && *g == Some(val(0, 1)) => {}, x => bad(format!("lookup gives {x:?}")) } }
            let ok = mode >= 2 && res.is_ok();
            for (who, cc) in [("same process", Some(&c)), ("new process", None)] {
                if mode < 2 && cc.is_some() { continue; }
                let fresh; let cc = match cc { Some(c) => c, None => { fresh = w.open(); &fresh } };
                let g0 = get(cc, &w, 0);
                let had = pre.contains(&0);
                let fine = match (&g0, op) {
                    (Err(_), _) => false,
                    (Ok(None), Put(_)) => !ok,
                    (Ok(None), Get(_)) => true,
                    (Ok(None), _) => true,
                    (Ok(Some(g)), Put(_)) => *g == val(0, 2) || (!ok && had && *g == val(0, 1)),
                    (Ok(Some(g)), Get(_)) => had && *g == val(0, 1),
                    (Ok(Some(g)), _) => !ok && had && *g == val(0, 1),
                };
                if !fine { bad(format!("{res:?}, and afterwards a lookup in the {who} gives {g0:?}")); }
                let g1 = get(cc, &w, 1);
                let fine1 = match (&g1, pre.contains(&1)) { (Ok(None), false) => true, (Ok(Some(g)), true) => *g == val(1, 1) && !(ok && op == Clear), (Ok(None), true) => op == Clear, _ => false };
                if !fine1 { bad(format!("{res:?}, and afterwards a lookup of the other entry in the {who} gives {g1:?}")); }
            }
            let again = put(&w.open(), &w, 0, 3).and_then(|_| get(&w.open(), &w, 0));
            if again != Ok(Some(val(0, 3))) { bad(format!("afterwards storing gives {again:?}")); }
            r.part("faults", ["crashes", "torn-write crashes", "ENOSPC", "EIO", "EACCES"][mode], 1);
            at += 1;
        }
    } } }
}
/// two processes on one cache directory: every schedule of their filesystem calls
fn races(r: &'static Run, root: &Path, shard: usize, shards: usize) {
    let ops = [Put(0), Get(0), Del(0), Clear, Put(1), Get(1)];
    let bound = r.pick(3, 4);
    let mut k = 0;
    for pre in [vec![], vec![0usize], vec![0, 1]] { for expired in [false, true] { for a in ops { for b in ops { for a2 in [None, Some(Get(0))] {
        if expired && pre.is_empty() { continue; }
        k += 1;
        if k % shards != shard { continue; }
        let n = explore(|ch| {
            fsx::clock_set_offset(0);
            let w = Arc::new(W::new(root, true));
            { let c = w.open(); for i in &pre { put(&c, &w, *i, 1).unwrap(); } }
            if expired { fsx::clock_set_offset(60 * SEC); }
            let bad: Arc<Mutex<Option<String>>> = Default::default();
            let out: Arc<Mutex<Vec<String>>> = Default::default();
            let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
            for (t, p) in [vec![Some(a), a2], vec![Some(b)]].into_iter().enumerate() {
                let c = w.open();
                let (w, bad, out) = (w.clone(), bad.clone(), out.clone());
                bodies.push(Box::new(move || for op in p.into_iter().flatten() {
                    let res: Result<Option<(String, String)>, String> = match op { Put(i) => put(&c, &w, i, 2 + t as u64).map(|_| None), Del(i) => c.remove(&w.src[i]).map(|_| None).map_err(|e| e.to_string()), Clear => c.clear().map(|_| None).map_err(|e| e.to_string()), Get(i) => get(&c, &w, i), _ => Ok(None) };
                    let fine = match (&res, op) { (Err(_), _) => false, (Ok(Some(g)), Get(i)) => (2..4).any(|v| *g == val(i, v)) || !expired && *g == val(i, 1), _ => true };
                    if !fine { *bad.lock().unwrap() = Some(format!("{op:?} gives {res:?}")); }
                    out.lock().unwrap().push(format!("{t}{op:?}{}", res.map(|o| o.is_some()).unwrap_or(false)));
                }));
            }
            let log = fsx::run_threads(&w.cache_dir(), ch, bound, bodies);
            r.trans(log.len() as u64); r.eval(1);
            let o = out.lock().unwrap().clone();
            if o.len() != 2 + a2.is_some() as usize { *bad.lock().unwrap() = Some("a process died".into()); }
            // nothing lasting: a new process works
            for i in 0..2 { let g = get(&w.open(), &w, i); if !matches!(&g, Ok(None)) && !matches!(&g, Ok(Some(x)) if (1..4).any(|v| *x == val(i, v))) { *bad.lock().unwrap() = Some(format!("afterwards a lookup gives {g:?}")); } }
            if let Some(bm) = bad.lock().unwrap().clone() { r.fail(&format!("race:{pre:?}:{expired}:{a:?}:{b:?}"), format!("two processes {a:?}, {a2:?} and {b:?} on a cache with {pre:?} (expired: {expired}): {bm}"), json!({"programs": format!("{a:?} {a2:?} | {b:?}"), "schedule": log, "choices": ch.path()})); }
            r.outcome(&o);
        });
        r.state(n); r.trace(n);
        r.part("process races", "schedules", n);
    } } } } }
    fsx::clock_set_offset(0);
    if shard == 0 { r.bound("preemptions", bound as u64); }
}

// ---- repository cache --------------------------------------------------------------------------------
fn rt() -> tokio::runtime::Runtime { tokio::runtime::Builder::new_current_thread().max_blocking_threads(1).build().unwrap() }
fn settle(rt: &tokio::runtime::Runtime) { let (tx, rx) = std::sync::mpsc::channel(); rt.handle().spawn_blocking(move || { let _ = tx.send(()); }); let _ = rx.recv(); }
fn pkg(k: &str, v: u64) -> Package { let mut p = Package::new(k.to_string()); p.description = Some(format!("v{v}")); p }
fn pv(p: &Package) -> (String, String) { (p.name.clone(), p.description.clone().unwrap_or_default()) }
fn repo_cfg(root: &Path, ttl: u64) -> CacheConfig { CacheConfig { cache_dir: root.join("cache"), default_ttl: ttl, max_size_bytes: 1 << 20, max_entries: 100, enable_compression: false, cleanup_interval: 5 } }

fn repo_histories(r: &'static Run, root: &Path, shard: usize, shards: usize) {
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum Q { Put(usize), Get(usize), Del(usize), Clear, Clean, Tick, Newer(usize), Older(usize), SameSecond(usize), Gone(usize), Init }
    use Q::*;
    let rt = rt();
    let ops = [Put(0), Get(0), Del(0), Put(1), Get(1), Clear, Clean, Tick, Newer(0), Older(0), SameSecond(0), Gone(0), Init];
    let depth = r.pick(5, 6);
    let seqs: Vec<Vec<Q>> = sequences(&ops, depth).into_iter().filter(|s| s.len() == depth && matches!(s[0], Put(_)) && matches!(s[depth - 1], Get(_))).collect();
    for (n, s) in seqs.iter().enumerate() {
        if n % shards != shard { continue; }
        fsx::clock_set_offset(0);
        let w0 = W::new(root, true);
        let c = RepositoryCache::new(repo_cfg(root, 10));
        rt.block_on(c.initialize()).unwrap();
        let mut m: Vec<Option<(u64, u64)>> = vec![None; 2]; // (value, stored at); cleared when its source changes
        let mut maybe = false;
        let (mut now, mut v) = (0, 0);
        r.state(1);
        let touch = |i: usize, ns: i64| { let f = std::fs::File::options().append(true).create(true).open(&w0.src[i]).unwrap(); let t = f.metadata().unwrap().modified().unwrap(); let t = if ns > 0 { t + Duration::from_nanos(ns as u64) } else { t - Duration::from_nanos(-ns as u64) }; f.set_modified(t).unwrap(); };
        for (j, op) in s.iter().enumerate() {
            r.trans(1); v += 1;
            let bad = |what: String| r.fail(&format!("repo:{:?}", &s[..=j]), format!("repository cache after {:?}: {what}", &s[..=j]), json!({"operations": format!("{:?}", &s[..=j])}));
            match *op {
                Put(i) => { let e = w0.src[i].exists(); let res = rt.block_on(c.put(["a", "b"][i], pkg(["a", "b"][i], v), w0.src[i].clone())); if res.is_ok() != e { bad(format!("store: {res:?}")); } if e { m[i] = Some((v, now)); maybe = false; } }
                Get(i) => {
                    let got = rt.block_on(c.get(["a", "b"][i])).map(|o| o.map(|p| pv(&p))).map_err(|e| e.to_string());
                    let want = m[i].filter(|x| now <= x.1 + 10).map(|x| (["a", "b"][i].to_string(), format!("v{}", x.0)));
                    r.eval(1);
                    r.outcome(&("repo", got.is_ok(), got.as_ref().ok().map(|g| g.is_some()), want.is_some()));
                    match got { Err(e) => bad(format!("lookup failed: {e}")), Ok(Some(g)) if Some(&g) != want.as_ref() => bad(format!("lookup gives {g:?}, want {want:?}")), Ok(None) if want.is_some() && !maybe => bad(format!("lookup gives nothing, want {want:?}")), _ => {} }
                }
                Del(i) => { let res = rt.block_on(c.remove(["a", "b"][i])).map_err(|e| e.to_string()); match res { Err(e) => bad(format!("removal failed: {e}")), Ok(y) => if !y && m[i].is_some_and(|x| now <= x.1 + 10) && !maybe { bad("removal found nothing".into()) } } m[i] = None; }
                Clear => { if let Err(e) = rt.block_on(c.clear()) { bad(format!("clear failed: {e}")); } m = vec![None; 2]; }
                Clean => if let Err(e) = rt.block_on(c.cleanup()) { bad(format!("cleanup failed: {e}")); },
                Tick => { fsx::clock_add(6 * SEC); now += 6; }
                Newer(i) => { touch(i, 5 * SEC); m[i] = None; }
                Older(i) => { touch(i, -3 * SEC); m[i] = None; }
                SameSecond(i) => { touch(i, 1000); m[i] = None; }
                Gone(i) => { let _ = std::fs::remove_file(&w0.src[i]); m[i] = None; }
                Init => { if let Err(e) = rt.block_on(c.initialize()) { bad(format!("initialise failed: {e}")); } maybe = true; }
            }
        }
    }
    fsx::clock_set_offset(0);
    r.part("repository cache", "histories", (seqs.len() / shards) as u64);
    if shard != 0 { return; }
    // keys of any shape are kept apart and inside the cache directory
    let keys = ["a", "a/b", "a%2fb", "../up", "/abs", "index", "", ".", "..", "a.json", "a b", "\u{e9}", "a\\b", "A"];
    for pair in 0..keys.len() * keys.len() {
        let (x, y) = (keys[pair / keys.len()], keys[pair % keys.len()]);
        if x == y { continue; }
        let w = W::new(root, true);
        std::fs::write(root.join("up.json"), "precious").unwrap();
        let c = RepositoryCache::new(repo_cfg(root, 10));
        rt.block_on(c.initialize()).unwrap();
        fsx::jail(&root.join("cache"));
        let a = rt.block_on(c.put(x, pkg("x", 1), w.src[0].clone()));
        let b = rt.block_on(c.put(y, pkg("y", 2), w.src[0].clone()));
        settle(&rt);
        let esc = fsx::unjail();
        let (gx, gy) = (rt.block_on(c.get(x)).ok().flatten().map(|p| pv(&p)), rt.block_on(c.get(y)).ok().flatten().map(|p| pv(&p)));
        fsx::jail(&root.join("cache"));
        let rm = rt.block_on(c.remove(x));
        settle(&rt);
        let esc2 = fsx::unjail();
        let gy2 = rt.block_on(c.get(y)).ok().flatten().map(|p| pv(&p));
        let again = rt.block_on(RepositoryCache::new(repo_cfg(root, 10)).initialize());
        let files_for_y = std::fs::read_dir(root.join("cache")).map(|d| d.count()).unwrap_or(0);
        r.state(1); r.trans(5); r.eval(6);
        let want = (Some(("x".to_string(), "v1".to_string())), Some(("y".to_string(), "v2".to_string())));
        if a.is_err() || b.is_err() || !esc.is_empty() || !esc2.is_empty() || (gx.clone(), gy.clone()) != want || rm.is_err() || gy2 != want.1 || again.is_err() || files_for_y != 1 {
            r.fail(&format!("keys:{x:?}:{y:?}"), format!("keys {x:?} and {y:?}: stored {a:?}/{b:?}, read {gx:?}/{gy:?}, outside the cache {esc:?}{esc2:?}, after removing the first {gy2:?} with {files_for_y} files, reopening {again:?}"), json!({"keys": [x, y]}));
        }
    }
    r.part("repository cache", "key pairs", (keys.len() * (keys.len() - 1)) as u64);
    // a damaged index file
    for content in [&b""[..], b"{", b"[]", b"\xff\xfe", b"{\"a\": 1}", b"null"] {
        let w = W::new(root, true);
        std::fs::create_dir_all(root.join("cache")).unwrap();
        std::fs::write(root.join("cache/index.json"), content).unwrap();
        let c = RepositoryCache::new(repo_cfg(root, 10));
        let i = rt.block_on(c.initialize());
        let g = rt.block_on(c.get("a"));
        let p = rt.block_on(c.put("a", pkg("a", 1), w.src[0].clone()));
        r.state(1); r.eval(1); r.trans(3);
        if i.is_err() || !matches!(g, Ok(None)) || p.is_err() { r.fail(&format!("index:{}", String::from_utf8_lossy(content)), format!("index file {:?}: opening gives {i:?}, lookup {:?}, storing {p:?}", String::from_utf8_lossy(content), g.map(|o| o.is_some())), json!({"index": String::from_utf8_lossy(content)})); }
    }
}
fn repo_races(r: &'static Run, root: &Path, shard: usize, shards: usize) {
    #[derive(Clone, Copy, Debug, PartialEq, Hash)]
    enum Q { L(LOp), Clean, Stats }
    use Q::*;
    let rt = rt();
    let _g = rt.enter();
    let ops = [L(LOp::Put(0)), L(LOp::Get(0)), L(LOp::Del(0)), L(LOp::Put(1)), L(LOp::Get(1)), L(LOp::Clear), Clean, Stats];
    let mut progs: Vec<Vec<Vec<Q>>> = vec![];
    for a in ops { for b in ops { progs.push(vec![vec![a], vec![b]]); for c in ops { if r.thorough || a != Stats && c != Stats && !(b == Clean) { progs.push(vec![vec![a, b], vec![c]]); } if r.thorough { progs.push(vec![vec![a], vec![b], vec![c]]); } } } }
    let mut k = 0;
    for pre in [vec![], vec![0u8], vec![0, 1]] { for expired in [false, true] { for prog in &progs {
        if expired && pre.is_empty() { continue; }
        k += 1;
        if k % shards != shard { continue; }
        let n = explore(|ch| {
            fsx::clock_set_offset(0);
            let w = W::new(root, true);
            let c = RepositoryCache::new(repo_cfg(root, 10));
            rt.block_on(c.initialize()).unwrap();
            let mut m: BTreeMap<u8, u64> = BTreeMap::new();
            for i in &pre { rt.block_on(c.put(["a", "b"][*i as usize], pkg("x", *i as u64), w.src[0].clone())).unwrap(); m.insert(*i, *i as u64); }
            if expired { fsx::clock_set_offset(60 * SEC); m.clear(); }
            let clock = std::cell::Cell::new(1u64);
            let evs: std::cell::RefCell<Vec<Ev>> = Default::default();
            let errs: std::cell::RefCell<Vec<String>> = Default::default();
            let mut tasks: Vec<std::pin::Pin<Box<dyn std::future::Future<Output = ()> + '_>>> = vec![];
            for (t, p) in prog.iter().enumerate() {
                let (c, w, clock, evs, errs) = (&c, &w, &clock, &evs, &errs);
                tasks.push(Box::pin(async move { for (i, q) in p.iter().enumerate() {
                    let val = 100 + 10 * t as u64 + i as u64;
                    let start = clock.replace(clock.get() + 1);
                    let key = |k: u8| ["a", "b"][k as usize];
                    let res = match q {
                        L(LOp::Put(k)) => c.put(key(*k), pkg("x", val), w.src[0].clone()).await.map(|_| Res::Done),
                        L(LOp::Get(k)) => c.get(key(*k)).await.map(|o| Res::Val(o.map(|p| pv(&p).1[1..].parse().unwrap()))),
                        L(LOp::Del(k)) => c.remove(key(*k)).await.map(Res::Yes),
                        L(_) => c.clear().await.map(|_| Res::Done),
                        Clean => c.cleanup().await.map(|_| Res::Done),
                        Stats => { c.get_stats().await; Ok(Res::Done) }
                    };
                    let end = clock.replace(clock.get() + 1);
                    match (q, res) { (L(op), Ok(res)) => evs.borrow_mut().push(Ev { start, end, op: *op, val, res }), (_, Err(e)) => errs.borrow_mut().push(format!("{q:?} failed: {e}")), _ => {} }
                } }));
            }
            let (log, done) = sched::run_woken(ch, tasks, || settle(&rt));
            r.trans(log.len() as u64); r.eval(1);
            let fail = |what: String| r.fail(&format!("repo-race:{pre:?}:{expired}:{prog:?}"), format!("repository cache holding {pre:?} (expired: {expired}), concurrently {prog:?}: {what}"), json!({"programs": format!("{prog:?}"), "schedule": log, "choices": ch.path()}));
            if !done { fail("the tasks block each other for ever".into()); return; }
            if let Some(e) = errs.borrow().first() { fail(e.clone()); return; }
            let mut e = evs.borrow().clone();
            for k in 0..2u8 { let s = clock.replace(clock.get() + 2); let g = rt.block_on(c.get(["a", "b"][k as usize])); match g { Err(x) => { fail(format!("later lookup failed: {x}")); return } Ok(o) => e.push(Ev { start: s, end: s + 1, op: LOp::Get(k), val: 0, res: Res::Val(o.map(|p| pv(&p).1[1..].parse().unwrap())) }) } }
            let mut j = e.clone();
            if expired { for x in j.iter_mut() { if let (LOp::Del(_), Res::Yes(_)) = (x.op, x.res) { x.res = Res::Yes(false); } } }
            if !linearizable(&j, 0, &m) { fail(format!("no order of the operations explains {:?}", e.iter().map(|x| (x.op, x.res)).collect::<Vec<_>>())); }
            r.outcome(&("repo-race", e.iter().map(|x| x.res).collect::<Vec<_>>()));
        });
        r.state(n); r.trace(n);
        r.part("repository cache", "task schedules", n);
    } } }
    fsx::clock_set_offset(0);
}
pub fn run(r: &'static Run) {
    r.rule("one lookup compared with what a reference model has stored, or one schedule judged by a linear order");
    r.sharded(8, |s, n| {
        watchdog(r, 300);
        fsx::clock_freeze(T0 as i64 * SEC);
        let root = scratch("c03");
        histories(r, &root, s, n);
        if s == 0 { torn(r, &root); }
        if s == 1 { faults(r, &root); }
        races(r, &root, s, n);
        repo_histories(r, &root, s, n);
        repo_races(r, &root, s, n);
        let _ = SystemTime::now();
    });
}
