//! R01: repository lookups vs. what is on disk, over all edit/lookup histories.
use mccore::*;
use rez_next_package::Package;
use rez_next_repository::simple_repository::PackageRepository as _;
use rez_next_repository::{FileSystemRepository, HighPerformanceConfig, HighPerformanceScanner, PackageSearchCriteria, Repository, RepositoryManager, RepositoryScanner, ScannerConfig, SimpleRepository};
use rez_next_version::Version;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::time::{Duration, SystemTime};

/// slots: (family, version dir or "" for an unversioned package directly in the family dir)
const SLOTS: [(&str, &str); 4] = [("fa", "2"), ("fa", "10"), ("fb", "1"), ("fc", "")];
/// what a slot may hold; A and B have the same size, C is longer
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
enum C { No, A, B, Long, Syntax, Empty }
use C::*;
impl C {
    fn ok(self) -> bool { matches!(self, A | B | Long) }
    fn broken(self) -> bool { matches!(self, Syntax | Empty) }
    fn tag(self) -> &'static str { match self { A => "aaa", B => "bbb", Long => "a longer description", _ => "?" } }
}
type Disk = [C; 4];

fn text(f: &str, v: &str, c: C) -> String {
    match c {
        No => unreachable!(),
        Syntax => format!("name = '{f}'\nversion = ((('\n"),
        Empty => String::new(),
        _ => {
            let ver = if v.is_empty() { String::new() } else { format!("version = '{v}'\n") };
            format!("name = '{f}'\n{ver}description = '{}'\n", c.tag())
        }
    }
}
struct World { root: PathBuf, disk: Disk, tick: u64 }
fn file(root: &Path, i: usize) -> PathBuf { let (f, v) = SLOTS[i]; if v.is_empty() { root.join(f).join("package.py") } else { root.join(f).join(v).join("package.py") } }
impl World {
    fn new(root: PathBuf, d: Disk) -> World {
        let _ = std::fs::remove_dir_all(&root);
        std::fs::create_dir_all(&root).unwrap();
        let mut w = World { root, disk: [No; 4], tick: 1_600_000_000 };
        for (i, c) in d.iter().enumerate() { if *c != No { w.set(i, *c, false); } }
        w
    }
    fn set(&mut self, i: usize, c: C, keep_mtime: bool) {
        let p = file(&self.root, i);
        if c == No { let _ = std::fs::remove_dir_all(p.parent().unwrap()); self.disk[i] = No; return; }
        let old = std::fs::metadata(&p).ok().map(|m| m.modified().unwrap());
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(&p, text(SLOTS[i].0, SLOTS[i].1, c)).unwrap();
        self.tick += 1;
        let t = match (keep_mtime, old) { (true, Some(t)) => t, _ => SystemTime::UNIX_EPOCH + Duration::from_secs(self.tick) };
        std::fs::File::options().append(true).open(&p).unwrap().set_modified(t).unwrap();
        self.disk[i] = c;
    }
}
type Ans = Result<BTreeMap<String, String>, ()>; // version -> description
fn vs(p: &Package) -> String { p.version.as_ref().map(|v| v.as_str().to_string()).unwrap_or_default() }
fn ds(p: &Package) -> String { p.description.clone().unwrap_or_default() }
fn expect(d: &Disk, fam: &str) -> Ans {
    let mut m = BTreeMap::new();
    for (i, (f, v)) in SLOTS.iter().enumerate() { if *f == fam {
        if d[i].broken() { return Err(()); }
        if d[i].ok() { m.insert(v.to_string(), d[i].tag().to_string()); }
    } }
    Ok(m)
}
fn good(d: &Disk, fam: &str) -> BTreeMap<String, String> {
    SLOTS.iter().enumerate().filter(|(i, (f, _))| *f == fam && d[*i].ok()).map(|(i, (_, v))| (v.to_string(), d[i].tag().to_string())).collect()
}
fn latest(m: &BTreeMap<String, String>) -> Option<String> {
    m.keys().max_by_key(|v| v.parse::<u64>().unwrap_or(0)).cloned()
}
fn names(d: &Disk) -> BTreeSet<String> { ["fa", "fb", "fc"].iter().filter(|f| !good(d, f).is_empty()).map(|f| f.to_string()).collect() }

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Set(usize, C), Find(&'static str), Latest(&'static str), Exact(&'static str, &'static str), List, Scan }

fn rt() -> tokio::runtime::Runtime { tokio::runtime::Builder::new_current_thread().max_blocking_threads(1).build().unwrap() }

fn simple_history(r: &Run, rt: &tokio::runtime::Runtime, root: &Path, init: Disk, ops: &[Op]) {
    let mut w = World::new(root.to_path_buf(), init);
    let repo = SimpleRepository::new(root, "r".into());
    // disk states an answer may legitimately reflect: those since the last explicit rescan
    let mut since: Vec<Disk> = vec![w.disk];
    r.state(1);
    for (k, op) in ops.iter().enumerate() {
        r.trans(1);
        let bad = |what: String| r.fail(&format!("simple:{init:?}:{:?}", &ops[..=k]), format!("from {init:?} after {:?}: {what}", &ops[..=k]), json!({"initial": format!("{init:?}"), "ops": format!("{:?}", &ops[..=k])}));
        match *op {
            Op::Set(i, c) => { w.set(i, c, false); since.push(w.disk); }
            Op::Scan | Op::List => {
                let got = if *op == Op::Scan { rt.block_on(repo.scan()).map(|_| None) } else { rt.block_on(repo.list_packages()).map(Some) };
                r.eval(1);
                since = vec![w.disk];
                match got {
                    Err(e) => bad(format!("scan failed: {e}")),
                    Ok(Some(l)) => {
                        let l: BTreeSet<String> = l.into_iter().collect();
                        if l != names(&w.disk) { bad(format!("list {l:?}, on disk {:?}", names(&w.disk))) }
                        r.outcome(&("list", l));
                    }
                    _ => {}
                }
            }
            Op::Find(f) => {
                let got: Ans = rt.block_on(repo.find_packages(f)).map(|l| l.iter().map(|p| (vs(p), ds(p))).collect()).map_err(|_| ());
                r.eval(1);
                let ok = since.iter().any(|d| expect(d, f) == got) && (got != Ok(BTreeMap::new()) || expect(&w.disk, f) == got);
                if !ok { bad(format!("find {f} gave {got:?}; disk states since the last scan: {since:?}")); }
                r.outcome(&("find", f, got));
            }
            Op::Latest(f) => {
                let got = rt.block_on(repo.get_package(f, None)).map(|o| o.map(|p| (vs(&p), ds(&p)))).map_err(|_| ());
                r.eval(1);
                let want = |d: &Disk| expect(d, f).map(|m| latest(&m).map(|v| (v.clone(), m[&v].clone())));
                let ok = since.iter().any(|d| want(d) == got) && (got != Ok(None) || want(&w.disk) == got);
                if !ok { bad(format!("latest {f} gave {got:?}; disk states since the last scan: {since:?}")); }
                r.outcome(&("latest", f, got));
            }
            Op::Exact(f, v) => {
                let got = rt.block_on(repo.get_package(f, Some(v))).map(|o| o.map(|p| (vs(&p), ds(&p)))).map_err(|_| ());
                r.eval(1);
                let want = |d: &Disk| expect(d, f).map(|m| m.get(v).map(|x| (v.to_string(), x.clone())));
                if !since.iter().any(|d| want(d) == got) { bad(format!("get {f}-{v} gave {got:?}; disk states since the last scan: {since:?}")); }
                r.outcome(&("exact", f, v, got));
            }
        }
    }
}

fn scan_now(r: &Run, rt: &tokio::runtime::Runtime, w: &World, rs: &RepositoryScanner, hp: &HighPerformanceScanner, fsr: &mut FileSystemRepository, bad: &dyn Fn(String)) {
    let want: BTreeMap<PathBuf, (String, String, String)> = (0..4).filter(|i| w.disk[*i].ok()).map(|i| (file(&w.root, i), (SLOTS[i].0.to_string(), SLOTS[i].1.to_string(), w.disk[i].tag().to_string()))).collect();
    let broken: BTreeSet<PathBuf> = (0..4).filter(|i| w.disk[*i].broken()).map(|i| file(&w.root, i)).collect();
    for (nm, res) in [("scanner", rt.block_on(rs.scan_repository(&w.root))), ("fast scanner", rt.block_on(hp.scan_repository_optimized(&w.root)))] {
        r.eval(1);
        match res {
            Err(e) => bad(format!("{nm} failed: {e}")),
            Ok(s) => {
                let got: BTreeMap<PathBuf, (String, String, String)> = s.packages.iter().map(|p| (p.package_file.clone(), (p.package.name.clone(), vs(&p.package), ds(&p.package)))).collect();
                if got != want || s.packages.len() != want.len() { bad(format!("{nm} reports {got:?}, on disk {want:?}")); }
                let errs: BTreeSet<PathBuf> = s.errors.iter().map(|e| e.path.clone()).collect();
                if nm == "scanner" && errs != broken { bad(format!("{nm} reports errors for {errs:?}, broken on disk {broken:?}")); }
                r.outcome(&(nm, got.into_iter().map(|(p, x)| (p.strip_prefix(&w.root).unwrap().to_path_buf(), x)).collect::<Vec<_>>()));
            }
        }
    }
    r.eval(1);
    if let Err(e) = rt.block_on(fsr.refresh()) { bad(format!("refresh failed: {e}")); return; }
    fs_answers(r, rt, &w.disk, fsr, bad);
}
fn fs_answers(r: &Run, rt: &tokio::runtime::Runtime, disk: &Disk, fsr: &FileSystemRepository, bad: &dyn Fn(String)) {
    let ns: BTreeSet<String> = rt.block_on(fsr.get_package_names()).unwrap().into_iter().collect();
    if ns != names(disk) { bad(format!("names {ns:?}, on disk {:?}", names(disk))); }
    let mut all = 0;
    for f in ["fa", "fb", "fc", "zz"] {
        let g = good(disk, f);
        all += g.len();
        let nonempty: Vec<String> = { let mut v: Vec<String> = g.keys().filter(|v| !v.is_empty()).cloned().collect(); v.sort_by_key(|v| std::cmp::Reverse(v.parse::<u64>().unwrap())); v };
        let got: Vec<String> = rt.block_on(fsr.get_package_versions(f)).unwrap().iter().map(|v| v.as_str().to_string()).collect();
        if got != nonempty { bad(format!("versions of {f}: {got:?}, on disk {nonempty:?}")); }
        let l = rt.block_on(fsr.get_package(f, None)).unwrap().map(|p| (vs(&p), ds(&p)));
        let wl = latest(&g).map(|v| (v.clone(), g[&v].clone()));
        if l != wl { bad(format!("latest {f}: {l:?}, on disk {wl:?}")); }
        if rt.block_on(fsr.package_exists(f, None)).unwrap() == g.is_empty() { bad(format!("existence of {f}")); }
        for v in ["1", "2", "10"] {
            let ver = Version::parse(v).unwrap();
            let e = rt.block_on(fsr.get_package(f, Some(&ver))).unwrap().map(|p| ds(&p));
            if e != g.get(v).cloned() { bad(format!("get {f}-{v}: {e:?}, on disk {:?}", g.get(v))); }
            if rt.block_on(fsr.package_exists(f, Some(&ver))).unwrap() != g.contains_key(v) { bad(format!("existence of {f}-{v}")); }
        }
        let found: Vec<(String, String)> = rt.block_on(fsr.find_packages(&PackageSearchCriteria { name_pattern: Some(f.into()), include_prerelease: true, ..Default::default() })).unwrap().iter().map(|p| (vs(p), ds(p))).collect();
        let fm: BTreeMap<String, String> = found.iter().cloned().collect();
        if fm != g || found.len() != g.len() { bad(format!("find {f}: {found:?}, on disk {g:?}")); }
        r.eval(10);
    }
    // every listing is in one order, and a limit takes a prefix of it
    let full: Vec<(String, String)> = rt.block_on(fsr.find_packages(&PackageSearchCriteria { include_prerelease: true, ..Default::default() })).unwrap().iter().map(|p| (p.name.clone(), vs(p))).collect();
    if full.len() != all { bad(format!("listing has {} entries, disk {all}", full.len())); }
    for n in 0..=all {
        let lim: Vec<(String, String)> = rt.block_on(fsr.find_packages(&PackageSearchCriteria { include_prerelease: true, limit: Some(n), ..Default::default() })).unwrap().iter().map(|p| (p.name.clone(), vs(p))).collect();
        if lim != full[..n] { bad(format!("limit {n} gives {lim:?} of {full:?}")); }
    }
    let st = rt.block_on(fsr.get_stats()).unwrap();
    if st.version_count != all { bad(format!("stats count {} versions, disk {all}", st.version_count)); }
}

fn manager_case(r: &Run, rt: &tokio::runtime::Runtime, root: &Path, d1: Disk, d2: Disk) {
    let w1 = World::new(root.join("r1"), d1);
    let w2 = World::new(root.join("r2"), d2);
    let mk = |order: [&World; 2]| { let mut m = RepositoryManager::new(); for w in order { m.add_repository(Box::new(SimpleRepository::new(&w.root, "x".into()))); } m };
    for (o, ws) in [("r1,r2", [&w1, &w2]), ("r2,r1", [&w2, &w1])] {
        r.state(1);
        let bad = |what: String| r.fail(&format!("manager:{o}:{d1:?}:{d2:?}"), format!("search path {o} with {d1:?} / {d2:?}: {what}"), json!({"r1": format!("{d1:?}"), "r2": format!("{d2:?}"), "order": o}));
        for f in ["fa", "fb", "fc", "zz"] {
            let m = mk(ws);
            r.trans(1); r.eval(3);
            let (e1, e2) = (expect(&ws[0].disk, f), expect(&ws[1].disk, f));
            let found = rt.block_on(m.find_packages(f));
            match (&found, e1.is_err() || e2.is_err()) {
                (Err(_), true) => continue,
                (Err(e), false) => { bad(format!("find {f} failed: {e}")); continue }
                (Ok(_), true) => { bad(format!("find {f} succeeded although a version is malformed")); continue }
                _ => {}
            }
            let (g1, g2) = (e1.unwrap(), e2.unwrap());
            let mut want: Vec<(String, String, usize)> = g1.iter().map(|(v, d)| (v.clone(), d.clone(), 0)).chain(g2.iter().map(|(v, d)| (v.clone(), d.clone(), 1))).collect();
            want.sort_by_key(|(v, _, i)| (std::cmp::Reverse(v.parse::<u64>().unwrap_or(0)), *i));
            let got: Vec<(String, String, usize)> = found.unwrap().iter().map(|p| (vs(p), ds(p), if p.filepath.as_deref().unwrap_or("").starts_with(ws[0].root.to_str().unwrap()) { 0 } else { 1 })).collect();
            // all of them, latest first, the earlier repository first among equals (duplicates may be dropped)
            let mut dedup = want.clone(); dedup.dedup_by(|b, a| a.0 == b.0);
            if got != want && got != dedup { bad(format!("find {f} gave {got:?}, want {want:?}")); }
            let l = rt.block_on(m.get_package(f, None)).unwrap().map(|p| (vs(&p), ds(&p)));
            let wl = want.first().map(|(v, d, _)| (v.clone(), d.clone()));
            if l != wl { bad(format!("latest {f} gave {l:?}, want {wl:?}")); }
            for v in ["1", "2", "10"] {
                let e = rt.block_on(m.get_package(f, Some(v))).unwrap().map(|p| ds(&p));
                let we = want.iter().find(|x| x.0 == v).map(|x| x.1.clone());
                if e != we { bad(format!("get {f}-{v} gave {e:?}, want {we:?}")); }
            }
            r.outcome(&("manager", f, got));
        }
        let l: BTreeSet<String> = rt.block_on(mk(ws).list_packages()).unwrap().into_iter().collect();
        let wl: BTreeSet<String> = names(&d1).union(&names(&d2)).cloned().collect();
        if l != wl { bad(format!("list {l:?}, want {wl:?}")); }
    }
}

pub fn run(r: &'static Run) {
    r.rule("one lookup answer compared with the answer computed from the files on disk");
    let base = scratch("r01");
    let disks: Vec<Disk> = { let mut v = vec![];
        for a in [No, A, Syntax, Empty] { for b in [No, A] { for c in [No, A, Syntax] { for d in [No, A] { v.push([a, b, c, d]); } } } } v };
    let sops: Vec<Op> = vec![Op::Set(0, No), Op::Set(0, A), Op::Set(0, B), Op::Set(0, Syntax), Op::Set(1, A), Op::Set(1, No), Op::Set(2, A), Op::Set(2, Syntax), Op::Set(3, A),
        Op::Find("fc"), Op::Find("fa"), Op::Find("fb"), Op::Find("zz"), Op::Latest("fa"), Op::Exact("fa", "2"), Op::Exact("fb", "1"), Op::List, Op::Scan];
    let depth = r.pick(3, 4);
    let seqs: Vec<Vec<Op>> = sequences(&sops, depth).into_iter().filter(|s| s.len() == depth).collect();
    let inits: Vec<Disk> = disks.iter().filter(|d| d[3] == No).cloned().collect();
    // 1. histories on the lazily scanned repository
    par(seqs.len(), |i| {
        let rt = rt();
        let root = base.join(format!("s{:?}", std::thread::current().id()));
        for d in &inits { simple_history(r, &rt, &root, *d, &seqs[i]); }
        r.part("simple", "histories", inits.len() as u64);
    });
    // 2. scanners with caches and the indexed repository: all edit histories
    let eops: Vec<(usize, C, bool)> = vec![(0, No, false), (0, A, false), (0, B, false), (0, Long, true), (0, Syntax, false), (0, Empty, true), (1, A, false), (1, No, false), (2, A, false), (2, B, false), (2, No, false), (3, A, false), (3, Long, true), (3, No, false)];
    let ed = r.pick(2, 3);
    let eseqs = sequences(&eops, ed).into_iter().filter(|s| s.len() == ed).collect::<Vec<_>>();
    par(eseqs.len(), |i| {
        let rt = rt();
        let root = base.join(format!("e{:?}", std::thread::current().id()));
        for d in &disks {
            let mut w = World::new(root.clone(), *d);
            let rs = RepositoryScanner::new(ScannerConfig { enable_background_refresh: false, enable_cache_preload: false, ..Default::default() });
            let hp = HighPerformanceScanner::new(HighPerformanceConfig { cache_size: 2 + 100 * (i % 2), ..Default::default() });
            let mut fsr = FileSystemRepository::new(root.clone(), Some("r".into()));
            r.state(1);
            for k in 0..=ed {
                if k > 0 { let (s, c, keep) = eseqs[i][k - 1]; w.set(s, c, keep); }
                r.trans(1);
                let bad = |what: String| r.fail(&format!("scan:{d:?}:{:?}", &eseqs[i][..k]), format!("from {d:?} after edits {:?}: {what}", &eseqs[i][..k]), json!({"initial": format!("{d:?}"), "edits": format!("{:?}", &eseqs[i][..k])}));
                for s in 0..4 {
                    if let Some(p) = rs.get_by_prefix(&file(&w.root, s)) {
                        if p.package_file == file(&w.root, s) && (!w.disk[s].ok() || ds(&p.package) != w.disk[s].tag()) && k > 0 && eseqs[i][k - 1].0 == s {
                            bad(format!("cached lookup of {} is stale: {:?}, disk {:?}", p.package_file.display(), ds(&p.package), w.disk[s]));
                        }
                    }
                }
                scan_now(r, &rt, &w, &rs, &hp, &mut fsr, &bad);
            }
        }
        r.part("scanners", "histories", disks.len() as u64);
    });
    // 3. search path of two repositories
    let md: Vec<Disk> = { let mut v = vec![]; for a in [No, A, Syntax] { for b in [No, A] { for c in [No, A] { v.push([a, b, c, No]); } } } v };
    let md2: Vec<Disk> = { let mut v = vec![]; for a in [No, B] { for b in [No, B] { for c in [No, Syntax] { for d in [No, A] { v.push([a, b, c, d]); } } } } v };
    par(md.len() * md2.len(), |i| {
        let rt = rt();
        manager_case(r, &rt, &base.join(format!("m{i}")), md[i / md2.len()], md2[i % md2.len()]);
        let _ = std::fs::remove_dir_all(base.join(format!("m{i}")));
    });
    // 4. a read error at every step of a lookup: it is reported or harmless, and the next lookup is right
    let rt = rt();
    let root = base.join("f");
    for d in [[A, A, A, A], [A, No, Syntax, No], [No, A, A, No]] {
        for first in [Op::Find("fa"), Op::Find("fb"), Op::List, Op::Scan] {
            for warm in [false, true] {
                let mut at = 0;
                loop {
                    let w = World::new(root.clone(), d);
                    let repo = SimpleRepository::new(&root, "r".into());
                    if warm { let _ = rt.block_on(repo.scan()); }
                    fsx::set_read_faults(true);
                    fsx::arm(&root, fsx::Plan::Fault { at, errno: libc::EIO });
                    let res: Result<(), ()> = match first {
                        Op::Find(f) => rt.block_on(repo.find_packages(f)).map_err(|_| ()).and_then(|l| { let g: BTreeMap<_, _> = l.iter().map(|p| (vs(p), ds(p))).collect(); if Ok(&g) == expect(&w.disk, f).as_ref() { Ok(()) } else { r.fail(&format!("fault:{d:?}:{first:?}:{at}"), format!("{first:?} with a read error at step {at} gave {g:?} for {d:?}"), json!({"disk": format!("{d:?}"), "op": format!("{first:?}"), "fault_at": at})); Ok(()) } }),
                        Op::List => rt.block_on(repo.list_packages()).map(|_| ()).map_err(|_| ()),
                        _ => rt.block_on(repo.scan()).map_err(|_| ()),
                    };
                    let (n, _) = fsx::disarm();
                    fsx::set_read_faults(false);
                    r.state(1); r.trans(1); r.eval(1);
                    if n <= at { break; }
                    // a definition that could not be read marks its family until the next scan; after one, all is as on disk
                    let again = rt.block_on(repo.scan()).is_ok();
                    for f in ["fa", "fb", "fc"] {
                        let got: Ans = rt.block_on(repo.find_packages(f)).map(|l| l.iter().map(|p| (vs(p), ds(p))).collect()).map_err(|_| ());
                        if !again || got != expect(&w.disk, f) { r.fail(&format!("fault-after:{d:?}:{first:?}:{at}"), format!("after a read error at step {at} of {first:?} ({res:?}) a rescan and find {f} gives {got:?}"), json!({"disk": format!("{d:?}"), "op": format!("{first:?}"), "fault_at": at})); }
                    }
                    r.part("faults", "points", 1);
                    at += 1;
                }
            }
        }
    }
    r.bound("lookup/edit history depth", depth as u64);
    r.bound("scanner edit depth", ed as u64);
    r.bound("package slots", 4);
    r.sample(json!({"initial": format!("{:?}", inits[3]), "ops": format!("{:?}", seqs[100])}));
}
