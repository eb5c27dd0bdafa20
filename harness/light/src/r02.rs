//! R02: package lifecycle of a filesystem repository. Its whole state is the directory tree, so checking every
//! operation from every state of a small repository covers all histories over it; faults and crashes are injected
//! at every filesystem step of every operation.
use mccore::*;
use rez_next_repository::{FilesystemPackageRepository, PackageRepository};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

const SLOTS: [(&str, &str); 4] = [("fa", "1"), ("fa", "11"), ("fa", "1.5"), ("fab", "1")];
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum P { Gone, Dir, Link }
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct St { slots: [(P, bool); 4], fams: [bool; 2], extra: BTreeSet<(String, String)> }
impl St {
    fn norm(mut self) -> St { for (i, (f, _)) in SLOTS.iter().enumerate() { if self.slots[i] != (P::Gone, false) { self.fams[(*f == "fab") as usize] = true; } } self }
    fn slot(f: &str, v: &str) -> Option<usize> { SLOTS.iter().position(|s| *s == (f, v)) }
    fn visible(&self, f: &str) -> BTreeSet<String> { (0..4).filter(|i| SLOTS[*i].0 == f && self.slots[*i].0 != P::Gone && !self.slots[*i].1).map(|i| SLOTS[i].1.to_string()).collect() }
}
#[derive(Clone, Debug, PartialEq)]
enum Op { Ignore(String, Option<String>, bool), Unignore(String, Option<String>), Remove(String, Option<String>), Family(String, bool), Purge { days: i32, dry: bool, age_s: i64 } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Res { I(i32), B(bool), Err }

struct W { base: PathBuf, repo: PathBuf, outside: PathBuf }
fn payload(w: &W, i: usize) -> PathBuf { w.repo.join(SLOTS[i].0).join(SLOTS[i].1) }
fn build(w: &W, s: &St) {
    fsx::unjail();
    let _ = std::fs::remove_dir_all(&w.base);
    std::fs::create_dir_all(&w.repo).unwrap();
    std::fs::create_dir_all(w.outside.join("keep/sub")).unwrap();
    std::fs::write(w.outside.join("keep/sub/file"), "precious").unwrap();
    // names an escaping path would hit
    for d in ["1", "x", ".."] { if d != ".." { std::fs::create_dir_all(w.repo.parent().unwrap().join(d)).unwrap(); std::fs::write(w.repo.parent().unwrap().join(d).join("f"), "sibling").unwrap(); } }
    std::fs::write(w.repo.join("settings.yaml"), "repo file").unwrap();
    for (k, f) in ["fa", "fab"].iter().enumerate() { if s.fams[k] { std::fs::create_dir_all(w.repo.join(f)).unwrap(); } }
    for (i, (p, m)) in s.slots.iter().enumerate() {
        match p {
            P::Gone => {}
            P::Dir => {
                let d = payload(w, i);
                std::fs::create_dir_all(d.join("python/x")).unwrap();
                std::fs::write(d.join("package.py"), format!("name = '{}'\nversion = '{}'\n", SLOTS[i].0, SLOTS[i].1)).unwrap();
                std::fs::write(d.join("python/x/a.py"), format!("slot {i}")).unwrap();
            }
            P::Link => { std::os::unix::fs::symlink(w.outside.join("keep"), payload(w, i)).unwrap(); }
        }
        if *m { std::fs::write(w.repo.join(SLOTS[i].0).join(format!(".ignore{}", SLOTS[i].1)), "").unwrap(); }
    }
    for (f, v) in &s.extra { std::fs::create_dir_all(w.repo.join(f)).unwrap(); std::fs::write(w.repo.join(f).join(format!(".ignore{v}")), "").unwrap(); }
}
fn run_op(repo: &mut FilesystemPackageRepository, op: &Op) -> Res {
    match op {
        Op::Ignore(f, v, a) => repo.ignore_package(f, v.as_deref(), *a).map(Res::I).unwrap_or(Res::Err),
        Op::Unignore(f, v) => repo.unignore_package(f, v.as_deref()).map(Res::I).unwrap_or(Res::Err),
        Op::Remove(f, v) => repo.remove_package(f, v.as_deref()).map(Res::B).unwrap_or(Res::Err),
        Op::Family(f, force) => repo.remove_package_family(f, *force).map(Res::B).unwrap_or(Res::Err),
        Op::Purge { days, dry, age_s } => {
            fsx::clock_set_offset(age_s * 1_000_000_000);
            let r = repo.remove_ignored_since(*days, *dry, false).map(Res::I).unwrap_or(Res::Err);
            fsx::clock_set_offset(0);
            r
        }
    }
}
fn single(n: &str) -> bool { !n.is_empty() && n != "." && n != ".." && !n.contains('/') }
/// the model
fn step(s: &St, op: &Op) -> (Res, St) {
    let mut t = s.clone();
    let fam = |f: &str| match f { "fa" => Some(0), "fab" => Some(1), _ => None };
    match op {
        Op::Ignore(f, v, allow) => {
            let Some(v) = v else { return (Res::Err, t) };
            if !single(f) || !single(v) { return (Res::Err, t); }
            match St::slot(f, v) {
                Some(i) => {
                    if s.slots[i].0 == P::Gone && !allow { return (Res::I(-1), t); }
                    if s.slots[i].1 { return (Res::I(0), t); }
                    t.slots[i].1 = true;
                    (Res::I(1), t.norm())
                }
                None => {
                    if !allow { return (Res::I(-1), t); }
                    let new = t.extra.insert((f.clone(), v.clone()));
                    if let Some(k) = fam(f) { t.fams[k] = true; }
                    (Res::I(new as i32), t)
                }
            }
        }
        Op::Unignore(f, v) => {
            let Some(v) = v else { return (Res::Err, t) };
            if !single(f) || !single(v) { return (Res::Err, t); }
            match St::slot(f, v) {
                Some(i) => {
                    let was = t.slots[i].1;
                    t.slots[i].1 = false;
                    (if s.slots[i].0 == P::Gone { Res::I(-1) } else { Res::I(was as i32) }, t)
                }
                None => { t.extra.remove(&(f.clone(), v.clone())); (Res::I(-1), t) }
            }
        }
        Op::Remove(f, v) => {
            let Some(v) = v else { return (Res::Err, t) };
            if !single(f) || !single(v) { return (Res::Err, t); }
            match St::slot(f, v) {
                Some(i) if s.slots[i].0 != P::Gone => { t.slots[i] = (P::Gone, false); (Res::B(true), t) }
                _ => (Res::B(false), t),
            }
        }
        Op::Family(f, force) => {
            if !single(f) { return (Res::Err, t); }
            let Some(k) = fam(f) else { return (Res::B(false), t) };
            if !s.fams[k] { return (Res::B(false), t); }
            if !force && (0..4).any(|i| SLOTS[i].0 == f && s.slots[i].0 != P::Gone) { return (Res::Err, t); }
            for i in 0..4 { if SLOTS[i].0 == f { t.slots[i] = (P::Gone, false); } }
            t.extra.retain(|(g, _)| g != f);
            t.fams[k] = false;
            (Res::B(true), t)
        }
        Op::Purge { days, dry, age_s } => {
            if *days < 0 { return (Res::Err, t); }
            if *age_s < *days as i64 * 86400 { return (Res::I(0), t); }
            let mut n = 0;
            for i in 0..4 { if s.slots[i].0 != P::Gone && s.slots[i].1 { n += 1; if !dry { t.slots[i] = (P::Gone, false); } } }
            (Res::I(n), t)
        }
    }
}
fn named(op: &Op, s: &St) -> BTreeSet<usize> {
    match op {
        Op::Ignore(f, Some(v), _) | Op::Unignore(f, Some(v)) | Op::Remove(f, Some(v)) => St::slot(f, v).into_iter().collect(),
        Op::Family(f, _) => (0..4).filter(|i| SLOTS[*i].0 == f).collect(),
        Op::Purge { dry: false, .. } => (0..4).filter(|i| s.slots[*i].1).collect(),
        _ => BTreeSet::new(),
    }
}
fn owner(rel: &str) -> Option<usize> {
    (0..4).find(|i| { let (f, v) = SLOTS[*i]; rel == format!("{f}/.ignore{v}") || rel == format!("{f}/{v}") || rel.starts_with(&format!("{f}/{v}/")) })
}
fn obs(repo: &FilesystemPackageRepository, f: &str) -> BTreeSet<String> {
    match repo.get_package_family(f) {
        Ok(Some(fam)) => repo.iter_packages(&fam).map(|v| v.iter().map(|p| p.version().map(|v| v.as_str().to_string()).unwrap_or_default()).collect()).unwrap_or_default(),
        _ => BTreeSet::new(),
    }
}
fn diff(a: &BTreeMap<String, String>, b: &BTreeMap<String, String>) -> Vec<String> {
    let mut o = vec![];
    for k in a.keys().chain(b.keys()).collect::<BTreeSet<_>>() { if a.get(k) != b.get(k) { o.push(format!("{k}: {:?} instead of {:?}", b.get(k), a.get(k))); } }
    o
}

pub fn run(r: &'static Run) {
    r.rule("one operation (with or without an injected fault) executed from one repository state and compared with the model");
    r.sharded(8, |shard, shards| explore_shard(r, shard, shards));
}
fn explore_shard(r: &'static Run, shard: usize, shards: usize) {
    let base = scratch("r02");
    let w = W { repo: base.join("w/a/b/c/repo"), outside: base.join("w/outside"), base: base.join("w") };
    let rel = |p: &Path| p.strip_prefix(&w.base).unwrap().to_string_lossy().to_string();
    let rr = rel(&w.repo);
    let mut states: BTreeSet<St> = BTreeSet::new();
    let opt = [(P::Gone, false), (P::Dir, false), (P::Dir, true), (P::Gone, true)];
    let opt2 = [(P::Gone, false), (P::Dir, true), (P::Link, false), (P::Link, true)];
    for a in opt { for b in opt { for c in opt2 { for d in opt { for e in 0..r.pick(2, 4) {
        let extra: BTreeSet<(String, String)> = if e == 1 { [("fa".to_string(), ".".to_string())].into_iter().collect() } else { Default::default() };
        let mut st = St { slots: [a, b, c, d], fams: [e >= 1, e >= 2], extra }.norm();
        if e == 1 { st.fams[0] = true; }
        states.insert(st);
    } } } } }
    let mut ops = vec![];
    let abs = w.outside.join("keep").to_string_lossy().to_string();
    let some = |s: &str| Some(s.to_string());
    for f in ["fa", "fab"] { for v in ["1", "11", "1.5", "2"] {
        ops.push(Op::Ignore(f.into(), some(v), false)); ops.push(Op::Ignore(f.into(), some(v), true));
        ops.push(Op::Unignore(f.into(), some(v))); ops.push(Op::Remove(f.into(), some(v)));
    } }
    for f in ["fa", "fab", "zz"] { for b in [false, true] { ops.push(Op::Family(f.into(), b)); } }
    for dry in [false, true] { for (d, a) in [(0, 0), (1, 0), (1, 86399), (1, 86400 + 5), (2, 86400 + 5), (-1, 0), (30, 86400 * 31)] { if a == 86399 { continue; } ops.push(Op::Purge { days: d, dry, age_s: a }); } }
    let normal = ops.len();
    for h in ["..", ".", "", "../x", "../../outside/keep", "fa/..", "fa/1", "./fa", abs.as_str()] {
        ops.push(Op::Ignore(h.into(), some("1"), true)); ops.push(Op::Remove(h.into(), some("1"))); ops.push(Op::Unignore(h.into(), some("1")));
        ops.push(Op::Family(h.into(), true)); ops.push(Op::Family(h.into(), false));
        ops.push(Op::Ignore("fa".into(), some(h), true)); ops.push(Op::Remove("fa".into(), some(h))); ops.push(Op::Unignore("fa".into(), some(h)));
        ops.push(Op::Remove(h.into(), some(h)));
    }
    for f in ["fa", "fab"] { ops.push(Op::Ignore(f.into(), None, true)); ops.push(Op::Remove(f.into(), None)); ops.push(Op::Unignore(f.into(), None)); }
    let fail = |key: String, st: &St, op: &Op, msg: String| r.fail(&key, format!("{op:?} from {:?}: {msg}", st.slots), json!({"state": format!("{st:?}"), "op": format!("{op:?}"), "slots": SLOTS}));
    for (si, st) in states.iter().enumerate().skip(shard).step_by(shards) {
        r.state(1);
        // what the lookups say about this state
        build(&w, st);
        let repo = FilesystemPackageRepository::new(&w.repo);
        for f in ["fa", "fab", "..", "../x", "fa/1"] {
            let want = st.visible(f);
            let got = obs(&repo, f);
            r.eval(1);
            if got != want { r.fail(&format!("lookup:{f}"), format!("{f} shows {got:?}, expected {want:?} in {:?}", st.slots), json!({"state": format!("{st:?}"), "family": f})); }
            for v in ["1", "11", "1.5", "2"] {
                let g = repo.get_package(f, Some(v)).unwrap().is_some();
                if g != want.contains(v) { r.fail(&format!("get:{f}:{v}"), format!("{f}-{v} found={g} in {:?}", st.slots), json!({"state": format!("{st:?}")})); }
            }
        }
        let before = tree(&w.base);
        for (oi, op) in ops.iter().enumerate() {
            // hostile names need only a few states
            if oi >= normal && si % 37 != 0 { continue; }
            r.trans(1); r.eval(1);
            let (want_res, want_st) = step(st, op);
            build(&w, &want_st);
            let mut want_tree = tree(&w.base);
            build(&w, st);
            let mut repo = FilesystemPackageRepository::new(&w.repo);
            fsx::jail(&w.base);
            let got = run_op(&mut repo, op);
            let esc = fsx::unjail();
            if !esc.is_empty() { fail(format!("escape:{op:?}"), st, op, format!("touched paths outside the scratch area: {esc:?}")); }
            let mut after = tree(&w.base);
            // an emptied family directory may stay or go
            for f in ["fa", "fab"] { let k = format!("{rr}/{f}/"); if !want_st.fams[(f == "fab") as usize] || !after.contains_key(&k) { if !after.keys().any(|x| x.starts_with(&k) && *x != k) { after.remove(&k); } if !want_tree.keys().any(|x| x.starts_with(&k) && *x != k) { want_tree.remove(&k); } } }
            if got != want_res { fail(format!("result:{op:?}"), st, op, format!("returned {got:?}, expected {want_res:?}")); }
            let d = diff(&want_tree, &after);
            if !d.is_empty() { fail(format!("effect:{op:?}"), st, op, format!("files differ from the expected effect: {}", d.join("; "))); }
            for f in ["fa", "fab"] { let g = obs(&repo, f); if g != want_st.visible(f) { fail(format!("visible:{op:?}"), st, op, format!("afterwards {f} shows {g:?}")); } }
            r.outcome(&(format!("{got:?}"), want_st.slots));
            // a read-only repository refuses and changes nothing
            {
                build(&w, st);
                let mut ro = FilesystemPackageRepository::new(&w.repo).with_read_only(true);
                fsx::jail(&w.base);
                let g = run_op(&mut ro, op);
                let esc = fsx::unjail();
                r.eval(1);
                if g != Res::Err || tree(&w.base) != before || !esc.is_empty() { fail(format!("readonly:{op:?}"), st, op, format!("a read-only repository returned {g:?} or changed")); }
            }
            if oi >= normal || want_st == *st { continue; }
            // faults: every mutating step fails once, or the process dies there
            let mine = named(op, st);
            let family_op = matches!(op, Op::Family(..));
            for mode in 0..2 {
                let mut at = 0u64;
                loop {
                    build(&w, st);
                    let mut repo = FilesystemPackageRepository::new(&w.repo);
                    fsx::arm(&w.base, if mode == 0 { fsx::Plan::Fault { at, errno: libc::EIO } } else { fsx::Plan::Crash { at, torn: false } });
                    let got = run_op(&mut repo, op);
                    let (n, log) = fsx::disarm();
                    r.eval(1); r.trans(1);
                    if n <= at { break; }
                    r.part("faults", if mode == 0 { "errors injected" } else { "crashes injected" }, 1);
                    let what = format!("{} at step {at} ({})", if mode == 0 { "I/O error" } else { "crash" }, log.last().map(|l| l.replace(w.base.to_str().unwrap(), "")).unwrap_or_default());
                    let now = tree(&w.base);
                    for (k, v) in &before {
                        let relk = k.strip_prefix(&format!("{rr}/"));
                        let mineq = relk.map(|k| owner(k).map(|o| mine.contains(&o)).unwrap_or(false) || (family_op && matches!(op, Op::Family(f, _) if k.starts_with(&format!("{f}/"))))).unwrap_or(false);
                        if !mineq && now.get(k) != Some(v) { fail(format!("fault-other:{op:?}:{mode}"), st, op, format!("{what}: {k} was changed or lost")); }
                    }
                    // a version that is still visible is complete
                    if !family_op {
                        for i in 0..4 { if obs(&repo, SLOTS[i].0).contains(SLOTS[i].1) {
                            let pre = format!("{rr}/{}/{}/", SLOTS[i].0, SLOTS[i].1);
                            for (k, v) in before.iter().filter(|(k, _)| k.starts_with(&pre)) { if now.get(k) != Some(v) { fail(format!("fault-partial:{op:?}:{mode}"), st, op, format!("{what}: {}-{} is still visible but {k} is missing", SLOTS[i].0, SLOTS[i].1)); } }
                        } }
                    }
                    if mode == 0 && got != Res::Err {
                        let d = diff(&want_tree, &now);
                        if !d.is_empty() { fail(format!("fault-silent:{op:?}"), st, op, format!("{what}: reported {got:?} although {}", d.join("; "))); }
                    }
                    // repeating the operation completes it
                    let mut again = FilesystemPackageRepository::new(&w.repo);
                    let g2 = run_op(&mut again, op);
                    let fin = tree(&w.base);
                    let done = match op {
                        Op::Remove(..) | Op::Purge { .. } => mine.iter().all(|i| st.slots[*i].0 == P::Gone || (!payload(&w, *i).exists() && !obs(&again, SLOTS[*i].0).contains(SLOTS[*i].1))),
                        Op::Family(f, _) => !w.repo.join(f).exists(),
                        _ => diff(&want_tree, &fin).is_empty(),
                    };
                    if !done { fail(format!("fault-repeat:{op:?}:{mode}"), st, op, format!("{what}: repeating gives {g2:?} and does not complete the operation")); }
                    at += 1;
                }
            }
        }
    }
    r.bound("repository states", states.len() as u64);
    r.bound("operations", ops.len() as u64);
    r.bound("versions", "2 families, 4 version slots, symlinked payload, stray ignore markers");
    if shard == 0 { r.sample(json!({"ops": ops.iter().step_by(17).map(|o| format!("{o:?}")).collect::<Vec<_>>()})); }
}
