//! R03: copy / move / remove of package payloads over all path layouts, options and I/O fault points.
use mccore::*;
use rez_core::cli::commands::{cp, mv, rm};
use rez_next_package::package_copy::{copy_package, PackageCopyConfig};
use rez_next_package::package_move::{move_package, PackageMoveConfig};
use rez_next_package::package_remove::{remove_package_family, remove_package_version, PackageRemoveConfig};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};

type T = BTreeMap<String, String>;
fn snap(root: &Path) -> T {
    let mut t = tree(root);
    for (k, v) in t.iter_mut() { if !k.ends_with('/') && !v.starts_with("-> ") { let m = std::fs::metadata(root.join(k)).map(|m| m.permissions().mode() & 0o111).unwrap_or(0); if m != 0 { v.push_str("#x"); } } }
    t
}
fn sub(t: &T, pre: &str) -> T { let p = format!("{pre}/"); t.iter().filter(|(k, _)| k.starts_with(&p)).map(|(k, v)| (k[p.len()..].to_string(), v.clone())).collect() }

#[derive(Clone, Copy, Debug, PartialEq)]
enum Layout { Plain, Dashed, Linked }
#[derive(Clone, Debug)]
struct Cfg { layout: Layout, r2_has: bool, dest_old: bool, search: Vec<&'static str>, dest: &'static str, force: bool, keep: bool, cli: bool }

fn payload(d: &Path, tag: &str, v: &str, links: bool) {
    std::fs::create_dir_all(d.join("python/pkg")).unwrap();
    std::fs::create_dir_all(d.join("empty")).unwrap();
    std::fs::write(d.join("package.py"), format!("name = 'fa'\nversion = '{v}'\ndescription = '{tag}'\n")).unwrap();
    std::fs::write(d.join("python/pkg/__init__.py"), format!("# {tag} {v}\n")).unwrap();
    std::fs::write(d.join("tool.sh"), "#!/bin/sh\n").unwrap();
    std::fs::set_permissions(d.join("tool.sh"), std::fs::Permissions::from_mode(0o755)).unwrap();
    if links {
        std::os::unix::fs::symlink("package.py", d.join("rel")).unwrap();
        std::os::unix::fs::symlink("nowhere", d.join("dangling")).unwrap();
    }
}
fn build(root: &Path, c: &Cfg) {
    let _ = std::fs::remove_dir_all(root);
    for r in ["r1/fa", "r2", "r3", "store"] { std::fs::create_dir_all(root.join(r)).unwrap(); }
    let links = !c.cli;
    match c.layout {
        Layout::Plain => payload(&root.join("r1/fa/1"), "r1", "1", links),
        Layout::Dashed => payload(&root.join("r1/fa/fa-1"), "r1", "1", links),
        Layout::Linked => { payload(&root.join("store/x"), "r1", "1", links); std::os::unix::fs::symlink(root.join("store/x"), root.join("r1/fa/1")).unwrap(); }
    }
    payload(&root.join("r1/fa/10"), "r1", "10", links);
    if c.r2_has { payload(&root.join("r2/fa/1"), "r2", "1", links); }
    payload(&root.join("r1/fb/1"), "other", "1", links);
    if c.dest_old { payload(&root.join("r3/fa/1"), "old", "1", links); std::fs::write(root.join("r3/fa/1/stale"), "stale").unwrap(); }
    std::os::unix::fs::symlink(root.join("r1"), root.join("l1")).unwrap();
    std::fs::write(root.join("keep"), "precious").unwrap();
}
/// physical path of a repository alias
fn phys(r: &str) -> String { if let Some(x) = r.strip_prefix("l1") { format!("r1{x}") } else { r.to_string() } }
/// (dir as spelled under its repo, physical payload dir) of fa-1 found along the search path
fn source(c: &Cfg) -> Option<(String, String)> {
    for s in &c.search {
        let p = phys(s);
        match p.as_str() {
            "r1" => return Some(match c.layout { Layout::Plain => ("r1/fa/1".into(), "r1/fa/1".into()), Layout::Dashed => ("r1/fa/fa-1".into(), "r1/fa/fa-1".into()), Layout::Linked => ("r1/fa/1".into(), "store/x".into()) }),
            "r2" if c.r2_has => return Some(("r2/fa/1".into(), "r2/fa/1".into())),
            "r3" if c.dest_old => return Some(("r3/fa/1".into(), "r3/fa/1".into())),
            _ => {}
        }
    }
    None
}
fn within(a: &str, b: &str) -> bool { a == b || a.starts_with(&format!("{b}/")) }
/// what the operation must do: Err(must fail, nothing changes) or Ok(expected tree)
fn expected(t0: &T, c: &Cfg, mv: bool) -> Result<T, &'static str> {
    let (link, src) = source(c).ok_or("source not found")?;
    let mut dest = format!("{}/fa/1", phys(c.dest));
    // the destination may itself be reached through the symlinked version directory
    if c.layout == Layout::Linked { if dest == "r1/fa/1" { dest = "store/x".into() } else if let Some(x) = dest.strip_prefix("r1/fa/1/") { dest = format!("store/x/{x}") } }
    let exists = t0.contains_key(&format!("{dest}/"));
    if exists && !c.force { return Err("destination exists"); }
    if within(&dest, &src) || within(&src, &dest) { return Err("overlap"); }
    let mut t = t0.clone();
    // overwriting a symlinked version directory replaces the link
    if c.layout == Layout::Linked && dest == "store/x" { dest = "r1/fa/1".into(); }
    t.retain(|k, _| !within(k.trim_end_matches('/'), &dest));
    let mut p = String::new();
    for comp in dest.split('/') { p = if p.is_empty() { comp.to_string() } else { format!("{p}/{comp}") }; t.entry(format!("{p}/")).or_default(); }
    for (k, v) in sub(t0, &src) { t.insert(format!("{dest}/{k}"), v); }
    if mv && !c.keep { t.retain(|k, _| !within(k.trim_end_matches('/'), &link)); }
    Ok(t)
}
/// empty family directories are immaterial
fn norm(mut t: T) -> T {
    for r in ["r1", "r2", "r3", "l1"] { let k = format!("{r}/fa/"); if t.contains_key(&k) && !t.keys().any(|x| x.starts_with(&k) && *x != k) { t.remove(&k); } }
    t
}
fn diff(a: &T, b: &T) -> String {
    let ks: BTreeSet<_> = a.keys().chain(b.keys()).collect();
    ks.into_iter().filter(|k| a.get(*k) != b.get(*k)).take(6).map(|k| format!("{k}: {:?} expected {:?}", b.get(k), a.get(k))).collect::<Vec<_>>().join("; ")
}
fn do_op(root: &Path, c: &Cfg, mvop: bool, name: &str, ver: &str) -> Result<(), String> {
    let sp: Vec<PathBuf> = c.search.iter().map(|s| root.join(s)).collect();
    let dest = root.join(c.dest);
    if c.cli {
        let spec = if ver.is_empty() { name.to_string() } else { format!("{name}-{ver}") };
        return if mvop {
            mv::execute(mv::MvArgs { source_package: spec, destination_path: dest, source_paths: sp, all_variants: false, force: c.force, dry_run: false, verbose: false, no_deps: false, keep_source: c.keep }).map_err(|e| e.to_string())
        } else {
            cp::execute(cp::CpArgs { source_package: spec, destination_path: dest, source_paths: sp, all_variants: false, force: c.force, dry_run: false, verbose: false, no_deps: false }).map_err(|e| e.to_string())
        };
    }
    if mvop {
        move_package(name, ver, &dest, &PackageMoveConfig { packages_path: sp, force: c.force, keep_source: c.keep, normalize_paths: true }).map(|_| ()).map_err(|e| e.to_string())
    } else {
        copy_package(name, ver, &dest, &PackageCopyConfig { packages_path: sp, force: c.force, normalize_paths: true }).map(|_| ()).map_err(|e| e.to_string())
    }
}

pub fn run(r: &'static Run) {
    r.rule("one copy/move/remove run on one layout (possibly with one injected fault) and compared with the expected tree");
    silence();
    r.sharded(8, |shard, shards| explore_shard(r, shard, shards));
}
fn explore_shard(r: &'static Run, shard: usize, shards: usize) {
    watchdog(r, 60);
    let base = scratch("r03");
    let root = base.join("a/b/c/w");
    let mut cfgs = vec![];
    let searches: Vec<Vec<&'static str>> = vec![vec!["r1"], vec!["r1", "r2"], vec!["r2", "r1"], vec!["r1", "r3"], vec!["r3", "r1"], vec!["l1"], vec!["l1", "r1"], vec!["r2"], vec![]];
    for cli in [false, true] { for layout in [Layout::Plain, Layout::Dashed, Layout::Linked] { for r2_has in [false, true] { for dest_old in [false, true] { for search in &searches {
        for dest in ["r3", "r1", "l1", "r2", "r1/fa/1", "r1/fa", "new/deep"] { for force in [false, true] { for keep in [false, true] {
            // the command line locates packages only in the standard layout, needs existing paths and an unambiguous index
            if cli && (layout != Layout::Plain || search.is_empty() || dest == "r1/fa" || search.len() == 2 && search[0] == "l1") { continue; }
            cfgs.push(Cfg { layout, r2_has, dest_old, search: search.clone(), dest, force, keep, cli });
        } } }
    } } } } }
    for c in cfgs.iter().skip(shard).step_by(shards) {
        for mvop in [false, true] {
            if !mvop && c.keep { continue; }
            let what = format!("{}{}", if c.cli { "cli " } else { "" }, if mvop { "move" } else { "copy" });
            let fail = |key: &str, m: String| r.fail(&format!("{what}:{key}:{:?}", (&c.layout, c.r2_has, c.dest_old, &c.search, c.dest, c.force, c.keep)), format!("{what} of fa-1 with {c:?}: {m}"), json!({"operation": what, "layout": format!("{c:?}")}));
            build(&root, c);
            let t0 = snap(&root);
            let mut want = expected(&t0, c, mvop);
            if c.cli && c.dest == "r1/fa/1" && want == Err("overlap") { /* refused as well */ }
            r.state(1); r.trans(1); r.eval(1);
            fsx::jail(&root);
            step_begin(&format!("{what} with {c:?}"), [0; 4]);
            let got = guard(|| do_op(&root, c, mvop, "fa", "1")).unwrap_or_else(|p| Err(format!("panicked: {p}")));
            step_end();
            let esc = fsx::unjail();
            if !esc.is_empty() { fail("escape", format!("touched {esc:?}")); }
            let t1 = snap(&root);
            r.outcome(&(got.is_ok(), want.is_ok(), mvop, c.cli, want.as_ref().err()));
            match (&got, &mut want) {
                (Ok(()), Ok(w)) => { let (a, b) = (norm(w.clone()), norm(t1.clone())); if a != b { fail("effect", diff(&a, &b)); } }
                (Err(e), Ok(_)) => fail("refused", format!("failed with {e}")),
                (Ok(()), Err(why)) => fail("accepted", format!("succeeded although it must be refused ({why}); {}", diff(&t0, &t1))),
                (Err(_), Err(_)) => if norm(t0.clone()) != norm(t1.clone()) { fail("damage", format!("was refused but changed files: {}", diff(&t0, &t1))); }
            }
            // faults on the operations that succeed
            let (Ok(w), Some((_, src))) = (&want, source(c)) else { continue };
            if !r.thorough && (c.dest == "l1" || c.dest == "r1/fa" || c.dest == "r1/fa/1" || c.r2_has || (c.search.len() == 2 && c.search.contains(&"r2")) || (c.cli && c.search != ["r1"])
                || (c.search.len() == 2 && c.search[1] == "r3" && !c.dest_old) || (c.layout != Layout::Plain && c.dest != "r3")) { continue; }
            let mut dest = format!("{}/fa/1", phys(c.dest));
            if c.layout == Layout::Linked { if let Some(x) = dest.strip_prefix("r1/fa/1/") { dest = format!("store/x/{x}") } }
            let payload0 = sub(&t0, &src);
            for mode in 0..r.pick(4, 6) {
                let mut at = 0;
                loop {
                    build(&root, c);
                    fsx::set_read_faults(mode >= 3);
                    fsx::arm(&root, match mode { 0 => fsx::Plan::Fault { at, errno: libc::ENOSPC }, 3 => fsx::Plan::Fault { at, errno: libc::EACCES }, 4 => fsx::Plan::Fault { at, errno: libc::EIO }, 5 => fsx::Plan::Fault { at, errno: libc::EXDEV }, 1 => fsx::Plan::Crash { at, torn: false }, _ => fsx::Plan::Crash { at, torn: true } });
                    let got = guard(|| do_op(&root, c, mvop, "fa", "1")).unwrap_or_else(|p| Err(format!("panicked: {p}")));
                    let (n, log) = fsx::disarm();
                    fsx::set_read_faults(false);
                    r.eval(1); r.trans(1);
                    if n <= at { break; }
                    r.part("faults", ["errors", "crashes", "torn-write crashes", "permission errors, reads included", "I/O errors, reads included", "cross-device errors, reads included"][mode], 1);
                    let stp = format!("{} at step {at} ({})", ["disk-full error", "crash", "crash in a torn write", "permission error", "I/O error", "cross-device error"][mode], log.get(at as usize).map(|l| l.replace(root.to_str().unwrap(), "")).unwrap_or_default());
                    let t1 = snap(&root);
                    let (ps, pd) = (sub(&t1, &src), sub(&t1, &dest));
                    if ps != payload0 && pd != payload0 { fail(&format!("lost:{mode}"), format!("{stp}: no complete copy is left")); }
                    if !mvop && ps != payload0 { fail(&format!("source-touched:{mode}"), format!("{stp}: the source was changed")); }
                    for (k, v) in &t0 {
                        let kk = k.trim_end_matches('/');
                        let mine = within(kk, &dest) || (mvop && (within(kk, &source(c).unwrap().0) || kk == format!("{}/fa", source(c).unwrap().0.split('/').next().unwrap())));
                        if !mine && t1.get(k) != Some(v) { fail(&format!("other:{mode}"), format!("{stp}: {k} was changed")); }
                    }
                    if mode == 0 || mode >= 3 {
                        match &got {
                            Ok(()) => { let (a, b) = (norm(w.clone()), norm(t1.clone())); if a != b { fail("silent", format!("{stp}: reported success although {}", diff(&a, &b))); } }
                            Err(_) => {
                                let d_exists = t1.contains_key(&format!("{dest}/"));
                                // overwriting an old destination may have stopped while deleting it
                                let deleting = c.force && t0.contains_key(&format!("{dest}/")) && sub(&t0, &dest).iter().any(|(k, v)| pd.get(k) == Some(v)) && pd.iter().all(|(k, v)| sub(&t0, &dest).get(k) == Some(v));
                                if d_exists && pd != payload0 && !deleting { fail("partial", format!("{stp}: an incomplete package is left at the destination")); }
                            }
                        }
                    }
                    // with overwrite, repeating it completes the job
                    let link = &source(c).unwrap().0;
                    if got.is_err() && ps == payload0 && (t1.contains_key(link) || t1.contains_key(&format!("{link}/"))) {
                        let again = Cfg { force: true, ..c.clone() };
                        if source(&again).map(|s| s.1) == Some(src.clone()) && !c.search.iter().any(|s| within(&phys(c.dest), &phys(s))) {
                            let g2 = guard(|| do_op(&root, &again, mvop, "fa", "1")).unwrap_or_else(Err);
                            let t2 = snap(&root);
                            if g2.is_err() || sub(&t2, &dest) != payload0 { fail(&format!("retry:{mode}"), format!("{stp}: retrying with overwrite gives {g2:?}")); }
                        }
                    }
                    at += 1;
                }
            }
        }
    }
    if shard == 0 { r.bound("layouts", cfgs.len() as u64); }
    // removals
    for search in searches.iter().skip(shard).step_by(shards) { for r2_has in [false, true] { for layout in [Layout::Plain, Layout::Linked] { for dest_old in [false, true] {
        let c = Cfg { layout, r2_has, dest_old, search: search.clone(), dest: "r3", force: false, keep: false, cli: true };
        let repos: BTreeSet<String> = search.iter().map(|s| phys(s)).collect();
        let mut ops: Vec<(String, Box<dyn Fn() -> Result<(), String>>, Vec<String>)> = vec![];
        let sp: Vec<PathBuf> = search.iter().map(|s| root.join(s)).collect();
        let rc = PackageRemoveConfig { packages_path: sp.clone(), force: true, prune_empty_families: true };
        for v in ["1", "10", "2"] {
            let rc2 = rc.clone();
            ops.push((format!("remove fa-{v}"), Box::new(move || remove_package_version("fa", v, &rc2).map(|_| ()).map_err(|e| e.to_string())), repos.iter().map(|r| format!("{r}/fa/{v}")).collect()));
        }
        let rc2 = rc.clone();
        ops.push(("remove family fa".into(), Box::new(move || remove_package_family("fa", &rc2).map(|_| ()).map_err(|e| e.to_string())), repos.iter().map(|r| format!("{r}/fa")).collect()));
        let abs = root.join("r1/fb").to_string_lossy().to_string();
        for (n, v) in [("fa", ""), ("fa", ".."), ("fa", "."), ("", "1"), ("..", "r1"), (".", "fa"), ("fa", "../fb"), ("../r1", "fb"), ("fa/1", "python"), ("fa", abs.as_str()), (abs.as_str(), "1")] {
            let rc2 = rc.clone(); let (n2, v2) = (n.to_string(), v.to_string());
            ops.push((format!("remove {n:?}-{v:?}"), Box::new(move || { let _ = remove_package_version(&n2, &v2, &rc2); Ok(()) }), vec![]));
            let rc2 = rc.clone(); let (n2, v2) = (n.to_string(), v.to_string());
            if !(n == "fa") { ops.push((format!("remove family {n:?}"), Box::new(move || { let _ = remove_package_family(&n2, &rc2); Ok(()) }), vec![])); }
            let sp2 = sp.clone(); let d = root.join("r3"); let n2 = n.to_string();
            ops.push((format!("move {n:?}-{v:?}"), Box::new(move || { let _ = move_package(&n2, &v2, &d, &PackageMoveConfig { packages_path: sp2.clone(), force: true, keep_source: false, normalize_paths: true }); Ok(()) }), vec![]));
        }
        let rm_args = move |pkg: Option<&str>, family: bool, since: Option<&str>, dry: bool, sp: &Vec<PathBuf>| rm::RmArgs { package: pkg.map(|s| s.to_string()), family, force_family: family, ignored_since: since.map(|s| s.to_string()), paths: sp.clone(), all_variants: false, force: true, dry_run: dry, verbose: false, interactive: false };
        if !sp.is_empty() && !(search.len() == 2 && search[0] == "l1") {
            for v in ["1", "10", "2"] { for dry in [false, true] {
                let a = rm_args(Some(&format!("fa-{v}")), false, None, dry, &sp);
                ops.push((format!("rm fa-{v} dry={dry}"), Box::new(move || rm::execute(a.clone()).map_err(|e| e.to_string())), if dry { vec![] } else { repos.iter().map(|r| format!("{r}/fa/{v}")).collect() }));
            } }
            for (since, which) in [("1d", 0usize), ("5d", 1), ("20d", 2)] { for dry in [false, true] {
                let a = rm_args(None, false, Some(since), dry, &sp);
                // ignored 10 days ago: r1/fa/10; ignored 3 days ago: r1/fb/1
                let gone: Vec<String> = if dry || !repos.contains("r1") { vec![] } else { match which { 0 => vec!["r1/fa/10", "r1/fa/.ignore10", "r1/fb/1", "r1/fb/.ignore1"], 1 => vec!["r1/fa/10", "r1/fa/.ignore10"], _ => vec![] }.into_iter().map(String::from).collect() };
                ops.push((format!("rm --ignored-since {since} dry={dry}"), Box::new(move || rm::execute(a.clone()).map_err(|e| e.to_string())), gone));
            } }
        }
        for (what, f, gone) in &ops {
            build(&root, &c);
            let ign = what.contains("ignored-since");
            if ign {
                for (m, days) in [("r1/fa/.ignore10", 10u64), ("r1/fb/.ignore1", 3)] {
                    std::fs::write(root.join(m), "").unwrap();
                    std::fs::File::options().append(true).open(root.join(m)).unwrap().set_modified(std::time::SystemTime::now() - std::time::Duration::from_secs(days * 86400 + 3600)).unwrap();
                }
                // definition files that are old but not ignored stay
                std::fs::File::options().append(true).open(root.join("r1/fa/1/package.py")).unwrap().set_modified(std::time::SystemTime::now() - std::time::Duration::from_secs(400 * 86400)).unwrap();
            }
            let t0 = snap(&root);
            let mut want = t0.clone();
            want.retain(|k, _| !gone.iter().any(|g| within(k.trim_end_matches('/'), g)));
            r.state(1); r.trans(1); r.eval(1);
            fsx::jail(&root);
            let got = guard(f).unwrap_or_else(|p| Err(format!("panicked: {p}")));
            let esc = fsx::unjail();
            let t1 = snap(&root);
            let key = format!("{what}:{search:?}:{r2_has}:{layout:?}:{dest_old}");
            let (a, b) = (norm(want), norm(t1));
            if a != b || !esc.is_empty() { r.fail(&key, format!("{what} on {search:?} ({c:?}): {} {esc:?}", diff(&a, &b)), json!({"operation": what, "layout": format!("{c:?}")})); }
            if let Err(e) = got { if !what.contains('"') { r.fail(&format!("{key}:err"), format!("{what} on {search:?}: failed with {e}"), json!({"operation": what})); } }
        }
    } } } }
    if shard != 0 { return; }
    // without a version the command line takes the latest one
    for mvop in [false, true] { for search in [vec!["r1"], vec!["r2", "r1"], vec!["r1", "r2"]] {
        let c = Cfg { layout: Layout::Plain, r2_has: true, dest_old: false, search: search.clone(), dest: "new", force: false, keep: false, cli: true };
        build(&root, &c);
        let t0 = snap(&root);
        fsx::jail(&root);
        let got = guard(|| do_op(&root, &c, mvop, "fa", "")).unwrap_or_else(Err);
        fsx::unjail();
        let t1 = snap(&root);
        r.eval(1); r.trans(1);
        if got.is_err() || sub(&t1, "new/fa/10") != sub(&t0, "r1/fa/10") { r.fail(&format!("latest:{mvop}:{search:?}"), format!("cli {} of fa without version along {search:?}: {got:?}, new/fa holds {:?}", if mvop { "move" } else { "copy" }, sub(&t1, "new/fa").keys().take(2).collect::<Vec<_>>()), json!({"search": search})); }
    } }
    r.bound("fault model", "one crash, torn-write crash or ENOSPC at every mutating call; one EACCES (thorough: also EIO, EXDEV) at every mutating or reading call");
    r.sample(json!({"layout": format!("{:?}", cfgs[37])}));
}
