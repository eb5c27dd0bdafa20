//! X01: saved contexts, every field with awkward values, every route, every torn file, every fault of a save.
use crate::fields::{self, each, full, mk, Field};
use mccore::*;
use rez_next_context::{ContextConfig, ContextFormat, ContextSerializer, ContextStatus, ExportFormat, PathStrategy, ResolvedContext, RezResolvedContext, ShellType, ResolvedPackage};
use rez_next_package::{Package, PackageRequirement, Requirement};
use rez_next_version::Version;
use serde_json::json;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::Arc;
use ContextFormat::{Binary, Json};

fn srt(m: &std::collections::HashMap<String, String>) -> String { format!("{:?}", m.iter().collect::<BTreeMap<_, _>>()) }
fn of(c: &ResolvedContext) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![
        ("id".into(), c.id.clone()), ("name".into(), format!("{:?}", c.name)),
        ("requirements".into(), format!("{:?}", c.requirements.iter().map(|q| (&q.name, &q.version_spec, q.weak, q.conflict)).collect::<Vec<_>>())),
        ("packages".into(), c.resolved_packages.len().to_string()), ("environment".into(), srt(&c.environment_vars)), ("metadata".into(), srt(&c.metadata)),
        ("created_at".into(), c.created_at.to_string()), ("suite".into(), format!("{:?}", c.suite)), ("platform".into(), format!("{:?}", c.platform)), ("arch".into(), format!("{:?}", c.arch)),
        ("status".into(), format!("{:?}", c.status)), ("inherit".into(), c.config.inherit_parent_env.to_string()), ("shell".into(), format!("{:?}", c.config.shell_type)),
        ("cwd".into(), format!("{:?}", c.config.working_directory)), ("extra env".into(), srt(&c.config.additional_env_vars)), ("unset".into(), format!("{:?}", c.config.unset_vars)), ("path strategy".into(), format!("{:?}", c.config.path_strategy)),
    ];
    for (i, p) in c.resolved_packages.iter().enumerate() { for (k, x) in fields::of(p) { v.push((format!("package {i} {k}"), x)); } }
    v
}
fn diff(a: &[(String, String)], b: &[(String, String)]) -> Vec<String> {
    let (a, b): (BTreeMap<_, _>, BTreeMap<_, _>) = (a.iter().cloned().collect(), b.iter().cloned().collect());
    a.iter().filter(|(k, v)| b.get(*k) != Some(v)).map(|(k, v)| format!("{k}: {v} became {:?}", b.get(k))).chain(b.keys().filter(|k| !a.contains_key(*k)).map(|k| format!("{k} appeared"))).collect()
}
fn base_pkg() -> Package { let mut p = Package::new("p".into()); p.version = Some(Version::parse("1.2").unwrap()); p.requires = vec!["q-1".into()]; p.tools = vec!["t".into()]; p }
fn base() -> ResolvedContext {
    let mut c = ResolvedContext::from_requirements(vec![PackageRequirement::parse("p-1").unwrap(), PackageRequirement::parse("q").unwrap()]);
    c.id = "0123456789abcdef".into(); c.created_at = 1_700_000_000;
    let mut q = Package::new("q".into()); q.version = Some(Version::parse("1").unwrap());
    c.resolved_packages = vec![base_pkg(), q];
    c.environment_vars.insert("A".into(), "1".into());
    c
}
type Ctx = ResolvedContext;
fn ctx_fields() -> Vec<Field<Ctx>> {
    let s = |v: &str| v.to_string();
    let txt: Vec<String> = fields::AWKWARD.iter().map(|v| s(v)).chain(["\u{0}".into(), "\u{1b}[0m\u{7f}\u{2028}".into()]).collect();
    let opt = || std::iter::once(None).chain(txt.iter().cloned().map(Some)).collect::<Vec<Option<String>>>();
    let map = || { let mut v: Vec<Vec<(String, String)>> = vec![vec![]]; for t in &txt { v.push(vec![(s("K"), t.clone()), (t.clone(), s("v"))]); } v };
    let mut fs = vec![
        mk("id", txt.clone(), |c: &mut Ctx, v| c.id = v),
        mk("name", opt(), |c: &mut Ctx, v| c.name = v),
        mk("requirements", vec![vec![], vec!["!p-1"], vec!["~p>=1,<2", "q"], vec!["q", "p>=1", "q==2"], vec!["p-1..2"]], |c: &mut Ctx, v| c.requirements = v.iter().map(|x| PackageRequirement::parse(x).unwrap()).collect()),
        mk("packages", vec![0usize, 1, 3], |c: &mut Ctx, n| { let p = base_pkg(); c.resolved_packages = (0..n).map(|i| { let mut x = p.clone(); x.name = format!("n{i}"); x }).collect() }),
        mk("unversioned", vec![()], |c: &mut Ctx, _| if let Some(p) = c.resolved_packages.first_mut() { p.version = None }),
        mk("environment", map(), |c: &mut Ctx, v| c.environment_vars = v.into_iter().collect()),
        mk("metadata", map(), |c: &mut Ctx, v| c.metadata = v.into_iter().collect()),
        mk("created_at", vec![0, -1, i64::MAX, i64::MIN], |c: &mut Ctx, v| c.created_at = v),
        mk("suite", opt(), |c: &mut Ctx, v| c.suite = v),
        mk("platform", opt(), |c: &mut Ctx, v| c.platform = v),
        mk("arch", opt(), |c: &mut Ctx, v| c.arch = v),
        mk("status", vec![ContextStatus::Resolving, ContextStatus::Resolved, ContextStatus::Failed, ContextStatus::Cached], |c: &mut Ctx, v| c.status = v),
        mk("inherit", vec![true], |c: &mut Ctx, v| c.config.inherit_parent_env = v),
        mk("shell", vec![ShellType::Bash, ShellType::Zsh, ShellType::Fish, ShellType::Cmd, ShellType::PowerShell], |c: &mut Ctx, v| c.config.shell_type = v),
        mk("cwd", opt(), |c: &mut Ctx, v| c.config.working_directory = v.map(PathBuf::from)),
        mk("extra env", map(), |c: &mut Ctx, v| c.config.additional_env_vars = v.into_iter().collect()),
        mk("unset", vec![vec![s("X")], vec![s("b"), s("a"), s("b")], vec![s("")]], |c: &mut Ctx, v| c.config.unset_vars = v),
        mk("path strategy", vec![PathStrategy::Prepend, PathStrategy::Append, PathStrategy::Replace, PathStrategy::NoModify], |c: &mut Ctx, v| c.config.path_strategy = v),
    ];
    for f in fields::package_fields() {
        fs.push(Field { name: f.name, vals: f.vals.into_iter().map(|(d, set)| (d, Box::new(move |c: &mut Ctx| if let Some(p) = c.resolved_packages.first_mut() { set(p) }) as fields::Set<Ctx>)).collect() });
    }
    fs
}
fn rt() -> tokio::runtime::Runtime { tokio::runtime::Builder::new_current_thread().max_blocking_threads(1).enable_all().build().unwrap() }

fn round_trips(r: &'static Run, root: &Path, shard: usize, shards: usize) {
    let rt = rt();
    let fs = ctx_fields();
    let mut k = 0usize;
    let mut one = |what: String, c: Ctx| {
        k += 1;
        if k % shards != shard { return; }
        r.state(1);
        let want = of(&c);
        let check = |route: &str, saved: Result<(), String>, loaded: Option<Result<Ctx, String>>| {
            r.eval(1); r.trans(1);
            match (saved, loaded) {
                (Err(_), None) => r.outcome(&"refused"),
                (Err(e), Some(Ok(_))) => r.fail(&format!("{route}:{what}"), format!("{route}: saving the context with {what} reported {e} yet something loads"), json!({"context": what, "route": route})),
                (Err(_), Some(Err(_))) => {}
                (Ok(()), Some(Ok(b))) => { let d = diff(&want, &of(&b)); if !d.is_empty() { r.fail(&format!("{route}:{what}"), format!("{route}: a context with {what} was saved and loaded back different: {}", d.join("; ")), json!({"context": what, "route": route, "differences": d})); } }
                (Ok(()), Some(Err(e))) => r.fail(&format!("{route}:{what}"), format!("{route}: a context with {what} was saved but cannot be loaded: {e}"), json!({"context": what, "route": route, "error": e})),
                (Ok(()), None) => {}
            }
        };
        for (fm, ext) in [(Json, "rxt"), (Binary, "rxtb")] {
            let f = root.join(format!("d/c.{ext}"));
            let sv = rt.block_on(ContextSerializer::save_to_file(&c, &f, fm.clone())).map_err(|e| e.to_string());
            let ld = if sv.is_ok() { Some(rt.block_on(ContextSerializer::load_from_file(&f)).map_err(|e| e.to_string())) } else { None };
            check(&format!("file {ext}"), sv, ld);
            let sv = ContextSerializer::to_string(&c, fm.clone()).map_err(|e| e.to_string());
            let ld = sv.as_ref().ok().map(|t| ContextSerializer::from_string(t, fm.clone()).map_err(|e| e.to_string()));
            check(&format!("string {ext}"), sv.map(|_| ()), ld);
            let sv = ContextSerializer::serialize(&c, fm.clone()).map_err(|e| e.to_string());
            let ld = sv.as_ref().ok().map(|t| ContextSerializer::deserialize(t, fm.clone()).map_err(|e| e.to_string()));
            check(&format!("bytes {ext}"), sv.map(|_| ()), ld);
        }
        let sv = ContextSerializer::export_context(&c, ExportFormat::Json).map_err(|e| e.to_string());
        let ld = sv.as_ref().ok().map(|t| ContextSerializer::from_string(t, Json).map_err(|e| e.to_string()));
        check("export json", sv.map(|_| ()), ld);
        let v = rt.block_on(ContextSerializer::validate_file(&root.join("d/c.rxt")));
        if let Ok(v) = v { if let Some(id) = v.context_id { if id != c.id || v.package_count != c.resolved_packages.len() { r.fail(&format!("validate:{what}"), format!("validating the file of a context with {what} reports id {id:?} and {} packages", v.package_count), json!({"context": what})); } } }
    };
    each(&base(), &fs, r.pick(3, 6), &mut one);
    for n in 0..r.pick(40, 200) { one(format!("all fields, selection {n}"), full(&base(), &fs, n)); }
}

fn rez_of(c: &RezResolvedContext) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![
        ("requirements".into(), format!("{:?}", c.requirements.iter().map(|q| q.to_string()).collect::<Vec<_>>())), ("environ".into(), srt(&c.environ)), ("suite".into(), format!("{:?}", c.suite_path)),
        ("failed".into(), c.failed.to_string()), ("failure".into(), format!("{:?}", c.failure_description)), ("timestamp".into(), c.timestamp.to_rfc3339()), ("user".into(), c.user.clone()), ("host".into(), c.host.clone()),
        ("platform".into(), c.platform.clone()), ("arch".into(), c.arch.clone()), ("rez".into(), c.rez_version.clone()), ("metadata".into(), srt(&c.metadata)), ("packages".into(), c.resolved_packages.len().to_string()),
    ];
    for (i, p) in c.resolved_packages.iter().enumerate() {
        v.push((format!("package {i}"), format!("{:?} {:?} {} {:?} {:?}", p.variant_index, p.root, p.requested, p.conflict, p.parent_packages)));
        for (k, x) in fields::of(&p.package) { v.push((format!("package {i} {k}"), x)); }
    }
    v
}
fn rez_base() -> RezResolvedContext {
    let mut c = RezResolvedContext::new(vec!["p-1".parse().unwrap(), "q".parse().unwrap()]);
    c.resolved_packages = vec![ResolvedPackage::new(Arc::new(base_pkg()), PathBuf::from("/r/p/1.2"), true), ResolvedPackage::new(Arc::new(Package::new("q".into())), PathBuf::from("/r/q"), false)];
    c
}
type Rez = RezResolvedContext;
fn rez_fields() -> Vec<Field<Rez>> {
    let s = |v: &str| v.to_string();
    let txt: Vec<String> = fields::AWKWARD.iter().map(|v| s(v)).collect();
    let opt = || std::iter::once(None).chain(txt.iter().cloned().map(Some)).collect::<Vec<Option<String>>>();
    let map = || { let mut v: Vec<Vec<(String, String)>> = vec![vec![]]; for t in &txt { v.push(vec![(s("K"), t.clone()), (t.clone(), s("v"))]); } v };
    let reqs = ["p", "p-1", "p-1.2+", "p-1+<3", "p>=1,<2", "p==1", "p>1", "p<=2", "p<2", "p!=1", "p~=1.2", "p-1|3", "p-1..2", "!p-1", "~p-1", "!p", "~p", "p-1.*"];
    vec![
        mk("requirements", reqs.iter().filter_map(|q| q.parse::<Requirement>().ok()).map(|q| vec![q]).chain([vec![]]).collect(), |c: &mut Rez, v| c.requirements = v),
        mk("environ", map(), |c: &mut Rez, v| c.environ = v.into_iter().collect()),
        mk("suite", opt(), |c: &mut Rez, v| c.suite_path = v.map(PathBuf::from)),
        mk("failed", vec![true], |c: &mut Rez, v| c.failed = v),
        mk("failure", opt(), |c: &mut Rez, v| c.failure_description = v),
        mk("timestamp", vec![0i64, 1, 1_700_000_000_123_456_789, -1], |c: &mut Rez, v| c.timestamp = chrono::DateTime::from_timestamp_nanos(v)),
        mk("user", txt.clone(), |c: &mut Rez, v| c.user = v),
        mk("host", txt.clone(), |c: &mut Rez, v| c.host = v),
        mk("platform", txt.clone(), |c: &mut Rez, v| c.platform = v),
        mk("arch", txt.clone(), |c: &mut Rez, v| c.arch = v),
        mk("rez", txt.clone(), |c: &mut Rez, v| c.rez_version = v),
        mk("metadata", map(), |c: &mut Rez, v| c.metadata = v.into_iter().collect()),
        mk("packages", vec![0usize, 1], |c: &mut Rez, n| c.resolved_packages.truncate(n)),
        mk("variant", vec![Some(0usize), Some(7)], |c: &mut Rez, v| if let Some(p) = c.resolved_packages.first_mut() { p.variant_index = v }),
        mk("root", txt.clone(), |c: &mut Rez, v| if let Some(p) = c.resolved_packages.first_mut() { p.root = PathBuf::from(v) }),
        mk("requested", vec![false], |c: &mut Rez, v| if let Some(p) = c.resolved_packages.first_mut() { p.requested = v }),
        mk("conflict", opt(), |c: &mut Rez, v| if let Some(p) = c.resolved_packages.first_mut() { p.conflict = v }),
        mk("parents", vec![vec![s("a"), s("b\n")], vec![s("")]], |c: &mut Rez, v| if let Some(p) = c.resolved_packages.first_mut() { p.parent_packages = v }),
        mk("commands", opt(), |c: &mut Rez, v| if let Some(p) = c.resolved_packages.first_mut() { Arc::make_mut(&mut p.package).commands = v }),
    ]
}
fn rez_round_trips(r: &'static Run, root: &Path, shard: usize, shards: usize) {
    let fs = rez_fields();
    let f = root.join("rez.json");
    let probes: Vec<Version> = ["0.9", "1", "1.1", "1.2", "1.2.3", "1.9", "2.5", "3", "3.1", "4"].iter().map(|v| Version::parse(v).unwrap()).collect();
    let mut k = 0usize;
    let mut one = |what: String, c: Rez| {
        k += 1;
        if k % shards != shard { return; }
        r.state(1); r.trans(1); r.eval(1);
        if c.save(&f).is_err() { return; }
        match Rez::load(&f) {
            Err(e) => r.fail(&format!("rez:{what}"), format!("a resolved context with {what} was saved but cannot be loaded: {e}"), json!({"context": what})),
            Ok(b) => {
                let mut d = diff(&rez_of(&c), &rez_of(&b));
                for (x, y) in c.requirements.iter().zip(&b.requirements) { if x != y || probes.iter().any(|v| x.is_satisfied_by(v) != y.is_satisfied_by(v)) { d.push(format!("requirement {x} changed meaning")); } }
                if !d.is_empty() { r.fail(&format!("rez:{what}"), format!("a resolved context with {what} was saved and loaded back different: {}", d.join("; ")), json!({"context": what, "differences": d})); }
            }
        }
    };
    each(&rez_base(), &fs, r.pick(4, 8), &mut one);
}

/// every prefix, every zero-filled tail and every file whose tail is that of another file
fn torn(r: &'static Run, root: &Path, shard: usize, shards: usize) {
    let rt = rt();
    let fs = ctx_fields();
    let cs: Vec<Ctx> = (0..r.pick(3, 10)).map(|n| full(&base(), &fs, n)).chain([base(), ResolvedContext::from_requirements(vec![])]).collect();
    let mut k = 0usize;
    for (ci, c) in cs.iter().enumerate() {
        let want = of(c);
        for (fm, ext) in [(Json, "rxt"), (Binary, "rxtb")] {
            let bytes = ContextSerializer::serialize(c, fm.clone()).unwrap();
            let text = ContextSerializer::to_string(c, fm.clone()).unwrap();
            let other = ContextSerializer::serialize(&cs[(ci + 1) % cs.len()], fm.clone()).unwrap();
            let f = root.join(format!("t.{ext}"));
            for n in 0..bytes.len() {
                for kind in 0..3 {
                    k += 1;
                    if k % shards != shard { continue; }
                    let b = match kind { 0 => bytes[..n].to_vec(), 1 => { let mut v = bytes[..n].to_vec(); v.resize(bytes.len(), 0); v } _ => { if n >= other.len() { continue; } let mut v = bytes[..n].to_vec(); v.extend(&other[n..]); v } };
                    r.state(1); r.eval(1);
                    let res = if kind == 0 && n % 8 == 0 { std::fs::write(&f, &b).unwrap(); rt.block_on(ContextSerializer::load_from_file(&f)) } else { ContextSerializer::deserialize(&b, fm.clone()) };
                    if let Ok(x) = res {
                        if kind == 2 { continue; } // a mixture of two complete documents can be a third one
                        let d = diff(&want, &of(&x));
                        r.fail(&format!("torn:{ext}:{ci}:{kind}:{n}"), format!("a context file cut at byte {n} of {} (kind {kind}) loads as a context; differences: {}", bytes.len(), d.join("; ")), json!({"format": ext, "cut": n, "kind": kind, "context": ci}));
                    }
                }
            }
            for n in 0..text.len() {
                if !text.is_char_boundary(n) { continue; }
                k += 1;
                if k % shards != shard { continue; }
                r.state(1); r.eval(1);
                if ContextSerializer::from_string(&text[..n], fm.clone()).is_ok() { r.fail(&format!("torntext:{ext}:{ci}:{n}"), format!("context text cut at {n} of {} is accepted", text.len()), json!({"format": ext, "cut": n})); }
            }
        }
    }
    let c = rez_base();
    let f = root.join("rt.json");
    c.save(&f).unwrap();
    let bytes = std::fs::read(&f).unwrap();
    for n in 0..bytes.len() {
        if n % shards != shard { continue; }
        std::fs::write(&f, &bytes[..n]).unwrap();
        r.state(1); r.eval(1);
        if Rez::load(&f).is_ok() { r.fail(&format!("torn:rez:{n}"), format!("a resolved-context file cut at byte {n} of {} loads", bytes.len()), json!({"cut": n})); }
    }
}

fn interrupted(r: &'static Run, root: &Path, shard: usize, shards: usize) {
    let fs = ctx_fields();
    let dir = root.join("f");
    let mut k = 0;
    // contexts of different length, and contexts whose files have the same length and structure throughout,
    // so that the beginning of one and the end of the other would still parse
    for alike in [false, true] {
    let (old, new) = if alike { (alike_ctx('a'), alike_ctx('b')) } else { (full(&base(), &fs, 1), full(&base(), &fs, 2)) };
    let (fo, fnw) = (of(&old), of(&new));
    for (route, ext) in [(0, "rxt"), (1, "rxtb"), (2, "json")] {
        for before in [false, true] {
            for mode in 0..6 {
                for at in 1..64u64 {
                    k += 1;
                    let _ = std::fs::remove_dir_all(&dir);
                    let f = dir.join(format!("sub/c.{ext}"));
                    let save = |c: &Ctx, z: &Rez| -> Result<(), String> { match route { 2 => z.save(&f).map_err(|e| e.to_string()), n => rt().block_on(ContextSerializer::save_to_file(c, &f, if n == 0 { Json } else { Binary })).map_err(|e| e.to_string()) } };
                    let load = || -> Result<Vec<(String, String)>, String> { match route { 2 => Rez::load(&f).map(|c| rez_of(&c)).map_err(|e| e.to_string()), _ => rt().block_on(ContextSerializer::load_from_file(&f)).map(|c| of(&c)).map_err(|e| e.to_string()) } };
                    let (zo, mut zn) = (rez_base(), rez_base());
                    zn.user = "somebody else".into();
                    let (zo, zn) = if alike { (alike_rez('a'), alike_rez('b')) } else { (zo, zn) };
                    let (wo, wn) = if route == 2 { (rez_of(&zo), rez_of(&zn)) } else { (fo.clone(), fnw.clone()) };
                    std::fs::create_dir_all(if route == 2 || before { dir.join("sub") } else { dir.clone() }).unwrap();
                    if before { save(&old, &zo).unwrap(); }
                    fsx::arm(&dir, match mode { 0 => fsx::Plan::Crash { at, torn: false }, 1 => fsx::Plan::Crash { at, torn: true }, m => fsx::Plan::Fault { at, errno: [libc::ENOSPC, libc::EIO, libc::EACCES, libc::EDQUOT][m - 2] } });
                    let res = save(&new, &zn);
                    let crashed = fsx::crashed();
                    let (n, log) = fsx::disarm();
                    if k % shards == shard || at == 1 {
                        r.state(1); r.trans(n); r.eval(1); r.trace(1);
                        let got = load();
                        let here = format!("{ext} over {}, {} at step {at}", if before && alike { "an old file of the same length" } else if before { "an old file" } else { "nothing" }, if mode < 2 { "crash" } else { "error" });
                        r.outcome(&(ext, before, alike, mode, res.is_ok(), got.as_ref().map(|g| *g == wn).ok()));
                        let rep = json!({"route": ext, "old_file": before, "mode": mode, "at": at, "calls": log});
                        match &got {
                            Ok(g) if *g == wn => {}
                            Ok(g) if *g == wo && before => if res.is_ok() && !crashed { r.fail(&format!("lost:{here}"), format!("saving {here} reported success but the file still holds the old context"), rep.clone()); },
                            Ok(g) => r.fail(&format!("mixed:{here}"), format!("after saving {here} the file loads as a context that is neither the old nor the new one: {}", diff(&wn, g).join("; ")), rep.clone()),
                            Err(e) => if res.is_ok() && !crashed { r.fail(&format!("silent:{here}"), format!("saving {here} reported success but the file does not load: {e}"), rep.clone()); },
                        }
                        // repeating the save always works
                        if let Err(e) = save(&new, &zn) { r.fail(&format!("again:{here}"), format!("after {here}, saving again fails: {e}"), rep); } else if load().as_ref() != Ok(&wn) { r.fail(&format!("again:{here}"), format!("after {here}, saving again does not produce a loadable file"), rep); }
                    }
                    if n < at { break; }
                }
            }
        }
    }
    }
}
fn alike_ctx(c: char) -> Ctx {
    let mut x = ResolvedContext::from_requirements((0..30).map(|k| PackageRequirement::parse(&format!("{c}{c}{k:02}-1.0")).unwrap()).collect());
    x.id = c.to_string().repeat(36); x.name = Some(c.to_string().repeat(5)); x.created_at = 1_000_000_000 + c as i64;
    x.environment_vars = [("E".to_string(), c.to_string().repeat(300))].into(); x.metadata = [("M".to_string(), c.to_string().repeat(300))].into();
    x
}
fn alike_rez(c: char) -> Rez {
    let mut z = rez_base();
    let mut p = base_pkg(); p.name = c.to_string().repeat(9);
    z.resolved_packages = (0..5).map(|_| ResolvedPackage::new(Arc::new(p.clone()), PathBuf::from(format!("/r/{c}")), true)).collect();
    z.environ = [("E".to_string(), c.to_string().repeat(300))].into();
    z.timestamp = std::time::SystemTime::UNIX_EPOCH.into();
    z.user = c.to_string().repeat(9); z.host = c.to_string().repeat(9);
    z
}
pub fn run(r: &'static Run) {
    r.rule("every context field alone with every awkward value, every pair of fields, saved and loaded by every route and compared field by field; every byte prefix of saved files; a crash or error at every filesystem call of a save");
    r.bound("fields", ctx_fields().len()); r.bound("values per field in a pair", r.pick(3, 6));
    let root = scratch("x01");
    r.sharded(8, |sh, n| {
        let d = root.join(sh.to_string());
        std::fs::create_dir_all(&d).unwrap();
        watchdog(r, 120);
        round_trips(r, &d, sh, n);
        rez_round_trips(r, &d, sh, n);
        torn(r, &d, sh, n);
        interrupted(r, &d, sh, n);
    });
    let _ = ContextConfig::default();
    r.finish();
}
