//! B01: installing from an archive. Every short archive over an alphabet of ordinary and hostile entries,
//! every pair of archives one after the other, every checksum form, every cut of the file and every I/O
//! fault, on the real installer, against a model of the payload and a containment oracle.
use mccore::*;
use rez_next_build::{BuildEnvironment, BuildRequest, BinaryArchiveBuildSystem, SourceManager};
use rez_next_package::Package;
use serde_json::json;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind { File(u32), Dir, Sym(&'static str), Hard(&'static str), Fifo }
#[derive(Clone, Copy, Debug, PartialEq)]
struct E { name: &'static str, kind: Kind }
const fn f(name: &'static str) -> E { E { name, kind: Kind::File(0o644) } }
const fn x(name: &'static str) -> E { E { name, kind: Kind::File(0o755) } }
const fn d(name: &'static str) -> E { E { name, kind: Kind::Dir } }
const fn s(name: &'static str, t: &'static str) -> E { E { name, kind: Kind::Sym(t) } }
const fn h(name: &'static str, t: &'static str) -> E { E { name, kind: Kind::Hard(t) } }
/// '@' stands for the scratch directory of the run
const BENIGN: [E; 12] = [f("a"), x("bin/tool"), d("d/"), f("d/e/g"), f("p/q"), x("p/s/t"), s("l", "a"), s("d/up", "../a"), s("p/self", "."), s("gone", "nowhere"), s("out", "@/outside"), s("p/sec", "@/outside/secret")];
const HOSTILE: [E; 16] = [f("../esc1"), f("x/../../esc2"), f("../../../../outside/secret"), f("@/outside/secret"), f("@/outside/abs"), x("./b"), f("d/../c"), f("l/evil"), f("out/evil"), f("out/secret"), s("d", "@/outside"), s("../lnk", "@/outside"), h("hl", "@/outside/secret"), h("hr", "../../../../outside/secret"), h("ho", "out/secret"), E { name: "pipe", kind: Kind::Fifo }];
fn sub(root: &Path, t: &str) -> String { t.replace('@', &root.to_string_lossy()) }
fn content(i: usize, e: &E) -> String { format!("#{} {}\n", i, e.name) }

fn tar_gz(root: &Path, es: &[E]) -> Vec<u8> {
    let mut b = tar::Builder::new(flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::fast()));
    for (i, e) in es.iter().enumerate() {
        let mut hd = tar::Header::new_gnu();
        let name = sub(root, e.name);
        { let g = hd.as_gnu_mut().unwrap(); g.name = [0; 100]; assert!(name.len() < 100); g.name[..name.len()].copy_from_slice(name.as_bytes()); }
        let data = content(i, e);
        let (ty, mode, size) = match e.kind { Kind::File(m) => (tar::EntryType::Regular, m, data.len()), Kind::Dir => (tar::EntryType::Directory, 0o755, 0), Kind::Sym(_) => (tar::EntryType::Symlink, 0o777, 0), Kind::Hard(_) => (tar::EntryType::Link, 0o644, 0), Kind::Fifo => (tar::EntryType::Fifo, 0o644, 0) };
        hd.set_entry_type(ty); hd.set_mode(mode); hd.set_size(size as u64); hd.set_mtime(1_000_000_000);
        if let Kind::Sym(t) | Kind::Hard(t) = e.kind { let t = sub(root, t); let g = hd.as_gnu_mut().unwrap(); g.linkname = [0; 100]; g.linkname[..t.len()].copy_from_slice(t.as_bytes()); }
        hd.set_cksum();
        b.append(&hd, &data.as_bytes()[..size]).unwrap();
    }
    b.into_inner().unwrap().finish().unwrap()
}
fn zip_of(root: &Path, es: &[E]) -> Option<Vec<u8>> {
    let mut w = zip::ZipWriter::new(std::io::Cursor::new(Vec::new()));
    for (i, e) in es.iter().enumerate() {
        let name = sub(root, e.name);
        match e.kind {
            Kind::File(m) => { w.start_file(name, zip::write::SimpleFileOptions::default().unix_permissions(m)).ok()?; w.write_all(content(i, e).as_bytes()).unwrap(); }
            Kind::Dir => w.add_directory(name, zip::write::SimpleFileOptions::default().unix_permissions(0o755)).ok()?,
            Kind::Sym(t) => w.add_symlink(name, sub(root, t), zip::write::SimpleFileOptions::default()).ok()?,
            _ => return None,
        }
    }
    Some(w.finish().unwrap().into_inner())
}

type T = BTreeMap<String, String>;
/// names -> contents of a tree, executables marked
fn snap(p: &Path) -> T {
    let mut t = tree(p);
    for (k, v) in t.iter_mut() { if !k.ends_with('/') && !v.starts_with("-> ") && std::fs::metadata(p.join(k)).map(|m| m.permissions().mode() & 0o100 != 0).unwrap_or(false) { v.push_str("#x"); } }
    t.retain(|k, _| !k.is_empty());
    t
}
/// the tree an archive of ordinary entries describes; None when entries contradict each other
fn model(root: &Path, es: &[E], zip: bool) -> Option<T> {
    let mut t = T::new();
    for (i, e) in es.iter().enumerate() {
        if HOSTILE.contains(e) || zip && matches!(e.kind, Kind::Sym(_)) { return None; }
        let name = e.name.trim_end_matches('/');
        let parts: Vec<&str> = name.split('/').collect();
        for k in 1..parts.len() { let dir = parts[..k].join("/"); if t.contains_key(&dir) { return None; } t.insert(format!("{dir}/"), String::new()); }
        match e.kind {
            Kind::Dir => { t.insert(format!("{name}/"), String::new()); }
            Kind::Sym(to) => { if t.contains_key(name) || t.contains_key(&format!("{name}/")) { return None; } t.insert(name.into(), format!("-> {}", sub(root, to))); }
            Kind::File(m) => { if t.contains_key(name) || t.contains_key(&format!("{name}/")) { return None; } t.insert(name.into(), content(i, e) + if m & 0o100 != 0 { "#x" } else { "" }); }
            _ => return None,
        }
    }
    Some(t)
}
fn norm(t: T) -> T { t.into_iter().map(|(k, v)| if k.ends_with('/') { (k, String::new()) } else { (k, v) }).collect() }

struct Lab { root: PathBuf, rt: tokio::runtime::Runtime }
impl Lab {
    fn new(base: &Path, k: usize) -> Lab {
        let root = base.join(format!("s{k}"));
        std::fs::create_dir_all(&root).unwrap();
        Lab { root, rt: tokio::runtime::Builder::new_current_thread().max_blocking_threads(1).enable_all().build().unwrap() }
    }
    fn reset(&self) {
        let _ = std::fs::remove_dir_all(&self.root);
        std::fs::create_dir_all(self.root.join("outside/sub")).unwrap();
        std::fs::write(self.root.join("outside/secret"), "SECRET").unwrap();
        std::fs::write(self.root.join("outside/sub/other"), "SECRET").unwrap();
        std::fs::create_dir_all(self.root.join("up/up/dl")).unwrap();
    }
    fn env(&self) -> (BuildRequest, BuildEnvironment) {
        let mut p = Package::new("pkg".into());
        p.version = Some(rez_next_version::Version::parse("1.0").unwrap());
        let e = BuildEnvironment::with_install_path(&p, &self.root.join("up/up/build"), None, Some(&self.root.join("up/up/install"))).unwrap();
        (BuildRequest::new(p, None, self.root.join("up/up")), e)
    }
    fn install_dir(&self) -> PathBuf { self.root.join("up/up/install/pkg/1.0") }
    /// install one archive file; Ok(reported success)
    fn install(&self, file: &str, bytes: &[u8], sha: Option<&str>, prefix: Option<&str>) -> Result<bool, String> {
        let path = self.root.join("up/up/dl").join(file);
        std::fs::write(&path, bytes).unwrap();
        self.install_at(&path, sha, prefix)
    }
    fn install_at(&self, path: &Path, sha: Option<&str>, prefix: Option<&str>) -> Result<bool, String> {
        let (req, mut env) = self.env();
        env.add_env_var("REZ_BINARY_ARCHIVE_ARTIFACT".into(), path.to_string_lossy().into());
        if let Some(s) = sha { env.add_env_var("REZ_BINARY_ARCHIVE_SHA256".into(), s.into()); }
        if let Some(p) = prefix { env.add_env_var("REZ_BINARY_ARCHIVE_PAYLOAD_PREFIX".into(), p.into()); }
        guard(|| self.rt.block_on(async { BinaryArchiveBuildSystem::new().install(&req, &env).await.map(|s| s.success).unwrap_or(false) }))
    }
    /// everything but the install directory, the build area and the downloads
    fn rest(&self) -> T { snap(&self.root).into_iter().filter(|(k, _)| !k.starts_with("up/up/install/") && !k.starts_with("up/up/build/") && !k.starts_with("up/up/dl/")).collect() }
}
/// containment after any install, whatever it reported
fn contained(r: &'static Run, lab: &Lab, before: &T, esc: Vec<String>, what: &str) -> bool {
    let after = lab.rest();
    if !esc.is_empty() { r.fail("escape", format!("{what}: {}", esc.join(", ")), json!({"archive": what})); return false; }
    if &after != before {
        let d: Vec<_> = after.iter().filter(|(k, v)| before.get(*k) != Some(v)).map(|(k, _)| k.clone()).chain(before.keys().filter(|k| !after.contains_key(*k)).cloned()).collect();
        r.fail("outside", format!("{what}: changes {d:?} outside the install directory"), json!({"archive": what, "changed": d}));
        return false;
    }
    let inst = lab.root.join("up/up/install");
    for (k, v) in tree(&inst) {
        if !k.starts_with("pkg/") { r.fail("outside", format!("{what}: writes install/{k}"), json!({"archive": what})); return false; }
        if v.starts_with("SECRET") { r.fail("leak", format!("{what}: install/{k} has the contents of a file outside the archive"), json!({"archive": what})); return false; }
    }
    true
}
fn show(fmt: &str, es: &[E]) -> String { format!("{fmt} of {}", es.iter().map(|e| format!("{} {:?}", e.name, e.kind)).collect::<Vec<_>>().join(", ")) }
fn bytes(lab: &Lab, fmt: &str, es: &[E]) -> Option<Vec<u8>> { if fmt == "zip" { zip_of(&lab.root, es) } else { Some(tar_gz(&lab.root, es)) } }

fn one(r: &'static Run, lab: &Lab, fmt: &str, es: &[E]) {
    lab.reset();
    let Some(b) = bytes(lab, fmt, es) else { return };
    let before = lab.rest();
    r.state(1); r.trans(es.len() as u64); r.eval(1);
    let what = show(fmt, es);
    fsx::jail(&lab.root);
    step_begin("archive", [r_key(es), 0, 0, 0]);
    let got = lab.install(&format!("art.{fmt}"), &b, None, None);
    step_end();
    let esc = fsx::unjail();
    if !contained(r, lab, &before, esc, &what) { return; }
    let ok = match got { Ok(x) => x, Err(p) => { r.fail("panic", format!("{what}: {p}"), json!({"archive": what})); return } };
    let inst = norm(snap(&lab.install_dir()));
    r.outcome(&(ok, &inst));
    if let Some(m) = model(&lab.root, es, fmt == "zip") {
        if !ok { r.fail("refused", format!("{what}: an ordinary archive is not installed"), json!({"archive": what})); }
        else if inst != m { r.fail("payload", format!("{what}: installed {inst:?}, archived {m:?}"), json!({"archive": what, "got": inst, "want": m})); }
    }
}
fn r_key(es: &[E]) -> u64 { hash_of(&format!("{es:?}")) }

/// one archive after another into the same place
fn pair(r: &'static Run, lab: &Lab, f1: &str, a: &[E], f2: &str, b: &[E]) {
    lab.reset();
    let (Some(x), Some(y)) = (bytes(lab, f1, a), bytes(lab, f2, b)) else { return };
    let (Some(ma), Some(mb)) = (model(&lab.root, a, f1 == "zip"), model(&lab.root, b, f2 == "zip")) else { return };
    let before = lab.rest();
    r.state(2); r.trans(2); r.eval(1); r.trace(1);
    let what = format!("{}, then {}", show(f1, a), show(f2, b));
    fsx::jail(&lab.root);
    let g1 = lab.install(&format!("one.{f1}"), &x, None, None);
    let g2 = lab.install(&format!("two.{f2}"), &y, None, None);
    let esc = fsx::unjail();
    if !contained(r, lab, &before, esc, &what) { return; }
    if g1 != Ok(true) || g2 != Ok(true) { r.fail("refused", format!("{what}: {g1:?} {g2:?}"), json!({"archive": what})); return; }
    // what the second archive names is the second archive's; anything else left is the first's
    let inst = norm(snap(&lab.install_dir()));
    let top = |k: &str| k.split('/').next().unwrap().to_string();
    let tops: Vec<String> = mb.keys().map(|k| top(k)).collect();
    let part: T = inst.iter().filter(|(k, _)| tops.contains(&top(k))).map(|(k, v)| (k.clone(), v.clone())).collect();
    let left: T = inst.iter().filter(|(k, _)| !tops.contains(&top(k))).map(|(k, v)| (k.clone(), v.clone())).collect();
    r.outcome(&inst);
    if part != mb { r.fail("payload", format!("{what}: installed {part:?}, archived {mb:?}"), json!({"archive": what, "got": inst, "want": mb})); }
    if left.iter().any(|(k, v)| ma.get(k) != Some(v)) { r.fail("payload", format!("{what}: {left:?} is in neither archive"), json!({"archive": what})); }
}

fn checksums(r: &'static Run, lab: &Lab) {
    use sha2::Digest;
    let es = [f("a"), x("bin/tool")];
    for fmt in ["zip", "tar.gz", "tgz"] {
        let b = bytes(lab, fmt, &es).unwrap();
        let good = hex::encode(sha2::Sha256::digest(&b));
        let mut forms: Vec<(String, Option<bool>)> = vec![(good.clone(), Some(true)), (good.to_uppercase(), None), (format!(" {good}"), None), (format!("{good}\n"), None), (format!("sha256:{good}"), None), (String::new(), None), ("0".repeat(64), Some(false)), ("x".into(), Some(false)), (hex::encode(sha2::Sha256::digest(b"")), Some(false))];
        for i in 0..64 { let mut w: Vec<u8> = good.bytes().collect(); w[i] = if w[i] == b'0' { b'1' } else { b'0' }; forms.push((String::from_utf8(w).unwrap(), Some(false))); forms.push((good[..i.max(1)].to_string(), Some(false))); forms.push((good[i.max(1)..].to_string(), Some(false))); }
        forms.push((format!("{good}0"), Some(false)));
        for (form, want) in forms {
            lab.reset();
            let before = lab.rest();
            fsx::jail(&lab.root);
            let got = lab.install(&format!("art.{fmt}"), &b, Some(&form), None);
            let esc = fsx::unjail();
            r.state(1); r.eval(1); r.part("checksum", "forms", 1);
            let what = format!("{} with checksum {form:?} (the file's is {good})", show(fmt, &es));
            if !contained(r, lab, &before, esc, &what) { continue; }
            let inst = norm(snap(&lab.install_dir()));
            if let Some(w) = want { if got != Ok(w) { r.fail("checksum", format!("{what}: {got:?}"), json!({"archive": what})); } }
            if got == Ok(true) { if Some(&inst) != model(&lab.root, &es, fmt == "zip").as_ref() { r.fail("payload", format!("{what}: installed {inst:?}"), json!({"archive": what})); } }
            else if !inst.is_empty() { r.fail("checksum", format!("{what}: refused, and yet installed {inst:?}"), json!({"archive": what})); }
        }
        // every single-byte change of the file is refused by the checksum of the original
        for i in 0..b.len() {
            let mut w = b.clone(); w[i] ^= 0x20;
            lab.reset();
            fsx::jail(&lab.root);
            let got = lab.install(&format!("art.{fmt}"), &w, Some(&good), None);
            let esc = fsx::unjail();
            r.state(1); r.eval(1); r.part("checksum", "altered files", 1);
            if got != Ok(false) || !esc.is_empty() || !norm(snap(&lab.install_dir())).is_empty() { r.fail("checksum", format!("{}: byte {i} altered: {got:?} {esc:?}", show(fmt, &es)), json!({"byte": i})); }
        }
        // a file cut short is never installed as if it were complete
        for n in 0..b.len() {
            lab.reset();
            let before = lab.rest();
            fsx::jail(&lab.root);
            let got = lab.install(&format!("art.{fmt}"), &b[..n], None, None);
            let esc = fsx::unjail();
            r.state(1); r.eval(1); r.part("truncation", "cuts", 1);
            let what = format!("{} cut to {n} of {} bytes", show(fmt, &es), b.len());
            if !contained(r, lab, &before, esc, &what) { continue; }
            match got { Err(p) => r.fail("panic", format!("{what}: {p}"), json!({"archive": what})), Ok(true) if Some(norm(snap(&lab.install_dir()))) != model(&lab.root, &es, fmt == "zip") => r.fail("truncated", format!("{what}: reported as installed"), json!({"archive": what})), _ => {} }
        }
    }
    // kinds of files that are not archives
    for name in ["art.tar", "art", "art.zip.txt", "art.exe", "art.tar.xz"] {
        lab.reset();
        fsx::jail(&lab.root);
        let got = lab.install(name, &bytes(lab, "zip", &es).unwrap(), None, None);
        let esc = fsx::unjail();
        r.state(1); r.eval(1);
        if got == Ok(true) && norm(snap(&lab.install_dir())) != model(&lab.root, &es, true).unwrap() || got.is_err() || !esc.is_empty() { r.fail("format", format!("{name}: {got:?} {esc:?}"), json!({"file": name})); }
    }
}

fn prefixes(r: &'static Run, lab: &Lab) {
    let es = [f("a"), f("p/q"), x("p/s/t"), s("p/sec", "@/outside/secret"), s("out", "@/outside"), s("in", "p/s")];
    for fmt in ["tar.gz", "zip"] {
        let es: Vec<E> = if fmt == "zip" { es.iter().filter(|e| !matches!(e.kind, Kind::Sym(_))).copied().collect() } else { es.to_vec() };
        for p in ["", "p", "p/", "p/s", "./p", "p/../p/s", "a", "missing", "..", "../..", "p/../..", "../../../../../outside", "../../../../../../outside/sub", "@/outside", "/", "out", "out/sub", "in", "@/up/up/build"] {
            lab.reset();
            let before = lab.rest();
            let b = bytes(lab, fmt, &es).unwrap();
            let pre = sub(&lab.root, p);
            fsx::jail(&lab.root);
            let got = lab.install(&format!("art.{fmt}"), &b, None, Some(&pre));
            let esc = fsx::unjail();
            r.state(1); r.eval(1); r.part("prefix", "prefixes", 1);
            let what = format!("{} with payload prefix {p:?}", show(fmt, &es));
            if !contained(r, lab, &before, esc, &what) { continue; }
            let m = {
                let t: T = es.iter().enumerate().flat_map(|(i, e)| { let parts: Vec<&str> = e.name.split('/').collect(); let mut v: Vec<(String, String)> = (1..parts.len()).map(|k| (format!("{}/", parts[..k].join("/")), String::new())).collect(); v.push((e.name.into(), match e.kind { Kind::File(md) => content(i, e) + if md & 0o100 != 0 { "#x" } else { "" }, Kind::Sym(t) => format!("-> {}", sub(&lab.root, t)), _ => String::new() })); v }).collect();
                t
            };
            let under = |d: &str| m.iter().filter(|(k, _)| k.starts_with(d) && k.len() > d.len()).map(|(k, v)| (k[d.len()..].to_string(), v.clone())).collect::<T>();
            let inst = norm(snap(&lab.install_dir()));
            let want = match p { "" => Some(m.clone()), "p" | "p/" | "./p" => Some(under("p/")), "p/s" | "p/../p/s" => Some(under("p/s/")), "in" if fmt == "tar.gz" => Some(under("p/s/")), _ => None };
            match (want, got) {
                (_, Err(e)) => r.fail("panic", format!("{what}: {e}"), json!({"prefix": p})),
                (Some(w), Ok(true)) => if inst != w { r.fail("payload", format!("{what}: installed {inst:?}, should be {w:?}"), json!({"prefix": p})) },
                (Some(_), Ok(false)) => if !matches!(p, "./p" | "p/../p/s" | "in") { r.fail("refused", format!("{what}: not installed"), json!({"prefix": p})) },
                (None, Ok(true)) => r.fail("prefix", format!("{what}: installs {inst:?}"), json!({"prefix": p})),
                (None, Ok(false)) => if !inst.is_empty() { r.fail("prefix", format!("{what}: refused, and yet installed {inst:?}"), json!({"prefix": p})) },
            }
        }
    }
}

/// every write fault: a reported success means the whole payload is there
fn faults(r: &'static Run, lab: &Lab, fmt: &str, es: &[E], reads: bool) {
    lab.reset();
    let b = bytes(lab, fmt, es).unwrap();
    let want = model(&lab.root, es, fmt == "zip").unwrap();
    let path = lab.root.join("up/up/dl").join(format!("art.{fmt}"));
    let mut at = 0;
    loop {
        for errno in [libc::EIO, libc::ENOSPC, libc::EACCES] {
            lab.reset();
            std::fs::write(&path, &b).unwrap();
            let before = lab.rest();
            fsx::set_read_faults(reads);
            fsx::arm(&lab.root, fsx::Plan::Fault { at, errno });
            let got = lab.install_at(&path, None, None);
            let (n, log) = fsx::disarm();
            fsx::set_read_faults(false);
            if n <= at { r.part("faults", "points", at); return; }
            r.state(1); r.eval(1); r.trans(1);
            let what = format!("{} with error {errno} at {}", show(fmt, es), log.last().cloned().unwrap_or_default().replace(&*lab.root.to_string_lossy(), ""));
            if !contained(r, lab, &before, vec![], &what) { return; }
            match got { Err(p) => r.fail("panic", format!("{what}: {p}"), json!({"fault": at})), Ok(true) if norm(snap(&lab.install_dir())) != want => { r.fail("fault", format!("{what}: reported as installed, but {:?}", snap(&lab.install_dir())), json!({"fault": at, "errno": errno})); return } _ => {} }
        }
        at += 1;
    }
}

// ---- archives fetched over HTTP --------------------------------------------------------------------------------
/// answers one request
fn serve(l: std::net::TcpListener, head: String, body: Vec<u8>) -> std::thread::JoinHandle<()> {
    std::thread::spawn(move || {
        let Ok((mut c, _)) = l.accept() else { return };
        let mut buf = [0u8; 4096]; let mut seen = vec![];
        while !seen.windows(4).any(|w| w == b"\r\n\r\n") { match c.read(&mut buf) { Ok(0) | Err(_) => break, Ok(n) => seen.extend_from_slice(&buf[..n]) } }
        let _ = c.write_all(format!("{head}Content-Length: {}\r\nConnection: close\r\n\r\n", body.len()).as_bytes());
        let _ = c.write_all(&body);
    })
}
fn http(r: &'static Run, lab: &Lab) {
    for k in ["http_proxy", "HTTP_PROXY", "https_proxy", "HTTPS_PROXY", "all_proxy", "ALL_PROXY"] { unsafe { std::env::remove_var(k) } }
    let es = [f("a"), x("bin/tool")];
    let names = ["", "plain.zip", "\"quoted.zip\"", "../up.zip", "../../../../outside/secret", "\"../../../../outside/new\"", "@/outside/abs", "\"@/outside/secret\"", "..", ".", "/", "sub/file.zip", "a.tar.gz", "../../../esc.tar.gz"];
    for name in names { for (status, tail) in [(200, "art.zip"), (200, "art.tar.gz"), (200, "art.bin"), (404, "art.zip"), (200, "")] {
        lab.reset();
        let before = lab.rest();
        let fmt = if name.ends_with(".tar.gz") || (name.is_empty() && tail.ends_with(".tar.gz")) { "tar.gz" } else { "zip" };
        let body = bytes(lab, fmt, &es).unwrap();
        let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
        let url = format!("http://{}/{tail}", l.local_addr().unwrap());
        let disp = if name.is_empty() { String::new() } else { format!("Content-Disposition: attachment; filename={}\r\n", sub(&lab.root, name)) };
        let t = serve(l, format!("HTTP/1.1 {status} X\r\n{disp}"), body.clone());
        let dest = lab.root.join("up/up/install/pkg/1.0");
        let m = SourceManager::new();
        fsx::jail(&lab.root);
        let got = guard(|| lab.rt.block_on(async { let src = m.parse_source(&url).map_err(|e| e.to_string())?; m.fetch_source(&src, &dest).await.map_err(|e| e.to_string()) }));
        let esc = fsx::unjail();
        let _ = t.join();
        r.state(1); r.eval(1); r.part("http", "downloads", 1);
        let what = format!("download of {tail:?} named {name:?} with status {status}");
        if !contained(r, lab, &before, esc, &what) { continue; }
        match got {
            Err(p) => r.fail("panic", format!("{what}: {p}"), json!({"download": what})),
            Ok(Ok(p)) => {
                if status != 200 { r.fail("status", format!("{what}: accepted"), json!({"download": what})); }
                if !p.starts_with(&dest) { r.fail("outside", format!("{what}: fetched to {}", p.display()), json!({"download": what})); }
                let t = norm(snap(&p));
                let plain = name.trim_matches('"').ends_with(".zip") || name.ends_with(".tar.gz") || name.is_empty() && (tail == "art.zip" || tail == "art.tar.gz");
                if plain && Some(&t) != model(&lab.root, &es, fmt == "zip").as_ref() { r.fail("payload", format!("{what}: fetched {t:?}"), json!({"download": what})); }
            }
            Ok(Err(e)) => { if status == 200 && matches!(name, "" | "plain.zip" | "\"quoted.zip\"" | "a.tar.gz") { r.fail("refused", format!("{what}: {e}"), json!({"download": what})); } }
        }
        // the archive installer's own download
        if name.is_empty() && tail.starts_with("art.") {
            use sha2::Digest;
            for (sha, ok) in [(hex::encode(sha2::Sha256::digest(&body)), true), ("0".repeat(64), false)] {
                lab.reset();
                let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
                let url = format!("http://{}/{tail}", l.local_addr().unwrap());
                let t = serve(l, format!("HTTP/1.1 {status} X\r\n"), body.clone());
                let (req, mut env) = lab.env();
                env.add_env_var("REZ_BINARY_ARCHIVE_URL".into(), url);
                env.add_env_var("REZ_BINARY_ARCHIVE_SHA256".into(), sha.clone());
                let got = guard(|| lab.rt.block_on(async { BinaryArchiveBuildSystem::new().install(&req, &env).await.map(|s| s.success).unwrap_or(false) }));
                let _ = t.join();
                r.state(1); r.eval(1);
                let what = format!("archive {tail} downloaded with status {status} and checksum {sha}");
                if !contained(r, lab, &before, vec![], &what) { continue; }
                let inst = norm(snap(&lab.install_dir()));
                let must = ok && status == 200 && tail != "art.bin";
                if got != Ok(true) && must || got == Ok(true) && !ok || got == Ok(true) && Some(&inst) != model(&lab.root, &es, fmt == "zip").as_ref() || got == Ok(false) && !inst.is_empty() { r.fail("checksum", format!("{what}: {got:?}, installed {inst:?}"), json!({"download": what})); }
            }
        }
    } }
}

pub fn run(r: &'static Run) {
    r.rule("whatever an archive holds, nothing outside the install directory changes and nothing from outside is installed; a mismatched checksum installs nothing; a reported success is the archived payload");
    let base = scratch("b01");
    watchdog(r, 120);
    let alpha: Vec<E> = BENIGN.iter().chain(HOSTILE.iter()).copied().collect();
    let singles: Vec<Vec<E>> = sequences(&alpha, 2).into_iter().filter(|s| !s.is_empty()).collect();
    let mut seqs = singles.clone();
    // three entries: all in depth, or those that hold at least one link and one hostile name
    for s in sequences(&alpha, 3).into_iter().filter(|s| s.len() == 3) {
        let link = s.iter().any(|e| matches!(e.kind, Kind::Sym(_) | Kind::Hard(_)));
        let host = s.iter().any(|e| HOSTILE.contains(e));
        if r.thorough || link && host && matches!(s[0].kind, Kind::Sym(_)) && s[0].name != s[1].name && matches!(s[2].kind, Kind::File(_)) { seqs.push(s); }
    }
    let small: Vec<Vec<E>> = sequences(&BENIGN[..], r.pick(1, 2)).into_iter().filter(|s| !s.is_empty()).filter(|s| s.len() < 2 || s[0] != s[1]).collect();
    let mut pairs: Vec<(Vec<E>, Vec<E>)> = vec![];
    for a in &small { for b in &small { pairs.push((a.clone(), b.clone())); } }
    // a link of the first archive under a file name of the second
    for (a, b) in [(s("a", "@/outside/secret"), f("a")), (s("bin", "@/outside"), x("bin/tool")), (s("p", "@/outside"), f("p/q")), (f("bin"), x("bin/tool")), (x("bin/tool"), f("bin"))] { pairs.push((vec![a], vec![b])); pairs.push((vec![b], vec![a])); }
    r.bound("archives", seqs.len() * 2);
    r.bound("archive_entries", 3);
    r.bound("entry_alphabet", alpha.len());
    r.bound("install_histories", pairs.len() * 3);
    r.sharded(8, |shard, shards| {
        let lab = Lab::new(&base, shard);
        for (i, s) in seqs.iter().enumerate().filter(|(i, _)| i % shards == shard) {
            for fmt in ["tar.gz", "zip"] { one(r, &lab, fmt, s); }
            if i % 64 == shard && r.violated() { return; }
        }
        if r.violated() { return; }
        for (a, b) in pairs.iter().enumerate().filter(|(i, _)| i % shards == shard).map(|x| x.1) {
            for (f1, f2) in [("tar.gz", "tar.gz"), ("zip", "tar.gz"), ("tar.gz", "zip")] { pair(r, &lab, f1, a, f2, b); }
            if r.violated() { return; }
        }
        match shard {
            0 => checksums(r, &lab),
            1 => prefixes(r, &lab),
            2 => http(r, &lab),
            3 => faults(r, &lab, "tar.gz", &[f("a"), x("bin/tool"), s("l", "a"), d("d/")], false),
            4 => faults(r, &lab, "zip", &[f("a"), x("bin/tool"), f("d/e/g")], false),
            5 => { faults(r, &lab, "zip", &[f("a"), x("bin/tool")], true); }
            6 => { faults(r, &lab, "tar.gz", &[f("a"), x("bin/tool"), s("l", "a")], true); }
            _ => {}
        }
    });
}
