//! G01: self-update. Every combination of outcomes of the external steps (version lookup, archive download,
//! checksum download, extraction, what is left over from before), every I/O fault and every crash point, on the
//! real command with stand-ins for the downloader and the extractor.
use mccore::*;
use rez_core::cli::commands::self_update::{execute, SelfUpdateArgs};
use serde_json::json;
use sha2::Digest;
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};

const OLD: &str = "#!/bin/sh\necho old\n";
const NEW: &str = "#!/bin/sh\necho new\n# the complete new executable\n";
fn archive_name() -> String { format!("rez-next-{}-unknown-linux-gnu.tar.gz", std::env::consts::ARCH) }
fn tar_gz(files: &[(&str, &str, u32)]) -> Vec<u8> {
    let mut b = tar::Builder::new(flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::fast()));
    for (n, c, m) in files { let mut h = tar::Header::new_gnu(); h.set_mode(*m); h.set_size(c.len() as u64); h.set_mtime(1); h.set_cksum(); b.append_data(&mut h, n, c.as_bytes()).unwrap(); }
    b.into_inner().unwrap().finish().unwrap()
}
#[derive(Clone, Debug)]
struct Case { api: &'static str, archive: &'static str, sums: &'static str, tar: &'static str, layout: &'static str, stale: bool, tool: &'static str, version: Option<&'static str>, check: bool, force: bool }
const GOOD: Case = Case { api: "ok", archive: "good", sums: "good", tar: "ok", layout: "top", stale: false, tool: "curl", version: None, check: false, force: false };
fn archive_of(layout: &str) -> Vec<u8> {
    match layout {
        "top" => tar_gz(&[("README.md", "read me", 0o644), ("rez-next", NEW, 0o644)]),
        "nested" => tar_gz(&[("rez-next-9.9.9/LICENSE", "free", 0o644), ("rez-next-9.9.9/bin/rez-next", NEW, 0o755)]),
        "none" => tar_gz(&[("README.md", "read me", 0o644), ("rez-next.md", "docs", 0o644)]),
        x => panic!("{x}"),
    }
}
fn deliver(c: &Case) -> (Option<Vec<u8>>, i32) {
    let good = archive_of(c.layout);
    match c.archive {
        "good" => (Some(good), 0), "truncated" => (Some(good[..good.len() / 2].to_vec()), 0), "all but the last byte" => (Some(good[..good.len() - 1].to_vec()), 0),
        "corrupt" => { let mut g = good; let n = g.len() / 2; g[n] ^= 1; (Some(g), 0) } "appended" => { let mut g = good; g.push(0); (Some(g), 0) }
        "empty" => (Some(vec![]), 0), "absent" => (None, 0), "complete but failed" => (Some(good), 22), "complete but status 1" => (Some(good), 1), "complete but killed" => (Some(good), 99), "partial and failed" => (Some(good[..good.len() / 2].to_vec()), 18), "failed" => (None, 22),
        "another archive" => (Some(tar_gz(&[("rez-next", "EVIL", 0o755)])), 0), "error page" => (Some(b"<html>not found</html>".to_vec()), 0),
        x => panic!("{x}"),
    }
}
fn sums_of(c: &Case) -> (Option<String>, i32) {
    let h = hex::encode(sha2::Sha256::digest(archive_of(c.layout)));
    let n = archive_name();
    let other = "f".repeat(64);
    let got = deliver(c).0.map(|b| hex::encode(sha2::Sha256::digest(&b))).unwrap_or_default();
    match c.sums {
        "good" => (Some(format!("{h}  {n}\n")), 0), "uppercase" => (Some(format!("{}  {n}\n", h.to_uppercase())), 0), "among others" => (Some(format!("{other}  rez-next-x.zip\n\n{h}  {n}\n{other}  z{n}\n")), 0),
        "wrong" => (Some(format!("{other}  {n}\n")), 0), "one digit off" => (Some(format!("{}{}  {n}\n", &h[..63], if h.ends_with('0') { "1" } else { "0" })), 0),
        "for another file" => (Some(format!("{got}  x{n}\n{got}  {n}.sig\n")), 0), "short" => (Some(format!("{}  {n}\n", &h[..63])), 0), "not hex" => (Some(format!("{}g  {n}\n", &h[..63])), 0),
        "hash only" => (Some(format!("{h}\n")), 0), "name only" => (Some(format!("{n}\n")), 0), "empty" => (Some(String::new()), 0), "absent" => (None, 0), "failed" => (None, 22), "complete but failed" => (Some(format!("{h}  {n}\n")), 22), "complete but status 1" => (Some(format!("{h}  {n}\n")), 1), "complete but killed" => (Some(format!("{h}  {n}\n")), 99), "error page" => (Some("<html>not found</html>".into()), 0),
        x => panic!("{x}"),
    }
}
struct Lab { root: PathBuf }
const SCRIPT: &str = r#"#!/bin/sh
[ "$1" = --version ] && exit 0
url= out=
while [ $# -gt 0 ]; do case "$1" in -o|-O|-qO|--output) out=$2; shift;; http*) url=$1;; esac; shift; done
case "${url##*/}" in latest) k=api;; checksums*) k=sums;; *) k=archive;; esac
echo $k >> %%/log
if [ -f %%/$k.body ]; then if [ -n "$out" ] && [ "$out" != - ]; then /bin/cat %%/$k.body > "$out"; else /bin/cat %%/$k.body; fi; fi
read rc < %%/$k.rc
[ $rc = 99 ] && kill -9 $$
exit $rc
"#;
const TAR: &str = r#"#!/bin/sh
PATH=/usr/bin:/bin; export PATH
read mode < %%/tar.mode
echo tar >> %%/log
case $mode in
ok) exec /usr/bin/tar "$@";;
fail) exit 2;;
partial*) /usr/bin/tar "$@"; for a in "$@"; do [ -d "$a" ] && d=$a; done; /usr/bin/find "$d" -name rez-next -type f | while read f; do /usr/bin/head -c 9 "$f" > "$f.cut"; /bin/mv "$f.cut" "$f"; done
  [ $mode = partial-killed ] && kill -9 $$
  [ $mode = partial-1 ] && exit 1
  exit 2;;
esac
"#;
impl Lab {
    fn new(base: &Path, k: usize) -> Lab { let root = base.join(format!("s{k}")); std::fs::create_dir_all(&root).unwrap(); Lab { root } }
    fn exe(&self) -> PathBuf { self.root.join("inst/rez-next") }
    fn setup(&self, c: &Case) {
        let _ = std::fs::remove_dir_all(&self.root);
        for d in ["inst", "fake", "bin-curl", "bin-wget", "bin-none", "tmp/bystander", "victim"] { std::fs::create_dir_all(self.root.join(d)).unwrap(); }
        let put = |p: &str, s: &[u8], m: u32| { let p = self.root.join(p); std::fs::write(&p, s).unwrap(); std::fs::set_permissions(&p, std::fs::Permissions::from_mode(m)).unwrap(); };
        put("inst/rez-next", OLD.as_bytes(), 0o755);
        put("victim/precious", b"precious", 0o644); put("tmp/bystander/precious", b"precious", 0o644);
        let fake = self.root.join("fake"); let fake = fake.to_string_lossy();
        for t in ["curl", "wget"] { put(&format!("bin-{t}/{t}"), SCRIPT.replace("%%", &fake).as_bytes(), 0o755); }
        for d in ["bin-curl", "bin-wget", "bin-none"] { put(&format!("{d}/tar"), TAR.replace("%%", &fake).as_bytes(), 0o755); }
        put("fake/tar.mode", format!("{}\n", c.tar).as_bytes(), 0o644);
        let (api, arc) = match c.api { "ok" => (Some("{\n  \"url\": \"x\",\n  \"tag_name\": \"v9.9.9\",\n  \"name\": \"y\"\n}\n".to_string()), 0), "current" => (Some(format!("{{\n  \"tag_name\": \"v{}\",\n}}\n", env_version())), 0), "failed" => (None, 22), "garbage" => (Some("<html/>".into()), 0), x => panic!("{x}") };
        for (k, (body, rc)) in [("api", (api.map(String::into_bytes), arc)), ("archive", deliver(c)), ("sums", { let s = sums_of(c); (s.0.map(String::into_bytes), s.1) })] {
            if let Some(b) = body { put(&format!("fake/{k}.body"), &b, 0o644); }
            put(&format!("fake/{k}.rc"), format!("{rc}\n").as_bytes(), 0o644);
        }
        if c.stale {
            // what earlier runs, or somebody else, left in the temporary directory
            let good = archive_of(c.layout);
            let sums = format!("{}  {}\n", hex::encode(sha2::Sha256::digest(&good)), archive_name());
            for v in ["9.9.9".to_string(), std::process::id().to_string(), env_version(), "8.8.8".into()] {
                let d = format!("tmp/rez-next-update-{v}");
                for s in ["", "aaa/", "zzz/", "rez-next-9.9.9/bin/"] { std::fs::create_dir_all(self.root.join(format!("{d}/{s}"))).unwrap(); if s != "rez-next-9.9.9/bin/" || c.layout != "nested" { put(&format!("{d}/{s}rez-next"), b"STALE", 0o755); } }
                put(&format!("{d}/{}", archive_name()), &good, 0o644);
                put(&format!("{d}/checksums-sha256.txt"), sums.as_bytes(), 0o644);
            }
        }
    }
    fn run(&self, c: &Case) -> Result<bool, String> {
        unsafe { std::env::set_var("PATH", self.root.join(format!("bin-{}", c.tool))); std::env::set_var("TMPDIR", self.root.join("tmp")); }
        guard(|| match execute(SelfUpdateArgs { version: c.version.map(Into::into), check: c.check, force: c.force, verbose: false }) { Ok(()) => true, Err(e) => { let _ = std::fs::write(self.root.join("error"), e.to_string()); false } })
    }
    fn installed(&self) -> (String, bool) {
        let p = self.exe();
        (std::fs::read_to_string(&p).unwrap_or_else(|e| format!("<{e}>")), std::fs::symlink_metadata(&p).map(|m| m.is_file() && m.permissions().mode() & 0o555 == 0o555).unwrap_or(false))
    }
    fn log(&self) -> String { (std::fs::read_to_string(self.root.join("fake/log")).unwrap_or_default() + &std::fs::read_to_string(self.root.join("error")).unwrap_or_default()).replace('\n', " ") }
}
/// the version of the crate under test, as the command reports it
fn env_version() -> String { CURRENT.get().unwrap().clone() }
static CURRENT: std::sync::OnceLock<String> = std::sync::OnceLock::new();
fn read_version() -> String {
    let t = std::fs::read_to_string("/repo/Cargo.toml").unwrap();
    let mut in_ws = String::new(); let mut sect = "";
    let mut pkg = None;
    for l in t.lines() { if l.starts_with('[') { sect = l.trim(); } if let Some(v) = l.strip_prefix("version") { let v = v.trim_start_matches([' ', '=', '.']).trim().trim_matches('"').to_string(); if sect == "[workspace.package]" { in_ws = v; } else if sect == "[package]" && !l.contains("workspace") { pkg = Some(v); } } }
    pkg.unwrap_or(in_ws)
}

fn judge(r: &'static Run, lab: &Lab, c: &Case, got: Result<bool, String>, what: &str, crashed: bool) {
    let fail = |k: &str, m: String| r.fail(k, format!("{what}: {m} (steps: {})", lab.log()), json!({"case": what}));
    let (text, runnable) = lab.installed();
    let verified = matches!(c.archive, "good") && matches!(c.sums, "good" | "uppercase" | "among others");
    if text != OLD && text != NEW { return fail("executable", format!("the installed executable is now {text:?}")); }
    if !runnable { return fail("executable", "the installed executable is not runnable any more".into()); }
    if text == NEW && !verified { return fail("unverified", "installed without a matching checksum".into()); }
    if text == NEW && (c.check || c.tar != "ok" && lab.log().contains("tar")) { return fail("unexpected", "installed although it should not have been".into()); }
    for p in ["victim/precious", "tmp/bystander/precious"] { if std::fs::read_to_string(lab.root.join(p)).ok().as_deref() != Some("precious") { return fail("bystander", format!("{p} is gone")); } }
    if crashed { return; }
    match got {
        Err(p) => fail("panic", p),
        Ok(true) if text == OLD => { let idle = c.check || !c.force && (c.version == Some(CURRENT.get().unwrap().as_str()) || c.version.is_none() && c.api == "current"); if !idle { fail("silent", "reports success without having updated".into()) } }
        Ok(false) if text == NEW => fail("report", "reports failure after having updated".into()),
        _ => {}
    }
}
fn must_succeed(c: &Case) -> bool {
    matches!(c.archive, "good") && matches!(c.sums, "good" | "uppercase" | "among others") && c.tar == "ok" && c.layout != "none" && c.tool != "none" && (c.version == Some("9.9.9") || c.version == Some("v9.9.9") || c.version.is_none() && c.api == "ok")
}
fn one(r: &'static Run, lab: &Lab, c: &Case) {
    lab.setup(c);
    fsx::jail(&lab.root);
    let got = lab.run(c);
    let esc = fsx::unjail();
    r.state(1); r.trans(5); r.eval(1);
    let what = format!("{c:?}");
    if !esc.is_empty() { r.fail("bystander", format!("{what}: {}", esc.join(", ")), json!({"case": what})); }
    let ok = got == Ok(true);
    r.outcome(&(ok, lab.installed(), lab.log()));
    judge(r, lab, c, got, &what, false);
    if must_succeed(c) && !ok { r.fail("refused", format!("{what}: a verified update is not installed (steps: {})", lab.log()), json!({"case": what})); }
}
fn faults(r: &'static Run, lab: &Lab, c: &Case, reads: bool, crash: bool) {
    let mut at = 0;
    loop {
        for k in 0..if crash { 2 } else { 4 } {
            lab.setup(c);
            fsx::set_read_faults(reads);
            let errno = [libc::EIO, libc::ENOSPC, libc::EACCES, libc::EXDEV][k];
            fsx::arm(&lab.root, if crash { fsx::Plan::Crash { at, torn: k == 1 } } else { fsx::Plan::Fault { at, errno } });
            let got = lab.run(c);
            let crashed = fsx::crashed();
            let (n, log) = fsx::disarm();
            fsx::set_read_faults(false);
            if n <= at { r.part("faults", if crash { "crash points" } else { "fault points" }, at); return; }
            r.state(1); r.eval(1); r.trans(1); r.trace(1);
            let what = format!("{c:?} with {} at {}", if crash { "a crash".into() } else { format!("error {errno}") }, log.last().cloned().unwrap_or_default().replace(&*lab.root.to_string_lossy(), ""));
            judge(r, lab, c, got, &what, crashed);
            if r.violated() { return; }
        }
        at += 1;
    }
}
pub fn run(r: &'static Run) {
    r.rule("the executable is always the old one or the complete verified new one; success is reported exactly when it was replaced; nothing else is touched");
    CURRENT.set(read_version()).unwrap();
    let base = scratch("g01");
    let archives = ["good", "truncated", "all but the last byte", "corrupt", "appended", "empty", "absent", "complete but failed", "complete but status 1", "complete but killed", "partial and failed", "failed", "another archive", "error page"];
    let sums = ["good", "uppercase", "among others", "wrong", "one digit off", "for another file", "short", "not hex", "hash only", "name only", "empty", "absent", "failed", "complete but failed", "complete but status 1", "complete but killed", "error page"];
    let mut cases = vec![];
    let layouts: &[&'static str] = &["top", "nested", "none"];
    for archive in archives { for s in sums { for tar in ["ok", "fail", "partial", "partial-1", "partial-killed"] { for &layout in layouts { for stale in [false, true] { for tool in ["curl", "wget"] {
        if !r.thorough && (tool == "wget" && (layout != "top" || tar != "ok") || (layout != "top" || tar != "ok") && (archive != "good" && s != "good")) { continue; }
        cases.push(Case { archive, sums: s, tar, layout, stale, tool, ..GOOD });
    } } } } } }
    let current: &'static str = Box::leak(env_version().into_boxed_str());
    for api in ["ok", "current", "failed", "garbage"] { for version in [None, Some("9.9.9"), Some("v9.9.9"), Some(current), Some("../victim"), Some("x/../../victim"), Some("/../victim"), Some("")] { for check in [false, true] { for force in [false, true] { for stale in [false, true] { for (archive, s) in [("good", "good"), ("failed", "good"), ("good", "failed"), ("corrupt", "good")] { for tool in ["curl", "none"] {
        cases.push(Case { api, version, check, force, stale, archive, sums: s, tool, ..GOOD });
    } } } } } } }
    r.bound("step_outcome_combinations", cases.len());
    r.bound("fault_errors", "EIO, ENOSPC, EACCES, EXDEV at every file operation of the command; a crash before and inside each");
    let faulty: Vec<Case> = vec![GOOD, Case { stale: true, ..GOOD }, Case { layout: "nested", ..GOOD }, Case { archive: "corrupt", ..GOOD }, Case { tar: "partial", ..GOOD }];
    r.sharded(8, |shard, shards| {
        let lab = Lab::new(&base, shard);
        fsx::set_virtual(&[("/proc/self/exe".into(), lab.exe().to_string_lossy().into())]);
        if std::env::var_os("MC_PANICS").is_none() { silence(); }
        for c in cases.iter().enumerate().filter(|(i, _)| i % shards == shard).map(|x| x.1) { one(r, &lab, c); if r.violated() { break; } }
        let jobs: Vec<(usize, bool, bool)> = (0..faulty.len()).flat_map(|i| [(i, false, false), (i, true, false), (i, false, true)]).collect();
        for (i, reads, crash) in jobs.iter().enumerate().filter(|(i, _)| i % shards == shard).map(|x| *x.1) { if r.violated() { break; } faults(r, &lab, &faulty[i], reads, crash); }
        unsilence();
        fsx::set_virtual(&[]);
    });
}
