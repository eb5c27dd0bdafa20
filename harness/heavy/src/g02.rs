//! G02: releases. Every combination of repository state, options and step outcomes, and a failure of every
//! single version-control call, on the real release command and the release library with real git repositories.
use mccore::*;
use rez_core::cli::commands::release::{execute, ReleaseArgs};
use rez_next_build::release::{ReleaseManager, ReleaseMode};
use serde_json::json;
use std::collections::BTreeMap;
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};
use std::process::Command;

#[derive(Clone, Debug)]
struct Case { tree: &'static str, tag: bool, remote: &'static str, build: &'static str, skip: bool, ignore: bool, dry: bool, variants: Option<&'static str>, home: bool, pkg: &'static str }
const GOOD: Case = Case { tree: "clean", tag: false, remote: "ok", build: "ok", skip: false, ignore: false, dry: false, variants: None, home: false, pkg: "plain" };
const GIT: &str = r#"#!/bin/sh
n=0; [ -f %%/count ] && read n < %%/count
n=$((n+1)); echo $n > %%/count
echo "$@" >> %%/git.log
[ -f %%/fail ] && { read k < %%/fail; [ "$k" = $n ] && { echo "stand-in failure" >&2; exit 128; }; }
exec /usr/bin/git "$@"
"#;
const BUILD: &str = r#"echo build $1 >> %%/build.log
n=`/usr/bin/wc -l < %%/build.log`
read mode < %%/build.mode
mkdir -p "$1"; echo built > "$1/payload"
case $mode in fail) exit 3;; second) [ $n -ge 2 ] && exit 3;; esac
exit 0
"#;
struct Lab { root: PathBuf, tmpl: PathBuf }
fn sh(dir: &Path, cmd: &str) { let o = Command::new("/bin/sh").arg("-ec").arg(cmd).current_dir(dir).env("PATH", "/usr/bin:/bin").output().unwrap(); assert!(o.status.success(), "{cmd}: {}", String::from_utf8_lossy(&o.stderr)); }
fn copy(a: &Path, b: &Path) {
    std::fs::create_dir_all(b).unwrap();
    for e in std::fs::read_dir(a).unwrap().flatten() {
        let (p, q) = (e.path(), b.join(e.file_name()));
        if e.file_type().unwrap().is_dir() { copy(&p, &q) } else { std::fs::copy(&p, &q).unwrap(); }
    }
}
fn definition(pkg: &str) -> String {
    let mut s = "name = 'pkg'\nversion = '1.2.3'\nbuild_command = 'sh {root}/build.sh {install_path}'\n".to_string();
    match pkg {
        "variants" => s += "variants = [['dep-1'], ['dep-2']]\n",
        "testfail" => s += "tests = {'unit': 'exit 7'}\n",
        _ => {}
    }
    s
}
impl Lab {
    fn new(base: &Path, k: usize) -> Lab {
        let root = base.join(format!("s{k}"));
        let tmpl = root.join("tmpl");
        let work = root.join("w");
        std::fs::create_dir_all(&tmpl).unwrap();
        for (k, v) in [("HOME", root.join("w/home")), ("SHELL", "/bin/bash".into()), ("GIT_CONFIG_NOSYSTEM", "1".into()), ("GIT_AUTHOR_NAME", "a".into()), ("GIT_AUTHOR_EMAIL", "a@b".into()), ("GIT_COMMITTER_NAME", "a".into()), ("GIT_COMMITTER_EMAIL", "a@b".into()), ("GIT_TERMINAL_PROMPT", "0".into()), ("PYTHONDONTWRITEBYTECODE", "1".into()), ("REZ_DISABLE_HOME_CONFIG", "1".into()), ("REZ_PACKAGES_PATH", work.join("pkgs"))] { unsafe { std::env::set_var(k, v) } }
        unsafe { std::env::set_var("PATH", format!("{}:/usr/bin:/bin", work.join("fake").display())); std::env::remove_var("REZ_CONFIG_FILE"); }
        let python = ["/usr/local/bin/python3", "/usr/bin/python3"].into_iter().find(|p| Path::new(p).exists());
        for pkg in ["plain", "variants", "testfail"] {
            // templates are made at the place where they are used, so that the remote's path is right
            let _ = std::fs::remove_dir_all(&work);
            for d in ["src", "home", "rel", "fake", "cwd", "pkgs/dep/1", "pkgs/dep/2"] { std::fs::create_dir_all(work.join(d)).unwrap(); }
            for v in ["1", "2"] { std::fs::write(work.join(format!("pkgs/dep/{v}/package.py")), format!("name = 'dep'\nversion = '{v}'\n")).unwrap(); }
            let fake = work.join("fake"); let f = fake.to_string_lossy().to_string();
            std::fs::write(fake.join("git"), GIT.replace("%%", &f)).unwrap();
            std::fs::set_permissions(fake.join("git"), std::fs::Permissions::from_mode(0o755)).unwrap();
            if let Some(p) = python { std::os::unix::fs::symlink(p, fake.join("python")).unwrap(); }
            std::fs::write(work.join("src/package.py"), definition(pkg)).unwrap();
            std::fs::write(work.join("src/build.sh"), BUILD.replace("%%", &f)).unwrap();
            std::fs::write(work.join("src/.gitignore"), "ignored\n").unwrap();
            std::fs::write(work.join("src/code.txt"), "code\n").unwrap();
            let git = "/usr/bin/git -c init.defaultBranch=main";
            sh(&work, &format!("{git} init -q --bare --template= remote.git; cd src; {git} init -q --template= .; {git} checkout -q -b main 2>/dev/null || true; {git} add -A; {git} commit -q -m one; {git} tag older; {git} remote add origin {}/remote.git; {git} push -q -u origin HEAD older", work.display()));
            std::fs::remove_file(fake.join("python")).ok();
            std::fs::rename(&work, tmpl.join(pkg)).unwrap();
        }
        Lab { root, tmpl }
    }
    fn w(&self) -> PathBuf { self.root.join("w") }
    fn setup(&self, c: &Case) {
        let w = self.w();
        let _ = std::env::set_current_dir(&self.root);
        let _ = std::fs::remove_dir_all(&w);
        copy(&self.tmpl.join(c.pkg), &w);
        std::fs::set_permissions(w.join("fake/git"), std::fs::Permissions::from_mode(0o755)).unwrap();
        for p in ["/usr/local/bin/python3", "/usr/bin/python3"] { if Path::new(p).exists() { let _ = std::os::unix::fs::symlink(p, w.join("fake/python")); break; } }
        std::fs::write(w.join("fake/build.mode"), format!("{}\n", c.build)).unwrap();
        let src = w.join("src");
        // the copied files are not the index's: settle that before the run
        sh(&src, "/usr/bin/git update-index -q --refresh || true");
        match c.tree {
            "clean" => {} "modified" => std::fs::write(src.join("code.txt"), "changed\n").unwrap(), "untracked" => std::fs::write(src.join("new.txt"), "new\n").unwrap(),
            "staged" => { std::fs::write(src.join("code.txt"), "changed\n").unwrap(); sh(&src, "/usr/bin/git add code.txt") } "deleted" => std::fs::remove_file(src.join("code.txt")).unwrap(),
            "ignored" => std::fs::write(src.join("ignored"), "x\n").unwrap(), "renamed" => sh(&src, "/usr/bin/git mv code.txt other.txt"), "untracked directory" => { std::fs::create_dir(src.join("nd")).unwrap(); std::fs::write(src.join("nd/x"), "x").unwrap() }
            "unpushed" => { std::fs::write(src.join("code.txt"), "changed\n").unwrap(); sh(&src, "/usr/bin/git commit -q -am two") }
            "broken" => std::fs::write(src.join(".git/index"), "not an index").unwrap(),
            x => panic!("{x}"),
        }
        if c.tag { sh(&src, "/usr/bin/git tag -a pkg-1.2.3 -m before HEAD 2>/dev/null || /usr/bin/git tag pkg-1.2.3 HEAD"); }
        match c.remote {
            "ok" => {} "none" => sh(&src, "/usr/bin/git remote remove origin"), "gone" => std::fs::remove_dir_all(w.join("remote.git")).unwrap(),
            "rejects" => { std::fs::create_dir_all(w.join("remote.git/hooks")).unwrap(); let h = w.join("remote.git/hooks/pre-receive"); std::fs::write(&h, "#!/bin/sh\nexit 1\n").unwrap(); std::fs::set_permissions(&h, std::fs::Permissions::from_mode(0o755)).unwrap() }
            x => panic!("{x}"),
        }
        unsafe { std::env::set_var("REZ_RELEASE_PACKAGES_PATH", if c.home { "~/rel".to_string() } else { w.join("rel").to_string_lossy().to_string() }); std::env::set_var("REZ_LOCAL_PACKAGES_PATH", w.join("local")); }
        std::env::set_current_dir(w.join("cwd")).unwrap();
    }
    fn tags(&self, dir: &str) -> BTreeMap<String, String> {
        // read without git, so that a broken index does not matter
        let d = self.w().join(dir);
        let mut t = BTreeMap::new();
        if let Ok(rd) = std::fs::read_dir(d.join("refs/tags")) { for e in rd.flatten() { t.insert(e.file_name().to_string_lossy().to_string(), std::fs::read_to_string(e.path()).unwrap_or_default().trim().to_string()); } }
        for l in std::fs::read_to_string(d.join("packed-refs")).unwrap_or_default().lines() { if let Some((h, r)) = l.split_once(' ') { if let Some(n) = r.strip_prefix("refs/tags/") { t.entry(n.into()).or_insert(h.into()); } } }
        t
    }
    /// the work tree, the release area, the home directory and the current directory
    fn world(&self) -> BTreeMap<String, String> { tree(&self.w()).into_iter().filter(|(k, _)| !k.starts_with("fake/") && !k.starts_with("src/.git/") && !k.starts_with("remote.git/")).collect() }
    fn heads(&self) -> String { let d = self.w().join("src/.git"); format!("{:?}{:?}", std::fs::read_to_string(d.join("HEAD")).ok(), tree(&d.join("refs/heads"))) }
    fn built(&self) -> String { std::fs::read_to_string(self.w().join("fake/build.log")).unwrap_or_default() }
}
fn show<T: std::fmt::Debug>(m: &BTreeMap<String, T>) -> String { format!("{m:?}") }

fn args(lab: &Lab, c: &Case) -> ReleaseArgs { ReleaseArgs { message: None, message_file: None, vcs: None, buildsys: None, process: "local".into(), skip_repo_errors: c.skip, ignore_existing_tag: c.ignore, no_latest: false, variants: c.variants.map(Into::into), working_dir: Some(lab.w().join("src")), dry_run: c.dry, verbose: false } }
fn command(r: &'static Run, lab: &Lab, c: &Case, fail_at: usize) -> bool {
    lab.setup(c);
    if fail_at > 0 { std::fs::write(lab.w().join("fake/fail"), format!("{fail_at}\n")).unwrap(); }
    let (l0, r0, w0, h0) = (lab.tags("src/.git"), lab.tags("remote.git"), lab.world(), lab.heads());
    let mut err = String::new();
    let got = guard(|| match execute(args(lab, c)) { Ok(()) => true, Err(e) => { err = e.to_string(); false } });
    let calls = std::fs::read_to_string(lab.w().join("fake/git.log")).unwrap_or_default();
    let n = calls.lines().count();
    if fail_at > n { return false; }
    let (l1, r1, w1, h1) = (lab.tags("src/.git"), lab.tags("remote.git"), lab.world(), lab.heads());
    r.state(1); r.eval(1); r.trans(n as u64 + 1);
    let built = lab.built();
    let what = format!("{c:?}{}", if fail_at > 0 { format!(", git call {fail_at} ({}) fails", calls.lines().nth(fail_at - 1).unwrap_or("")) } else { String::new() });
    let fail = |k: &str, m: String| r.fail(k, format!("{what}: {m}{}", if err.is_empty() { String::new() } else { format!(" (error: {})", err.lines().next().unwrap_or("")) }), json!({"case": what, "git": calls}));
    let ok = match got { Ok(x) => x, Err(p) => { fail("panic", p); return true } };
    r.outcome(&(ok, &l1, r1.len(), built.lines().count()));
    if h0 != h1 { fail("branch", format!("branches change from {h0} to {h1}")); }
    let dirty = !matches!(c.tree, "clean" | "ignored" | "unpushed");
    let refused = !c.skip && dirty || !c.ignore && c.tag && c.tree != "broken" || matches!(c.variants, Some("5" | "x" | "0,x")) && !c.dry;
    // the call that shows the tree's state or the existing tags fails before anything else was done
    let failed = if fail_at > 0 { calls.lines().nth(fail_at - 1).unwrap_or("") } else { "" };
    let broken_status = failed.starts_with("status") && !c.skip || failed.starts_with("tag -l") && !c.ignore && !calls.lines().take(fail_at - 1).any(|l| l.starts_with("tag"));
    if refused && fail_at == 0 || broken_status {
        if ok { fail("accepted", "released although the source tree is not fit for release".into()); }
        if !built.is_empty() { fail("built", format!("built before it was refused: {built}")); }
        if w0 != w1 { fail("installed", "files change although the release was refused".into()); }
    }
    if !ok || c.dry {
        if l0 != l1 { fail("tag", format!("the tags change from {} to {}", show(&l0), show(&l1))); }
        if r0 != r1 { fail("tag", format!("the remote's tags change from {} to {}", show(&r0), show(&r1))); }
    }
    if c.dry {
        if w0 != w1 { fail("dry run", "a dry run changes files".into()); }
        if !built.is_empty() { fail("dry run", "a dry run builds".into()); }
    }
    if ok && !c.dry {
        let base = if c.home { "home/rel" } else { "rel" };
        let paths: Vec<String> = w1.keys().filter(|k| k.starts_with(&format!("{base}/pkg/1.2.3/")) && k.ends_with("payload")).cloned().collect();
        let want = if c.pkg == "variants" && !matches!(c.variants, Some("0" | "1")) { 2 } else { 1 };
        if built.lines().count() != want { fail("variants", format!("{} builds instead of {want}", built.lines().count())); }
        if paths.is_empty() { fail("payload", format!("reports success, but nothing is at the release path: {:?}", w1.keys().filter(|k| !w0.contains_key(*k)).collect::<Vec<_>>())); }
        if c.build == "fail" || c.build == "second" && want == 2 || c.pkg == "testfail" { fail("failure", "reports success although a step failed".into()); }
        if !l1.contains_key("pkg-1.2.3") { fail("tag", "reports success without a tag".into()); }
        if !c.tag && !r1.contains_key("pkg-1.2.3") { fail("tag", "reports success without having pushed the tag".into()); }
        let mut rest = l1.clone(); rest.remove("pkg-1.2.3"); let mut before = l0.clone(); before.remove("pkg-1.2.3");
        if rest != before || c.tag && l0 != l1 { fail("tag", format!("other tags change: {} and {}", show(&l0), show(&l1))); }
    }
    if fail_at == 0 && !ok && !refused {
        let fine = if c.dry { c.tree != "broken" } else { c.build == "ok" && c.pkg != "testfail" && (c.tag || c.remote == "ok") && c.tree != "broken" };
        if fine { fail("refused", "a valid release fails".into()); }
    }
    true
}

// ---- the release library ---------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
struct Lib { mode: ReleaseMode, skip_build: bool, skip_tests: bool, skip_vcs: bool, blocked: bool, case: Case }
fn library(r: &'static Run, lab: &Lab, c: &Lib) {
    lab.setup(&c.case);
    let base = if c.mode == ReleaseMode::Release { "rel" } else { "local" };
    if c.blocked { let _ = std::fs::remove_dir_all(lab.w().join(base)); std::fs::write(lab.w().join(base), "in the way").unwrap(); }
    let (l0, r0, w0, h0) = (lab.tags("src/.git"), lab.tags("remote.git"), lab.world(), lab.heads());
    let mut m = ReleaseManager::new(c.mode, c.skip_build, c.skip_tests);
    m.set_skip_vcs_validation(c.skip_vcs);
    let got = guard(|| m.release(&lab.w().join("src"), None).map(|x| (x.success, x.errors)).map_err(|e| e.to_string()));
    let (l1, r1, w1, h1) = (lab.tags("src/.git"), lab.tags("remote.git"), lab.world(), lab.heads());
    r.state(1); r.eval(1); r.trans(1);
    let what = format!("library {c:?}");
    let got = match got { Ok(g) => g, Err(p) => { r.fail("panic", format!("{what}: {p}"), json!({"case": what})); return } };
    let fail = |k: &str, m: String| r.fail(k, format!("{what}: {m} ({got:?})"), json!({"case": what}));
    let ok = matches!(&got, Ok((true, _)));
    r.outcome(&(ok, &l1, w1.len()));
    if h0 != h1 { fail("branch", format!("branches change from {h0} to {h1}")); }
    if let Ok((true, e)) = &got { if !e.is_empty() { fail("report", "success with errors".into()); } }
    if r0 != r1 { fail("tag", "the remote changes".into()); }
    let dirty = !matches!(c.case.tree, "clean" | "ignored" | "unpushed");
    let dry = c.mode == ReleaseMode::DryRun;
    if dirty && !c.skip_vcs {
        if ok { fail("accepted", "released although the source tree is not fit for release".into()); }
        if w0 != w1 { fail("installed", "files change although the release was refused".into()); }
    }
    if (!ok || dry) && l0 != l1 { fail("tag", format!("the tags change from {} to {}", show(&l0), show(&l1))); }
    if dry && w0 != w1 { fail("dry run", "a dry run changes files".into()); }
    if ok && !dry {
        if !w1.contains_key(&format!("{base}/pkg/1.2.3/package.py")) { fail("payload", "reports success without an installed definition".into()); }
        if !c.skip_vcs && !l1.contains_key("pkg-1.2.3") { fail("tag", "reports success without a tag".into()); }
        if c.blocked { fail("failure", "reports success although the release path cannot be written".into()); }
    }
    let fine = !(dirty && !c.skip_vcs) && (dry || !c.skip_build && !c.blocked);
    if fine && !ok { fail("refused", "a valid release fails".into()); }
}

pub fn run(r: &'static Run) {
    r.rule("an unfit source tree is refused before anything is built, tagged or installed; a reported failure leaves no tag; a reported success is tagged and installed; a dry run changes nothing");
    let base = scratch("g02");
    let trees = ["clean", "ignored", "modified", "staged", "untracked", "untracked directory", "deleted", "renamed", "unpushed", "broken"];
    let mut cases = vec![];
    for tree in trees { for tag in [false, true] { for remote in ["ok", "none", "gone", "rejects"] { for (build, pkg) in [("ok", "plain"), ("fail", "plain"), ("ok", "testfail")] { for opt in 0..8 {
        let c = Case { tree, tag, remote, build, skip: opt & 1 > 0, ignore: opt & 2 > 0, dry: opt & 4 > 0, variants: None, home: false, pkg };
        // quick: one unusual dimension beside the tree and the options
        if !r.thorough { let odd = (remote != "ok") as u8 + (build != "ok") as u8 + (pkg != "plain") as u8; if odd > 1 || odd == 1 && !matches!(tree, "clean" | "modified") || c.dry && odd == 1 && tree != "clean" { continue; } }
        cases.push(c);
    } } } } }
    for build in ["ok", "fail", "second"] { for variants in [None, Some("0"), Some("1"), Some("0,1"), Some("5"), Some("x"), Some("0,x"), Some("")] { for (tree, dry, remote) in [("clean", false, "ok"), ("clean", true, "ok"), ("modified", false, "ok"), ("clean", false, "rejects")] {
        if build == "second" && variants == Some("0") { continue; }
        if variants == Some("") { continue; }
        cases.push(Case { build, variants, tree, dry, remote, pkg: "variants", ..GOOD });
    } } }
    for tree in ["clean", "modified"] { for dry in [false, true] { cases.push(Case { home: true, tree, dry, ..GOOD }); } }
    let faulty: Vec<Case> = vec![GOOD, Case { tag: true, ignore: true, ..GOOD }, Case { tree: "modified", ..GOOD }, Case { tag: true, ..GOOD }, Case { skip: true, ..GOOD }, Case { remote: "rejects", build: "fail", ..GOOD }, Case { dry: true, ..GOOD }, Case { tree: "unpushed", ..GOOD }];
    let mut libs = vec![];
    for mode in [ReleaseMode::Release, ReleaseMode::Local, ReleaseMode::DryRun] { for k in 0..8 { for &tree in &trees { for tag in [false, true] { for pkg in ["plain", "variants"] { for blocked in [false, true] {
        let l = Lib { mode, skip_build: k & 1 > 0, skip_tests: k & 2 > 0, skip_vcs: k & 4 > 0, blocked, case: Case { tree, tag, pkg, ..GOOD } };
        if !r.thorough { let odd = (pkg != "plain") as u8 + blocked as u8 + (l.skip_build as u8) + (tag as u8); if odd > 1 || odd == 1 && !matches!(tree, "clean" | "staged") || pkg == "plain" && !l.skip_tests && k & 2 == 0 && odd == 0 && tree != "clean" && tree != "modified" { continue; } }
        libs.push(l);
    } } } } } }
    r.bound("command_cases", cases.len());
    r.bound("library_cases", libs.len());
    r.bound("failing_git_calls", "every single call of every listed case");
    r.sharded(8, |shard, shards| {
        let lab = Lab::new(&base, shard);
        if std::env::var_os("MC_PANICS").is_none() { silence(); }
        for c in cases.iter().enumerate().filter(|(i, _)| i % shards == shard).map(|x| x.1) { command(r, &lab, c, 0); if r.violated() { break; } }
        for c in faulty.iter().enumerate().filter(|(i, _)| i % shards == shard).map(|x| x.1) { let mut k = 1; while !r.violated() && command(r, &lab, c, k) { k += 1; r.part("faults", "failing calls", 1); r.trace(1); } }
        for c in libs.iter().enumerate().filter(|(i, _)| i % shards == shard).map(|x| x.1) { if r.violated() { break; } library(r, &lab, c); }
        let _ = std::env::set_current_dir("/");
        unsilence();
    });
}
