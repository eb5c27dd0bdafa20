//! Q01: package search. Every small pair of repositories times every query of a small alphabet, through the
//! search library and through the command, against a list-comprehension model.
use mccore::*;
use rez_core::cli::commands::search_v2::{execute, SearchArgs};
use rez_next_search::{FilterMode, PackageSearcher, SearchFilter, SearchOptions, SearchScope};
use serde_json::{json, Value};
use std::os::fd::AsRawFd;
use std::path::{Path, PathBuf};

#[derive(Clone)]
struct Cell { repo: usize, name: &'static str, ver: &'static str, desc: &'static str, tools: &'static [&'static str], reqs: &'static [&'static str], vars: &'static [&'static [&'static str]], ts: Option<i64> }
const DAY: i64 = 86_400;
fn cells() -> Vec<Cell> {
    let c = |repo, name, ver, desc, tools, reqs, vars, ts| Cell { repo, name, ver, desc, tools, reqs, vars, ts };
    vec![
        c(0, "foo", "1.2", "Core library", &["nuke"][..], &["bar-1"][..], &[][..], Some(10 * DAY)),
        c(0, "foo", "1.10", "", &["Foo_gui", "x"], &[], &[&["python-3"]], Some(30 * DAY)),
        c(0, "foo", "2.1", "the é… ünïcödé description that is rather a long one ✓✓✓", &[], &["zed-1.5", "Python"], &[], Some(20 * DAY)),
        c(0, "Foobar", "1.5", "uses foo", &[], &["zed"], &[&["Python-2.7", "bar"], &["maya"]], None),
        c(0, "bar", "1.9", "", &["foo", "bar-x"], &[], &[], Some(20 * DAY + 1)),
        c(0, "bar", "1.11", "plain", &[], &["foo<2"], &[&["maya-2"]], Some(20 * DAY - 1)),
        c(1, "foo", "1.11", "Another one", &["zed"], &[], &[], Some(5 * DAY)),
        c(1, "zed", "1.5", "", &[], &["foo-1"], &[], None),
        c(1, "bar", "1.11", "second copy", &[], &[], &[], Some(40 * DAY)),
    ]
}
fn num(v: &str) -> Vec<u64> { v.split('.').map(|t| t.parse().unwrap()).collect() }
fn py(xs: &[&str]) -> String { format!("[{}]", xs.iter().map(|x| format!("'{x}'")).collect::<Vec<_>>().join(", ")) }
fn write(root: &Path, cells: &[&Cell]) {
    for i in 0..2 { let d = root.join(format!("r{i}")); let _ = std::fs::remove_dir_all(&d); std::fs::create_dir_all(d.join("empty_family/1.0")).unwrap(); }
    for c in cells {
        let d = root.join(format!("r{}/{}/{}", c.repo, c.name, c.ver));
        std::fs::create_dir_all(&d).unwrap();
        let mut s = format!("name = '{}'\nversion = '{}'\n", c.name, c.ver);
        if !c.desc.is_empty() { s += &format!("description = '{}'\n", c.desc); }
        if !c.tools.is_empty() { s += &format!("tools = {}\n", py(c.tools)); }
        if !c.reqs.is_empty() { s += &format!("requires = {}\n", py(c.reqs)); }
        if !c.vars.is_empty() { s += &format!("variants = [{}]\n", c.vars.iter().map(|v| py(v)).collect::<Vec<_>>().join(", ")); }
        if let Some(t) = c.ts { s += &format!("timestamp = {t}\n"); }
        std::fs::write(d.join("package.py"), s).unwrap();
    }
}

// ---- the library ---------------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
struct LibQ { pat: &'static str, mode: FilterMode, range: &'static str, scope: SearchScope, limit: usize, paths: &'static [usize] }
/// name matching, written out per pattern of the alphabet
fn lib_name(q: &LibQ, name: &str) -> bool {
    if q.pat.is_empty() { return true; }
    let (n, p) = (name.to_lowercase(), q.pat.to_lowercase());
    match q.mode {
        FilterMode::Exact => n == p,
        FilterMode::Prefix => n.len() >= p.len() && n[..p.len()] == p,
        FilterMode::Contains => (0..n.len()).any(|i| n[i..].starts_with(&p)),
        FilterMode::Regex => match q.pat { "^foo$" => name == "foo", "o+b|^z" => name == "Foobar" || name == "zed", "[fb].+r$" => name == "bar" || name == "Foobar", "(" => false, "FOO" => false, x => panic!("{x}") },
    }
}
fn in_range(range: &str, v: &str) -> bool {
    let v = num(v);
    match range { "" => true, "1.10" => v == [1, 10], ">=1.10" => v >= vec![1, 10], "<1.11" => v < vec![1, 11], "1.5..2.1" => v >= vec![1, 5] && v < vec![2, 1], ">5" => false, x => panic!("{x}") }
}
type Fam = (String, Vec<String>, usize);
fn lib_model(q: &LibQ, live: &[&Cell]) -> (Vec<Fam>, usize) {
    let mut out: Vec<Fam> = vec![];
    let mut scanned = 0;
    for &p in q.paths {
        scanned += live.iter().filter(|c| c.repo == p).count();
        for name in ["Foobar", "bar", "foo", "zed"] {
            let mut vs: Vec<&str> = live.iter().filter(|c| c.repo == p && c.name == name && lib_name(q, name) && in_range(q.range, c.ver)).map(|c| c.ver).collect();
            if vs.is_empty() { continue; }
            vs.sort_by_key(|v| num(v));
            if q.scope == SearchScope::LatestOnly { vs = vec![vs[vs.len() - 1]]; }
            out.push((name.into(), vs.iter().map(|v| v.to_string()).collect(), p));
        }
    }
    out.sort_by(|a, b| a.0.cmp(&b.0));
    if q.limit > 0 { out.truncate(q.limit); }
    (out, scanned)
}
fn lib_queries(all: bool) -> Vec<LibQ> {
    let mut out = vec![];
    let names: &[(&str, FilterMode)] = &[("", FilterMode::Prefix), ("foo", FilterMode::Prefix), ("FO", FilterMode::Prefix), ("foo", FilterMode::Exact), ("foobar", FilterMode::Exact), ("oo", FilterMode::Contains), ("R", FilterMode::Contains), ("zz", FilterMode::Contains), ("^foo$", FilterMode::Regex), ("o+b|^z", FilterMode::Regex), ("[fb].+r$", FilterMode::Regex), ("(", FilterMode::Regex), ("FOO", FilterMode::Regex)];
    let mut put = |n: &(&'static str, FilterMode), range, scope, limit, paths| out.push(LibQ { pat: n.0, mode: n.1.clone(), range, scope, limit, paths });
    let ranges = ["", "1.10", ">=1.10", "<1.11", "1.5..2.1", ">5"];
    let scopes = [SearchScope::Families, SearchScope::Packages, SearchScope::LatestOnly];
    if all {
        for n in names { for r in ranges { for s in &scopes { for l in [0, 1, 2, 3] { for p in [&[0usize, 1][..], &[1, 0]] { put(n, r, s.clone(), l, p); } } } } }
        return out;
    }
    for n in names { put(n, "", SearchScope::Families, 0, &[0, 1]); }
    for r in ranges { for s in &scopes { put(&names[0], r, s.clone(), 0, &[0, 1]); } }
    for l in [1, 2, 3] { put(&names[0], "", SearchScope::LatestOnly, l, &[1, 0]); put(&names[5], ">=1.10", SearchScope::Packages, l, &[0, 1]); }
    put(&names[1], "<1.11", SearchScope::LatestOnly, 0, &[1]);
    put(&names[1], "1.5..2.1", SearchScope::LatestOnly, 1, &[1, 0]);
    out
}
fn check_lib(r: &'static Run, root: &Path, live: &[&Cell], q: &LibQ) {
    let go = || guard(|| {
        let mut f = SearchFilter::new(q.pat).with_mode(q.mode.clone()).with_limit(q.limit);
        if !q.range.is_empty() { f = f.with_version_range(q.range); }
        let s = PackageSearcher::new(SearchOptions { paths: Some(q.paths.iter().map(|p| root.join(format!("r{p}"))).collect()), scope: q.scope.clone(), filter: f, include_hidden: false }).search();
        let rows: Vec<(Fam, Option<String>)> = s.results.iter().map(|x| ((x.name.clone(), x.versions.clone(), x.repo_path.chars().last().unwrap() as usize - '0' as usize), x.latest.clone())).collect();
        (rows, s.total_scanned, s.repos_searched)
    });
    let (a, b) = (go(), go());
    r.state(1); r.eval(2); r.trans(live.len() as u64);
    let what = format!("{} with {q:?}", live.iter().map(|c| format!("r{}:{}-{}", c.repo, c.name, c.ver)).collect::<Vec<_>>().join(" "));
    let (a, b) = match (a, b) { (Ok(a), Ok(b)) => (a, b), x => { r.fail("lib:panic", format!("{what}: {x:?}"), json!({"query": what})); return } };
    if a != b { r.fail("lib:unstable", format!("{what}: {a:?} and then {b:?}"), json!({"query": what})); return; }
    let (want, scanned) = lib_model(q, live);
    let got: Vec<Fam> = a.0.iter().map(|x| x.0.clone()).collect();
    r.outcome(&got);
    if got != want {
        let kind = if got.len() != want.len() { "families" } else if got.iter().map(|g| (&g.0, g.2)).ne(want.iter().map(|w| (&w.0, w.2))) { "order" } else { "versions" };
        r.fail(&format!("lib:{kind}"), format!("{what}: got {got:?}, should be {want:?}"), json!({"query": what, "got": got, "want": want}));
    }
    for (f, latest) in &a.0 { if latest.as_ref() != f.1.last() { r.fail("lib:latest", format!("{what}: {} has latest {latest:?} of {:?}", f.0, f.1), json!({"query": what})); } }
    if a.1 != scanned || a.2 != q.paths.len() { r.fail("lib:counts", format!("{what}: {} packages in {} repositories, should be {scanned} in {}", a.1, a.2, q.paths.len()), json!({"query": what})); }
}

// ---- the command ---------------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
struct CliQ { query: &'static str, regex: bool, cs: bool, d: bool, t: bool, q: bool, kind: &'static str, var: Option<&'static str>, newer: Option<&'static str>, older: Option<&'static str>, latest: bool, sort: &'static str }
const BASE: CliQ = CliQ { query: "", regex: false, cs: false, d: false, t: false, q: false, kind: "package", var: None, newer: None, older: None, latest: false, sort: "name" };
fn text_hit(q: &CliQ, s: &str) -> bool {
    let (p, x) = if q.cs { (q.query.to_string(), s.to_string()) } else { (q.query.to_lowercase(), s.to_lowercase()) };
    if !q.regex { return p.is_empty() || (0..x.len()).any(|i| x.is_char_boundary(i) && x[i..].starts_with(&p)); }
    match q.query {
        "^Foo" => if q.cs { s.starts_with("Foo") } else { s.to_lowercase().starts_with("foo") },
        r"^\S+$" => !s.is_empty() && !s.contains(' '),
        "o{2}(b|$)" => (0..s.len()).any(|i| s.is_char_boundary(i) && { let t = if q.cs { s[i..].to_string() } else { s[i..].to_lowercase() }; t.starts_with("oob") || t == "oo" }),
        "(" => false,
        x => panic!("{x}"),
    }
}
fn cli_hit(q: &CliQ, c: &Cell) -> bool {
    let ts = c.ts.unwrap_or(0);
    let at = |s: &str| match s { "1970-01-21" => 20 * DAY, "1970-01-21T00:00:01" => 20 * DAY + 1, "1970-01-11" => 10 * DAY, x => panic!("{x}") };
    if let Some(n) = q.newer { if ts <= at(n) { return false; } }
    if let Some(n) = q.older { if ts >= at(n) { return false; } }
    if q.kind == "variant" && c.vars.is_empty() { return false; }
    if q.kind != "family" { if let Some(v) = q.var { if !c.vars.iter().any(|x| x.iter().any(|y| y.to_lowercase().contains(&v.to_lowercase()))) { return false; } } }
    let dflt = !q.d && !q.t && !q.q;
    text_hit(q, c.name) || (q.d || dflt) && !c.desc.is_empty() && text_hit(q, c.desc) || (q.t || dflt) && c.tools.iter().any(|t| text_hit(q, t)) || q.q && c.reqs.iter().any(|t| text_hit(q, t))
}
fn args(root: &Path, q: &CliQ, limit: usize, format: &str, verbose: bool) -> SearchArgs {
    SearchArgs { query: q.query.into(), repository: (0..2).map(|i| root.join(format!("r{i}"))).collect(), description: q.d, tools: q.t, requirements: q.q, case_sensitive: q.cs, regex: q.regex, latest_only: q.latest, limit, format: format.into(), sort: q.sort.into(), verbose, newer_than: q.newer.map(Into::into), older_than: q.older.map(Into::into), search_type: q.kind.into(), has_variant: q.var.map(Into::into) }
}
/// what the command prints
fn capture(root: &Path, f: impl FnOnce() -> Result<(), String>) -> Result<String, String> {
    use std::io::Write;
    let path = root.join("out");
    let file = std::fs::File::create(&path).unwrap();
    let _ = std::io::stdout().flush();
    let save = unsafe { libc::dup(1) };
    unsafe { libc::dup2(file.as_raw_fd(), 1) };
    let res = guard(f);
    let _ = std::io::stdout().flush();
    unsafe { libc::dup2(save, 1); libc::close(save); }
    match res { Ok(Ok(())) => std::fs::read_to_string(&path).map_err(|e| e.to_string()), Ok(Err(e)) => Err(format!("error: {e}")), Err(p) => Err(format!("panic: {p}")) }
}
fn rows(root: &Path, q: &CliQ, limit: usize) -> Result<Vec<Value>, String> {
    let out = capture(root, || execute(args(root, q, limit, "json", false)).map_err(|e| e.to_string()))?;
    serde_json::from_str(&out).map_err(|e| format!("not JSON: {e}: {out:?}"))
}
fn id(v: &Value) -> (String, String, String) { (v["name"].as_str().unwrap_or("?").into(), v["version"].as_str().unwrap_or("?").into(), v["description"].as_str().unwrap_or("").into()) }
fn check_cli(r: &'static Run, root: &Path, live: &[&Cell], q: &CliQ, deep: bool) {
    r.state(1); r.trans(live.len() as u64);
    let what = format!("{} with {q:?}", live.iter().map(|c| format!("r{}:{}-{}", c.repo, c.name, c.ver)).collect::<Vec<_>>().join(" "));
    let fail = |k: &str, m: String| r.fail(&format!("cli:{k}"), format!("{what}: {m}"), json!({"query": what}));
    let full = match rows(root, q, 50) { Ok(x) => x, Err(e) => { fail("error", e); return } };
    r.eval(1);
    r.outcome(&format!("{full:?}"));
    let hits: Vec<&&Cell> = live.iter().filter(|c| cli_hit(q, c)).collect();
    let key = |c: &Cell| (c.name.to_string(), c.ver.to_string(), c.desc.to_string());
    let got: Vec<_> = full.iter().map(id).collect();
    let mut set = got.clone(); set.sort();
    let before = set.len(); set.dedup();
    if set.len() != before { fail("repeated", format!("a package is listed twice: {got:?}")); }
    if q.latest || q.kind == "family" {
        // one entry per matching family; the latest matching version, when that is asked for
        let mut fams: Vec<&str> = hits.iter().map(|c| c.name).collect(); fams.sort(); fams.dedup();
        let mut names: Vec<&str> = got.iter().map(|g| g.0.as_str()).collect(); names.sort();
        if names != fams { fail("families", format!("got {got:?}, should be one of each of {fams:?}")); }
        for g in &got {
            let vs: Vec<_> = hits.iter().filter(|c| c.name == g.0).collect();
            if !vs.iter().any(|c| key(c) == *g) { fail("set", format!("{g:?} does not match")); continue; }
            if q.latest && q.kind != "family" && vs.iter().any(|c| num(c.ver) > num(&g.1)) { fail("latest", format!("{g:?} is not the latest match of {:?}", vs.iter().map(|c| c.ver).collect::<Vec<_>>())); }
        }
    } else {
        let mut want: Vec<_> = hits.iter().map(|c| key(c)).collect(); want.sort();
        if set != want { fail("set", format!("got {set:?}, should be {want:?}")); }
    }
    // every entry shows what the package says
    for v in &full {
        let g = id(v);
        let Some(c) = live.iter().find(|c| key(c) == g) else { continue };
        let strs = |k: &str| v[k].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(str::to_string)).collect::<Vec<_>>()).unwrap_or_default();
        if strs("tools") != c.tools || strs("requires") != c.reqs || v["timestamp"].as_i64() != c.ts { fail("fields", format!("{v} is not {}-{}", c.name, c.ver)); }
    }
    // order
    let ts = |v: &Value| v["timestamp"].as_i64().unwrap_or(0);
    let ok = |a: &Value, b: &Value| match q.sort {
        "version" => num(&id(a).1) >= num(&id(b).1),
        "date" => ts(a) >= ts(b),
        "score" => a["match_score"].as_f64() >= b["match_score"].as_f64(),
        _ => id(a).0 <= id(b).0,
    };
    if let Some(i) = (1..full.len()).find(|&i| full[..i].iter().any(|x| !ok(x, &full[i]))) { fail("order", format!("entry {i} of {got:?} is out of order")); }
    if !deep { return; }
    match rows(root, q, 50) { Ok(x) if x == full => {} x => fail("unstable", format!("{got:?} and then {x:?}")) }
    for limit in [0, 1, 2, 3] {
        match rows(root, q, limit) { Ok(x) if x == full[..limit.min(full.len())] => {} x => fail("limit", format!("limit {limit} of {got:?} gives {:?}", x.map(|x| x.iter().map(id).collect::<Vec<_>>()))) }
    }
    r.eval(5);
    for (f, verbose) in [("table", false), ("table", true), ("detailed", false)] {
        match capture(root, || execute(args(root, q, 50, f, verbose)).map_err(|e| e.to_string())) {
            Err(e) => fail("display", format!("{f}: {e}")),
            Ok(text) => {
                // the packages appear in the same order
                let lines: Vec<&str> = text.lines().collect();
                let mut at = 0;
                for g in &got {
                    let head = if f == "table" { format!("{:<20} {:<10}", g.0, g.1) } else { format!("--- {} ---", g.0) };
                    match (at..lines.len()).find(|&i| lines[i].starts_with(&head)) { Some(i) => at = i + 1, None => { fail("display", format!("{f} does not list {} {} in its place: {text:?}", g.0, g.1)); break } }
                    if f == "detailed" && lines.get(at) != Some(&format!("Version: {}", g.1).as_str()) { fail("display", format!("{f} shows {:?} for {} {}", lines.get(at), g.0, g.1)); break; }
                }
                let n = lines.iter().skip_while(|l| !l.starts_with("---")).filter(|l| if f == "table" { l.len() > 21 && !l.starts_with("---") } else { l.starts_with("--- ") }).count();
                if n != got.len() { fail("display", format!("{f} lists {n} packages instead of {}: {text:?}", got.len())); }
            }
        }
        r.eval(1);
    }
}
fn cli_queries(all: bool) -> Vec<CliQ> {
    let mut out = vec![];
    let texts = [("foo", false, false), ("foo", false, true), ("FOO", false, false), ("Foo", false, true), ("ü", false, false), ("zz", false, false), ("bar", false, false), ("^Foo", true, false), ("^Foo", true, true), (r"^\S+$", true, false), ("o{2}(b|$)", true, false), ("o{2}(b|$)", true, true), ("(", true, false)];
    let fields: Vec<(bool, bool, bool)> = (0..8).map(|m| (m & 1 > 0, m & 2 > 0, m & 4 > 0)).collect();
    let kinds = [("package", None), ("family", None), ("variant", None), ("package", Some("python")), ("variant", Some("maya")), ("family", Some("python"))];
    let dates = [(None, None), (Some("1970-01-21"), None), (None, Some("1970-01-21")), (Some("1970-01-11"), Some("1970-01-21T00:00:01"))];
    let sorts = ["name", "version", "date", "score", "other"];
    for (query, regex, cs) in texts { for &(d, t, q) in &fields {
        if all { for (kind, var) in kinds { for (newer, older) in dates { for latest in [false, true] { out.push(CliQ { query, regex, cs, d, t, q, kind, var, newer, older, latest, sort: "name" }); } } } }
        else { out.push(CliQ { query, regex, cs, d, t, q, ..BASE }); }
    } }
    for (kind, var) in kinds { for (newer, older) in dates { for latest in [false, true] { for sort in sorts { out.push(CliQ { query: "o", q: true, kind, var, newer, older, latest, sort, ..BASE }); } } } }
    out
}

pub fn run(r: &'static Run) {
    r.rule("a search yields exactly the matching families and versions, in order, with the true latest, a limit is a prefix, and repeating it changes nothing");
    let all = cells();
    let n = all.len();
    let libq = lib_queries(false);
    let wide = lib_queries(true);
    let cliq = cli_queries(r.thorough);
    let base = scratch("q01");
    r.bound("repository_contents", format!("all {} subsets of {n} packages in 2 repositories", 1 << n));
    r.bound("library_queries", r.pick(libq.len(), wide.len()));
    r.bound("command_queries", cliq.len());
    r.sharded(r.pick(8, 8), |shard, shards| {
        let root: PathBuf = base.join(format!("s{shard}"));
        std::fs::create_dir_all(root.join("home")).unwrap();
        // nothing of the machine's own configuration takes part
        unsafe { std::env::set_var("HOME", root.join("home")); std::env::set_var("REZ_DISABLE_HOME_CONFIG", "1"); std::env::remove_var("REZ_CONFIG_FILE"); }
        for m in (0..1usize << n).filter(|m| m % shards == shard) {
            let live: Vec<&Cell> = (0..n).filter(|i| m >> i & 1 == 1).map(|i| &all[i]).collect();
            write(&root, &live);
            // all queries on the largest contents, a cross-section of them on every subset
            for q in &libq { check_lib(r, &root, &live, q); }
            r.part("library", "searches", libq.len() as u64);
            let missing = n - live.len();
            if r.thorough && missing <= 2 { for q in &wide { check_lib(r, &root, &live, q); } r.part("library", "searches", wide.len() as u64); }
            let mut k = 0;
            for (i, q) in cliq.iter().enumerate() {
                let deep = missing == 0 || (r.thorough && missing <= 1 && i >= cliq.len() - 240);
                if deep || missing <= r.pick(1, 2) || i >= cliq.len() - 240 && (r.thorough || q.newer.is_none() && q.older.is_none() && q.var.is_none() && q.kind != "variant" && matches!(q.sort, "name" | "version")) { check_cli(r, &root, &live, q, deep); k += 1; }
                if r.violated() { return; }
            }
            r.part("command", "searches", k);
            if r.violated() { return; }
        }
    });
}
