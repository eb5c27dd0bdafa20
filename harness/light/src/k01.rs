//! K01: configuration layers. Every choice of contents for every few layers, loaded by the real code
//! through virtual file locations (nothing outside the scratch directory is written), against a
//! field-by-field precedence model.
use mccore::*;
use rez_next_common::RezCoreConfig;
use serde_json::{json, Map, Value};
use std::path::PathBuf;

// ---- the core configuration ---------------------------------------------------------------------------------
/// highest precedence first
const LAYERS: [&str; 9] = ["/vexe/rezconfig.yaml", "/vexe/rezconfig.json", "/vcf/one.yaml", "/vcf/two.yaml", "/etc/rez/config.yaml", "/usr/local/etc/rez/config.yaml", "/vhome/.rezconfig", "/vhome/.rezconfig.yaml", "/vhome/.rez/config.yaml"];
const HOME_LAYERS: usize = 6;
#[derive(Clone)]
struct Variant { name: &'static str, text: String, /// the layers this text can mean: one value, or several where the reading is open
    means: Vec<Value> }
fn obj(v: &[(&str, Value)]) -> Value { Value::Object(v.iter().map(|(k, x)| (k.to_string(), x.clone())).collect::<Map<_, _>>()) }
fn variants(l: usize) -> Vec<Variant> {
    let t = |s: &str| format!("{s}{l}");
    let n = 10 + l as u64;
    let full = {
        let mut c = serde_json::to_value(RezCoreConfig::default()).unwrap();
        for (k, v) in c.as_object_mut().unwrap().iter_mut() {
            *v = match &*v { Value::Bool(_) => json!(l % 2 == 0), Value::String(_) => json!(format!("{k}-{l}")), Value::Array(_) => json!([format!("{k}{l}"), "two"]), Value::Null => json!(n), x => x.clone() };
        }
        c["cache"] = json!({"enable_memory_cache": false, "enable_disk_cache": l % 2 == 0, "memory_cache_size": n, "cache_ttl_seconds": n + 100});
        c
    };
    let mut out = vec![];
    let mut put = |name, text: String, means: Vec<Value>| out.push(Variant { name, text, means });
    let yaml = |v: &Value| serde_yaml::to_string(v).unwrap();
    let a = obj(&[("packages_path", json!([t("/p"), t("/q")]))]);
    put("one list", yaml(&a), vec![a]);
    let b = obj(&[("local_packages_path", json!(t("/local"))), ("use_rust_solver", json!(false)), ("thread_count", json!(n))]);
    put("scalars", serde_json::to_string(&b).unwrap(), vec![b.clone()]);
    put("scalars, tab-indented json", serde_json::to_string_pretty(&b).unwrap().replace("  ", "\t"), vec![b]);
    let c = obj(&[("cache", json!({"memory_cache_size": n})), ("editor", json!(t("ed")))]);
    put("part of a section", yaml(&c), vec![c]);
    let d = obj(&[("cache", json!({"cache_ttl_seconds": n, "enable_disk_cache": false})), ("packages_path", json!([]))]);
    put("other part of a section, empty list", yaml(&d), vec![d]);
    put("unknown key", format!("no_such_key: 1\neditor: {}\n", t("uk")), vec![obj(&[("editor", json!(t("uk")))])]);
    put("empty", String::new(), vec![json!({})]);
    put("comment", "# nothing here\n".into(), vec![json!({})]);
    put("empty section", format!("cache:\neditor: {}\n", t("es")), vec![obj(&[("editor", json!(t("es")))]), json!({})]);
    put("everything", yaml(&full), vec![full]);
    put("syntax error", "packages_path: [unclosed\n  : :\n".into(), vec![json!({})]);
    put("wrong type", format!("packages_path: 5\neditor: {}\n", t("wt")), vec![json!({}), obj(&[("editor", json!(t("wt")))])]);
    put("wrong type in a section", format!("cache:\n  memory_cache_size: many\nlocal_packages_path: {}\n", t("ws")), vec![json!({}), obj(&[("local_packages_path", json!(t("ws")))])]);
    put("a list", "- a\n- b\n".into(), vec![json!({})]);
    put("a number", "7\n".into(), vec![json!({})]);
    out
}
fn overlay(base: &mut Value, top: &Value) {
    match (base, top) {
        (Value::Object(b), Value::Object(t)) => for (k, v) in t { overlay(b.entry(k.clone()).or_insert(Value::Null), v); },
        (b, t) => *b = t.clone(),
    }
}
fn set(k: &str, v: Option<&str>) { unsafe { match v { Some(v) => std::env::set_var(k, v), None => std::env::remove_var(k) } } }
#[derive(Clone, Debug)]
struct Env { pkgs: Option<&'static str>, local: Option<&'static str>, rel: Option<&'static str>, nohome: Option<&'static str>, home: bool, cf: &'static str }
const PLAIN: Env = Env { pkgs: None, local: None, rel: None, nohome: None, home: true, cf: "/vcf/one.yaml:/vcf/two.yaml" };
fn set_env(e: &Env) {
    set("REZ_PACKAGES_PATH", e.pkgs); set("REZ_LOCAL_PACKAGES_PATH", e.local); set("REZ_RELEASE_PACKAGES_PATH", e.rel);
    set("REZ_DISABLE_HOME_CONFIG", e.nohome); set("HOME", if e.home { Some("/vhome") } else { None }); set("REZ_CONFIG_FILE", if e.cf.is_empty() { None } else { Some(e.cf) });
}
fn check_core(r: &'static Run, root: &str, vars: &[Vec<Variant>], chosen: &[(usize, usize)], e: &Env) {
    let mut map: Vec<(String, String)> = vec![("/proc/self/exe".into(), "/vexe/mc".into())];
    for (i, p) in LAYERS.iter().enumerate() {
        map.push((p.to_string(), match chosen.iter().find(|c| c.0 == i) { Some((_, v)) => format!("{root}/{i}-{v}"), None => "/nonexistent/x".into() }));
    }
    for p in ["/vhome", "/vexe", "/vcf", "/etc/rez", "/usr/local/etc/rez"] { map.push((p.into(), "/nonexistent/y".into())); }
    set_env(e);
    fsx::set_virtual(&map);
    let got = guard(|| serde_json::to_value(RezCoreConfig::load()).unwrap());
    let again = guard(|| serde_json::to_value(RezCoreConfig::load()).unwrap());
    fsx::set_virtual(&[]);
    r.state(1); r.eval(1);
    let what = || format!("{} ({e:?})", chosen.iter().map(|(l, v)| format!("{}: {}", LAYERS[*l], vars[*l][*v].name)).collect::<Vec<_>>().join("; "));
    let (got, again) = match (got, again) { (Ok(a), Ok(b)) => (a, b), x => { r.fail("core:panic", format!("{}: loading panics: {x:?}", what()), json!({"layers": what()})); return } };
    if got != again { r.fail("core:unstable", format!("{}: two loads of the same layers differ", what()), json!({"layers": what()})); return; }
    // which layers are looked at
    let active: Vec<(usize, usize)> = chosen.iter().copied().filter(|(l, _)| {
        if *l >= HOME_LAYERS && (e.nohome == Some("1") || !e.home) { return false; }
        if *l == 2 || *l == 3 { return e.cf.contains(LAYERS[*l]); }
        true
    }).collect();
    let mut order = active.clone();
    // files named in the environment come in the order they are named
    order.sort_by_key(|(l, _)| if (2..=3).contains(l) { (2, e.cf.find(LAYERS[*l]).unwrap()) } else { (if *l < 2 { *l } else { *l + 2 }, 0) });
    let mut wants = vec![serde_json::to_value(RezCoreConfig::default()).unwrap()];
    for (l, v) in order.iter().rev() {
        wants = wants.iter().flat_map(|w| vars[*l][*v].means.iter().map(move |m| { let mut x = w.clone(); overlay(&mut x, m); x })).collect();
    }
    for w in &mut wants {
        if let Some(p) = e.pkgs { w["packages_path"] = json!(p.split(':').map(str::trim).filter(|x| !x.is_empty()).collect::<Vec<_>>()); }
        if let Some(p) = e.local { w["local_packages_path"] = json!(p); }
        if let Some(p) = e.rel { w["release_packages_path"] = json!(p); }
    }
    r.outcome(&got.to_string());
    if !wants.contains(&got) {
        let mut d: Vec<String> = vec![];
        for (k, v) in wants[0].as_object().unwrap() { if got[k] != *v { d.push(format!("{k} = {} (should be {v})", got[k])); } }
        let names: Vec<&str> = active.iter().map(|(l, v)| vars[*l][*v].name).collect();
        r.fail(&format!("core:{}", names.join("+")), format!("{}: {}", what(), d.join(", ")), json!({"layers": what(), "got": got, "want": wants[0]}));
    }
    r.trans(chosen.len() as u64);
}

// ---- the layered configuration crate -------------------------------------------------------------------------
/// lowest precedence first: system, user, project (each with its locations in lookup order)
const TOML: [&[&str]; 3] = [&["/etc/rez/rezconfig.toml", "/etc/rezconfig.toml"], &["/vhome/.config/rez/rezconfig.toml", "/vhome/.rez/rezconfig.toml"], &["@/.rez/rezconfig.toml"]];
fn toml_variants(l: usize) -> Vec<(String, Option<Value>)> {
    let t = |s: &str| format!("{s}{l}");
    vec![
        (format!("w = \"{}\"\n", t("w")), Some(json!({"w": t("w")}))),
        (format!("[x]\ny = {l}\n"), Some(json!({"x": {"y": l}}))),
        (format!("w = [\"{}\", \"two\"]\n[x]\nz = true\n[x.deep]\nk = \"{}\"\n", t("a"), t("k")), Some(json!({"w": [t("a"), "two"], "x": {"z": true, "deep": {"k": t("k")}}}))),
        (format!("x = \"{}\"\n", t("scalar")), Some(json!({"x": t("scalar")}))),
        (format!("w = \"a'b\\\"c\\\\d\\ne\\u00e9 {l}\"\n[x]\ny = 1.5\n"), Some(json!({"w": format!("a'b\"c\\d\neé {l}"), "x": {"y": 1.5}}))),
        (String::new(), Some(json!({}))),
        ("w = [unclosed\n".into(), None),
    ]
}
fn check_toml(r: &'static Run, root: &str, cwd: &str, files: &[(usize, usize, usize)], env: &[(&str, &str)]) {
    let mut map: Vec<(String, String)> = vec![];
    for (l, locs) in TOML.iter().enumerate() { for (i, p) in locs.iter().enumerate() {
        let real = match files.iter().find(|f| f.0 == l && f.1 == i) { Some(f) => format!("{root}/t{l}-{}", f.2), None => "/nonexistent/x".into() };
        map.push((p.replace('@', cwd), real));
    } }
    for p in ["/vhome", "/etc/rez"] { map.push((p.into(), "/nonexistent/y".into())); }
    for (k, v) in env { set(k, Some(v)); }
    set("HOME", Some("/vhome"));
    fsx::set_virtual(&map);
    let got = guard(|| rez_next_config::Config::load().map(|c| c.data().clone()).map_err(|e| e.to_string()));
    fsx::set_virtual(&[]);
    for (k, _) in env { set(k, None); }
    r.state(1); r.eval(1);
    let what = format!("{} with {env:?}", files.iter().map(|f| format!("{} variant {}", TOML[f.0][f.1], f.2)).collect::<Vec<_>>().join("; "));
    let mut want = json!({});
    let mut bad = false;
    for (l, locs) in TOML.iter().enumerate() {
        // the first existing location of a layer is its file
        if let Some(f) = (0..locs.len()).find_map(|i| files.iter().find(|f| f.0 == l && f.1 == i)) {
            match &toml_variants(l)[f.2].1 { Some(v) => overlay_plain(&mut want, v), None => bad = true }
        }
    }
    let got = match got { Ok(g) => g, Err(e) => { r.fail("crate:panic", format!("{what}: loading panics: {e}"), json!({"layers": what})); return } };
    r.outcome(&format!("{got:?}"));
    match got {
        Err(_) if bad => {}
        Err(e) => r.fail("crate:refused", format!("{what}: refused: {e}"), json!({"layers": what})),
        // a malformed layer is refused, or skipped without losing the others
        Ok(g) => {
            let mut sorted = env.to_vec();
            sorted.sort();
            for (k, v) in sorted {
                let path: Vec<String> = k.trim_start_matches("REZ_").to_lowercase().split('_').map(String::from).collect();
                let val: Value = serde_json::from_str(v).unwrap_or(json!(v));
                let top = path.iter().rev().fold(val, |acc, seg| json!({ seg.clone(): acc }));
                overlay_env(&mut want, &top, path.len());
            }
            if g != want { r.fail("crate:value", format!("{what}: loaded {g}, should be {want}"), json!({"layers": what, "got": g, "want": want})); }
        }
    }
}
fn overlay_plain(base: &mut Value, top: &Value) {
    match (base, top) {
        (Value::Object(b), Value::Object(t)) => for (k, v) in t {
            match b.get_mut(k) { Some(x) if x.is_object() && v.is_object() => overlay_plain(x, v), _ => { b.insert(k.clone(), v.clone()); } }
        },
        (b, t) => *b = t.clone(),
    }
}
/// sets the single value `depth` keys down
fn overlay_env(base: &mut Value, top: &Value, depth: usize) {
    if depth == 0 { *base = top.clone(); return; }
    if !base.is_object() { *base = json!({}); }
    let (k, v) = top.as_object().unwrap().iter().next().unwrap();
    overlay_env(base.as_object_mut().unwrap().entry(k.clone()).or_insert(json!({})), v, depth - 1);
}

pub fn run(r: &'static Run) {
    r.rule("the loaded configuration equals the default overlaid field by field with each readable layer, lowest precedence first, then with environment variables");
    for (k, _) in std::env::vars_os() { let k = k.to_string_lossy().to_string(); if k.starts_with("REZ_") || k.starts_with("XDG_") { unsafe { std::env::remove_var(k) } } }
    let root = scratch("k01");
    let rs = root.to_string_lossy().to_string();
    let vars: Vec<Vec<Variant>> = (0..LAYERS.len()).map(variants).collect();
    for (l, vs) in vars.iter().enumerate() { for (v, x) in vs.iter().enumerate() { std::fs::write(root.join(format!("{l}-{v}")), &x.text).unwrap(); } }
    for l in 0..3 { for (v, (t, _)) in toml_variants(l).iter().enumerate() { std::fs::write(root.join(format!("t{l}-{v}")), t).unwrap(); } }
    let cwd: PathBuf = root.join("cwd");
    std::fs::create_dir_all(&cwd).unwrap();
    std::env::set_current_dir(&cwd).unwrap();
    let cwds = std::env::current_dir().unwrap().to_string_lossy().to_string();
    let k = r.pick(3, 4);
    r.bound("layers present at once", k as u64); r.bound("layers", LAYERS.len() as u64); r.bound("contents per layer", vars[0].len() as u64);
    r.sharded(8, |shard, shards| {
        let nv = vars[0].len();
        let mut id = 0usize;
        // contents that exercise every field overlap; the full list for up to two layers
        let few: Vec<usize> = vec![0, 1, 3, 4, 9, 10, 11];
        for n in 0..=k {
            let pool: Vec<usize> = if n <= 2 { (0..nv).collect() } else if n == 3 { few.clone() } else { vec![0, 1, 3, 4, 10] };
            for ls in subsets(LAYERS.len(), n) {
                let mut pick = vec![0usize; n];
                'next: loop {
                    id += 1;
                    if id % shards == shard {
                        let chosen: Vec<(usize, usize)> = ls.iter().zip(&pick).map(|(l, p)| (*l, pool[*p])).collect();
                        check_core(r, &rs, &vars, &chosen, &PLAIN);
                        if r.violated() { return; }
                    }
                    for i in 0..n { pick[i] += 1; if pick[i] < pool.len() { continue 'next; } pick[i] = 0; }
                    break;
                }
            }
        }
        // environment variables over every pair of layers
        let o = |b: bool, s: &'static str| if b { Some(s) } else { None };
        for m in 0..(1usize << 7) {
            let e = Env { pkgs: o(m & 1 != 0, if m & 64 != 0 { "/e 1:: /e2 " } else { "/e1" }), local: o(m & 2 != 0, "/elocal"), rel: o(m & 4 != 0, "/erel"), nohome: o(m & 8 != 0, if m & 64 != 0 { "1" } else { "0" }), home: m & 16 == 0, cf: match (m & 32 != 0, m & 64 != 0) { (false, false) => PLAIN.cf, (true, false) => "", (false, true) => "/vcf/two.yaml:/vcf/one.yaml", (true, true) => ":/vcf/two.yaml:/vcf/absent.yaml" } };
            for n in 0..=2 { for ls in subsets(LAYERS.len(), n) { for v in [[0usize, 0], [0, 1], [3, 4], [1, 9], [9, 1], [10, 1], [11, 0]] {
                id += 1;
                if id % shards != shard { continue; }
                let chosen: Vec<(usize, usize)> = ls.iter().zip(v).map(|(l, p)| (*l, p)).collect();
                check_core(r, &rs, &vars, &chosen, &e);
                if r.violated() { return; }
            } } }
        }
        // the layered crate: every choice of one file (or two locations) per layer, and every choice of variables
        set_env(&Env { cf: "", ..PLAIN });
        let nt = toml_variants(0).len();
        let locs: Vec<Vec<Vec<(usize, usize, usize)>>> = (0..3).map(|l| {
            let mut v = vec![vec![]];
            for i in 0..TOML[l].len() { for c in 0..nt { v.push(vec![(l, i, c)]); } }
            if TOML[l].len() == 2 { v.push(vec![(l, 0, 0), (l, 1, 1)]); v.push(vec![(l, 0, 1), (l, 1, 6)]); }
            v
        }).collect();
        let envs: Vec<Vec<(&str, &str)>> = vec![vec![], vec![("REZ_W", "env")], vec![("REZ_X_Y", "7")], vec![("REZ_X", "flat"), ("REZ_X_Y", "[1,2]")], vec![("REZ_X_DEEP_K", "true"), ("REZ_W", "a \"b\"")], vec![("REZ_X_DEEP", "null")], vec![("REZ_W_V", "under")]];
        for a in &locs[0] { for b in &locs[1] { for c in &locs[2] { for e in &envs {
            id += 1;
            if id % shards != shard { continue; }
            let f: Vec<_> = a.iter().chain(b).chain(c).copied().collect();
            check_toml(r, &rs, &cwds, &f, e);
            if r.violated() { return; }
        } } } }
        // variables that are not valid text do not stop the others
        if shard == 0 {
            use std::os::unix::ffi::OsStrExt;
            unsafe { std::env::set_var("VKODD", std::ffi::OsStr::from_bytes(b"\xff\xfe")) };
            check_toml(r, &rs, &cwds, &[(2, 0, 0)], &[("REZ_X_Y", "7")]);
            check_core(r, &rs, &vars, &[(6, 0)], &PLAIN);
            unsafe { std::env::remove_var("VKODD") };
        }
        r.trace(1);
    });
}
