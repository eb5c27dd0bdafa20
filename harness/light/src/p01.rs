//! P01: package definitions saved and loaded by every format and route.
use crate::fields::{self, each, full, Field};
use mccore::*;
use rez_next_package::serialization::{PackageFormat, PackageSerializer, SerializationOptions};
use rez_next_package::Package;
use rez_next_version::Version;
use serde_json::json;
use std::path::Path;
use PackageFormat::*;

const FORMATS: [(PackageFormat, &str); 8] = [(Yaml, "package.yaml"), (Json, "package.json"), (Python, "package.py"), (YamlCompressed, "package.yaml.gz"), (JsonCompressed, "package.json.gz"), (Binary, "package.bin"), (Toml, "package.toml"), (Xml, "package.xml")];
fn base() -> Package { let mut p = Package::new("pkg".into()); p.version = Some(Version::parse("1.2").unwrap()); p.requires = vec!["q-1".into()]; p.tools = vec!["t".into()]; p }
fn s<E: std::fmt::Display>(e: E) -> String { e.to_string() }

fn judge(r: &Run, route: &str, what: &str, p: &Package, res: Result<Result<Package, String>, String>) {
    r.eval(1); r.trans(1);
    match res {
        Err(e) => { r.outcome(&("refused", route)); r.fail(&format!("{route}:{what}"), format!("{route}: a definition with {what} cannot be saved: {e}"), json!({"definition": what, "route": route})) }
        Ok(Err(e)) => r.fail(&format!("{route}:{what}"), format!("{route}: a definition with {what} was saved but cannot be loaded: {e}"), json!({"definition": what, "route": route, "error": e})),
        Ok(Ok(q)) => { let d = fields::diff(p, &q); if !d.is_empty() { r.fail(&format!("{route}:{what}"), format!("{route}: a definition with {what} came back different: {}", d.join("; ")), json!({"definition": what, "route": route, "differences": d})); } else { r.outcome(&(route, hash_of(&what))); } }
    }
}
fn options() -> Vec<(&'static str, Option<SerializationOptions>)> {
    let mut pretty = SerializationOptions::minimal();
    pretty.pretty_print = true;
    let mut plainmeta = SerializationOptions::new();
    plainmeta.pretty_print = false;
    vec![("default", None), ("minimal", Some(SerializationOptions::minimal())), ("pretty", Some(pretty)), ("metadata", Some(plainmeta))]
}
fn one(r: &Run, root: &Path, what: &str, p: &Package) {
    r.state(1);
    for (fm, name) in FORMATS {
        judge(r, &format!("{fm:?} text"), what, p, PackageSerializer::save_to_string(p, fm).map_err(s).map(|t| PackageSerializer::load_from_string(&t, fm).map_err(s)));
        for (on, o) in options() {
            let f = root.join(name);
            judge(r, &format!("{fm:?} file {on}"), what, p, PackageSerializer::save_to_file_with_options(p, &f, fm, o).map_err(s).map(|_| PackageSerializer::load_from_file(&f).map_err(s)));
        }
    }
    judge(r, "generic json", what, p, serde_json::to_string(p).map_err(s).map(|t| serde_json::from_str(&t).map_err(s)));
    judge(r, "generic yaml", what, p, serde_yaml::to_string(p).map_err(s).map(|t| serde_yaml::from_str(&t).map_err(s)));
    // conversion: what one format gives, saved in the next
    let f = root.join("package.py");
    let conv = || -> Result<Package, String> {
        let a = PackageSerializer::load_from_string(&PackageSerializer::save_to_string(p, Yaml).map_err(s)?, Yaml).map_err(s)?;
        PackageSerializer::save_to_file(&a, &f, Python).map_err(s)?;
        let b = Package::from_path(&f).map_err(s)?;
        PackageSerializer::load_from_string(&PackageSerializer::save_to_string(&b, Json).map_err(s)?, Json).map_err(s)
    };
    let mut q = p.clone(); q.is_dev_package = Some(true); // what loading from a path means
    judge(r, "yaml to package.py to json", what, &q, Ok(conv()));
}
/// package.py as the package itself prints it, and commands as a function
fn printed(r: &Run, fs: &[Field<Package>]) {
    let unfit = ["commands", "pre_commands", "post_commands"];
    let fit: Vec<&Field<Package>> = fs.iter().filter(|f| !unfit.contains(&f.name)).collect();
    for f in &fit {
        for (d, set) in &f.vals {
            let mut p = base(); set(&mut p);
            r.state(1);
            let got = PackageSerializer::load_from_python(&p.to_package_py()).map_err(s);
            let what = format!("{}={d}", f.name);
            if ["relocatable", "cachable"].contains(&f.name) && got.is_err() {
                r.fail(&format!("to_package_py:{}", f.name), format!("a definition printed as package.py with {what} cannot be loaded: {}", got.unwrap_err()), json!({"definition": what}));
                continue;
            }
            judge(r, "printed package.py", &what, &p, Ok(got));
        }
    }
    let lines = ["env.setenv('A', 'x')", "env.prepend_path('PATH', '{root}/bin')", "env.append_path('PATH', '{root}/b c')", "env.unsetenv('B')", "alias('t', 'run --x')", "command('echo hi')", "source('/x/y.sh')", "info('hello')", "error('bad')", "stop('why')", "resetenv('C')", "env.setenv_if_empty('D', '1')"];
    for seq in sequences(&lines, r.pick(2, 3)) {
        if seq.is_empty() { continue; }
        let text = seq.join("\n");
        for which in 0..3 {
            let mut p = base();
            match which { 0 => p.commands = Some(text.clone()), 1 => p.pre_commands = Some(text.clone()), _ => p.post_commands = Some(text.clone()) }
            r.state(1);
            judge(r, "printed package.py", &format!("{} {seq:?}", ["commands", "pre_commands", "post_commands"][which]), &p, Ok(PackageSerializer::load_from_python(&p.to_package_py()).map_err(s)));
        }
    }
}
/// every truncation of a saved definition loads as an error or as a package that says the same
fn cut(r: &Run, root: &Path, fs: &[Field<Package>], shard: usize, shards: usize) {
    let mut k = 0;
    for n in 0..r.pick(2, 8) {
        let p = full(&base(), fs, n);
        for (fm, name) in [(Json, "package.json"), (JsonCompressed, "package.json.gz"), (YamlCompressed, "package.yaml.gz"), (Binary, "package.bin")] {
            let f = root.join(name);
            PackageSerializer::save_to_file(&p, &f, fm).unwrap();
            let b = std::fs::read(&f).unwrap();
            for at in 0..b.len() {
                k += 1;
                if k % shards != shard { continue; }
                std::fs::write(&f, &b[..at]).unwrap();
                r.state(1); r.eval(1);
                if let Ok(q) = PackageSerializer::load_from_file(&f) { let d = fields::diff(&p, &q); if !d.is_empty() { r.fail(&format!("cut:{name}:{n}:{at}"), format!("{name} cut at byte {at} of {} loads as a different package: {}", b.len(), d.join("; ")), json!({"file": name, "cut": at})); } }
            }
        }
    }
}
pub fn run(r: &'static Run) {
    r.rule("every definition field alone with every awkward value and every pair of fields, through every format, option set and conversion; compared field by field");
    let fs = fields::package_fields();
    r.bound("fields", fs.len()); r.bound("values per field in a pair", r.pick(3, 5)); r.bound("formats", FORMATS.len());
    let root = scratch("p01");
    r.sharded(8, |sh, n| {
        let d = root.join(sh.to_string());
        std::fs::create_dir_all(&d).unwrap();
        watchdog(r, 120);
        let mut k = 0;
        each(&base(), &fs, r.pick(3, 5), |what, p| { k += 1; if k % n == sh { one(r, &d, &what, &p); } });
        for i in 0..r.pick(40, 400) { if i % n == sh { one(r, &d, &format!("all fields, selection {i}"), &full(&base(), &fs, i)); } }
        if sh == 0 { printed(r, &fs); }
        cut(r, &d, &fs, sh, n);
    });
    r.finish();
}
