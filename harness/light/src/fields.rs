//! A package definition as a list of (field, printed value), and awkward values for every field.
use rez_next_package::Package;
use rez_next_version::Version;
use std::collections::BTreeMap;

/// Every definition field. The location of the definition file, its per-package configuration overrides and
/// the parsed-source copies are not part of what a saved definition carries.
pub fn of(p: &Package) -> Vec<(&'static str, String)> {
    let tests: BTreeMap<_, _> = p.tests.iter().collect();
    vec![
        ("name", format!("{:?}", p.name)), ("version", format!("{:?}", p.version.as_ref().map(|v| v.as_str()))), ("description", format!("{:?}", p.description)),
        ("authors", format!("{:?}", p.authors)), ("requires", format!("{:?}", p.requires)), ("build_requires", format!("{:?}", p.build_requires)),
        ("private_build_requires", format!("{:?}", p.private_build_requires)), ("variants", format!("{:?}", p.variants)), ("tools", format!("{:?}", p.tools)),
        ("commands", format!("{:?}", p.commands)), ("build_command", format!("{:?}", p.build_command)), ("build_system", format!("{:?}", p.build_system)),
        ("pre_commands", format!("{:?}", p.pre_commands)), ("post_commands", format!("{:?}", p.post_commands)), ("pre_test_commands", format!("{:?}", p.pre_test_commands)),
        ("pre_build_commands", format!("{:?}", p.pre_build_commands)), ("tests", format!("{tests:?}")), ("requires_rez_version", format!("{:?}", p.requires_rez_version)),
        ("uuid", format!("{:?}", p.uuid)), ("help", format!("{:?}", p.help)), ("relocatable", format!("{:?}", p.relocatable)), ("cachable", format!("{:?}", p.cachable)),
        ("timestamp", format!("{:?}", p.timestamp)), ("revision", format!("{:?}", p.revision)), ("changelog", format!("{:?}", p.changelog)), ("release_message", format!("{:?}", p.release_message)),
        ("previous_version", format!("{:?}", p.previous_version.as_ref().map(|v| v.as_str()))), ("previous_revision", format!("{:?}", p.previous_revision)), ("vcs", format!("{:?}", p.vcs)),
        ("format_version", format!("{:?}", p.format_version)), ("base", format!("{:?}", p.base)), ("has_plugins", format!("{:?}", p.has_plugins)), ("plugin_for", format!("{:?}", p.plugin_for)),
        ("hashed_variants", format!("{:?}", p.hashed_variants)), ("preprocess", format!("{:?}", p.preprocess)), ("is_dev_package", format!("{:?}", p.is_dev_package)),
    ]
}
pub fn diff(a: &Package, b: &Package) -> Vec<String> {
    of(a).into_iter().zip(of(b)).filter(|(x, y)| x.1 != y.1).map(|(x, y)| format!("{}: {} became {}", x.0, x.1, y.1)).collect()
}

pub type Set<T> = Box<dyn Fn(&mut T) + Send + Sync>;
pub struct Field<T> { pub name: &'static str, pub vals: Vec<(String, Set<T>)> }

pub fn field<T: 'static, V: Clone + Send + Sync + std::fmt::Debug + 'static>(name: &'static str, vals: Vec<V>, set: fn(&mut T, V)) -> Field<T> {
    Field { name, vals: vals.into_iter().map(|v| { let d = format!("{v:?}"); let f: Set<T> = Box::new(move |t: &mut T| set(t, v.clone())); (d, f) }).collect() }
}
pub use field as mk;

pub const AWKWARD: [&str; 20] = ["plain", "", " ", "\"", "\\", "\n", "'", "a\"b", "a\\nb\\", "line1\nline2\n", "  - x: y\n\tz", "#c", "caf\u{e9} \u{65e5}\u{1f600}", "null", "1.0", "true", "{root}/$X ${Y}", "<a>&amp;</a>", "\"\"\"", "'''\\"];

pub fn package_fields() -> Vec<Field<Package>> {
    let s = |v: &str| v.to_string();
    let txt: Vec<String> = AWKWARD.iter().map(|v| s(v)).collect();
    let opt = || txt.iter().cloned().map(Some).collect::<Vec<Option<String>>>();
    let req = || vec![vec![s("a")], vec![s("a-1"), s("b>=2")], vec![s("a-1+<2"), s("!b"), s("~c-1.2|3"), s("d==1.0")]];
    let names = || { let mut v: Vec<Vec<String>> = txt.iter().filter(|t| !t.is_empty()).map(|t| vec![t.clone()]).collect(); v.push(vec![s("x"), s("y"), s("x")]); v.push(vec![s("b"), s("a \"q\" \\"), s("l1\nl2")]); v };
    let ver = |v: &str| Some(Version::parse(v).unwrap());
    let b = || vec![Some(true), Some(false)];
    vec![
        field("name", vec![s("p"), s("p_1"), s("p-x"), s("P2")], |p: &mut Package, v| p.name = v),
        field("version", vec![None, ver("1"), ver("1.2.3"), ver("1.10"), ver("2024.01.05"), ver("1.0-beta.2"), ver("3.0_a")], |p: &mut Package, v| p.version = v),
        field("description", opt(), |p: &mut Package, v| p.description = v),
        field("authors", names(), |p: &mut Package, v| p.authors = v),
        field("requires", req(), |p: &mut Package, v| p.requires = v),
        field("build_requires", req(), |p: &mut Package, v| p.build_requires = v),
        field("private_build_requires", req(), |p: &mut Package, v| p.private_build_requires = v),
        field("variants", vec![vec![vec![s("a-1")]], vec![vec![s("a-1"), s("b-2")]], vec![vec![s("a-1"), s("b-2")], vec![s("a-2"), s("b-1")]], vec![vec![], vec![s("a")]], vec![vec![s("a"), s("b"), s("c")], vec![s("d")], vec![s("e"), s("f")]]], |p: &mut Package, v| p.variants = v),
        field("tools", names(), |p: &mut Package, v| p.tools = v),
        field("commands", opt(), |p: &mut Package, v| p.commands = v),
        field("build_command", opt(), |p: &mut Package, v| p.build_command = v),
        field("build_system", opt(), |p: &mut Package, v| p.build_system = v),
        field("pre_commands", opt(), |p: &mut Package, v| p.pre_commands = v),
        field("post_commands", opt(), |p: &mut Package, v| p.post_commands = v),
        field("pre_test_commands", opt(), |p: &mut Package, v| p.pre_test_commands = v),
        field("pre_build_commands", opt(), |p: &mut Package, v| p.pre_build_commands = v),
        field("tests", vec![vec![(s("unit"), s("pytest"))], vec![(s("a"), s("x \"y\" \\ 'z'")), (s("b"), s("l1\nl2"))], vec![(s("q\"uo'te"), s(""))]], |p: &mut Package, v| p.tests = v.into_iter().collect()),
        field("requires_rez_version", opt(), |p: &mut Package, v| p.requires_rez_version = v),
        field("uuid", opt(), |p: &mut Package, v| p.uuid = v),
        field("help", opt(), |p: &mut Package, v| p.help = v),
        field("relocatable", b(), |p: &mut Package, v| p.relocatable = v),
        field("cachable", b(), |p: &mut Package, v| p.cachable = v),
        field("timestamp", vec![Some(0i64), Some(-1), Some(1_700_000_000), Some(i64::MAX)], |p: &mut Package, v| p.timestamp = v),
        field("revision", opt(), |p: &mut Package, v| p.revision = v),
        field("changelog", opt(), |p: &mut Package, v| p.changelog = v),
        field("release_message", opt(), |p: &mut Package, v| p.release_message = v),
        field("previous_version", vec![ver("1"), ver("1.10"), ver("0.9-rc1")], |p: &mut Package, v| p.previous_version = v),
        field("previous_revision", opt(), |p: &mut Package, v| p.previous_revision = v),
        field("vcs", opt(), |p: &mut Package, v| p.vcs = v),
        field("format_version", vec![Some(0i32), Some(2), Some(i32::MAX), Some(-1)], |p: &mut Package, v| p.format_version = v),
        field("base", opt(), |p: &mut Package, v| p.base = v),
        field("has_plugins", b(), |p: &mut Package, v| p.has_plugins = v),
        field("plugin_for", names(), |p: &mut Package, v| p.plugin_for = v),
        field("hashed_variants", b(), |p: &mut Package, v| p.hashed_variants = v),
        field("preprocess", opt(), |p: &mut Package, v| p.preprocess = v),
        field("is_dev_package", b(), |p: &mut Package, v| p.is_dev_package = v),
    ]
}
/// every field alone with every value, then every pair of fields with every pair of `few` values
pub fn each<T: Clone>(base: &T, fields: &[Field<T>], few: usize, mut f: impl FnMut(String, T)) {
    f("base".into(), base.clone());
    for a in fields { for (d, set) in &a.vals { let mut t = base.clone(); set(&mut t); f(format!("{}={d}", a.name), t); } }
    for (i, a) in fields.iter().enumerate() {
        for b in &fields[i + 1..] {
            for (da, sa) in pickv(&a.vals, few) { for (db, sb) in pickv(&b.vals, few) {
                let mut t = base.clone(); sa(&mut t); sb(&mut t); f(format!("{}={da},{}={db}", a.name, b.name), t);
            } }
        }
    }
}
fn pickv<V>(v: &[V], few: usize) -> impl Iterator<Item = &V> + Clone {
    let n = v.len(); let k = few.min(n);
    (0..k).map(move |i| &v[if k == n { i } else { i * (n - 1) / (k - 1).max(1) }])
}
/// everything set at once
pub fn full<T: Clone>(base: &T, fields: &[Field<T>], nth: usize) -> T {
    let mut t = base.clone();
    for (i, a) in fields.iter().enumerate() { if !a.vals.is_empty() { (a.vals[(nth + i) % a.vals.len()].1)(&mut t); } }
    t
}
