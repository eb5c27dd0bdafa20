//! V03: requirement strings: meaning, printing, conversion between representations.
use crate::v01::{ref_cmp, toks, tok_cmp};
use mccore::*;
use rez_next_package::{PackageRequirement, Requirement};
use rez_next_version::Version;
use serde_json::json;
use std::cmp::Ordering;

/// compare only the tokens both have
fn depth(v: &str, c: &str) -> Ordering {
    for (a, b) in toks(v).iter().zip(toks(c)) { let o = tok_cmp(a, b); if o != Ordering::Equal { return o; } }
    Ordering::Equal
}
/// one constraint: (operator, version)
fn one(op: &str, c: &str, v: &str) -> bool {
    match op {
        "==" => depth(v, c) == Ordering::Equal,
        ">=" => depth(v, c) != Ordering::Less,
        "<=" => depth(v, c) != Ordering::Greater,
        ">" => depth(v, c) == Ordering::Greater,
        "<" => depth(v, c) == Ordering::Less,
        "!=" => ref_cmp(v, c) != Ordering::Equal,
        "-" => { let (x, y) = (toks(v), toks(c)); x.len() >= y.len() && depth(v, c) == Ordering::Equal }
        "~=" => {
            let (x, y): (Vec<&str>, Vec<&str>) = (v.split('.').collect(), c.split('.').collect());
            if x.len() < y.len() { return false; }
            let l = y.len() - 1;
            x[..l] == y[..l] && match (x[l].parse::<u64>(), y[l].parse::<u64>()) { (Ok(a), Ok(b)) => a >= b, _ => x[l] >= y[l] }
        }
        "*" => { // wildcard prefix: "1.2" means ==1.2.*
            let (x, y): (Vec<&str>, Vec<&str>) = (v.split('.').collect(), c.split('.').collect());
            x.len() >= y.len() && x[..y.len()] == y[..]
        }
        _ => unreachable!(),
    }
}
struct Spec { text: String, cons: Vec<(&'static str, &'static str)> }
fn specs(vs: &[&'static str], triples: bool) -> Vec<Spec> {
    let mut out = vec![Spec { text: String::new(), cons: vec![] }];
    let ops = ["==", ">=", "<=", ">", "<", "!=", "~="];
    let single: Vec<(&'static str, &'static str)> = ops.iter().flat_map(|o| vs.iter().map(move |v| (*o, *v))).collect();
    let w = |a: &(&'static str, &'static str)| format!("{}{}", a.0, a.1);
    for a in &single { out.push(Spec { text: w(a), cons: vec![*a] }); out.push(Spec { text: format!("{} {}", a.0, a.1), cons: vec![*a] }); }
    for a in &single { for b in &single {
        out.push(Spec { text: format!("{},{}", w(a), w(b)), cons: vec![*a, *b] });
        out.push(Spec { text: format!("{}, {}", w(a), w(b)), cons: vec![*a, *b] });
    } }
    if triples { for a in &single { for b in &single { for c in &single { if a.1 <= b.1 && b.1 <= c.1 { out.push(Spec { text: format!("{},{},{}", w(a), w(b), w(c)), cons: vec![*a, *b, *c] }); } } } } }
    for v in vs {
        out.push(Spec { text: format!("-{v}"), cons: vec![("-", v)] });
        out.push(Spec { text: format!("-{v}+"), cons: vec![(">=", v)] });
        out.push(Spec { text: format!("=={v}.*"), cons: vec![("*", v)] });
        for x in vs {
            out.push(Spec { text: format!("-{v}..{x}"), cons: vec![(">=", v), ("<", x)] });
            out.push(Spec { text: format!("-{v}+<{x}"), cons: vec![(">=", v), ("<", x)] });
            out.push(Spec { text: format!("-{v}+<={x}"), cons: vec![(">=", v), ("<=", x)] });
        }
    }
    out
}

pub fn run(r: &Run) {
    r.rule("every requirement string: flag x namespace x name x (none | 1-3 constraints from all operators | rez shorthands | wildcard) x conditions over a version alphabet; membership on every probe version in every representation; plus every string up to the stated length over the operator alphabet for self-consistency of whatever is accepted");
    let vs: &[&'static str] = r.pick(&["1", "1.2", "1.2.3", "2.0", "1.rc2"][..], &["1", "1.2", "1.2.3", "2", "2.0", "1.10", "1.rc2", "2.a"][..]);
    let probes: Vec<&str> = vec!["0", "0.9", "1", "1.0", "1.1", "1.2", "1.2.0", "1.2.2", "1.2.3", "1.2.3.4", "1.2.4", "1.2.10", "1.3", "1.9.9", "1.10", "1.10.1", "1.rc1", "1.rc2", "1.rc2.1", "1.rc10", "1.alpha", "1-2", "1-2.3", "2", "2.0", "2.0.0", "2.0.1", "2.a", "2.b", "2.1", "3", "10", "01.2", "a", "1.2.a", "1.2.rc1"];
    let pv: Vec<Version> = probes.iter().map(|s| Version::parse(s).unwrap()).collect();
    let mask = |q: &Requirement| -> u64 { pv.iter().enumerate().fold(0, |m, (i, v)| if q.is_satisfied_by(v) { m | 1 << i } else { m }) };
    let pmask = |q: &PackageRequirement| -> u64 { pv.iter().enumerate().fold(0, |m, (i, v)| if q.satisfied_by(v) { m | 1 << i } else { m }) };
    let ss = specs(vs, r.thorough);
    let names = ["python", "my_lib", "lib2", "PyQt5", "a.b"];
    let conds = ["", "[platform=='linux']", "[platform!='windows']", "[platform=='linux' and arch=='x86_64']", "[env.MODE=='x']", "[env.MODE!='x']", "[env.MODE]", "[env.MODE!=None]", "[platform=='linux'][env.MODE=='x']"];
    r.state(ss.len() as u64);
    par(ss.len(), |si| {
        let sp = &ss[si];
        let want = probes.iter().enumerate().fold(0u64, |m, (i, v)| if sp.cons.iter().all(|c| one(c.0, c.1, v)) { m | 1 << i } else { m });
        r.outcome(&want);
        // names/flags/namespaces/conditions are crossed fully for the first specs of each shape, singly for the rest
        let full = sp.cons.len() < 2;
        for (ni, name) in names.iter().enumerate() { for flag in ["", "!", "~"] { for ns in ["", "studio::"] { for (ci, cond) in conds.iter().enumerate() {
            if !full && (ni > 0 && (ci > 0 || !ns.is_empty())) { continue; }
            if !full && ci > 0 && !ns.is_empty() { continue; }
            let s = format!("{flag}{ns}{name}{}{cond}", sp.text);
            r.eval(1); r.trans(1);
            let k = || json!({"requirement": s});
            let q = match guard(|| s.parse::<Requirement>()) { Ok(Ok(q)) => q, o => { r.fail("parse", format!("requirement {s:?} not accepted: {o:?}"), k()); continue } };
            let flags = |q: &Requirement| (q.name.clone(), q.conflict, q.weak, q.namespace.clone(), q.platform_conditions.clone(), q.env_conditions.clone());
            let f = flags(&q);
            if q.name != *name || q.conflict != (flag == "!") || q.weak != (flag == "~") || q.namespace.as_deref() != (if ns.is_empty() { None } else { Some("studio") }) {
                r.fail("identity", format!("requirement {s:?} parsed as name={} conflict={} weak={} ns={:?}", q.name, q.conflict, q.weak, q.namespace), k());
            }
            let (np, ne) = (cond.matches("platform").count(), cond.matches("env.").count());
            if q.platform_conditions.len() != np || q.env_conditions.len() != ne || (cond.contains("arch") && q.platform_conditions[0].arch.as_deref() != Some("x86_64")) {
                r.fail("conditions", format!("requirement {s:?} lost a condition"), k());
            }
            cond_eval(r, &q, cond, &s);
            let got = mask(&q);
            if got != want { r.fail("meaning", format!("requirement {s:?} on version {}: got {}", probes[(got ^ want).trailing_zeros() as usize], got >> (got ^ want).trailing_zeros() & 1 == 1), k()); continue }
            let t = q.to_string();
            match t.parse::<Requirement>() {
                Ok(b) if flags(&b) == f && mask(&b) == want => {}
                o => r.fail("print", format!("requirement {s:?} prints as {t:?}, which reads back as {o:?}"), k()),
            }
            match serde_json::from_str::<Requirement>(&serde_json::to_string(&q).unwrap()) {
                Ok(b) if b == q && mask(&b) == want => {}
                o => r.fail("serde", format!("requirement {s:?} changed by serialisation: {o:?}"), k()),
            }
            if cond.is_empty() {
                match guard(|| PackageRequirement::parse(&s)) {
                    Ok(Ok(p)) => {
                        r.trace(1);
                        if p.name != *name || p.conflict != (flag == "!") || p.weak != (flag == "~") { r.fail("pkg-identity", format!("package requirement {s:?} parsed as {p:?}"), k()); }
                        let g = pmask(&p);
                        if g != want { r.fail("pkg-meaning", format!("package requirement {s:?} ({p:?}) on version {}: got {}", probes[(g ^ want).trailing_zeros() as usize], g >> (g ^ want).trailing_zeros() & 1 == 1), k()); }
                        let t = p.to_string();
                        match (PackageRequirement::parse(&t), t.parse::<Requirement>(), p.requirement_string() == t) {
                            (Ok(a), Ok(b), true) if a.name == *name && b.name == *name && a.weak == p.weak && a.conflict == p.conflict && b.weak == p.weak && b.conflict == p.conflict && pmask(&a) == want && mask(&b) == want => {}
                            o => r.fail("pkg-print", format!("package requirement {s:?} prints as {t:?}, which reads back as {o:?}"), k()),
                        }
                        let j: Result<PackageRequirement, _> = serde_json::from_str(&serde_json::to_string(&p).unwrap());
                        match j { Ok(b) if b.to_string() == t && pmask(&b) == want => {}, _ => r.fail("pkg-serde", format!("package requirement {s:?} changed by serialisation"), k()) }
                    }
                    o => r.fail("pkg-parse", format!("package requirement {s:?}: {o:?}"), k()),
                }
            }
        } } } }
    });
    // merging constraints
    let cs: Vec<_> = ss.iter().filter(|s| s.cons.len() == 1 || s.cons.len() == 2 && s.text.starts_with('-')).map(|s| format!("x{}", s.text).parse::<Requirement>().unwrap()).collect();
    let cm: Vec<u64> = cs.iter().map(&mask).collect();
    let full = (1u64 << probes.len()) - 1;
    par(cs.len(), |i| for j in 0..cs.len() {
        let (a, b) = (cs[i].version_constraint.clone().unwrap(), cs[j].version_constraint.clone().unwrap());
        let mut q = Requirement::new("x".into());
        for (k, m) in [(a.clone().and(b.clone()), cm[i] & cm[j]), (a.clone().or(b.clone()), cm[i] | cm[j]),
                       (a.clone().or(b.clone()).and(a.clone()), (cm[i] | cm[j]) & cm[i]), (a.clone().and(b.clone()).or(b.clone()), (cm[i] & cm[j]) | cm[j]), (b.clone().or(a.clone().and(b.clone())), cm[j] | (cm[i] & cm[j]))] {
            q.version_constraint = Some(k);
            r.eval(1);
            if mask(&q) != m & full { r.fail("merge", format!("merging {} with {} changes their meaning", cs[i], cs[j]), json!({"a": cs[i].to_string(), "b": cs[j].to_string()})); }
        }
    });
    // every short string: whatever is accepted must be self-consistent
    let chars: Vec<char> = "p1-=><!~.+,|".chars().collect();
    let maxlen = r.pick(4, 6);
    par(chars.len() * chars.len(), |i| {
        let mut b: String = [chars[i / chars.len()], chars[i % chars.len()]].iter().collect();
        fn go(b: &mut String, left: usize, chars: &[char], f: &dyn Fn(&str)) { f(b); if left > 0 { for c in chars { b.push(*c); go(b, left - 1, chars, f); b.pop(); } } }
        go(&mut b, maxlen - 2, &chars, &|t: &str| {
            let s = format!("p{t}");
            r.eval(1);
            let q = match guard(|| s.parse::<Requirement>()) { Ok(Ok(q)) => q, Ok(Err(_)) => return, Err(p) => { r.fail("panic", format!("{s:?}: {p}"), json!({"requirement": s})); return } };
            if q.version_constraint.is_none() && q.name.contains(['=', '<', '>', '|', '!', ',']) { r.fail("swallowed", format!("requirement {s:?} accepted as a bare name {:?}", q.name), json!({"requirement": s})); }
            let m = mask(&q);
            if q.name.contains('+') { return; } // not a package name
            match q.to_string().parse::<Requirement>() { Ok(b) if b.name == q.name && b.weak == q.weak && b.conflict == q.conflict && mask(&b) == m => {}, o => r.fail("print-any", format!("{s:?} prints as {:?} which reads back as {o:?}", q.to_string()), json!({"requirement": s})) }
            r.trans(1);
        });
    });
    r.bound("free_string_len", maxlen as u64); r.bound("versions", json!(vs)); r.bound("probes", probes.len() as u64);
    r.sample(json!({"requirement": "python-1.2+<2.0", "satisfied_by": probes.iter().filter(|p| "python-1.2+<2.0".parse::<Requirement>().unwrap().is_satisfied_by(&Version::parse(p).unwrap())).collect::<Vec<_>>() }));
}

fn cond_eval(r: &Run, q: &Requirement, cond: &str, s: &str) {
    use std::collections::HashMap;
    for plat in ["linux", "windows"] { for arch in [None, Some("x86_64"), Some("arm64")] {
        let want = if cond.contains("arch") { plat == "linux" && arch == Some("x86_64") } else if cond.contains("platform==") { plat == "linux" } else if cond.contains("platform!=") { plat != "windows" } else { true };
        if q.is_platform_satisfied(plat, arch) != want { r.fail("platform", format!("{s:?} on {plat}/{arch:?}: expected {want}"), json!({"requirement": s})); }
    } }
    for val in [None, Some("x"), Some("y")] {
        let env: HashMap<String, String> = val.map(|v| ("MODE".to_string(), v.to_string())).into_iter().collect();
        let want = if cond.contains("MODE==") { val == Some("x") } else if cond.contains("!='x'") { val != Some("x") } else if cond.contains("MODE!=None") { val.is_none() } else if cond.contains("[env.MODE]") { val.is_some() } else { true };
        // `!=None` reads as "negated presence" in the stored form; only the plain forms are pinned
        if cond.contains("None") { continue; }
        if q.is_env_satisfied(&env) != want { r.fail("env", format!("{s:?} with MODE={val:?}: expected {want}"), json!({"requirement": s})); }
    }
}
