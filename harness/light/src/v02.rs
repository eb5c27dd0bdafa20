//! V02: range syntax, membership, set algebra, text/serde round trips. Exhaustive over range ASTs.
use crate::v01::ref_cmp;
use mccore::*;
use rez_next_version::{Version, VersionRange};
use serde_json::json;
use std::cmp::Ordering;

type Atom = (&'static str, &'static str); // (operator, version)
pub fn upper(v: &str) -> Option<String> {
    let p: Vec<&str> = v.split('.').collect();
    match p.len() {
        2 => Some(format!("{}.0", p[0].parse::<u64>().ok()? + 1)),
        n if n > 2 => Some(format!("{}.{}.0", p[0], p[1].parse::<u64>().ok()? + 1)),
        _ => None,
    }
}
pub fn atom(a: &Atom, v: &str) -> bool {
    let c = |w: &str| ref_cmp(v, w);
    match a.0 {
        ">=" => c(a.1) != Ordering::Less,
        ">" => c(a.1) == Ordering::Greater,
        "<=" => c(a.1) != Ordering::Greater,
        "<" => c(a.1) == Ordering::Less,
        "==" => c(a.1) == Ordering::Equal,
        "!=" => c(a.1) != Ordering::Equal,
        "~=" => c(a.1) != Ordering::Less && upper(a.1).map(|u| c(&u) == Ordering::Less).unwrap_or(true),
        "any" => true,
        "none" => false,
        _ => unreachable!(),
    }
}
type Ast = Vec<Vec<Atom>>;
fn member(a: &Ast, v: &str) -> bool { a.iter().any(|c| c.iter().all(|x| atom(x, v))) }
fn at(a: &Atom) -> String { match a.0 { "any" => "*".into(), "none" => "!*".into(), _ => format!("{}{}", a.0, a.1) } }

/// All spellings of one range: separators, shorthands.
fn spellings(a: &Ast) -> Vec<String> {
    let mut per: Vec<Vec<String>> = vec![];
    for c in a {
        let mut o = vec![];
        let t: Vec<String> = c.iter().map(at).collect();
        o.push(t.join(","));
        if t.len() > 1 { o.push(t.join(", ")); if c.iter().all(|x| x.0 != "any" && x.0 != "none") { o.push(t.join(" ")); } }
        if t.len() == 1 && c[0].0 == "any" { o.push("".into()); }
        if t.len() == 1 && c[0].0 == "none" { o.push("empty".into()); }
        if t.len() == 1 && c[0].0 == "==" { o.push(c[0].1.to_string()); }
        if t.len() == 1 && c[0].0 == ">=" { o.push(format!("{}+", c[0].1)); }
        if t.len() == 1 { o.push(format!(" {} ", t[0])); if c[0].1 != "" { o.push(format!("{} {}", c[0].0, c[0].1)); } }
        if t.len() == 2 && c[0].0 == ">=" && c[1].0 == "<" { o.push(format!("{}..{}", c[0].1, c[1].1)); }
        if t.len() == 2 && c[0].0 == ">=" && c[1].0 != "any" && c[1].0 != "none" { o.push(format!("{}+{}", c[0].1, t[1])); o.push(format!("{}+,{}", c[0].1, t[1])); }
        per.push(o);
    }
    let mut out: Vec<String> = per[0].clone();
    for p in &per[1..] {
        let mut nx = vec![];
        for a in &out { for b in p { nx.push(format!("{a}|{b}")); } }
        nx.push(format!("{} | {}", out[0], p[0]));
        out = nx;
    }
    out
}

pub fn run(r: &Run) {
    r.rule("every range AST (single constraint, conjunction of 2, disjunction of 2, conjunction|single) over the operator x version alphabet in every documented spelling; all ordered pairs of ranges under intersect/union/subtract/intersects/subset/superset; all triples of single constraints under composed operations; membership on every probe (one per order region)");
    let bounds: &[&str] = r.pick(&["1", "1.4.2", "2.1"][..], &["1", "1.4.2", "1.4", "2.1", "20240101"][..]);
    let compat: &[&str] = r.pick(&["1.4.2", "2.1"][..], &["1.4.2", "1.4", "2.1"][..]);
    let mut atoms: Vec<Atom> = vec![];
    for op in [">=", ">", "<=", "<", "==", "!="] { for b in bounds { atoms.push((op, b)); } }
    for b in compat { atoms.push(("~=", b)); }
    // probes: named ones plus one strictly inside every region of the bounds and derived upper bounds
    let mut probes: Vec<String> = ["", "0", "a", "0.1", "1", "1.3", "1.4", "1.4.1", "1.4.2", "1.4.2.1", "1.4.3", "1.4.9", "1.4.rc1", "1.5.1", "1.rc1", "1.9", "2.0.1", "2.1", "2.1.5", "2.2", "2.a", "4", "999.999.999", "20240101", "20240101.1", "20240102", "inf", "1-4", "01.4"].iter().map(|s| s.to_string()).collect();
    let mut marks: Vec<String> = bounds.iter().map(|s| s.to_string()).collect();
    marks.extend(compat.iter().filter_map(|b| upper(b)));
    marks.sort_by(|a, b| ref_cmp(a, b));
    for w in marks.windows(2) {
        if ref_cmp(&w[0], &w[1]) == Ordering::Equal { continue; }
        if !probes.iter().any(|p| ref_cmp(&w[0], p) == Ordering::Less && ref_cmp(p, &w[1]) == Ordering::Less) {
            probes.push(format!("{}.777", w[1]));
        }
        assert!(probes.iter().any(|p| ref_cmp(&w[0], p) == Ordering::Less && ref_cmp(p, &w[1]) == Ordering::Less), "no probe between {w:?}");
    }
    let pv: Vec<Version> = probes.iter().map(|s| Version::parse(s).unwrap()).collect();
    let np = pv.len();
    assert!(np <= 64);
    let mask = |g: &VersionRange| -> u64 { let mut m = 0; for (i, v) in pv.iter().enumerate() { if g.contains(v) { m |= 1 << i; } } m };
    let full: u64 = if np == 64 { !0 } else { (1 << np) - 1 };

    let mut asts: Vec<Ast> = vec![vec![vec![("any", "")]], vec![vec![("none", "")]]];
    for a in &atoms { asts.push(vec![vec![*a]]); }
    for a in &atoms { for b in &atoms { asts.push(vec![vec![*a, *b]]); } }
    for (i, a) in atoms.iter().enumerate() { for b in &atoms[i..] { asts.push(vec![vec![*a], vec![*b]]); } }
    for a in &atoms { asts.push(vec![vec![("any", "")], vec![*a]]); asts.push(vec![vec![*a], vec![("none", "")]]); }
    // a conjunction in either position of a disjunction (mis-associating spellings)
    let thin: Vec<Atom> = atoms.iter().copied().filter(|a| a.0 != "!=" && (r.thorough || a.1 != bounds[bounds.len() - 1])).collect();
    let mut mixed = vec![];
    for a in &thin { for b in &thin { for c in &thin { mixed.push(vec![vec![*a, *b], vec![*c]]); mixed.push(vec![vec![*c], vec![*a, *b]]); } } }

    // --- syntax and membership, every spelling ---
    let all: Vec<&Ast> = asts.iter().chain(mixed.iter()).collect();
    par(all.len(), |i| {
        let a = all[i];
        let mut want = 0u64;
        for (k, p) in probes.iter().enumerate() { if member(a, p) { want |= 1 << k; } }
        r.outcome(&want);
        for s in spellings(a) {
            r.eval(np as u64); r.trace(1);
            let g = match guard(|| VersionRange::parse(&s)) {
                Ok(Ok(g)) => g,
                o => { r.fail("parse", format!("documented range {s:?} not accepted: {o:?}"), json!({"range": s})); continue }
            };
            let got = mask(&g);
            if got != want {
                let k = (got ^ want).trailing_zeros() as usize;
                r.fail("membership", format!("range {s:?} contains {:?}: got {}, documented {}", probes[k], got >> k & 1 == 1, want >> k & 1 == 1), json!({"range": s, "version": probes[k]}));
            }
            roundtrip(r, &g, got, &mask, &s);
        }
    });
    r.state(all.len() as u64);

    // --- algebra on all ordered pairs ---
    let rs: Vec<VersionRange> = asts.iter().map(|a| VersionRange::parse(&spellings(a)[0]).unwrap()).collect();
    let ms: Vec<u64> = rs.iter().map(&mask).collect();
    let n = rs.len();
    r.bound("ranges_in_pairs", n as u64); r.bound("ranges_total", all.len() as u64); r.bound("probes", np as u64);
    par(n, |i| for j in 0..n { pair(r, &rs[i], ms[i], &rs[j], ms[j], &mask, full); });
    r.trans((n * n) as u64);

    // --- composed operations on triples of single constraints ---
    let singles: Vec<usize> = (0..asts.len()).filter(|i| asts[*i].len() == 1 && asts[*i][0].len() == 1).collect();
    let firsts: Vec<(usize, usize)> = singles.iter().flat_map(|a| singles.iter().map(move |b| (*a, *b))).collect();
    par(firsts.len(), |k| {
        let (i, j) = firsts[k];
        let derived = [rs[i].intersect(&rs[j]), Some(rs[i].union(&rs[j])), rs[i].subtract(&rs[j])];
        for d in derived.into_iter().flatten() {
            let dm = mask(&d);
            roundtrip(r, &d, dm, &mask, d.as_str());
            for l in &singles {
                pair(r, &d, dm, &rs[*l], ms[*l], &mask, full);
                pair(r, &rs[*l], ms[*l], &d, dm, &mask, full);
            }
            r.trans(2 * singles.len() as u64);
        }
    });
    r.sample(json!({"range": "1.4.2+<2.1", "contains": probes.iter().filter(|p| VersionRange::parse("1.4.2+<2.1").unwrap().contains(&Version::parse(p).unwrap())).collect::<Vec<_>>()}));
    r.sample(json!({"subtract": [">=1", "==2.1"], "text": VersionRange::parse(">=1").unwrap().subtract(&VersionRange::parse("==2.1").unwrap()).map(|g| g.as_str().to_string())}));
}

fn roundtrip(r: &Run, g: &VersionRange, m: u64, mask: &dyn Fn(&VersionRange) -> u64, what: &str) {
    match VersionRange::parse(g.as_str()) {
        Ok(p) => if mask(&p) != m { r.fail("print", format!("range {what:?} printed as {:?} means something else when parsed back", g.as_str()), json!({"range": what})); },
        Err(e) => r.fail("print", format!("range {what:?} prints as {:?} which does not parse: {e}", g.as_str()), json!({"range": what})),
    }
    let back: Result<VersionRange, _> = serde_json::from_str(&serde_json::to_string(g).unwrap());
    match back {
        Ok(p) => if mask(&p) != m { r.fail("serde", format!("range {what:?} contains other versions after serialising and deserialising"), json!({"range": what})); },
        Err(e) => r.fail("serde", format!("range {what:?} does not deserialise: {e}"), json!({"range": what})),
    }
}

fn pair(r: &Run, a: &VersionRange, ma: u64, b: &VersionRange, mb: u64, mask: &dyn Fn(&VersionRange) -> u64, full: u64) {
    r.eval(1);
    let k = || json!({"a": a.as_str(), "b": b.as_str()});
    let bad = |key: &str, what: &str, got: u64, want: u64| {
        r.fail(key, format!("{what} of {:?} and {:?}: membership wrong on probe {} (got {got:b}, want {want:b})", a.as_str(), b.as_str(), (got ^ want).trailing_zeros()), k());
    };
    let opt = |o: &Option<VersionRange>| o.as_ref().map(|g| mask(g)).unwrap_or(0);
    let i = a.intersect(b); let im = opt(&i);
    if im != ma & mb { bad("intersect", "intersection", im, ma & mb); }
    let u = a.union(b); let um = mask(&u);
    if um != ma | mb { bad("union", "union", um, ma | mb); }
    let s = a.subtract(b); let sm = opt(&s);
    if sm != ma & !mb & full { bad("subtract", "difference", sm, ma & !mb & full); }
    if a.intersects(b) != (ma & mb != 0) { r.fail("intersects", format!("{:?} intersects {:?} says {}, but common versions exist: {}", a.as_str(), b.as_str(), a.intersects(b), ma & mb != 0), k()); }
    if a.is_subset_of(b) != (ma & !mb & full == 0) { r.fail("subset", format!("{:?} subset of {:?} says {}, but counterexamples exist: {}", a.as_str(), b.as_str(), a.is_subset_of(b), ma & !mb & full != 0), k()); }
    if a.is_superset_of(b) != (mb & !ma & full == 0) { r.fail("superset", format!("{:?} superset of {:?} says {}", a.as_str(), b.as_str(), a.is_superset_of(b)), k()); }
    if a.is_empty() && ma != 0 || a.is_any() && ma != full { r.fail("degenerate", format!("{:?} claims to be empty/any but is not", a.as_str()), k()); }
}
