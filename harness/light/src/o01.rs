//! O01: package orderers, every arrangement of every small package multiset.
use mccore::*;
use rez_next_package::{package_order::*, Package};
use rez_next_version::Version;
use serde_json::json;
use std::collections::{BTreeMap, HashMap};

/// name, version rank (position in the documented order of the universe's versions), timestamp
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct P(&'static str, Option<usize>, Option<i64>);
const VERS: [&str; 4] = ["1.2", "1.10", "2", "10"];
fn mk(p: &P) -> Package {
    let mut k = Package::new(p.0.into());
    k.version = p.1.map(|i| Version::parse(VERS[i]).unwrap());
    k.timestamp = p.2;
    k
}
fn un(k: &Package) -> P {
    let names = ["aa", "b", "c"];
    P(names.into_iter().find(|n| *n == k.name).unwrap_or("?"), k.version.as_ref().map(|v| VERS.iter().position(|x| *x == v.as_str()).unwrap_or(99)), k.timestamp)
}
#[derive(Clone, Debug)]
enum O { Null, Sorted(bool), Split(usize), Time(i64), Fam(Vec<(&'static str, O)>, Option<Box<O>>) }
fn build(o: &O) -> Box<dyn PackageOrder> {
    match o {
        O::Null => Box::new(NullPackageOrder::new(None)),
        O::Sorted(d) => Box::new(SortedOrder::new(*d, None)),
        O::Split(v) => Box::new(VersionSplitPackageOrder::new(Version::parse(VERS[*v]).unwrap(), None)),
        O::Time(t) => Box::new(TimestampPackageOrder::new(*t, 0, None)),
        O::Fam(d, def) => Box::new(PerFamilyOrder::new(d.iter().map(|(k, v)| (k.to_string(), build(v))).collect::<HashMap<_, _>>(), def.as_ref().map(|o| build(o)))),
    }
}
/// the documented sort key of a package under an orderer; packages of equal key are ties
fn key(o: &O, p: &P) -> (i64, i64) {
    match o {
        O::Null => (0, 0),
        O::Sorted(d) => match p.1 { None => (1, 0), Some(v) => (0, if *d { -(v as i64) } else { v as i64 }) },
        O::Split(s) => match p.1 { None => (2, 0), Some(v) => ((v > *s) as i64, v as i64) },
        O::Time(t) => { let x = p.2.unwrap_or(0); ((x > *t) as i64, -x) }
        O::Fam(..) => unreachable!(),
    }
}
/// Is `out` a correct order of the input?
fn judge(o: &O, input: &[P], out: &[P]) -> Result<(), String> {
    let (mut a, mut b) = (input.to_vec(), out.to_vec());
    a.sort(); b.sort();
    if a != b { return Err("is not a permutation of the input".into()); }
    match o {
        O::Fam(d, def) => {
            // each family is contiguous and ordered by its own orderer
            let mut seen: Vec<&str> = vec![];
            for p in out { if seen.last() != Some(&p.0) { if seen.contains(&p.0) { return Err(format!("scatters family {}", p.0)); } seen.push(p.0); } }
            for f in seen {
                let (i, g): (Vec<P>, Vec<P>) = (input.iter().filter(|p| p.0 == f).copied().collect(), out.iter().filter(|p| p.0 == f).copied().collect());
                let sub = d.iter().find(|(k, _)| *k == f).map(|x| &x.1).or(def.as_deref()).cloned().unwrap_or(O::Null);
                if matches!(sub, O::Null) { if i != g { return Err(format!("reorders family {f}, which has no order")); } continue; }
                judge(&sub, &i, &g)?;
            }
            Ok(())
        }
        O::Null => if input == out { Ok(()) } else { Err("reorders without an order".into()) },
        _ => out.windows(2).find(|w| key(o, &w[0]) > key(o, &w[1])).map_or(Ok(()), |w| Err(format!("puts {:?} before {:?}", w[0], w[1]))),
    }
}
/// the answer up to ties, so that arrangements can be compared
fn canon(o: &O, out: &[P]) -> Vec<(i64, (i64, i64), Vec<P>)> {
    let mut v: Vec<(i64, (i64, i64), Vec<P>)> = vec![];
    let mut fam = -1;
    let mut last = "";
    for p in out {
        let k = match o {
            O::Fam(d, def) => { if p.0 != last { fam += 1; last = p.0; } let sub = d.iter().find(|(k, _)| *k == p.0).map(|x| &x.1).or(def.as_deref()).cloned().unwrap_or(O::Null); key(&sub, p) }
            _ => { key(o, p) }
        };
        match v.last_mut() { Some(x) if x.0 == fam && x.1 == k => { x.2.push(*p); x.2.sort(); } _ => v.push((fam, k, vec![*p])) }
    }
    v
}
pub fn run(r: &'static Run) {
    let uni: Vec<P> = {
        let mut v = vec![];
        for (n, vs) in [("aa", vec![None, Some(0), Some(1), Some(2), Some(3)]), ("b", vec![None, Some(1), Some(3)])] { for x in vs { v.push(P(n, x, None)); } }
        v.extend([P("aa", Some(1), Some(50)), P("aa", Some(2), Some(100)), P("b", Some(0), Some(101)), P("c", None, Some(200)), P("c", Some(2), Some(50)), P("aa", None, Some(-3))]);
        v
    };
    let simple = vec![O::Null, O::Sorted(true), O::Sorted(false), O::Split(0), O::Split(1), O::Split(3), O::Time(100), O::Time(0), O::Time(49)];
    let mut os = simple.clone();
    for d in [None, Some(O::Null), Some(O::Sorted(true)), Some(O::Time(100))] {
        for x in &simple {
            os.push(O::Fam(vec![("aa", x.clone())], d.clone().map(Box::new)));
            os.push(O::Fam(vec![("aa", x.clone()), ("b", O::Sorted(false))], d.clone().map(Box::new)));
        }
        os.push(O::Fam(vec![], d.map(Box::new)));
    }
    let n = r.pick(4, 5);
    r.rule("an orderer's answer is a permutation of its input in the documented order, the same for every arrangement, and an orderer read back from plain data answers identically");
    r.bound("packages in the universe", uni.len() as u64); r.bound("packages per list", n as u64); r.bound("orderers", os.len() as u64);
    let sets: Vec<Vec<usize>> = (0..=n).flat_map(|k| subsets(uni.len(), k)).collect();
    let sets: Vec<Vec<usize>> = sets.iter().cloned().chain(sets.iter().filter(|s| !s.is_empty() && s.len() < n).map(|s| { let mut t = s.clone(); t.push(s[0]); t })).collect();
    par(os.len(), |i| {
        let o = &os[i];
        let (real, name) = (build(o), format!("{o:?}"));
        let kind = real.name().to_string();
        let pod = real.to_pod();
        let text = serde_json::to_string(&pod).unwrap();
        let back = match from_pod(&serde_json::from_str(&text).unwrap()) { Some(b) => b, None => { r.fail(&format!("from_pod:{kind}"), format!("orderer {name}: its plain-data form {text} is not readable"), json!({"orderer": name})); return } };
        if to_pod(&*back) != pod { r.fail(&format!("pod:{kind}"), format!("orderer {name}: reads back as {}", back.to_pod()), json!({"orderer": name})); }
        if back.sha1() != real.sha1() || real.clone().sha1() != real.sha1() { r.fail(&format!("sha1:{kind}"), format!("orderer {name}: hash changes on a round trip or copy"), json!({"orderer": name})); }
        let copy = real.clone();
        for s in &sets {
            if r.violated() { return; }
            let base: Vec<P> = s.iter().map(|k| uni[*k]).collect();
            r.state(1);
            let mut first: Option<Vec<_>> = None;
            for arr in permutations(&base) {
                r.eval(1);
                let pk: Vec<Package> = arr.iter().map(mk).collect();
                let ask = |w: &dyn PackageOrder| guard(|| w.reorder(&pk).map(|v| v.iter().map(un).collect::<Vec<P>>()));
                let bad = |key: &str, m: String| r.fail(&format!("{key}:{kind}"), format!("orderer {name} on {arr:?}: {m}"), json!({"orderer": name, "packages": format!("{arr:?}")}));
                let got = match ask(&*real) { Ok(g) => g, Err(e) => { bad("panic", format!("panics: {e}")); return } };
                for (w, q) in [("read back from plain data", &back), ("copied", &copy)] {
                    match ask(&**q) { Ok(g) if g == got => {} x => { bad("differs", format!("the orderer {w} answers {x:?}, the original {got:?}")); return } }
                }
                let out = match got { None => { if !matches!(o, O::Null) { bad("none", "gives no answer".into()); return } continue } Some(g) => g };
                if let Err(e) = judge(o, &arr, &out) { bad("order", format!("{e}: {out:?}")); return; }
                let c = canon(o, &out);
                r.outcome(&c);
                match &first { None => first = Some(c), Some(f) if *f == c => {} Some(f) => { bad("arrangement", format!("answers {c:?} for this arrangement and {f:?} for another of the same packages")); return } }
                r.trans(1);
            }
        }
    });
    // orderer lists: the first orderer that applies to a family is used, before and after a plain-data round trip
    let scopes: Vec<Option<Vec<String>>> = vec![None, Some(vec!["aa".into()]), Some(vec!["b".into(), "c".into()]), Some(vec![])];
    let mk_o = |k: usize, sc: &Option<Vec<String>>| -> Box<dyn PackageOrder> { match k { 0 => Box::new(SortedOrder::new(true, sc.clone())), 1 => Box::new(VersionSplitPackageOrder::new(Version::parse("2").unwrap(), sc.clone())), 2 => Box::new(TimestampPackageOrder::new(100, 0, sc.clone())), _ => Box::new(NullPackageOrder::new(sc.clone())) } };
    let cells: Vec<(usize, usize)> = (0..4).flat_map(|a| (0..scopes.len()).map(move |b| (a, b))).collect();
    for seq in sequences(&cells, 3) {
        let mut l = PackageOrderList::new();
        for (k, s) in &seq { l.append(mk_o(*k, &scopes[*s])); }
        let back = PackageOrderList::from_pod(&l.to_pod());
        for f in ["aa", "b", "c", "zz"] {
            let want = seq.iter().find(|(_, s)| scopes[*s].as_ref().is_none_or(|v| v.iter().any(|x| x == f))).map(|(k, s)| mk_o(*k, &scopes[*s]).to_pod());
            let exp = want.clone().unwrap_or_else(|| NullPackageOrder::new(None).to_pod());
            for (w, x) in [("list", &l), ("list read back", &back)] {
                r.eval(1);
                if x.get(f).map(|o| o.to_pod()) != want || get_orderer(f, Some(x)).to_pod() != exp { r.fail("list", format!("{w} {:?}: family {f} gets {:?}", l.to_pod(), x.get(f).map(|o| o.to_pod())), json!({"list": l.to_pod(), "family": f})); return; }
            }
        }
        r.state(1);
    }
    // equal configurations hash equally whatever order their parts were given in
    let parts: Vec<(&str, O)> = vec![("aa", O::Sorted(true)), ("b", O::Split(1)), ("c", O::Time(100)), ("d", O::Null)];
    let mut hs: BTreeMap<String, usize> = BTreeMap::new();
    for p in permutations(&parts) { *hs.entry(build(&O::Fam(p, None)).sha1()).or_default() += 1; r.trace(1); }
    if hs.len() != 1 { r.fail("sha1:per_family", format!("the same per-family order hashes to {} different values", hs.len()), json!({})); }
}
