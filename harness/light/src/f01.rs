//! F01: both package-filter implementations, every small rule set on every package of a universe,
//! against a predicate written from the documentation; every filter is also judged after a trip
//! through each of its plain-data forms.
use mccore::*;
use rez_next_package::Package;
use rez_next_version::Version;
use serde_json::json;

#[derive(Clone, Copy, Debug, PartialEq)]
enum F { Name, Ver, Desc }
type Pred = fn(&str) -> bool;
/// a version predicate: None where the documentation does not settle the answer
type VPred = fn(&str) -> Option<bool>;
#[derive(Clone, Copy)]
enum K { Glob(F, &'static str), Re(F, &'static str, Pred), Range(&'static str, &'static str, VPred), Ts { before: bool, incl: bool, at: i64 } }
#[derive(Clone, Copy)]
struct M { k: K, fam: Option<&'static str> }
impl M {
    fn label(&self) -> String {
        let f = self.fam.map(|f| format!("{f}: ")).unwrap_or_default();
        match self.k {
            K::Glob(w, p) => format!("{f}glob {w:?} {p:?}"),
            K::Re(w, p, _) => format!("{f}regex {w:?} {p:?}"),
            K::Range(n, s, _) => format!("{f}range {n} {s}"),
            K::Ts { before, incl, at } => format!("{f}time {}{}{at}", if before { "<" } else { ">" }, if incl { "=" } else { "" }),
        }
    }
    fn kind(&self) -> &'static str { match self.k { K::Glob(..) => "glob", K::Re(..) => "regex", K::Range(..) => "range", K::Ts { .. } => "timestamp" } }
}
fn glob(p: &[char], t: &[char], classes: bool) -> bool {
    match p.first() {
        None => t.is_empty(),
        Some('*') => (0..=t.len()).any(|i| glob(&p[1..], &t[i..], classes)),
        Some('?') => !t.is_empty() && glob(&p[1..], &t[1..], classes),
        Some('[') if classes => {
            let e = p.iter().position(|c| *c == ']').unwrap();
            let (neg, set) = if p[1] == '!' { (true, &p[2..e]) } else { (false, &p[1..e]) };
            !t.is_empty() && (set.contains(&t[0]) != neg) && glob(&p[e + 1..], &t[1..], classes)
        }
        Some(c) => t.first() == Some(c) && glob(&p[1..], &t[1..], classes),
    }
}
fn text(p: &Package, f: F) -> String {
    match f { F::Name => p.name.clone(), F::Ver => p.version.as_ref().map(|v| v.as_str().to_string()).unwrap_or_default(), F::Desc => p.description.clone().unwrap_or_default() }
}
fn hit(m: &M, p: &Package, classes: bool) -> Option<bool> {
    if m.fam.is_some_and(|f| f != p.name) { return Some(false); }
    match m.k {
        K::Glob(f, g) => {
            let (a, b): (Vec<char>, Vec<char>) = (g.chars().collect(), text(p, f).chars().collect());
            Some(glob(&a, &b, classes))
        }
        K::Re(f, _, pred) => Some(pred(&text(p, f))),
        K::Range(n, s, v) => {
            if !n.is_empty() && n != p.name { return Some(false); }
            if s.is_empty() { return Some(true); }
            match &p.version { None => Some(false), Some(x) => v(x.as_str()) }
        }
        K::Ts { before, incl, at } => Some(p.timestamp.is_some_and(|t| (incl && t == at) || (t != at && (t < at) == before))),
    }
}
fn num(v: &str) -> Option<f64> { v.parse().ok() }
fn v_any(_: &str) -> Option<bool> { Some(true) }
fn v_ge2(v: &str) -> Option<bool> { num(v).map(|x| x >= 2.0) }
fn v_lt2(v: &str) -> Option<bool> { num(v).map(|x| x < 2.0) }
fn v_eq2(v: &str) -> Option<bool> { num(v).map(|x| x == 2.0) }
fn v_mid(v: &str) -> Option<bool> { num(v).map(|x| (2.0..3.0).contains(&x)) }
fn v_beta(v: &str) -> Option<bool> { if v == "2-beta" { Some(true) } else { num(v).and_then(|x| if x == 2.0 { None } else { Some(x > 2.0) }) } }
fn v_betaonly(v: &str) -> Option<bool> { Some(v == "2-beta") }
fn packages() -> Vec<Package> {
    let mut out = vec![];
    for name in ["aa", "ab", "b", "a)b", "a:b", "a.b"] {
        for v in [None, Some("1"), Some("2"), Some("4"), Some("2-beta")] {
            for (d, ts) in [(None, None), (Some("ab"), Some(9)), (Some("x\nb"), Some(10)), (Some("a\\d"), Some(11))] {
                let mut p = Package::new(name.into());
                p.version = v.map(|v| Version::parse(v).unwrap());
                p.description = d.map(String::from);
                p.timestamp = ts;
                out.push(p);
            }
        }
    }
    out
}
fn show(p: &Package) -> String { format!("{}-{} t={:?} d={:?}", p.name, p.version.as_ref().map(|v| v.as_str()).unwrap_or("(none)"), p.timestamp, p.description) }

/// The verdict the documentation gives: Some(excluded), or None where a rule's answer is open
fn verdict(ex: &[&M], inc: &[&M], p: &Package, classes: bool) -> Option<bool> {
    let e: Vec<_> = ex.iter().map(|m| hit(m, p, classes)).collect();
    let i: Vec<_> = inc.iter().map(|m| hit(m, p, classes)).collect();
    if i.contains(&Some(true)) || e.iter().all(|x| *x == Some(false)) { return Some(false); }
    if i.contains(&None) || !e.contains(&Some(true)) { return None; }
    Some(true)
}
fn label(ex: &[&M], inc: &[&M]) -> String {
    let f = |x: &[&M]| x.iter().map(|m| m.label()).collect::<Vec<_>>().join(" | ");
    format!("exclude {{{}}} include {{{}}}", f(ex), f(inc))
}

mod a {
    use super::*;
    use rez_next_package::filter as pf;
    pub fn rules() -> Vec<K> {
        use F::Name as N;
        let mut v = vec![K::Glob(N, "*"), K::Glob(N, "a?"), K::Glob(N, "*b"), K::Glob(N, "[!b]*"), K::Glob(N, "a)b"), K::Glob(N, "a.b"),
            K::Re(N, "^a", |s| s.starts_with('a')), K::Re(N, "b$", |s| s.ends_with('b')), K::Re(N, "^(?:aa|b)$", |s| s == "aa" || s == "b"), K::Re(N, "a.b", |s| s.len() == 3),
            K::Range("aa", "", v_any), K::Range("aa", ">=2", v_ge2), K::Range("ab", "<2", v_lt2), K::Range("b", "==2", v_eq2), K::Range("aa", ">=2,<3", v_mid)];
        for before in [false, true] { for incl in [false, true] { v.push(K::Ts { before, incl, at: 10 }); } }
        v
    }
    pub fn build(k: &K) -> Box<dyn pf::Rule + Send + Sync> {
        match *k {
            K::Glob(_, p) => Box::new(pf::GlobRule::new(p).unwrap()),
            K::Re(_, p, _) => Box::new(pf::RegexRule::new(p).unwrap()),
            K::Range(n, s, _) => Box::new(pf::RangeRule::new(&format!("{n}{s}")).unwrap()),
            K::Ts { before, incl, at } => Box::new(match (before, incl) {
                (false, false) => pf::TimestampRule::after(at), (true, false) => pf::TimestampRule::before(at),
                (false, true) => pf::TimestampRule::at_or_after(at), (true, true) => pf::TimestampRule::at_or_before(at),
            }),
        }
    }
    pub fn filter(ex: &[&M], inc: &[&M]) -> pf::PackageFilter {
        let mut f = pf::PackageFilter::new();
        for m in ex { f.add_exclusion(m.fam, build(&m.k)); }
        for m in inc { f.add_inclusion(m.fam, build(&m.k)); }
        f
    }
}
mod b {
    use super::*;
    use rez_next_package_filter as pf;
    use std::time::{Duration, UNIX_EPOCH};
    pub fn rules() -> Vec<K> {
        use F::*;
        let mut v = vec![K::Glob(Name, "*"), K::Glob(Name, "a?"), K::Glob(Name, "*b"), K::Glob(Name, "a)b"), K::Glob(Name, "a.b"), K::Glob(Name, "a:b"), K::Glob(Name, "[ab]*"),
            K::Glob(Ver, "2*"), K::Glob(Ver, "?"), K::Glob(Ver, "*4"), K::Glob(Desc, "*b"), K::Glob(Desc, "a\\d"), K::Glob(Desc, "?b"),
            K::Re(Name, "^a", |s| s.starts_with('a')), K::Re(Name, "^(?:aa|b)$", |s| s == "aa" || s == "b"), K::Re(Desc, "b$", |s| s.ends_with('b')),
            K::Range("", ">=2", v_ge2), K::Range("", "<2", v_lt2), K::Range("", "==2", v_eq2), K::Range("", ">=2,<3", v_mid), K::Range("", ">=2-beta", v_beta), K::Range("", "==2-beta", v_betaonly),
            K::Range("aa", ">=2", v_ge2), K::Range("ab", "<2", v_lt2), K::Range("b", "==2", v_eq2)];
        for before in [false, true] { v.push(K::Ts { before, incl: false, at: 10 }); }
        v
    }
    pub fn build(m: &M) -> Box<dyn pf::Rule> {
        use pf::{GlobField as G, RegexField as R};
        match m.k {
            K::Glob(f, p) => Box::new(pf::GlobRule::new(p, match f { F::Name => G::Name, F::Ver => G::Version, F::Desc => G::Description }, m.fam).unwrap()),
            K::Re(f, p, _) => Box::new(pf::RegexRule::new(p, match f { F::Name => R::Name, _ => R::Description }, m.fam).unwrap()),
            K::Range(n, s, _) => Box::new(pf::RangeRule::new(s, if n.is_empty() { m.fam } else { Some(n) }).unwrap()),
            K::Ts { before, at, .. } => Box::new(pf::TimestampRule::new(UNIX_EPOCH + Duration::from_secs(at as u64), before, m.fam)),
        }
    }
    pub fn txt(m: &M) -> Vec<String> {
        let fld = |f| match f { F::Name => "name", F::Ver => "version", F::Desc => "description" };
        match m.k {
            K::Glob(F::Name, p) if !p.contains(':') => {
                let mut v = vec![format!("glob({p})"), format!("glob(name:{p})")];
                if p.contains('*') || p.contains('?') { v.push(p.into()); }
                v
            }
            K::Glob(f, p) => vec![format!("glob({}:{p})", fld(f))],
            K::Re(F::Name, p, _) if !p.contains(':') => vec![format!("regex({p})"), format!("regex(name:{p})")],
            K::Re(f, p, _) => vec![format!("regex({}:{p})", fld(f))],
            K::Range("", s, _) => vec![format!("range({s})"), s.to_string()],
            K::Range(n, s, _) => vec![format!("range({n}-{s})"), format!("{n}-{s}")],
            K::Ts { before, at, .. } => vec![format!("{}({at})", if before { "before" } else { "after" })],
        }
    }
    pub fn filter(ex: &[&M], inc: &[&M]) -> pf::PackageFilter {
        let mut f = pf::PackageFilter::new();
        for m in ex { f.add_exclusion(build(m)); }
        for m in inc { f.add_inclusion(build(m)); }
        f
    }
}

/// every multiset of up to n rules
fn picks(all: &[M], n: usize) -> Vec<Vec<&M>> { (0..=n).flat_map(|k| subsets(all.len(), k)).map(|s| s.into_iter().map(|i| &all[i]).collect()).collect() }

pub fn run(r: &'static Run) {
    let pkgs = packages();
    r.rule("a package is excluded iff it matches an exclusion rule and no inclusion rule; every rule kind matches its documented set; plain-data forms keep the verdicts");
    // A: rez_next_package::filter
    let fams = [None, Some("aa"), Some("b")];
    let all: Vec<M> = a::rules().into_iter().flat_map(|k| fams.iter().map(move |f| M { k, fam: *f })).collect();
    let (ne, ni) = r.pick((2, 1), (2, 2));
    r.bound("A rules (kind x family)", all.len() as u64); r.bound("packages", pkgs.len() as u64);
    r.bound("A exclusion rules per filter", ne as u64); r.bound("A inclusion rules per filter", ni as u64);
    let (exs, incs) = (picks(&all, ne), picks(&all, 2));
    // the rules that match most packages, for filters with two inclusion rules in a quick run
    let mut wide: Vec<usize> = (0..all.len()).collect();
    wide.sort_by_key(|i| std::cmp::Reverse(pkgs.iter().filter(|p| verdict(&[&all[*i]], &[], p, true) == Some(true)).count()));
    let wide: Vec<*const M> = wide[..3].iter().map(|i| &all[*i] as *const M).collect();
    let wide: Vec<usize> = wide.iter().map(|w| *w as usize).collect();
    par(exs.len(), |i| {
        let ex = &exs[i];
        for inc in &incs {
            if r.violated() { return; }
            if ex.len() + inc.len() > 3 || inc.len() > ni && !(ex.len() == 1 && wide.contains(&(ex[0] as *const M as usize))) { continue; }
            let key = |s: &str| format!("package:{s}:{}", ex.iter().chain(inc).map(|m| m.kind()).collect::<Vec<_>>().join("+"));
            let f = a::filter(ex, inc);
            let pod = f.to_pod();
            let back = match rez_next_package::filter::PackageFilter::from_pod(&pod) {
                Ok(b) => b,
                Err(e) => { r.fail(&key("from_pod"), format!("{}: plain-data form {pod:?} is refused: {e}", label(ex, inc)), json!({"rules": label(ex, inc)})); continue }
            };
            let copy = f.clone();
            r.state(1);
            for p in &pkgs {
                r.eval(1);
                let (got, gb, gc) = (f.excludes(p), back.excludes(p), copy.excludes(p));
                if let Some(want) = verdict(ex, inc, p, true) {
                    r.outcome(&(want, ex.len(), inc.len()));
                    if got != want { r.fail(&key("excludes"), format!("{}: package {} {}", label(ex, inc), show(p), if got { "is excluded and should not be" } else { "is not excluded and should be" }), json!({"rules": label(ex, inc), "package": show(p)})); return; }
                }
                if gb != got { r.fail(&key("pod"), format!("{}: package {} excluded={got} before and {gb} after a plain-data round trip", label(ex, inc), show(p)), json!({"rules": label(ex, inc), "package": show(p)})); return; }
                if gc != got { r.fail(&key("clone"), format!("{}: a clone of the filter differs on {}", label(ex, inc), show(p)), json!({"rules": label(ex, inc)})); return; }
            }
            r.trans(1);
        }
    });
    // filter lists and filter_packages: any filter of the list excludes; survivors keep their order
    let singles: Vec<(Vec<&M>, Vec<&M>)> = all.iter().filter(|m| m.fam != Some("b")).flat_map(|m| [(vec![m], vec![]), (vec![m], vec![&all[0 + 3 * 2]])]).collect();
    par(singles.len(), |i| for j in 0..singles.len() {
        if r.violated() { return; }
        let mut l = rez_next_package::filter::PackageFilterList::new();
        for (e, c) in [&singles[i], &singles[j]] { l.add_filter(a::filter(e, c)); }
        let survivors: Vec<String> = l.filter_packages(pkgs.clone()).iter().map(show).collect();
        let want: Vec<Option<String>> = pkgs.iter().filter_map(|p| {
            let v: Vec<_> = [&singles[i], &singles[j]].iter().map(|(e, c)| verdict(e, c, p, true)).collect();
            if v.contains(&Some(true)) { None } else if v.contains(&None) { if l.excludes(p) { None } else { Some(Some(show(p))) } } else { Some(Some(show(p))) }
        }).collect();
        let want: Vec<String> = want.into_iter().flatten().collect();
        r.eval(pkgs.len() as u64); r.state(1);
        if survivors != want { r.fail("package:list", format!("list of {} and {}: keeps {} packages, should keep {}", label(&singles[i].0, &singles[i].1), label(&singles[j].0, &singles[j].1), survivors.len(), want.len()), json!({"got": survivors, "want": want})); return; }
    });
    // B: rez_next_package_filter
    let plain: Vec<M> = b::rules().into_iter().map(|k| M { k, fam: None }).collect();
    r.bound("B rules", plain.len() as u64);
    // each rule alone: built, and parsed from each of its text forms
    for m in plain.iter().copied().chain(plain.iter().filter(|m| !matches!(m.k, K::Range(n, ..) if !n.is_empty())).map(|m| M { k: m.k, fam: Some("aa") })).collect::<Vec<_>>() {
        use rez_next_package_filter::{parse_rule, RuleMatch};
        let rule = b::build(&m);
        for p in &pkgs {
            r.eval(1);
            let got = rule.apply(p) == RuleMatch::Matches;
            if hit(&m, p, false).is_some_and(|w| w != got) { r.fail(&format!("rule:{}", m.kind()), format!("rule {}: matches={got} on {}", m.label(), show(p)), json!({"rule": m.label(), "package": show(p)})); break; }
        }
        let mut texts = if m.fam.is_none() { b::txt(&m) } else { vec![] };
        if m.fam.is_none() { texts.push(rule.to_string()); }
        for t in texts {
            match parse_rule(&t) {
                Err(e) => r.fail(&format!("text:{}", m.kind()), format!("rule text {t:?} is refused: {e}"), json!({"text": t})),
                Ok(q) => for p in &pkgs {
                    r.eval(1);
                    let got = q.apply(p) == RuleMatch::Matches;
                    if hit(&m, p, false).is_some_and(|w| w != got) { r.fail(&format!("text:{}", m.kind()), format!("rule text {t:?}: matches={got} on {}", show(p)), json!({"text": t, "package": show(p)})); break; }
                },
            }
        }
        // a rule scoped to one family, used in a filter
        if m.fam.is_some() {
            let mut f = rez_next_package_filter::PackageFilter::new();
            f.add_exclusion(b::build(&m));
            for p in &pkgs {
                r.eval(1);
                if hit(&m, p, false).is_some_and(|w| w != f.excludes(p).is_some()) {
                    r.fail(&format!("scope:{}", m.kind()), format!("an exclusion rule {} scoped to one family is applied by the filter to {}", m.label(), show(p)), json!({"rule": m.label(), "package": show(p)}));
                    break;
                }
            }
        }
        r.state(1);
    }
    let (exs, incs) = (picks(&plain, 2), picks(&plain, r.pick(1, 2)));
    let pkgs: Vec<Package> = pkgs.into_iter().filter(|p| r.pick(["aa", "b"].contains(&p.name.as_str()), true)).collect();
    par(exs.len(), |i| {
        let ex = &exs[i];
        for inc in &incs {
            if r.violated() { return; }
            if ex.len() + inc.len() > 3 || inc.len() > ni && !(ex.len() == 1 && wide.contains(&(ex[0] as *const M as usize))) { continue; }
            let f = b::filter(ex, inc);
            let key = |s: &str| format!("filter:{s}:{}", ex.iter().chain(inc).map(|m| m.kind()).collect::<Vec<_>>().join("+"));
            let mut forms = vec![("built", f.clone())];
            match rez_next_package_filter::PackageFilter::from_pod(&f.to_pod()) { Ok(b) => forms.push(("plain-data", b)), Err(e) => { r.fail(&key("from_pod"), format!("{}: {:?} refused: {e}", label(ex, inc), f.to_pod()), json!({"rules": label(ex, inc)})); return } }
            match serde_json::to_string(&f).map_err(|e| e.to_string()).and_then(|s| serde_json::from_str(&s).map_err(|e| format!("{s}: {e}"))) { Ok(b) => forms.push(("serialised", b)), Err(e) => { r.fail(&key("serde"), format!("{}: {e}", label(ex, inc)), json!({"rules": label(ex, inc)})); return } }
            if !r.thorough && ex.len() + inc.len() > 2 { forms.truncate(1); }
            r.state(forms.len() as u64);
            for p in &pkgs {
                let base = f.excludes(p).is_some();
                let want = verdict(ex, inc, p, false);
                for (name, g) in &forms {
                    r.eval(1);
                    let got = g.excludes(p);
                    if want.unwrap_or(base) != got.is_some() { r.fail(&key(name), format!("{} ({name}): {} on {}", label(ex, inc), if got.is_some() { "is excluded and should not be" } else { "is not excluded and should be" }, show(p)), json!({"rules": label(ex, inc), "package": show(p)})); return; }
                    if let (Some(w), &"built") = (got, name) {
                        // the rule named as the reason does match
                        let named = rez_next_package_filter::parse_rule(&format!("{}({})", w.rule_type, w.pattern));
                        if !named.is_ok_and(|q| q.apply(p) == rez_next_package_filter::RuleMatch::Matches) { r.fail(&key("reason"), format!("{}: {} is excluded by {w:?}, which does not match it", label(ex, inc), show(p)), json!({"rules": label(ex, inc)})); return; }
                    }
                    let vis = g.includes(p);
                    if vis == got.is_some() { r.fail(&key("includes"), format!("{}: {} is both excluded={} and visible={vis}", label(ex, inc), show(p), got.is_some()), json!({"rules": label(ex, inc)})); return; }
                    r.outcome(&(got.is_some(), name));
                }
            }
            r.trans(1);
        }
    });
    r.trace(plain.len() as u64 + all.len() as u64);
}
