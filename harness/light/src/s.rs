//! S01/S02/S03: dependency resolution against a brute-force oracle over every small universe.
use mccore::*;
use rez_next_common::RezCoreError;
use rez_next_package::{Package, Requirement};
use rez_next_repository::simple_repository::{PackageRepository, RepositoryManager};
use rez_next_solver::{DependencyResolver, SolverConfig};
use rez_next_version::Version;
use serde_json::{json, Value};
use std::path::Path;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Pos, Weak, Conf }
#[derive(Clone, Debug)]
pub struct Dep { pub text: String, pub fam: usize, pub mask: u8, pub kind: Kind }
/// what a package version asks for
#[derive(Clone, Debug, Default)]
pub struct Opt { pub deps: Vec<Dep>, pub variants: Vec<Vec<Dep>> }

pub const FAM: [&str; 4] = ["fa", "fb", "fc", "fd"];
pub const ALLV: [&str; 3] = ["1", "2", "3"];

/// every constraint text on family `f` with `nv` versions, its version mask computed here
fn specs(nv: usize, rich: bool) -> Vec<(String, u8)> {
    let all = (1u8 << nv) - 1;
    let mut o = vec![(String::new(), all)];
    for v in 0..nv { o.push((format!("-{}", ALLV[v]), 1 << v)); }
    if rich {
        o.push((format!("-{}+", ALLV[1]), all & !1));
        o.push((format!("<{}", ALLV[nv - 1]), all & !(1 << (nv - 1))));
        if nv == 3 { o.push(("!=2".into(), 0b101)); }
    }
    o
}
pub fn deps_on(f: usize, nv: usize, kinds: &[Kind], rich: bool) -> Vec<Dep> {
    let mut out = vec![];
    for k in kinds { for (s, m) in specs(nv, rich) {
        if *k == Kind::Weak && s.is_empty() { continue; }
        let p = match k { Kind::Pos => "", Kind::Weak => "~", Kind::Conf => "!" };
        out.push(Dep { text: format!("{p}{}{s}", FAM[f]), fam: f, mask: m, kind: *k });
    } }
    out
}
pub fn dep(t: &str) -> Dep {
    let (k, rest) = match t.as_bytes()[0] { b'~' => (Kind::Weak, &t[1..]), b'!' => (Kind::Conf, &t[1..]), _ => (Kind::Pos, t) };
    let fam = FAM.iter().position(|f| rest.starts_with(f)).unwrap();
    let s = &rest[2..];
    let mask = specs(3, true).into_iter().find(|x| x.0 == s).map(|x| x.1).unwrap_or_else(|| panic!("spec {s}"));
    Dep { text: t.into(), fam, mask: if s.is_empty() { 7 } else { mask }, kind: k }
}
pub fn upto(deps: &[Dep], k: usize) -> Vec<Opt> {
    subsets(deps.len(), k).into_iter().map(|s| Opt { deps: s.into_iter().map(|i| deps[i].clone()).collect(), variants: vec![] }).collect()
}

/// A family of universes: for each (family, version) the list of possible definitions.
pub struct Space { pub name: &'static str, pub nf: usize, pub nv: Vec<usize>, pub opts: Vec<Vec<Opt>>, pub requests: Vec<Vec<Dep>>, pub acyclic: bool, pkgs: Vec<Vec<Arc<Package>>>, reqs: Vec<Vec<Requirement>>, oreqs: Vec<Vec<Vec<Vec<Dep>>>> }
impl Space {
    pub fn new(name: &'static str, nv: Vec<usize>, opts: Vec<Vec<Opt>>, requests: Vec<Vec<Dep>>, acyclic: bool) -> Space {
        let mut pkgs = vec![]; let mut i = 0; let mut oreqs = vec![];
        for (f, n) in nv.iter().enumerate() { for v in 0..*n {
            pkgs.push(opts[i].iter().map(|o| {
                let mut p = Package::new(FAM[f].to_string());
                p.version = Some(Version::parse(ALLV[v]).unwrap());
                p.requires = o.deps.iter().map(|d| d.text.clone()).collect();
                p.variants = o.variants.iter().map(|w| w.iter().map(|d| d.text.clone()).collect()).collect();
                Arc::new(p)
            }).collect::<Vec<_>>());
            // per option, per variant: the complete requirement list
            oreqs.push(opts[i].iter().map(|o| if o.variants.is_empty() { vec![o.deps.clone()] } else { o.variants.iter().map(|w| o.deps.iter().chain(w).cloned().collect()).collect() }).collect());
            i += 1;
        } }
        assert_eq!(i, opts.len());
        let reqs = requests.iter().map(|r| r.iter().map(|d| d.text.parse().unwrap()).collect()).collect();
        Space { name, nf: nv.len(), nv, opts, requests, acyclic, pkgs, reqs, oreqs }
    }
    pub fn count(&self) -> usize { self.opts.iter().map(|o| o.len()).product() }
    fn slot(&self, f: usize, v: usize) -> usize { self.nv[..f].iter().sum::<usize>() + v }
    fn decode(&self, mut u: usize) -> Vec<usize> { self.opts.iter().map(|o| { let c = u % o.len(); u /= o.len(); c }).collect() }
    fn describe(&self, c: &[usize], q: usize) -> Value {
        let mut m = serde_json::Map::new();
        for f in 0..self.nf { for v in 0..self.nv[f] { let p = &self.pkgs[self.slot(f, v)][c[self.slot(f, v)]]; m.insert(format!("{}-{}", FAM[f], ALLV[v]), json!({"requires": p.requires, "variants": p.variants})); } }
        json!({"space": self.name, "packages": m, "request": self.requests[q].iter().map(|d| &d.text).collect::<Vec<_>>()})
    }
}

pub struct MemRepo { pub pkgs: Vec<Arc<Package>> }
#[async_trait::async_trait]
impl PackageRepository for MemRepo {
    async fn find_packages(&self, name: &str) -> Result<Vec<Arc<Package>>, RezCoreError> { Ok(self.pkgs.iter().filter(|p| p.name == name).cloned().collect()) }
    async fn get_package(&self, name: &str, version: Option<&str>) -> Result<Option<Arc<Package>>, RezCoreError> {
        Ok(self.pkgs.iter().find(|p| p.name == name && (version.is_none() || p.version.as_ref().map(|v| v.as_str()) == version)).cloned())
    }
    async fn list_packages(&self) -> Result<Vec<String>, RezCoreError> { let mut v: Vec<String> = self.pkgs.iter().map(|p| p.name.clone()).collect(); v.sort(); v.dedup(); Ok(v) }
    fn name(&self) -> &str { "mem" }
    fn root_path(&self) -> &Path { Path::new("/mem") }
}
pub fn manager(pkgs: Vec<Arc<Package>>) -> Arc<RepositoryManager> {
    let mut m = RepositoryManager::new();
    m.add_repository(Box::new(MemRepo { pkgs }));
    Arc::new(m)
}

/// family -> (version index, variant index)
pub type Sol = [Option<(u8, u8)>; 4];

/// Is `s` a solution? None if so, else what is wrong.
fn judge(sp: &Space, c: &[usize], q: &[Dep], s: &Sol) -> Option<String> {
    let holds = |d: &Dep, who: &str| -> Option<String> {
        match (d.kind, s[d.fam]) {
            (Kind::Pos, None) => Some(format!("{who} requires {} but it is not in the result", d.text)),
            (Kind::Pos | Kind::Weak, Some((v, _))) if d.mask >> v & 1 == 0 => Some(format!("{who} requires {} but the result has {}-{}", d.text, FAM[d.fam], ALLV[v as usize])),
            (Kind::Conf, Some((v, _))) if d.mask >> v & 1 == 1 => Some(format!("{who} conflicts with {} but the result has {}-{}", d.text, FAM[d.fam], ALLV[v as usize])),
            _ => None,
        }
    };
    for d in q { if let Some(e) = holds(d, "the request") { return Some(e); } }
    let mut reach = 0u8; let mut stack: Vec<usize> = q.iter().filter(|d| d.kind == Kind::Pos).map(|d| d.fam).collect();
    for f in &stack { reach |= 1 << f; }
    for f in 0..sp.nf { if let Some((v, w)) = s[f] {
        let sl = sp.slot(f, v as usize);
        for d in &sp.oreqs[sl][c[sl]][w as usize] { if let Some(e) = holds(d, &format!("{}-{}", FAM[f], ALLV[v as usize])) { return Some(e); } }
    } }
    while let Some(f) = stack.pop() { if let Some((v, w)) = s[f] {
        let sl = sp.slot(f, v as usize);
        for d in &sp.oreqs[sl][c[sl]][w as usize] { if d.kind == Kind::Pos && reach >> d.fam & 1 == 0 { reach |= 1 << d.fam; stack.push(d.fam); } }
    } }
    for f in 0..sp.nf { if s[f].is_some() && reach >> f & 1 == 0 { return Some(format!("{} is in the result although nothing requires it", FAM[f])); } }
    None
}
/// does the result contain a dependency cycle (through hard requirements)?
fn cyclic(sp: &Space, c: &[usize], s: &Sol) -> bool {
    let mut adj = [0u8; 4];
    for f in 0..sp.nf { if let Some((v, w)) = s[f] { let sl = sp.slot(f, v as usize); for d in &sp.oreqs[sl][c[sl]][w as usize] { if d.kind == Kind::Pos { adj[f] |= 1 << d.fam; } } } }
    for _ in 0..4 { for f in 0..4 { let mut x = adj[f]; for g in 0..4 { if adj[f] >> g & 1 == 1 { x |= adj[g]; } } adj[f] = x; } }
    (0..4).any(|f| adj[f] >> f & 1 == 1)
}
fn solutions(sp: &Space, c: &[usize], q: &[Dep], first_only: bool) -> Vec<Sol> {
    let mut out = vec![];
    fn go(sp: &Space, c: &[usize], q: &[Dep], f: usize, s: &mut Sol, out: &mut Vec<Sol>, first: bool) {
        if first && !out.is_empty() { return; }
        if f == sp.nf { if judge(sp, c, q, s).is_none() { out.push(*s); } return; }
        s[f] = None; go(sp, c, q, f + 1, s, out, first);
        for v in 0..sp.nv[f] { let sl = sp.slot(f, v); for w in 0..sp.oreqs[sl][c[sl]].len() { s[f] = Some((v as u8, w as u8)); go(sp, c, q, f + 1, s, out, first); } }
        s[f] = None;
    }
    go(sp, c, q, 0, &mut [None; 4], &mut out, first_only);
    out
}
/// Latest version of everything the request pulls in (no variants), if that is admissible.
fn all_extreme(sp: &Space, c: &[usize], q: &[Dep], latest: bool) -> Option<Sol> {
    let mut s: Sol = [None; 4];
    let mut st: Vec<usize> = q.iter().filter(|d| d.kind == Kind::Pos).map(|d| d.fam).collect();
    while let Some(f) = st.pop() {
        if s[f].is_some() { continue; }
        let v = if latest { sp.nv[f] - 1 } else { 0 };
        s[f] = Some((v as u8, 0));
        let sl = sp.slot(f, v);
        if sp.oreqs[sl][c[sl]].len() > 1 { return None; }
        for d in &sp.oreqs[sl][c[sl]][0] { if d.kind == Kind::Pos { st.push(d.fam); } }
    }
    judge(sp, c, q, &s).is_none().then_some(s)
}

pub fn config(strict: bool, latest: bool) -> SolverConfig { SolverConfig { strict_mode: strict, prefer_latest: latest, ..Default::default() } }
pub struct Res { pub sol: Sol, pub order: Vec<(usize, u8, u8)>, pub failed: Vec<String>, pub dup: Option<String> }
fn run_one(sp: &Space, c: &[usize], q: usize, m: &Arc<RepositoryManager>, cfg: &SolverConfig) -> Result<Res, String> {
    let mut rs = DependencyResolver::new(m.clone(), cfg.clone());
    step_begin(sp.name, [c.iter().zip(&sp.opts).rev().fold(0u64, |a, (x, o)| a * o.len() as u64 + *x as u64), q as u64, cfg.strict_mode as u64, 0]);
    let out = futures::executor::block_on(rs.resolve(sp.reqs[q].clone()));
    step_end();
    let out = out.map_err(|e| e.to_string())?;
    let mut res = Res { sol: [None; 4], order: vec![], failed: out.failed_requirements.iter().map(|r| r.to_string()).collect(), dup: None };
    for i in &out.resolved_packages {
        let f = FAM.iter().position(|x| *x == i.package.name).unwrap();
        let ver = i.package.version.as_ref().unwrap();
        let v = ALLV.iter().position(|x| *x == ver.as_str()).unwrap();
        if res.sol[f].is_some() { res.dup = Some(format!("{} appears twice in the result", FAM[f])); }
        // the package handed out must be the one the repository holds
        if v >= sp.nv[f] || !Arc::ptr_eq(&i.package, &sp.pkgs[sp.slot(f, v)][c[sp.slot(f, v)]]) && i.package.requires != sp.pkgs[sp.slot(f, v)][c[sp.slot(f, v)]].requires { res.dup = Some(format!("{}-{} in the result is not the repository's package", FAM[f], ver)); continue; }
        let nvar = i.package.variants.len();
        let w = i.variant_index.unwrap_or(0);
        if (nvar == 0) != i.variant_index.is_none() || nvar > 0 && w >= nvar { res.dup = Some(format!("{}-{} has variant {:?} of {nvar}", FAM[f], ver, i.variant_index)); }
        res.sol[f] = Some((v as u8, w as u8));
        res.order.push((f, v as u8, w as u8));
    }
    Ok(res)
}

pub fn spaces(r: &Run) -> Vec<Space> {
    use Kind::*;
    let d = dep;
    let mut out = vec![];
    // 1. chain with shared target: fa -> {fb, fc}, fb -> fc ; two versions each
    let a: Vec<Dep> = deps_on(1, 2, &[Pos, Weak, Conf], false).into_iter().chain(deps_on(2, 2, &[Pos, Weak, Conf], false)).collect();
    let b = deps_on(2, 2, &[Pos, Weak, Conf], false);
    let reqs: Vec<Vec<Dep>> = [vec!["fa"], vec!["fa", "fb"], vec!["fb", "fa"], vec!["fc", "fa"], vec!["fa", "fc-1"], vec!["fb-1", "fa"], vec!["fa", "~fc-1"], vec!["~fb-1", "fa"], vec!["fa", "!fc-2"], vec!["!fb", "fa"], vec!["fc", "fb", "fa"], vec!["fa", "fa-1"], vec!["fb", "fc", "!fa"]]
        .into_iter().map(|v| v.into_iter().map(d).collect()).collect();
    let ao = if r.thorough { upto(&a, 2) } else { let mut o = upto(&a, 1); for i in 0..8 { for j in 8..a.len() { o.push(Opt { deps: vec![a[i].clone(), a[j].clone()], variants: vec![] }); } } o };
    let bo = upto(&b, 1);
    out.push(Space::new("chain", vec![2, 2, 2], vec![if r.thorough { ao.clone() } else { upto(&a, 1) }, ao, bo.clone(), bo, vec![Opt::default()], vec![Opt::default()]], reqs.clone(), true));
    // 2. diamond: fb and fc both constrain fd (3 versions, rich constraints)
    let bd = upto(&deps_on(3, 3, if r.thorough { &[Pos, Weak, Conf][..] } else { &[Pos, Conf][..] }, true), 1);
    let none = vec![Opt::default()];
    let reqs4: Vec<Vec<Dep>> = [vec!["fb", "fc"], vec!["fc", "fb"], vec!["fd", "fb", "fc"], vec!["fb", "fc", "fd<3"], vec!["fb", "fc", "!fd-3"], vec!["fb", "~fd-2+", "fc"], vec!["fd-1", "fb", "fc-2"]].into_iter().map(|v| v.into_iter().map(d).collect()).collect();
    out.push(Space::new("diamond", vec![1, 2, 2, 3], vec![none.clone(), bd.clone(), bd.clone(), bd.clone(), bd, none.clone(), none.clone(), none.clone()], reqs4, true));
    // 3. variants: fa's versions have 0-2 variants over fb and fc
    let va: Vec<Dep> = ["fb-1", "fb-2", "fc-1", "fc-2", "!fb-2", "~fc-1"].iter().map(|s| d(s)).collect();
    let vl: Vec<Vec<Dep>> = subsets(va.len(), 2).into_iter().map(|s| s.into_iter().map(|i| va[i].clone()).collect()).collect();
    let mut vo: Vec<Opt> = vec![Opt::default()];
    for x in &vl { vo.push(Opt { deps: vec![], variants: vec![x.clone()] }); for y in vl.iter().filter(|y| r.thorough || y.len() < 2) { vo.push(Opt { deps: vec![], variants: vec![x.clone(), y.clone()] }); } }
    if r.thorough { for x in vl.iter().take(7) { for y in vl.iter().take(7) { vo.push(Opt { deps: vec![d("fc")], variants: vec![x.clone(), y.clone()] }); for z in vl.iter().take(7) { vo.push(Opt { deps: vec![], variants: vec![x.clone(), y.clone(), z.clone()] }); } } } }
    let vb = upto(&b, 1);
    let v1 = vec![Opt::default(), Opt { deps: vec![d("fc-1")], variants: vec![] }, Opt { deps: vec![], variants: vec![vec![d("fb-1")], vec![d("fc-2")]] }];
    out.push(Space::new("variants", vec![2, 2, 2], vec![v1, vo, vb.clone(), vb, none.clone(), none.clone()], reqs.clone(), true));
    // 4. every dependency direction (cycles possible): one dependency per package
    let kinds: &[Kind] = if r.thorough { &[Pos, Weak, Conf] } else { &[Pos, Conf] };
    let free = |f: usize| -> Vec<Opt> { upto(&(0..3).filter(|g| *g != f).flat_map(|g| deps_on(g, 2, kinds, false)).collect::<Vec<_>>(), 1) };
    let reqs3: Vec<Vec<Dep>> = [vec!["fa"], vec!["fa", "fb"], vec!["fb-1", "fa"]].into_iter().map(|v| v.into_iter().map(d).collect()).collect();
    if r.thorough {
        out.push(Space::new("free", vec![2, 2, 2], vec![free(0), free(0), free(1), free(1), none.clone(), free(2)], reqs3, false));
    } else {
        let po = |f: usize| -> Vec<Opt> { upto(&(0..3).filter(|g| *g != f).flat_map(|g| deps_on(g, 2, &[Pos], false)).collect::<Vec<_>>(), 1) };
        out.push(Space::new("free", vec![2, 2, 2], vec![free(0), po(0), po(1), free(1), none.clone(), po(2)], reqs3, false));
    }
    out
}

pub fn s01(r: &'static Run) {
    watchdog(r, 20);
    front_end(r);
    r.rule("every package universe of each space (all assignments of requirement/conflict/weak/variant lists to every package version) x every request list; the result of the real resolver is judged requirement by requirement, strict and non-strict, latest- and oldest-first");
    for sp in spaces(r) {
        let n = sp.count();
        r.state(n as u64); r.part(sp.name, "universes", n as u64); r.part(sp.name, "requests", sp.requests.len() as u64);
        par_chunks(n, |u| {
            let c = sp.decode(u);
            let m = manager((0..c.len()).map(|i| sp.pkgs[i][c[i]].clone()).collect());
            for q in 0..sp.requests.len() {
                for (strict, latest) in [(true, true), (true, false), (false, true)] {
                    r.trans(1);
                    match guard(|| run_one(&sp, &c, q, &m, &config(strict, latest))) {
                        Err(p) => r.fail("panic", format!("resolver panicked: {p}"), sp.describe(&c, q)),
                        Ok(Err(_)) => {}
                        Ok(Ok(res)) => {
                            r.eval(1);
                            if let Some(e) = &res.dup { r.fail("result-shape", e.clone(), sp.describe(&c, q)); continue; }
                            if !strict && !res.failed.is_empty() { continue; }
                            if strict && !res.failed.is_empty() { r.fail("strict-failed", format!("strict resolve succeeded with failed requirements {:?}", res.failed), sp.describe(&c, q)); }
                            r.outcome(&res.sol);
                            if let Some(e) = judge(&sp, &c, &sp.requests[q], &res.sol) {
                                r.fail(if strict { "strict-unsound" } else { "unsound" }, format!("{} resolve succeeded with {:?}, but {e}", if strict { "strict" } else { "non-strict" }, show(&res.sol)), sp.describe(&c, q));
                            } else if cyclic(&sp, &c, &res.sol) { r.fail("cycle", format!("resolve succeeded with a dependency cycle {:?}", show(&res.sol)), sp.describe(&c, q)); }
                        }
                    }
                }
            }
        });
    }
}
pub fn show(s: &Sol) -> Vec<String> { (0..4).filter_map(|f| s[f].map(|(v, w)| format!("{}-{}[{w}]", FAM[f], ALLV[v as usize]))).collect() }
pub fn par_chunks(n: usize, f: impl Fn(usize) + Sync) { let k = 64; par(n.div_ceil(k), |i| for u in i * k..((i + 1) * k).min(n) { f(u) }) }

pub fn s02(r: &'static Run) {
    watchdog(r, 20);
    prerelease(r);
    r.rule("every package universe of each acyclic space x every request list: the real resolver's verdict compared with brute-force enumeration of every assignment of versions and variants; termination checked on the cyclic space too");
    for sp in spaces(r) {
        let n = sp.count();
        r.state(n as u64); r.part(sp.name, "universes", n as u64);
        par_chunks(n, |u| {
            let c = sp.decode(u);
            let m = manager((0..c.len()).map(|i| sp.pkgs[i][c[i]].clone()).collect());
            for q in 0..sp.requests.len() {
                r.trans(1);
                let got = match guard(|| run_one(&sp, &c, q, &m, &config(true, true))) { Ok(g) => g, Err(p) => { r.fail("panic", format!("resolver panicked: {p}"), sp.describe(&c, q)); continue } };
                if !sp.acyclic { continue; }
                let sols = solutions(&sp, &c, &sp.requests[q], true);
                r.eval(1); r.outcome(&(sols.is_empty(), got.is_ok(), got.as_ref().ok().map(|g| g.sol)));
                match (&got, sols.first()) {
                    (Err(e), Some(s)) => { r.fail("incomplete", format!("resolve failed ({e}) although {:?} satisfies the request", show(s)), sp.describe(&c, q)); continue }
                    (Ok(g), None) => { r.fail("phantom", format!("resolve reported {:?} although no assignment satisfies the request", show(&g.sol)), sp.describe(&c, q)); continue }
                    _ => {}
                }
                if let (Ok(g), Some(best)) = (&got, all_extreme(&sp, &c, &sp.requests[q], true)) {
                    r.trace(1);
                    if g.sol != best { r.fail("not-latest", format!("resolve chose {:?} although the latest versions {:?} are admissible", show(&g.sol), show(&best)), sp.describe(&c, q)); }
                }
                if let Some(low) = all_extreme(&sp, &c, &sp.requests[q], false) {
                    match run_one(&sp, &c, q, &m, &config(true, false)) {
                        Ok(g) if g.sol == low => {}
                        g => r.fail("not-oldest", format!("oldest-first resolve chose {:?} although {:?} is admissible", g.map(|g| show(&g.sol)), show(&low)), sp.describe(&c, q)),
                    }
                }
            }
        });
    }
}

fn small_spaces(r: &Run) -> Vec<Space> {
    use Kind::*;
    let d = dep;
    let none = vec![Opt::default()];
    let b = deps_on(2, 2, &[Pos, Weak, Conf], false);
    let a: Vec<Dep> = deps_on(1, 2, &[Pos, Conf], false).into_iter().chain(b.iter().cloned()).collect();
    let reqs: Vec<Vec<Dep>> = [vec!["fa"], vec!["fb", "fa"], vec!["fc", "fa", "~fb-1"], vec!["fa", "!fc-2", "fb"]].into_iter().map(|v| v.into_iter().map(d).collect()).collect();
    let va: Vec<Dep> = ["fb-1", "fb-2", "fc-1", "fc-2", "!fb-2"].iter().map(|s| d(s)).collect();
    let mut vo = vec![]; for x in &va { for y in &va { vo.push(Opt { deps: vec![], variants: vec![vec![x.clone()], vec![y.clone()]] }); } }
    let a2 = upto(&a, r.pick(1, 2)); let bo = upto(&b, 1);
    let free = |f: usize| -> Vec<Opt> { upto(&(0..3).filter(|g| *g != f).flat_map(|g| deps_on(g, 2, &[Pos], false)).collect::<Vec<_>>(), 1) };
    vec![
        Space::new("chain", vec![2, 2, 2], vec![upto(&a, 1), a2, bo.clone(), bo.clone(), none.clone(), none.clone()], reqs.clone(), true),
        Space::new("variants", vec![2, 2, 2], vec![none.clone(), vo, bo.clone(), bo, none.clone(), none.clone()], reqs.clone(), true),
        Space::new("free", vec![2, 2, 1], vec![free(0), free(0), free(1), free(1), none.clone()], reqs, false),
    ]
}
type Ans = Result<(Vec<(usize, u8, u8)>, Vec<String>), ()>;
fn ans(x: Result<Res, String>) -> Ans { x.map(|r| (r.order, r.failed)).map_err(|_| ()) }

pub fn s03(r: &'static Run) {
    watchdog(r, 20);
    r.rule("every universe of each space x request: the resolve repeated on the same and fresh resolvers, with every relative registration order of versions, every split over two repositories, and once per hash seed in a fresh thread; all answers must be identical");
    for sp in small_spaces(r) {
        let n = sp.count();
        r.state(n as u64); r.part(sp.name, "universes", n as u64);
        par_chunks(n, |u| {
            let c = sp.decode(u);
            let base: Vec<Arc<Package>> = (0..c.len()).map(|i| sp.pkgs[i][c[i]].clone()).collect();
            for q in 0..sp.requests.len() { for strict in [true, false] {
                let cfg = config(strict, true);
                let m = manager(base.clone());
                let want = ans(run_one(&sp, &c, q, &m, &cfg));
                r.outcome(&want);
                let bad = |what: String, got: &Ans| r.fail(&format!("nondeterministic:{}", what.split(' ').next().unwrap()), format!("{what}: {want:?} became {got:?}"), sp.describe(&c, q));
                // same resolver again (warm package cache), then a fresh one
                let mut rs = DependencyResolver::new(m.clone(), cfg.clone());
                for k in 0..2 {
                    r.trans(1);
                    let g = futures::executor::block_on(rs.resolve(sp.reqs[q].clone()));
                    let g: Ans = g.map(|o| (o.resolved_packages.iter().map(|i| (FAM.iter().position(|x| *x == i.package.name).unwrap(), ALLV.iter().position(|x| *x == i.package.version.as_ref().unwrap().as_str()).unwrap() as u8, i.variant_index.unwrap_or(0) as u8)).collect(), o.failed_requirements.iter().map(|x| x.to_string()).collect())).map_err(|_| ());
                    if g != want { bad(format!("repeat {k} on one resolver"), &g); }
                }
                // registration orders: only the relative order within a family can matter
                for k in 1..(1usize << sp.nf) {
                    let mut v = vec![];
                    for f in 0..sp.nf { let mut x: Vec<_> = (0..sp.nv[f]).map(|i| base[sp.slot(f, i)].clone()).collect(); if k >> f & 1 == 1 { x.reverse(); } v.extend(x); }
                    r.trans(1);
                    let g = ans(run_one(&sp, &c, q, &manager(v), &cfg));
                    if g != want { bad(format!("registration order {k}"), &g); }
                }
                if r.thorough || q == 1 {
                    for k in 1..(1usize << base.len()) - 1 {
                        let mut mm = RepositoryManager::new();
                        for side in 0..2 { mm.add_repository(Box::new(MemRepo { pkgs: base.iter().enumerate().filter(|(i, _)| k >> i & 1 == side).map(|x| x.1.clone()).collect() })); }
                        r.trans(1); r.trace(1);
                        let g = ans(run_one(&sp, &c, q, &Arc::new(mm), &cfg));
                        if g != want { bad(format!("split {k:b} over two repositories"), &g); }
                    }
                }
            } }
        });
        // hash seeds: the same universes in the same sequence, one fresh thread per seed
        let seeds = r.pick(8, 32);
        let all: Vec<Vec<Ans>> = std::thread::scope(|t| {
            let hs: Vec<_> = (1..=seeds).map(|s| {
                fsx::hash_seed(s * 7919);
                let (tx, rx) = std::sync::mpsc::channel();
                let sp = &sp;
                let h = t.spawn(move || {
                    let _ = std::collections::hash_map::RandomState::new(); // takes this thread's seed
                    tx.send(()).unwrap();
                    let mut v = vec![];
                    for u in 0..n { let c = sp.decode(u); let m = manager((0..c.len()).map(|i| sp.pkgs[i][c[i]].clone()).collect()); for q in 0..sp.requests.len() { v.push(ans(run_one(sp, &c, q, &m, &config(true, true)))); r.trans(1); r.eval(1); r.trace(1); } }
                    v
                });
                rx.recv().unwrap();
                h
            }).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for (s, got) in all.iter().enumerate().skip(1) {
            if let Some(i) = (0..got.len()).find(|i| all[0][*i] != got[*i]) {
                let c = sp.decode(i / sp.requests.len());
                r.fail("nondeterministic:hash", format!("hash seed {s}: {:?} became {:?}", all[0][i], got[i]), sp.describe(&c, i % sp.requests.len()));
            }
        }
        fsx::hash_seed(0);
        r.bound("hash_seeds", seeds as u64);
    }
    disk_order(r);
}
/// The same repository written to disk in every creation order (directory listing order follows it on tmpfs).
fn disk_order(r: &'static Run) {
    use rez_next_repository::simple_repository::SimpleRepository;
    let root = scratch("s03");
    let files = [("fa", "1", ""), ("fa", "2", "requires = ['fb-1+']\n"), ("fb", "1", ""), ("fb", "2", ""), ("fb", "10", "")];
    let mut first: Option<(Vec<String>, Vec<String>)> = None;
    for (k, p) in permutations(&(0..files.len()).collect::<Vec<_>>()).into_iter().enumerate() {
        let dir = root.join(format!("r{k}"));
        for i in &p { let (f, v, x) = files[*i]; let d = dir.join(f).join(v); std::fs::create_dir_all(&d).unwrap(); std::fs::write(d.join("package.py"), format!("name = '{f}'\nversion = '{v}'\n{x}")).unwrap(); }
        let mut m = RepositoryManager::new();
        m.add_repository(Box::new(SimpleRepository::new(&dir, "r".into())));
        let m = Arc::new(m);
        let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
        let got = rt.block_on(async {
            let names = m.list_packages().await.unwrap();
            let o = DependencyResolver::new(m.clone(), config(true, true)).resolve(vec!["fa".parse().unwrap()]).await.unwrap();
            (names, o.resolved_packages.iter().map(|i| format!("{}-{}", i.package.name, i.package.version.as_ref().unwrap())).collect::<Vec<_>>())
        });
        r.trans(1); r.eval(1); r.trace(1);
        let want = (vec!["fa".to_string(), "fb".to_string()], vec!["fa-2".to_string(), "fb-10".to_string()]);
        if got != want { r.fail("disk-order", format!("creation order {p:?}: resolved {got:?}"), json!({"order": p})); }
        match &first { None => first = Some(got), Some(w) => if *w != got { r.fail("disk-order", format!("creation order {p:?}: {w:?} became {got:?}"), json!({"order": p})) } }
        let _ = std::fs::remove_dir_all(&dir);
    }
}

/// The request front end: constraints restrict without introducing, excludes forbid.
pub fn front_end(r: &'static Run) {
    use rez_next_package::PackageRequirement;
    use rez_next_solver::{DependencySolver, SolverRequest};
    // the chain space with the older versions (quick: of both families) left plain
    let none = vec![Opt::default()];
    let b = deps_on(2, 2, &[Kind::Pos, Kind::Weak, Kind::Conf], false);
    let a: Vec<Dep> = deps_on(1, 2, &[Kind::Pos, Kind::Conf], false).into_iter().chain(b.iter().cloned()).collect();
    let sp = &Space::new("front end", vec![2, 2, 2], vec![r.pick(none.clone(), upto(&a, 1)), upto(&a, 1), none.clone(), upto(&b, 1), none.clone(), none], vec![vec![dep("fa")]], true);
    let n = sp.count();
    let pr = |s: &str| PackageRequirement::parse(s).unwrap();
    let cons = ["", "fb-1", "fb-2", "fc-1", "fc-2", "!fc-2"];
    let excl = ["", "fb", "fc"];
    par(n, |k| {
        let c = sp.decode(k);
        let m = manager((0..c.len()).map(|i| sp.pkgs[i][c[i]].clone()).collect());
        for cn in cons { for ex in excl {
            let mut rq = SolverRequest::new(vec![pr("fa")]);
            let mut q = vec![dep("fa")];
            if !cn.is_empty() { rq = rq.with_constraint(pr(cn)); q.push(dep(&if cn.starts_with('!') { cn.to_string() } else { format!("~{cn}") })); }
            if !ex.is_empty() { rq = rq.with_exclude(ex.to_string()); q.push(dep(&format!("!{ex}"))); }
            let sv = DependencySolver::with_config(config(true, true)).with_repository_manager(m.clone());
            step_begin("front-end", [k as u64, 0, 0, 0]);
            let out = guard(|| sv.resolve(rq)); step_end();
            r.trans(1); r.eval(1);
            let rep = || json!({"space": sp.describe(&c, 0)["packages"], "request": ["fa"], "constraint": cn, "exclude": ex});
            let exists = solutions(sp, &c, &q, true).first().copied();
            match out {
                Err(p) => r.fail("front-panic", p, rep()),
                Ok(Err(e)) => if let Some(s) = exists { r.fail("front-incomplete", format!("solver request failed ({e}) although {:?} satisfies it", show(&s)), rep()) },
                Ok(Ok(res)) => {
                    let mut s: Sol = [None; 4];
                    for p in &res.packages { s[FAM.iter().position(|x| *x == p.name).unwrap()] = Some((ALLV.iter().position(|x| *x == p.version.as_ref().unwrap().as_str()).unwrap() as u8, 0)); }
                    if let Some(e) = judge(sp, &c, &q, &s) { r.fail("front-unsound", format!("solver request gave {:?}, but {e}", show(&s)), rep()); }
                }
            }
        } }
    });
}

/// Pre-release versions are candidates only when allowed; the best candidate is the latest admissible one.
pub fn prerelease(r: &'static Run) {
    let vs = [("1", 0, false), ("1.5.beta1", 1, true), ("1.7", 2, false), ("2.rc1", 3, true), ("2.1", 4, false)];
    let rq: [(&str, [bool; 5]); 5] = [("fa", [true; 5]), ("fa-1", [true, true, true, false, false]), ("fa-2", [false, false, false, true, true]), ("fa<2", [true, true, true, false, false]), ("fa-1.5+", [true, true, true, true, true])];
    for sub in 1..32usize { for (q, ok) in rq { for allow in [false, true] { for latest in [true, false] {
        let pk: Vec<Arc<Package>> = (0..5).filter(|i| sub >> i & 1 == 1).map(|i| { let mut p = Package::new("fa".into()); p.version = Some(Version::parse(vs[i].0).unwrap()); Arc::new(p) }).collect();
        let req: Requirement = q.parse().unwrap();
        let adm: Vec<usize> = (0..5).filter(|i| sub >> i & 1 == 1 && ok[*i] && (allow || !vs[*i].2)).collect();
        // order of the five versions as the implementation's own total order (pinned by V01)
        let mut adm = adm; adm.sort_by(|a, b| Version::parse(vs[*a].0).unwrap().cmp(&Version::parse(vs[*b].0).unwrap()));
        let want = if latest { adm.last() } else { adm.first() }.map(|i| vs[*i].0.to_string());
        let cfg = SolverConfig { allow_prerelease: allow, ..config(true, latest) };
        let got = futures::executor::block_on(DependencyResolver::new(manager(pk), cfg).resolve(vec![req])).ok().map(|o| o.resolved_packages[0].package.version.as_ref().unwrap().as_str().to_string());
        r.trans(1); r.eval(1);
        if got != want { r.fail("prerelease", format!("request {q} (pre-releases allowed: {allow}, latest first: {latest}) over versions {:?}: chose {got:?}, expected {want:?}", (0..5).filter(|i| sub >> i & 1 == 1).map(|i| vs[i].0).collect::<Vec<_>>()), json!({"request": q, "versions": sub, "allow": allow, "latest": latest})); }
    } } } }
}
