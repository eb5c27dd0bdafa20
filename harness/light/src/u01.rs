//! U01: suites, every operation history, against a list-of-contexts model.
use mccore::*;
use rez_next_suites::{Suite, SuiteManager, ToolConflictMode};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use ToolConflictMode::{Error, First, Last, Prefix};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op { Add(usize), Remove(usize), Alias(usize, usize, usize), Hide(usize, usize), Unhide(usize, usize), Disable(usize), Pre(usize, usize), Prio(usize, i32), Save, BadAdd }
use Op::*;
const CTX: [&str; 3] = ["a", "b", "c-2"];
const ALIAS: [&str; 3] = ["t", "b_t", "a_t"];
const TOOL: [&str; 2] = ["t", "u"];
const PRE: [&str; 2] = ["b_", ""];

#[derive(Clone, Debug, Default, PartialEq)]
struct Mc { name: String, req: Vec<String>, alias: BTreeMap<String, String>, hidden: BTreeSet<String>, disabled: bool, prefix: Option<String>, prio: i32 }
type Model = Vec<Mc>;
fn req(i: usize) -> Vec<String> { vec![format!("p{i}-1"), "q".into()] }
/// the exposed tools, or None for a conflict
fn tools(m: &Model, mode: &ToolConflictMode) -> Option<BTreeMap<String, (String, String, String)>> {
    let mut order: Vec<&Mc> = m.iter().filter(|c| !c.disabled).collect();
    order.sort_by_key(|c| -c.prio);
    let mut out: BTreeMap<String, (String, String, String)> = BTreeMap::new();
    for c in order {
        let mine: Vec<(String, &String)> = c.alias.iter().filter(|(_, o)| !c.hidden.contains(*o)).map(|(a, o)| (format!("{}{a}", c.prefix.clone().unwrap_or_default()), o)).collect();
        let ent = |o: &String| (o.clone(), c.name.clone(), c.req[0].clone());
        let taken: Vec<_> = mine.iter().filter(|(n, _)| out.contains_key(n)).cloned().collect();
        for (n, o) in &mine { if !taken.iter().any(|t| t.0 == *n) { out.insert(n.clone(), ent(o)); } }
        for (n, o) in taken {
            let holder = &out[&n].1;
            let higher = m.iter().find(|x| x.name == *holder).is_some_and(|x| x.prio > c.prio);
            match mode {
                Prefix => { let p = format!("{}_{n}", c.name); if out.contains_key(&p) { return None; } out.insert(p, ent(o)); }
                _ if higher => {}
                Error => return None,
                First => {}
                Last => { out.insert(n, ent(o)); }
            }
        }
    }
    Some(out)
}
fn step(m: &mut Model, op: Op) -> bool {
    let find = |m: &Model, i: usize| m.iter().position(|c| c.name == CTX[i]);
    match op {
        Add(i) => if find(m, i).is_some() { false } else { m.push(Mc { name: CTX[i].into(), req: req(i), ..Default::default() }); true },
        BadAdd => false,
        Remove(i) => find(m, i).map(|k| { m.remove(k); }).is_some(),
        Alias(i, a, t) => find(m, i).map(|k| { m[k].alias.insert(ALIAS[a].into(), TOOL[t].into()); }).is_some(),
        Hide(i, t) => find(m, i).map(|k| { m[k].hidden.insert(TOOL[t].into()); }).is_some(),
        Unhide(i, t) => find(m, i).map(|k| { m[k].hidden.remove(TOOL[t]); }).is_some(),
        Disable(i) => find(m, i).map(|k| { m[k].disabled = !m[k].disabled; }).is_some(),
        Pre(i, p) => find(m, i).map(|k| { m[k].prefix = Some(PRE[p].into()); }).is_some(),
        Prio(i, p) => find(m, i).map(|k| { m[k].prio = p; }).is_some(),
        Save => true,
    }
}
fn apply(s: &mut Suite, op: Op, dir: &Path) -> Result<bool, String> {
    Ok(match op {
        Add(i) => s.add_context(CTX[i], req(i)).is_ok(),
        BadAdd => ["", "a b", "a/b", "..", "x.y", "a\n"].iter().any(|n| s.add_context(*n, vec![]).is_ok()),
        Remove(i) => s.remove_context(CTX[i]).is_ok(),
        Alias(i, a, t) => s.alias_tool(CTX[i], ALIAS[a], TOOL[t]).is_ok(),
        Hide(i, t) => s.hide_tool(CTX[i], TOOL[t]).is_ok(),
        Unhide(i, t) => s.get_context_mut(CTX[i]).map(|c| c.hidden_tools.retain(|x| x != TOOL[t])).is_some(),
        Disable(i) => s.get_context_mut(CTX[i]).map(|c| c.disabled = !c.disabled).is_some(),
        Pre(i, p) => s.get_context_mut(CTX[i]).map(|c| c.prefix = Some(PRE[p].into())).is_some(),
        Prio(i, p) => s.get_context_mut(CTX[i]).map(|c| c.priority = p).is_some(),
        Save => { s.save(dir).map_err(|e| e.to_string())?; *s = Suite::load(dir).map_err(|e| e.to_string())?; true }
    })
}
/// what the suite exposes compared with the model
fn differs(s: &Suite, m: &Model, mode: &ToolConflictMode) -> Option<String> {
    let seen: Model = s.contexts().iter().map(|c| Mc { name: c.name.clone(), req: c.requests.clone(), alias: c.tool_aliases.clone().into_iter().collect(), hidden: c.hidden_tools.iter().cloned().collect(), disabled: c.disabled, prefix: c.prefix.clone(), prio: c.priority }).collect();
    if seen != *m { return Some(format!("contexts are {seen:?}, expected {m:?}")); }
    if s.conflict_mode != *mode { return Some(format!("conflict mode is {:?}, expected {mode:?}", s.conflict_mode)); }
    if s.len() != m.len() || s.is_empty() != m.is_empty() || s.context_names() != m.iter().map(|c| c.name.as_str()).collect::<Vec<_>>() { return Some("context listing disagrees with the contexts".into()); }
    for n in CTX { if s.get_context(n).is_some() != m.iter().any(|c| c.name == n) { return Some(format!("lookup of context {n} disagrees")); } }
    match (s.get_tools(), tools(m, mode)) {
        (Err(_), None) => None,
        (Err(e), Some(w)) => Some(format!("tools are refused ({e}), expected {w:?}")),
        (Ok(g), None) => Some(format!("a name conflict went unnoticed: {:?}", g.into_keys().collect::<BTreeSet<_>>())),
        (Ok(g), Some(w)) => {
            let g2: BTreeMap<String, (String, String, String)> = g.iter().map(|(k, t)| (k.clone(), (t.original_name.clone(), t.context_name.clone(), t.package.clone()))).collect();
            if g2 != w { return Some(format!("tools are {g2:?}, expected {w:?}")); }
            g.iter().find(|(k, t)| t.name != **k || t.is_alias != (t.name != t.original_name) || t.is_hidden).map(|(k, t)| format!("tool {k} is described as {t:?}"))
        }
    }
}
fn histories(r: &'static Run, dir: &Path, shard: usize, shards: usize) {
    // two contexts exist and carry colliding tools; every continuation
    let pre: [&[Op]; 5] = [&[], &[Add(0), Alias(0, 0, 0), Add(1)], &[Add(0), Add(1), Alias(0, 0, 0), Alias(1, 0, 0)], &[Add(1), Add(0), Alias(0, 0, 1), Alias(1, 1, 0), Alias(1, 0, 1)], &[Add(0), Add(1), Add(2), Alias(0, 0, 0), Alias(1, 0, 0), Alias(2, 0, 1)]];
    let alpha = [Add(0), Add(1), Remove(0), Remove(1), Alias(0, 0, 0), Alias(1, 0, 0), Alias(1, 1, 1), Alias(0, 2, 1), Alias(2, 1, 0), Hide(0, 0), Hide(1, 0), Unhide(0, 0), Disable(0), Disable(1), Pre(0, 0), Pre(1, 0), Pre(0, 1), Prio(0, 1), Prio(1, 1), Prio(1, -1), Save, BadAdd];
    let depth = r.pick(3, 4);
    let mut k = 0usize;
    for mode in [Error, First, Last, Prefix] {
        for p in pre {
            for tail in sequences(&alpha, depth) {
                if tail.len() != depth { continue; }
                k += 1;
                if k % shards != shard { continue; }
                fsx::hash_seed(k);
                let mut s = Suite::new().with_description("d \"x\"\n: y").with_conflict_mode(mode.clone());
                let mut m: Model = vec![];
                let ops: Vec<Op> = p.iter().chain(&tail).copied().collect();
                r.state(1); r.trans(ops.len() as u64);
                for (j, op) in ops.iter().enumerate() {
                    let want = step(&mut m, *op);
                    let got = apply(&mut s, *op, dir);
                    let bad = |w: String| r.fail(&format!("hist:{mode:?}:{:?}", &ops[..=j]), format!("{mode:?} after {:?}: {w}", &ops[..=j]), json!({"mode": format!("{mode:?}"), "operations": format!("{:?}", &ops[..=j])}));
                    if got != Ok(want) { bad(format!("the operation answered {got:?}, expected {want}")); }
                    if j + 1 == ops.len() || j + 1 >= p.len() { r.eval(1); if let Some(w) = differs(&s, &m, &mode) { bad(w); break; } }
                }
                r.outcome(&format!("{:?}", tools(&m, &mode)));
                if k % 5 == 0 {
                    let again = apply(&mut s, Save, dir);
                    if again != Ok(true) || differs(&s, &m, &mode).is_some() || s.description.as_deref() != Some("d \"x\"\n: y") { r.fail(&format!("save:{mode:?}:{ops:?}"), format!("{mode:?} after {ops:?}: saved and loaded, the suite differs: {again:?} {:?}", differs(&s, &m, &mode)), json!({"operations": format!("{ops:?}")})); }
                }
            }
        }
    }
}
/// awkward texts survive a save; an interrupted save leaves the old suite, the new one, or nothing loadable
fn saving(r: &'static Run, dir: &Path) {
    for (i, t) in crate::fields::AWKWARD.iter().enumerate() {
        for u in crate::fields::AWKWARD.iter().skip(i % 3).step_by(3) {
            r.state(1); r.eval(1);
            let d = dir.join("awk");
            let mut s = Suite::new().with_description(*t);
            s.add_context("x", vec![u.to_string(), t.to_string()]).unwrap();
            s.alias_tool("x", *t, *u).unwrap();
            s.hide_tool("x", t).unwrap();
            s.get_context_mut("x").unwrap().prefix = Some(u.to_string());
            let back = s.save(&d).and_then(|_| Suite::load(&d));
            match back {
                Ok(b) => { let (x, y) = (s.get_context("x").unwrap(), b.get_context("x").unwrap()); if format!("{x:?}{:?}", s.description) != format!("{y:?}{:?}", b.description) { r.fail(&format!("awkward:{t:?}:{u:?}"), format!("a suite with {t:?}/{u:?} came back as {y:?} {:?}", b.description), json!({"text": t, "other": u})); } }
                Err(e) => r.fail(&format!("awkward:{t:?}:{u:?}"), format!("a suite with {t:?}/{u:?} does not survive saving: {e}"), json!({"text": t, "other": u})),
            }
        }
    }
    let mk = |n: usize| -> (Suite, Model) {
        let (mut s, mut m) = (Suite::new().with_conflict_mode(Last), vec![]);
        let ops = if n == 0 { vec![Add(0), Alias(0, 0, 0)] } else { vec![Add(1), Alias(1, 0, 0), Alias(1, 1, 1), Add(0), Alias(0, 2, 0), Hide(0, 1), Pre(1, 0), Prio(0, 1), Disable(1)] };
        for o in ops { step(&mut m, o); apply(&mut s, o, dir).unwrap(); }
        (s, m)
    };
    for before in [false, true] {
        for mode in 0..5 {
            for at in 1..64u64 {
                let d = dir.join("f");
                let _ = std::fs::remove_dir_all(&d);
                std::fs::create_dir_all(&d).unwrap();
                let (mut old, mo) = mk(0);
                let (mut new, mn) = mk(1);
                let f = d.join("s");
                if before { old.save(&f).unwrap(); }
                fsx::arm(&d, match mode { 0 => fsx::Plan::Crash { at, torn: false }, 1 => fsx::Plan::Crash { at, torn: true }, m => fsx::Plan::Fault { at, errno: [libc::ENOSPC, libc::EIO, libc::EACCES][m - 2] } });
                let res = new.save(&f);
                let crashed = fsx::crashed();
                let (n, log) = fsx::disarm();
                r.state(1); r.trans(n); r.eval(1); r.trace(1);
                let here = format!("{} at step {at} of saving over {}", if mode < 2 { "a crash" } else { "an error" }, if before { "an old suite" } else { "nothing" });
                let rep = json!({"old": before, "mode": mode, "at": at, "calls": log});
                match Suite::load(&f) {
                    Ok(s) => {
                        let is_new = differs(&s, &mn, &Last).is_none();
                        if !is_new && !(before && differs(&s, &mo, &Last).is_none()) { r.fail(&format!("torn:{here}"), format!("after {here} a suite loads that is neither the old nor the new one"), rep.clone()); }
                        if !is_new && res.is_ok() && !crashed { r.fail(&format!("lost:{here}"), format!("{here} was reported as success but the old suite is still there"), rep.clone()); }
                    }
                    Err(e) => if (res.is_ok() && !crashed) || before { r.fail(&format!("gone:{here}"), format!("after {here} no suite loads: {e}"), rep.clone()); },
                }
                if new.save(&f).is_err() || Suite::load(&f).map(|s| differs(&s, &mn, &Last).is_some()).unwrap_or(true) { r.fail(&format!("again:{here}"), format!("after {here}, saving again does not produce the suite"), rep); }
                if n < at { break; }
            }
        }
    }
    // finding suites: every subset of two search paths
    for mask in 0..16u32 {
        let d = dir.join("find");
        let _ = std::fs::remove_dir_all(&d);
        let paths: Vec<_> = (0..2).map(|i| d.join(format!("p{i}"))).collect();
        for p in &paths { std::fs::create_dir_all(p.join("notasuite")).unwrap(); }
        let mut want = vec![];
        for (i, p) in paths.iter().enumerate() { for (j, n) in ["s1", "s2"].iter().enumerate() { if mask >> (i * 2 + j) & 1 == 1 { Suite::new().with_description(format!("{i}{j}")).save(p.join(n)).unwrap(); want.push(p.join(n)); } } }
        let mgr = SuiteManager::with_paths(paths.clone());
        r.state(1); r.eval(1);
        let bad = |w: String| r.fail(&format!("find:{mask}"), format!("suites present {want:?}: {w}"), json!({"mask": mask}));
        if mgr.find_suites() != want { bad(format!("found {:?}", mgr.find_suites())); }
        for (j, n) in ["s1", "s2"].iter().enumerate() {
            let first = (0..2).find(|i| mask >> (i * 2 + j) & 1 == 1);
            match (mgr.load_suite(n), first) { (Ok(s), Some(i)) if s.description.as_deref() == Some(&format!("{i}{j}")) => {} (Err(_), None) => {} (g, _) => bad(format!("loading {n} gives {:?}", g.map(|s| s.description))) }
        }
    }
}
pub fn run(r: &'static Run) {
    r.rule("every operation history of the depth after each of 5 prefixes, in each conflict mode, the suite compared with the model after every operation; awkward texts; a crash or error at every filesystem call of a save");
    r.bound("depth", r.pick(3, 4)); r.bound("contexts", 3); r.bound("names", 3);
    let root = scratch("u01");
    r.sharded(8, |sh, n| {
        let d = root.join(sh.to_string());
        std::fs::create_dir_all(&d).unwrap();
        watchdog(r, 120);
        histories(r, &d.join("h"), sh, n);
        if sh == 0 { saving(r, &d); }
    });
    r.finish();
}
