//! E01: environment commands: real parser/executor/manager against a sequential reference interpreter.
use mccore::*;
use rez_next_context::{ContextConfig, EnvironmentManager, PathStrategy, ResolvedPackage, RezResolvedContext};
use rez_next_package::Package;
use rez_next_rex::{RexAction, RexActionType as T, RexEnvironment, RexExecutor};
use rez_next_version::Version;
use serde_json::json;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum St { Set(String, String), Unset(String), Pre(String, String, Option<String>), App(String, String, Option<String>), IfE(String, String), Alias(String, String), Cmd(String), Src(String), Comment(String), Reset(String), Info(String), Err(String), Stop(Option<String>) }
use St::*;
/// the boring reference state
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Ref { pub vars: BTreeMap<String, String>, pub aliases: BTreeMap<String, String>, pub cmds: Vec<String>, pub srcs: Vec<String>, pub infos: Vec<String>, pub stop: Option<Option<String>> }
impl Ref {
    pub fn step(&mut self, s: &St, original: &BTreeMap<String, String>) {
        if self.stop.is_some() { return }
        let sep = |x: &Option<String>| x.clone().unwrap_or(":".into());
        let cur = |m: &Ref, n: &str| m.vars.get(n).cloned().unwrap_or_default();
        match s {
            Set(n, v) => { self.vars.insert(n.clone(), v.clone()); }
            Unset(n) => { self.vars.remove(n); }
            Reset(n) => match original.get(n) { Some(v) => { self.vars.insert(n.clone(), v.clone()); } None => { self.vars.remove(n); } },
            Pre(n, v, s) => { let c = cur(self, n); self.vars.insert(n.clone(), if c.is_empty() { v.clone() } else { [v.clone(), sep(s), c].concat() }); }
            App(n, v, s) => { let c = cur(self, n); self.vars.insert(n.clone(), if c.is_empty() { v.clone() } else { [c, sep(s), v.clone()].concat() }); }
            IfE(n, v) => if !self.vars.contains_key(n) { self.vars.insert(n.clone(), v.clone()); },
            Alias(n, v) => { self.aliases.insert(n.clone(), v.clone()); }
            Cmd(v) => self.cmds.push(v.clone()),
            Src(v) => self.srcs.push(v.clone()),
            Comment(_) => {}
            Info(v) => self.infos.push(v.clone()),
            Err(v) => self.infos.push(format!("[error] {v}")),
            Stop(m) => self.stop = Some(m.clone()),
        }
    }
    pub fn of(e: &RexEnvironment) -> Ref {
        Ref { vars: e.vars.clone().into_iter().collect(), aliases: e.aliases.clone().into_iter().collect(), cmds: e.startup_commands.clone(), srcs: e.sourced_scripts.clone(), infos: e.info_messages.clone(), stop: if e.stopped { Some(e.stop_message.clone()) } else { None } }
    }
}
fn action(s: &St) -> RexAction {
    let a = match s.clone() {
        Set(name, value) => T::Setenv { name, value }, Unset(name) => T::Unsetenv { name }, Reset(name) => T::Resetenv { name },
        Pre(name, value, separator) => T::PrependPath { name, value, separator }, App(name, value, separator) => T::AppendPath { name, value, separator },
        IfE(name, value) => T::SetenvIfEmpty { name, value }, Alias(name, value) => T::Alias { name, value }, Cmd(cmd) => T::Command { cmd }, Src(path) => T::Source { path },
        Comment(text) => T::Comment { text }, Info(message) => T::Info { message }, Err(message) => T::Error { message }, Stop(message) => T::Stop { message },
    };
    RexAction { action_type: a, source_package: None }
}
/// every accepted spelling of a statement (values must not contain quotes)
fn forms(s: &St) -> Vec<String> {
    let q2 = |f: &str, n: &str, v: &str| vec![format!("{f}('{n}', '{v}')"), format!("{f}(\"{n}\", \"{v}\")"), format!("{f}( '{n}' ,\"{v}\" )"), format!("  {f}('{n}','{v}')\t")];
    let q1 = |f: &str, v: &str| vec![format!("{f}('{v}')"), format!("{f}(\"{v}\")"), format!("\t{f}( '{v}' )")];
    match s {
        Set(n, v) => { let mut o = q2("env.setenv", n, v); o.extend(q2("setenv", n, v)); o.push(format!("export {n}=\"{v}\"")); if v.trim() == v { o.push(format!("export {n}={v}")); if !v.is_empty() { o.push(format!("setenv {n} {v}")); o.push(format!("setenv {n} \"{v}\"")); } } o }
        Unset(n) => [q1("env.unsetenv", n), q1("unsetenv", n)].concat(),
        Reset(n) => [q1("env.resetenv", n), q1("resetenv", n)].concat(),
        Pre(n, v, None) => [q2("env.prepend_path", n, v), q2("prependenv", n, v)].concat(),
        App(n, v, None) => [q2("env.append_path", n, v), q2("appendenv", n, v)].concat(),
        IfE(n, v) => q2("env.setenv_if_empty", n, v),
        Alias(n, v) => [q2("env.alias", n, v), q2("alias", n, v)].concat(),
        Cmd(v) => q1("command", v), Src(v) => q1("source", v), Info(v) => q1("info", v), Err(v) => q1("error", v),
        Comment(v) => [q1("comment", v), vec![format!("# {v}"), format!("  // {v}"), String::new(), format!("#{v}")]].concat(),
        Stop(None) => vec!["stop()".into(), " stop( ) ".into()], Stop(Some(v)) => q1("stop", v),
        _ => vec![],
    }
}
fn text(s: &St) -> String { forms(s)[0].clone() }
fn s(x: &str) -> String { x.to_string() }

/// reference resolution of one value given as pieces: (text, key of the context map it refers to)
type Piece = (&'static str, Option<&'static str>);
fn context(name: &str, root: Option<&str>, version: Option<&str>, custom: Option<&str>) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    if let Some(c) = custom { m.insert(s("custom"), s(c)); }
    if let Some(x) = root { m.insert(s("root"), s(x)); m.insert(s("this.root"), s(x)); }
    if let Some(v) = version {
        m.insert(s("version"), s(v)); m.insert(s("this.version"), s(v));
        for (k, c) in ["major", "minor", "patch"].iter().zip(v.split('.')) { m.insert(format!("this.version.{k}"), s(c)); }
    }
    m.insert(s("name"), s(name)); m.insert(s("this.name"), s(name));
    m
}
fn expand(p: &[Piece], cx: &BTreeMap<String, String>) -> String { p.iter().map(|(t, k)| k.and_then(|k| cx.get(k)).cloned().unwrap_or(s(t))).collect() }

pub fn run(r: &'static Run) {
    r.rule("(a) every command sequence up to the stated length over 2 variables x every start value, applied at once and split at every point; (b) every spelling of every statement, every value made of up to the stated number of literal/reference pieces x package contexts x two-call histories; (c) every placement of up to 3 statements in the pre/main/post phases of two packages x base environments x path strategies x overrides; (d) every export program up to the stated length x start environments");
    exports(r);
    actions(r);
    texts(r);
    managers(r);
}

// ---- (a)
fn alphabet() -> Vec<St> {
    let mut a = vec![];
    for n in ["A", "B"] {
        for v in ["", "x", "y:z"] { a.push(Set(s(n), s(v))); }
        for v in ["x", "p:q", ""] { a.push(Pre(s(n), s(v), None)); a.push(App(s(n), s(v), None)); }
        a.push(IfE(s(n), s("d"))); a.push(Unset(s(n)));
    }
    a.push(Pre(s("A"), s("w"), Some(s(";")))); a.push(App(s("A"), s("w"), Some(s(";")))); a.push(Reset(s("A")));
    a.push(Alias(s("t"), s("/bin/t"))); a.push(Alias(s("t"), s("u"))); a.push(Cmd(s("c1"))); a.push(Src(s("s.sh"))); a.push(Comment(s("c"))); a.push(Info(s("i"))); a.push(Err(s("e"))); a.push(Stop(None)); a.push(Stop(Some(s("m"))));
    a
}
fn actions(r: &'static Run) {
    let al = alphabet();
    let n = r.pick(4, 5);
    r.bound("action sequence length", n); r.bound("action alphabet", al.len());
    let starts: Vec<BTreeMap<String, String>> = vec![BTreeMap::new(), [(s("A"), s(""))].into(), [(s("A"), s("o")), (s("B"), s("x:y"))].into()];
    let acts: Vec<RexAction> = al.iter().map(action).collect();
    par(al.len() * al.len(), |w| {
        let mut seen = 0u64;
        let mut stack: Vec<usize> = vec![w / al.len(), w % al.len()];
        fn rec(r: &Run, al: &[St], acts: &[RexAction], starts: &[BTreeMap<String, String>], seq: &mut Vec<usize>, n: usize, seen: &mut u64) {
            let none = BTreeMap::new();
            for st in starts {
                let mut want = Ref { vars: st.clone(), ..Default::default() };
                for i in seq.iter() { want.step(&al[*i], &none); }
                let mk = || { let mut e = RexEnvironment::new(); e.vars = st.clone().into_iter().collect(); e };
                let list: Vec<RexAction> = seq.iter().map(|i| acts[*i].clone()).collect();
                *seen += 1;
                let mut e = mk(); e.apply(&list);
                let prog = || json!({"start": st, "program": seq.iter().map(|i| format!("{:?}", al[*i])).collect::<Vec<_>>()});
                let got = Ref::of(&e);
                if got != want { r.fail("apply", format!("applying {} gives {got:?}, sequential interpretation gives {want:?}", prog()), prog()); return }
                if seq.len() == 2 { // merging under a base never changes what the commands set
                    let base: HashMap<String, String> = [(s("A"), s("base")), (s("C"), s("c"))].into();
                    e.merge_with_base(&base);
                    for (k, v) in &base { let w = want.vars.get(k).unwrap_or(v); if e.vars.get(k) != Some(w) { r.fail("merge", format!("merge of {prog:?} over a base gives {k}={:?}", e.vars.get(k), prog = prog()), prog()); return } }
                }
                // no stop: one command at a time is the same as all at once
                if want.stop.is_none() { let mut f = mk(); for a in &list { f.apply(std::slice::from_ref(a)); } if Ref::of(&f) != want { r.fail("split", format!("{} applied one by one differs", prog()), prog()); return } }
            }
            if seq.len() < n { for i in 0..al.len() { seq.push(i); rec(r, al, acts, starts, seq, n, seen); seq.pop(); if r.violated() { return } } }
        }
        rec(r, &al, &acts, &starts, &mut stack, n, &mut seen);
        r.state(seen); r.trans(seen * n as u64); r.eval(seen);
    });
}

// ---- (b)
fn pieces() -> Vec<Piece> {
    vec![("/x", None), ("{root}", Some("root")), ("{version}", Some("version")), ("{name}", Some("name")), ("{this.root}", Some("this.root")), ("{this.version}", Some("this.version")), ("{this.name}", Some("this.name")),
         ("{this.version.major}", Some("this.version.major")), ("{this.version.minor}", Some("this.version.minor")), ("{this.version.patch}", Some("this.version.patch")), ("{custom}", Some("custom")),
         ("$ROOT", Some("root")), ("$VERSION", Some("version")), ("$NAME", Some("name")), ("$CUSTOM", Some("custom")), ("{nope}", None), ("$NAMESPACE", None), ("$ROOTS", None), ("$", None), ("{", None), ("}", None), (" ", None)]
}
fn texts(r: &'static Run) {
    let ps = pieces();
    let k = r.pick(3, 4);
    r.bound("value pieces", k);
    // $NAME directly followed by a word character is another name: not generated
    let ok = |v: &[Piece]| v.windows(2).all(|w| !(w[0].0.starts_with('$') && w[1].0.starts_with(|c: char| c.is_alphanumeric()))) && !v.windows(2).any(|w| w[0].0 == "$" && w[1].0.starts_with(|c: char| c.is_alphanumeric()));
    let vals: Vec<Vec<Piece>> = sequences(&ps, k).into_iter().filter(|v| ok(v)).collect();
    type Cx = (&'static str, Option<&'static str>, Option<&'static str>);
    let cxs: Vec<Cx> = vec![("pkg", Some("/p/{version}"), Some("1.2.3")), ("q$ROOT", Some("/q/$NAME"), Some("1")), ("n", None, Some("2.0")), ("m", Some("/m"), None), ("o", None, None)];
    r.bound("values", vals.len());
    par(vals.len(), |i| {
        let v = &vals[i];
        let raw: String = v.iter().map(|p| p.0).collect();
        for (ci, c) in cxs.iter().enumerate() { for custom in [None, Some("{root}$NAME")] {
            if v.len() >= k && ci > 2 && custom.is_some() { continue }
            let mut e = RexExecutor::new();
            if let Some(x) = custom { e.set_context_var("custom", x); }
            // a previous package ran in the same executor
            let prev = &cxs[(ci + 1 + i % 4) % cxs.len()];
            if i % 2 == 0 || v.len() < 3 { let _ = e.execute_commands("env.setenv('P', '{root}')", prev.0, prev.1, prev.2); e.clear(); }
            let want = expand(v, &context(c.0, c.1, c.2, custom));
            r.trans(1); r.eval(1);
            let prog = format!("env.setenv('A', '{raw}')\nenv.prepend_path('B', '{raw}')\nenv.append_path('C', '{raw}')\nenv.setenv_if_empty('D', '{raw}')\nalias('t', '{raw}')\ncommand('{raw}')\nsource('{raw}')\ninfo('{raw}')\nerror('{raw}')\nstop('{raw}')");
            let rp = || json!({"value": raw, "package": c, "custom": custom, "previous": prev});
            match guard(|| e.execute_commands(&prog, c.0, c.1, c.2)) {
                Ok(Ok(env)) => {
                    let g = Ref::of(&env);
                    let all = [g.vars.get("A"), g.vars.get("B"), g.vars.get("C"), g.vars.get("D"), g.aliases.get("t"), g.cmds.first(), g.srcs.first(), g.infos.first(), g.stop.as_ref().and_then(|x| x.as_ref())];
                    if let Some(bad) = all.iter().find(|x| **x != Some(&want)) { r.fail("expand", format!("value {raw:?} for package {c:?} expands to {bad:?}, expected {want:?}"), rp()); return }
                    if g.infos.get(1) != Some(&format!("[error] {want}")) { r.fail("expand", format!("error message {raw:?} expands to {:?}", g.infos), rp()); return }
                }
                o => { r.fail("parse", format!("commands with value {raw:?} not accepted: {o:?}"), rp()); return }
            }
        } }
    });
    r.state(vals.len() as u64);
    // every spelling of every statement means the same
    let mut al: Vec<St> = alphabet().into_iter().filter(|x| !forms(x).is_empty()).collect();
    for v in ["/a b/c", "a,b", "x(y)", "a=b", "#c", "a)b", "-", "$X", "%Y%", "\\d"] { al.push(Set(s("V_1"), s(v))); al.push(Pre(s("V_1"), s(v), None)); al.push(Alias(s("t-x"), s(v))); al.push(Cmd(s(v))); al.push(Info(s(v))); al.push(Stop(Some(s(v)))); al.push(Comment(s(v))); }
    for st in &al { for f in forms(st) {
        r.trans(1); r.trace(1);
        let mut want = Ref::default(); let none = BTreeMap::new();
        want.step(st, &none);
        match guard(|| RexExecutor::new().execute_commands(&f, "p", None, None)) {
            Ok(Ok(e)) if Ref::of(&e) == want => {}
            o => r.fail("spelling", format!("{f:?} should act as {st:?}, got {:?}", o.map(|x| x.map(|e| Ref::of(&e)))), json!({"line": f})),
        }
    } }
    // whole programs through the text front end, in one call and split over two packages; clear() in between
    let al: Vec<St> = alphabet().into_iter().filter(|x| !forms(x).is_empty()).collect();
    let n = al.len();
    par(n * n, |w| {
        for z in 0..n {
            let prog = [&al[w / n], &al[w % n], &al[z]];
            let none = BTreeMap::new();
            let mut want = Ref::default(); for p in prog { want.step(p, &none); }
            let mut second = Ref::default(); for p in &prog[1..] { second.step(p, &none); }
            let t: Vec<String> = prog.iter().map(|p| text(p)).collect();
            r.eval(1); r.trans(3); r.trace(1);
            let one = RexExecutor::new().execute_commands(&t.join("\n"), "p", None, None);
            let mut e = RexExecutor::new();
            let _ = e.execute_commands(&t[0], "p", Some("/r"), None);
            let two = e.execute_commands(&t[1..].join("\r\n"), "q", None, None);
            e.clear();
            let three = e.execute_commands(&t[1..].join("\n\n"), "q", None, None);
            for (what, got, want) in [("one call", one, &want), ("two calls", two, &want), ("after clear", three, &second)] {
                match got { Ok(g) if Ref::of(&g) == *want => {}, o => { r.fail("program", format!("{what}: program {t:?} gives {:?}, expected {want:?}", o.map(|e| Ref::of(&e))), json!({"program": t, "how": what})); return } }
            }
            r.outcome(&want);
        }
    });
}

// ---- (c)
fn managers(r: &'static Run) {
    let al: Vec<St> = vec![Set(s("A"), s("{root}:{version}")), Set(s("A"), s("")), Pre(s("A"), s("{name}"), None), App(s("A"), s("/x"), None), IfE(s("A"), s("d")), Unset(s("A")), Reset(s("A")), Pre(s("PATH"), s("{root}/bin"), None), App(s("PATH"), s("/usr/bin"), None), Set(s("PATH"), s("/b:/a:/b")), Unset(s("PATH")), Alias(s("t"), s("{root}/t")), Cmd(s("c {name}")), Src(s("{root}/s")), Info(s("{name}")), Stop(Some(s("{name}")))];
    let one = |st: &St| text(st);
    let bases: Vec<BTreeMap<String, String>> = vec![BTreeMap::new(), [(s("A"), s("orig")), (s("PATH"), s("/usr/bin:/bin:/usr/bin:")), (s("Path"), s("/z:/z"))].into(), [(s("A"), s("")), (s("PATH"), s("")), (s("P_ROOT"), s("stale"))].into()];
    let strategies = [PathStrategy::Prepend, PathStrategy::Append, PathStrategy::Replace, PathStrategy::NoModify];
    // packages in order; versions, roots and tools differ
    let pk = |name: &str, version: Option<&str>, root: Option<&str>, tools: &[&str]| { let mut p = Package::new(s(name)); p.version = version.map(|v| Version::parse(v).unwrap()); p.filepath = root.map(|x| format!("{x}/package.py")); p.tools = tools.iter().map(|t| s(t)).collect(); p };
    let worlds: Vec<[Package; 2]> = vec![[pk("p", Some("1.2"), Some("/r/p/1.2"), &["t1", "t2"]), pk("q", None, None, &[])], [pk("p", Some("1"), None, &[]), pk("q", Some("2.0"), Some("/bin/.."), &["t"])]];
    let maxfill = r.pick(2, 3);
    r.bound("statements placed in phases", maxfill);
    let mut fills: Vec<Vec<(usize, usize)>> = vec![];
    for k in 0..=maxfill { for slots in subsets(6, k) { if slots.len() != k { continue } for c in sequences(&(0..al.len()).collect::<Vec<_>>(), k) { if c.len() == k { fills.push(slots.iter().copied().zip(c).collect()); } } } }
    fills.sort(); fills.dedup();
    // two statements in one slot
    for sl in 0..6 { for i in 0..al.len() { for j in 0..al.len() { fills.push(vec![(sl, i), (sl, j)]); } } }
    r.bound("phase fillings", fills.len());
    par(fills.len(), |fi| {
        let fill = &fills[fi];
        for (wi, w) in worlds.iter().enumerate() { for (bi, base) in bases.iter().enumerate() { for (si, strat) in strategies.iter().enumerate() { for extra in 0..4 {
            if fill.len() > 1 && (si + extra + bi + wi + fi) % 3 != 0 { continue } // full cross for single statements; every third combination for pairs and triples
            let mut cfg = ContextConfig { path_strategy: strat.clone(), ..Default::default() };
            if extra & 1 != 0 { cfg.additional_env_vars = [(s("A"), s("over")), (s("Z"), s("z"))].into(); }
            if extra & 2 != 0 { cfg.unset_vars = vec![s("A"), s("Q_ROOT"), s("absent")]; }
            let mut ps = w.to_vec();
            for (sl, _) in fill { let body: Vec<String> = fill.iter().filter(|(x, _)| x == sl).map(|(_, i)| one(&al[*i])).collect(); let p = &mut ps[sl % 2]; let b = Some(body.join("\n")); match sl / 2 { 0 => p.pre_commands = b, 1 => p.commands = b, _ => p.post_commands = b } }
            // reference
            let mut want = Ref { vars: base.clone(), ..Default::default() };
            let root = |p: &Package| p.filepath.as_ref().map(|f| f.strip_suffix("/package.py").unwrap().to_string()).unwrap_or(format!("/packages/{}", p.name));
            for p in &ps { want.vars.insert(format!("{}_ROOT", p.name.to_uppercase()), root(p)); if let Some(v) = &p.version { want.vars.insert(format!("{}_VERSION", p.name.to_uppercase()), s(v.as_str())); } }
            for sl in 0..6 { for (_, i) in fill.iter().filter(|(x, _)| *x == sl) {
                let p = &ps[sl % 2];
                let ex = |t: &str| { let mut t = t.replace("{root}", &root(p)).replace("{name}", &p.name); if let Some(v) = &p.version { t = t.replace("{version}", v.as_str()); } t };
                let st = match al[*i].clone() { Set(a, v) => Set(a, ex(&v)), Pre(a, v, x) => Pre(a, ex(&v), x), App(a, v, x) => App(a, ex(&v), x), IfE(a, v) => IfE(a, ex(&v)), Alias(a, v) => Alias(a, ex(&v)), Cmd(v) => Cmd(ex(&v)), Src(v) => Src(ex(&v)), Info(v) => Info(ex(&v)), Stop(Some(v)) => Stop(Some(ex(&v))), o => o };
                want.step(&st, base);
            } }
            if extra & 1 != 0 { want.vars.insert(s("A"), s("over")); want.vars.insert(s("Z"), s("z")); }
            let mut tp: Vec<String> = vec![]; for p in &ps { if !p.tools.is_empty() { let d = format!("{}/bin", root(p)); if !tp.contains(&d) { tp.push(d); } } }
            if !tp.is_empty() && *strat != PathStrategy::NoModify {
                let cur = want.vars.get("PATH").cloned().unwrap_or_default(); let t = tp.join(":");
                want.vars.insert(s("PATH"), match strat { PathStrategy::Replace => t, _ if cur.is_empty() => t, PathStrategy::Prepend => format!("{t}:{cur}"), _ => format!("{cur}:{t}") });
            }
            if extra & 2 != 0 { want.vars.remove("A"); want.vars.remove("Q_ROOT"); }
            if let Some(p) = want.vars.get_mut("PATH") { let mut seen: Vec<&str> = vec![]; for e in p.split(':') { if !seen.contains(&e) { seen.push(e); } } *p = seen.join(":"); }
            r.state(1); r.trans(fill.len() as u64 + 1); r.eval(1);
            let m = EnvironmentManager::with_base_environment(cfg, base.clone().into_iter().collect());
            let rp = || json!({"world": wi, "base": base, "strategy": format!("{strat:?}"), "overrides": extra, "commands": fill.iter().map(|(sl, i)| format!("{}:{}: {}", ["p", "q"][sl % 2], ["pre", "main", "post"][sl / 2], one(&al[*i]))).collect::<Vec<_>>()});
            match guard(|| futures::executor::block_on(m.generate_rex_environment(&ps))) {
                Ok(Ok(e)) => {
                    let got = Ref::of(&e);
                    if got != want { r.fail("context", format!("environment of {} is {got:?}, sequential interpretation gives {want:?}", rp()), rp()); return }
                    if fill.len() < 2 {
                        let d = m.get_env_diff(&e.vars);
                        let okd = d.added.iter().all(|(k, v)| !base.contains_key(k) && want.vars.get(k) == Some(v)) && d.modified.iter().all(|(k, (o, n))| base.get(k) == Some(o) && want.vars.get(k) == Some(n) && o != n) && d.removed.iter().all(|k| base.contains_key(k) && !want.vars.contains_key(k));
                        let cnt = want.vars.iter().filter(|(k, v)| base.get(*k) != Some(v)).count() + base.keys().filter(|k| !want.vars.contains_key(*k)).count();
                        if !okd || d.change_count() != cnt || d.is_empty() != (cnt == 0) { r.fail("diff", format!("environment difference of {} is {d:?}", rp()), rp()); return }
                    }
                }
                o => { r.fail("context-error", format!("environment of {} not generated: {:?}", rp(), o.map(|x| x.map(|_| ()))), rp()); return }
            }
        } } } }
    });
}

// ---- (d)
fn exports(r: &'static Run) {
    let saved: Vec<(String, String)> = std::env::vars().collect();
    for (k, _) in &saved { std::env::remove_var(k); }
    // values as pieces over A, B, package references and separators
    let ps: Vec<&'static str> = vec!["${A}", "${B}", "${C}", "{root}", "{version}", "x", ":", "$", "{"];
    let vals: Vec<Vec<&'static str>> = sequences(&ps, r.pick(3, 4)).into_iter().filter(|v| !v.windows(2).any(|w| w[0] == "$" && w[1].starts_with('{')) && !v.windows(2).any(|w| w[0] == "{" && w[1].starts_with('$'))).collect();
    let short: Vec<Vec<&'static str>> = sequences(&["${A}", "${B}", "x", ":"], 2);
    let starts: Vec<Vec<(&str, &str)>> = vec![vec![], vec![("A", "a"), ("B", "${A}")], vec![("A", "${B}"), ("B", "b{root}")]];
    let exp = |v: &[&'static str], var: &str, env: &BTreeMap<String, String>, version: &Option<&str>| -> String {
        let raw: String = v.concat();
        let lst = raw.contains(&format!("${{{var}}}:")) || raw.contains(&format!(":${{{var}}}"));
        v.iter().map(|p| match *p {
            "{root}" => s("/r{version}"), "{version}" => version.map(s).unwrap_or(s("{version}")),
            q if q.starts_with("${") => { let n = &q[2..q.len() - 1]; env.get(n).cloned().unwrap_or(if lst && n == var { s("") } else { s(q) }) }
            q => s(q),
        }).collect()
    };
    let mut progs: Vec<Vec<(&str, Vec<&'static str>)>> = vec![];
    for n in ["A", "B"] { for v in &vals { progs.push(vec![(n, v.clone())]); } }
    for a in &short { for b in &short { for n in ["A", "B"] { for m in ["A", "B"] { progs.push(vec![(n, a.clone()), (m, b.clone())]); if a.len() < 2 && b.len() < 2 { for c in &short { progs.push(vec![(n, a.clone()), (m, b.clone()), ("A", c.clone())]); } } } } } }
    for st in &starts {
        for (k, v) in st { std::env::set_var(k, v); }
        for version in [Some("1.2"), None] { for (pi, p) in progs.iter().enumerate() {
            let mut env: BTreeMap<String, String> = st.iter().map(|(k, v)| (s(k), s(v))).collect();
            for (n, v) in p { let x = exp(v, n, &env, &version); env.insert(s(n), x); }
            let lines: Vec<String> = p.iter().map(|(n, v)| format!("export {n}=\"{}\"", v.concat())).collect();
            // split over two packages or in one
            let k = if pi % 2 == 0 { lines.len() } else { 1 };
            let mut cx = RezResolvedContext::new(vec![]);
            for part in [&lines[..k], &lines[k..]] { let mut pkg = Package::new(s("p")); pkg.version = version.map(|v| Version::parse(v).unwrap()); pkg.commands = Some(part.join("\n")); cx.resolved_packages.push(ResolvedPackage::new(Arc::new(pkg), "/r{version}".into(), true)); }
            for rep in 0..3 { // fresh maps, so fresh iteration orders
                r.eval(1); r.trans(lines.len() as u64);
                let got = guard(|| cx.get_environ());
                match got { Ok(Ok(g)) if g.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<BTreeMap<_, _>>() == env => {}, o => { r.fail("export", format!("{lines:?} over {st:?} gives {:?}, expected {env:?} (evaluation {rep})", o.map(|x| x.map(|m| m.into_iter().collect::<BTreeMap<_, _>>()))), json!({"start": st, "lines": lines, "version": version})); break } }
            }
            if r.violated() { break }
        } }
        for (k, _) in st { std::env::remove_var(k); }
    }
    r.state(progs.len() as u64);
    for (k, v) in saved { std::env::set_var(k, v); }
}
