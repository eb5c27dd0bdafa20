//! E02: generated activation scripts, every short value over the shells' special characters; bash and
//! dash are the real shells, fish and PowerShell are decided by a lexer model of their quoting rules.
use mccore::*;
use rez_next_context::{ContextConfig, EnvironmentManager, ShellType as CtxShell};
use rez_next_rex::{generate_shell_script, RexEnvironment, ShellType};
use serde_json::json;
use std::collections::{BTreeMap, HashMap};
use std::path::Path;
use std::process::{Command, Stdio};

fn values(alpha: &[char], max: usize, core: &[char], deep: usize) -> Vec<String> {
    let mut v: Vec<String> = sequences(alpha, max).into_iter().map(|s| s.into_iter().collect()).collect();
    v.extend(sequences(core, deep).into_iter().filter(|s| s.len() > max).map(|s| s.into_iter().collect::<String>()));
    // longer values that mean something to a shell
    for w in ["$HOME", "${HOME}", "$(>p)", "`>p`", "\";>p;\"", "';>p;'", "$((1+1))", "\\$(>p)", "\\`>p`", "a\n>p\n", "\n>p\n#", "\\\n>p", "$'x\\ty'", "!!", "!p", "~", "a:~:b", "{p,pp}", "*", "<<p\np\n", "\\\\\"", "\"$(>p)\"", "'$(>p)'", "%PATH%", "$env:PATH", "\u{00e9}\u{4e2d}", "end\\", "\\\\", "\\\"", "$p$", "x$", "\" \\", "\u{7f}", "\t\r\n"] { v.push(w.into()); }
    v
}
struct Sh { exe: &'static str, args: &'static [&'static str] }
const BASH: Sh = Sh { exe: "/usr/bin/bash", args: &["--noprofile", "--norc"] };
const DASH: Sh = Sh { exe: "/usr/bin/dash", args: &[] };

/// source the script in a clean shell; Ok = environment a child process sees
fn source(sh: &Sh, dir: &Path, script: &str, tail: &str) -> Result<BTreeMap<String, String>, String> {
    let d = dir.join("cwd"); let _ = std::fs::create_dir_all(&d);
    let f = dir.join("s.sh");
    std::fs::write(&f, script).unwrap();
    let out = Command::new(sh.exe).args(sh.args).arg("-c").arg(format!(". '{}'\n{tail}", f.display())).env_clear().env("HOME", "/nohome").env("PATH", "/nonexistent").current_dir(&d).stdin(Stdio::null()).output().map_err(|e| e.to_string())?;
    let made: Vec<String> = std::fs::read_dir(&d).unwrap().filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().into_owned()).collect();
    for m in &made { let _ = std::fs::remove_file(d.join(m)); }
    if !made.is_empty() { return Err(format!("the shell created {made:?}")) }
    if !out.stderr.is_empty() { return Err(format!("the shell complained: {}", String::from_utf8_lossy(&out.stderr).trim())) }
    if !out.status.success() { return Err(format!("exit {:?}", out.status.code())) }
    let txt = String::from_utf8(out.stdout).map_err(|_| "invalid output".to_string())?;
    let Some(rest) = txt.strip_prefix("\u{1}MARK\u{1}") else { return Err(format!("unexpected output {:?}", txt.chars().take(80).collect::<String>())) };
    Ok(rest.split('\0').filter(|l| !l.is_empty()).filter_map(|l| l.split_once('=')).map(|(a, b)| (a.to_string(), b.to_string())).collect())
}
const ENVTAIL: &str = "printf '\\001MARK\\001'; exec /usr/bin/env -0";
const ALIASTAIL: &str = "printf '\\001MARK\\001'; for n in \"${!BASH_ALIASES[@]}\"; do printf '%s=%s\\0' \"$n\" \"${BASH_ALIASES[$n]}\"; done";

/// decide a batch with one shell run; on disagreement bisect to a single value
fn batch(r: &Run, what: &str, dir: &Path, sh: &Sh, vals: &[String], base: usize, gen: &(dyn Fn(&[(String, String)]) -> String + Sync), tail: &str) {
    let named: Vec<(String, String)> = vals.iter().enumerate().map(|(i, v)| (format!("V{}", base + i), v.clone())).collect();
    r.trans(1); r.trace(vals.len() as u64);
    let bad = match source(sh, dir, &gen(&named), tail) {
        Ok(m) => named.iter().find(|(n, v)| m.get(n) != Some(v)).map(|(n, v)| format!("{v:?} reads back as {:?}", m.get(n))).or_else(|| m.keys().find(|k| k.as_str() != "HOME" && k.as_str() != "PATH" && k.as_str() != "PWD" && k.as_str() != "OLDPWD" && k.as_str() != "SHLVL" && k.as_str() != "_" && !named.iter().any(|(n, _)| n == *k)).map(|k| format!("extra {k:?} set"))),
        Err(e) => Some(e),
    };
    let Some(bad) = bad else { return };
    if vals.len() == 1 { r.fail(what, format!("{what} ({}): value {:?}: {bad}; script line {:?}", sh.exe, vals[0], gen(&named).lines().last().unwrap_or("")), json!({"value": vals[0], "shell": sh.exe, "generator": what})); return }
    let h = vals.len() / 2;
    let n = r.violated();
    batch(r, what, dir, sh, &vals[..h], base, gen, tail);
    if !r.violated() || n { batch(r, what, dir, sh, &vals[h..], base + h, gen, tail); }
    if !r.violated() { r.fail(what, format!("{what} ({}): a batch of {} values is not reproduced: {bad}", sh.exe, vals.len()), json!({"values": vals, "shell": sh.exe})); }
}

// ---- lexer models
/// fish: `set [-gx|-x] NAME "..."` lines and comments
fn fish(script: &str, head: &str) -> Result<BTreeMap<String, String>, String> {
    let c: Vec<char> = script.chars().collect(); let mut i = 0; let mut out = BTreeMap::new();
    while i < c.len() {
        if c[i] == '\n' { i += 1; continue }
        if c[i] == '#' { while i < c.len() && c[i] != '\n' { i += 1 } continue }
        let h: Vec<char> = head.chars().collect();
        if c.len() < i + h.len() || c[i..i + h.len()] != h[..] { return Err(format!("statement {:?}", c[i..].iter().take(30).collect::<String>())) }
        i += h.len();
        let s = i; while i < c.len() && !c[i].is_whitespace() { i += 1 }
        let name: String = c[s..i].iter().collect();
        if c.get(i) != Some(&' ') || c.get(i + 1) != Some(&'"') { return Err("no quoted value".into()) }
        i += 2; let mut v = String::new();
        loop { match c.get(i) {
            None => return Err("unterminated string".into()),
            Some('"') => { i += 1; break }
            Some('$') => return Err("expansion".into()),
            Some('\\') => match c.get(i + 1) { Some(x @ ('"' | '$' | '\\')) => { v.push(*x); i += 2 } Some('\n') => i += 2, _ => { v.push('\\'); i += 1 } },
            Some(x) => { v.push(*x); i += 1 }
        } }
        if i < c.len() && c[i] != '\n' { return Err(format!("text after the value: {:?}", c[i..].iter().take(20).collect::<String>())) }
        out.insert(name, v);
    }
    Ok(out)
}
/// PowerShell: `<head>NAME<mid>'...'` or "..." lines and comments
fn pwsh(script: &str, head: &str, mid: &str) -> Result<BTreeMap<String, String>, String> {
    let mut rest = script; let mut out = BTreeMap::new();
    loop {
        rest = rest.trim_start_matches('\n');
        if rest.is_empty() { return Ok(out) }
        if rest.starts_with('#') { rest = rest.split_once('\n').map(|x| x.1).unwrap_or(""); continue }
        let (name, b) = if head == "$env:" && rest.starts_with("${env:") {
            // a braced name: everything up to the closing brace, with the backtick as escape
            let mut name = String::new(); let mut it = rest[6..].char_indices(); let mut end = None;
            while let Some((k, x)) = it.next() { match x { '}' => { end = Some(k + 6); break } '`' => match it.next() { Some((_, y)) => name.push(y), None => return Err("unterminated name".into()) }, '{' | '\n' | '\r' => return Err("invalid name".into()), x => name.push(x) } }
            let Some(end) = end else { return Err("unterminated name".into()) };
            let Some(b) = rest[end + 1..].strip_prefix(mid) else { return Err("no assignment".into()) };
            (name, b)
        } else {
            let Some(b) = rest.strip_prefix(head) else { return Err(format!("statement {:?}", rest.chars().take(30).collect::<String>())) };
            let Some((name, b)) = b.split_once(mid) else { return Err("no assignment".into()) };
            if head == "$env:" && !name.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '?') { return Err(format!("statement $env:{name}")) }
            (name.to_string(), b)
        };
        let mut it = b.char_indices().peekable(); let q = it.next().map(|x| x.1);
        if q != Some('\'') && q != Some('"') { return Err("no quoted value".into()) }
        let q = q.unwrap(); let mut v = String::new(); let end;
        loop { match it.next() {
            None => return Err("unterminated string".into()),
            Some((k, x)) if x == q => if it.peek().map(|y| y.1) == Some(q) { it.next(); v.push(q) } else { end = k; break },
            Some((_, '$')) if q == '"' => return Err("expansion".into()),
            Some((_, '`')) if q == '"' => match it.next() { Some((_, x @ ('"' | '$' | '`' | '\''))) => v.push(x), _ => return Err("escape sequence".into()) },
            Some((_, x)) => v.push(x),
        } }
        rest = &b[end + 1..];
        if !rest.is_empty() && !rest.starts_with('\n') { return Err(format!("text after the value: {:?}", rest.chars().take(20).collect::<String>())) }
        out.insert(name, v);
    }
}

fn rex(vars: &[(String, String)]) -> RexEnvironment { let mut e = RexEnvironment::new(); e.vars = vars.iter().cloned().collect(); e }
fn ctx(sh: CtxShell, vars: &[(String, String)]) -> String {
    let m = EnvironmentManager::with_base_environment(ContextConfig { shell_type: sh, ..Default::default() }, HashMap::new());
    m.generate_shell_script(&vars.iter().cloned().collect()).unwrap()
}

pub fn run(r: &'static Run) {
    r.rule("every value up to the stated length over all shell-special characters (and longer over the core ones) as the value of a variable or alias or message, through every script generator, sourced by the real shell in an empty environment and read back from a child process; fish and PowerShell scripts through a model of their quoting");
    let alpha: Vec<char> = "'\"$\\`;\n ()>p!&|#*?{}~<=%[]\t\r-,^é".chars().collect();
    let core: Vec<char> = "'\"$\\`;\n(p>".chars().collect();
    let (a, d) = r.pick((3, 5), (4, 6));
    r.bound("value length, full alphabet", a); r.bound("value length, core alphabet", d); r.bound("alphabet", alpha.len()); r.bound("core alphabet", core.len());
    let vals = values(&alpha, a, &core, d);
    r.state(vals.len() as u64); r.eval(vals.len() as u64 * 10);
    let top = scratch("e02");
    let n = 400;
    let chunks: Vec<&[String]> = vals.chunks(n).collect();
    par(chunks.len(), |i| {
        let dir = top.join(format!("{i}")); std::fs::create_dir_all(&dir).unwrap();
        let c = chunks[i]; let b = i * n;
        if r.violated() { return }
        batch(r, "rex bash script", &dir, &BASH, c, b, &|v| generate_shell_script(&rex(v), &ShellType::Bash), ENVTAIL);
        batch(r, "rex sh script", &dir, &DASH, c, b, &|v| generate_shell_script(&rex(v), &ShellType::Bash), ENVTAIL);
        batch(r, "rex zsh script", &dir, &BASH, c, b, &|v| generate_shell_script(&rex(v), &ShellType::Zsh), ENVTAIL);
        batch(r, "context bash script", &dir, &BASH, c, b, &|v| ctx(CtxShell::Bash, v), ENVTAIL);
        batch(r, "context zsh script", &dir, &BASH, c, b, &|v| ctx(CtxShell::Zsh, v), ENVTAIL);
        let al = |v: &[(String, String)]| { let mut e = RexEnvironment::new(); e.aliases = v.iter().cloned().collect(); generate_shell_script(&e, &ShellType::Bash) };
        batch(r, "rex bash alias", &dir, &BASH, c, b, &al, ALIASTAIL);
        // informational text must stay text: expect nothing but the one variable
        let info = |v: &[(String, String)]| { let mut e = RexEnvironment::new(); e.info_messages = v.iter().map(|x| x.1.clone()).collect(); e.vars = v.iter().map(|(n, _)| (n.clone(), "k".into())).collect(); generate_shell_script(&e, &ShellType::Bash) };
        let keep: Vec<String> = c.iter().map(|_| "k".to_string()).collect();
        let named: Vec<(String, String)> = c.iter().enumerate().map(|(j, v)| (format!("V{}", b + j), v.clone())).collect();
        r.trans(1);
        match source(&BASH, &dir, &info(&named), ENVTAIL) { Ok(m) if named.iter().zip(&keep).all(|((n, _), k)| m.get(n) == Some(k)) => {}, o => {
            for x in &named { if source(&BASH, &dir, &info(std::slice::from_ref(x)), ENVTAIL).is_err() { r.fail("info", format!("message {:?} is not inert in the script", x.1), json!({"message": x.1})); return } }
            r.fail("info", format!("messages are not inert: {o:?}"), json!({"values": c}));
        } }
        // models
        for (j, v) in c.iter().enumerate() {
            let one = [(format!("V{}", b + j), v.clone())];
            let want: BTreeMap<String, String> = one.iter().cloned().collect();
            let mut al = RexEnvironment::new(); al.aliases = one.iter().cloned().collect();
            for (what, got) in [("rex fish script", fish(&generate_shell_script(&rex(&one), &ShellType::Fish), "set -gx ")), ("context fish script", fish(&ctx(CtxShell::Fish, &one), "set -x ")), ("rex fish alias", fish(&generate_shell_script(&al, &ShellType::Fish), "alias ")),
                ("rex PowerShell script", pwsh(&generate_shell_script(&rex(&one), &ShellType::PowerShell), "$env:", " = ")), ("context PowerShell script", pwsh(&ctx(CtxShell::PowerShell, &one), "$env:", " = ")), ("rex PowerShell alias", pwsh(&generate_shell_script(&al, &ShellType::PowerShell), "Set-Alias -Name ", " -Value "))] {
                if got != Ok(want.clone()) { r.fail(what, format!("{what}: value {v:?} reads back as {got:?}"), json!({"value": v, "generator": what})); return }
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
    // several special values at once: every ordered pair of core values side by side (one must not leak into the next)
    let small: Vec<String> = sequences(&core, 1).into_iter().map(|s| s.into_iter().collect()).chain(["$(>p)", "`>p`", "\\", "\\\n", "x\\", "\"", "'"].map(String::from)).collect();
    let dir = top.join("pair"); std::fs::create_dir_all(&dir).unwrap();
    let mut flat: Vec<String> = vec![]; for x in &small { for y in &small { flat.push(x.clone()); flat.push(y.clone()); } }
    for c in flat.chunks(600) { batch(r, "adjacent values", &dir, &BASH, c, 0, &|v| generate_shell_script(&rex(v), &ShellType::Bash), ENVTAIL); }
    // names no shell can assign must not disturb the others or run anything
    for bad in ["A-B", "A B", "A;>p", "A(x)", "BASH_FUNC_x%%", "1A", "$(>p)", "`>p`", "A\n>p", "A=B", "é", "A#", "ProgramFiles(x86)", "A&", "A|B", "A>p", "A\"", "A}", "A} = 1; >p #", "A`", "A{", "A:B", "A$B", "A'", ""] {
        let vars: Vec<(String, String)> = vec![("AA".into(), "1".into()), (bad.into(), "x".into()), ("zz".into(), "2".into())];
        for (what, sh, script) in [("rex", &BASH, generate_shell_script(&rex(&vars), &ShellType::Bash)), ("rex sh", &DASH, generate_shell_script(&rex(&vars), &ShellType::Bash)), ("context", &BASH, ctx(CtxShell::Bash, &vars)), ("context zsh", &BASH, ctx(CtxShell::Zsh, &vars))] {
            r.trans(1); r.trace(1);
            match source(sh, &dir, &script, ENVTAIL) { Ok(m) if m.get("AA").map(|s| s.as_str()) == Some("1") && m.get("zz").map(|s| s.as_str()) == Some("2") && !m.contains_key("A") => {}, o => r.fail("name", format!("{what} script with a variable named {bad:?}: {o:?}"), json!({"name": bad, "generator": what})) }
        }
        for (what, m) in [("rex", pwsh(&generate_shell_script(&rex(&vars), &ShellType::PowerShell), "$env:", " = ")), ("context", pwsh(&ctx(CtxShell::PowerShell, &vars), "$env:", " = "))] {
            r.trans(1);
            if !matches!(&m, Ok(m) if m.get("AA").map(|s| s.as_str()) == Some("1") && m.get("zz").map(|s| s.as_str()) == Some("2") && m.keys().all(|k| k == "AA" || k == "zz" || k == bad)) { r.fail("name", format!("{what} PowerShell script with a variable named {bad:?}: {m:?}"), json!({"name": bad, "generator": what})) }
        }
        let f = fish(&ctx(CtxShell::Fish, &vars), "set -x "); if !matches!(&f, Ok(m) if m.get("AA").is_some() && m.get("zz").is_some() && m.len() == 2) { r.fail("name", format!("context fish script with a variable named {bad:?}: {f:?}"), json!({"name": bad})) }
        let f = fish(&generate_shell_script(&rex(&vars), &ShellType::Fish), "set -gx "); if !matches!(&f, Ok(m) if m.get("AA").is_some() && m.get("zz").is_some() && m.len() == 2) { r.fail("name", format!("fish script with a variable named {bad:?}: {f:?}"), json!({"name": bad})) }
    }
}
