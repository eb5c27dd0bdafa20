//! V01: version order, equality, hashing, parse/print. Exhaustive over token alphabets.
use mccore::*;
use rez_next_version::Version;
use serde_json::json;
use std::cmp::Ordering;
use std::collections::BTreeSet;

// ---------- reference ----------
fn segs(t: &str) -> Vec<(bool, String)> {
    let mut out: Vec<(bool, String)> = vec![];
    for c in t.chars() {
        let d = c.is_ascii_digit();
        match out.last_mut() { Some((k, s)) if *k == d => s.push(c), _ => out.push((d, c.to_string())) }
    }
    for (d, s) in out.iter_mut() { if *d { let z = s.trim_start_matches('0').to_string(); *s = z; } }
    out
}
pub fn tok_cmp(a: &str, b: &str) -> Ordering {
    let (x, y) = (segs(a), segs(b));
    for (p, q) in x.iter().zip(&y) {
        let o = match (p.0, q.0) {
            (true, true) => (p.1.len(), &p.1).cmp(&(q.1.len(), &q.1)),
            (false, false) => p.1.cmp(&q.1),
            (true, false) => Ordering::Greater,
            (false, true) => Ordering::Less,
        };
        if o != Ordering::Equal { return o; }
    }
    x.len().cmp(&y.len())
}
pub fn toks(s: &str) -> Vec<&str> { if s.is_empty() { vec![] } else { s.split(['.', '-', '+']).collect() } }
fn zero(t: &str) -> bool { t.bytes().all(|b| b == b'0') }
pub fn ref_cmp(a: &str, b: &str) -> Ordering {
    if a == "inf" || b == "inf" { return (a == "inf").cmp(&(b == "inf")); }
    if a.is_empty() || b.is_empty() { return (!a.is_empty()).cmp(&!b.is_empty()); }
    let (x, y) = (toks(a), toks(b));
    for (p, q) in x.iter().zip(&y) { let o = tok_cmp(p, q); if o != Ordering::Equal { return o; } }
    let k = x.len().min(y.len());
    if x[k..].iter().all(|t| zero(t)) && y[k..].iter().all(|t| zero(t)) { return Ordering::Equal; }
    y.len().cmp(&x.len()) // the shorter one is the later release
}
/// the documented-but-cyclic corner: one version is the other plus only zero tokens
fn zero_ext(a: &str, b: &str) -> bool {
    let (x, y) = (toks(a), toks(b));
    x.len() != y.len() && ref_cmp(a, b) == Ordering::Equal
}
fn ref_parse(s: &str) -> Option<String> {
    let s = s.trim();
    if s.is_empty() || s == "epsilon" { return Some(String::new()); }
    if s == "inf" { return Some("inf".into()); }
    if s.starts_with(['v', 'V']) { return None; }
    let t = toks(s);
    if t.len() > 10 { return None; }
    let mut nums = 0;
    for x in &t {
        if x.is_empty() || !x.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') { return None; }
        if x.starts_with('_') || x.ends_with('_') || *x == "not" || *x == "version" { return None; }
        if x.len() > 10 && x.chars().all(|c| c.is_ascii_alphabetic()) { return None; }
        if x.chars().all(|c| c.is_ascii_digit()) { nums += 1; }
    }
    if nums > 5 { return None; }
    Some(s.to_string())
}

pub fn run(r: &Run) {
    r.rule("every version over the token alphabets up to the stated token counts; all ordered pairs, all ordered triples; all strings up to the stated length through the parser");
    // --- A. parser/print over all short strings ---
    let chars: Vec<char> = r.pick("01av_.-+ ", "01aZv_.-+ ").chars().collect();
    let maxlen = r.pick(7, 8);
    let n = chars.len();
    let firsts: Vec<(usize, usize)> = (0..n).flat_map(|a| (0..n).map(move |b| (a, b))).collect();
    let check_parse = |s: &str| {
        r.eval(1);
        let want = ref_parse(s);
        let got = match guard(|| Version::parse(s)) { Ok(g) => g, Err(p) => { r.fail("parse-panic", format!("parsing {s:?} panicked: {p}"), json!({"input": s})); return } };
        match (&want, &got) {
            (None, Err(_)) => {}
            (Some(w), Ok(v)) => {
                r.trace(1);
                if v.as_str() != w || v.to_string() != *w { r.fail("print", format!("{s:?} prints as {:?}, expected {w:?}", v.as_str()), json!({"input": s})); }
                let j = serde_json::to_string(v).unwrap();
                let back: Result<Version, _> = serde_json::from_str(&j);
                let again = Version::parse(v.as_str());
                match (back, again) {
                    (Ok(b), Ok(a)) if b == *v && a == *v && b.as_str() == v.as_str() && a.as_str() == v.as_str() && hash_of(&a) == hash_of(v) => {}
                    _ => r.fail("roundtrip", format!("{s:?} does not survive printing/serialising and parsing"), json!({"input": s})),
                }
                let c = v.clone();
                if c != *v || c.as_str() != v.as_str() { r.fail("clone", format!("clone of {s:?} differs"), json!({"input": s})); }
                let nt = if w == "inf" { 0 } else { toks(w).len() };
                let num = |i: usize| if w == "inf" { None } else { toks(w).get(i).and_then(|t| t.parse::<u64>().ok()) };
                if v.len() != nt || v.major() != num(0) || v.minor() != num(1) || v.patch() != num(2) || v.is_inf() != (w == "inf") || v.is_empty() != w.is_empty() {
                    r.fail("components", format!("components of {s:?} wrong"), json!({"input": s}));
                }
            }
            _ => r.fail("accept", format!("parsing {s:?}: expected accepted={}, got accepted={}", want.is_some(), got.is_ok()), json!({"input": s})),
        }
    };
    for w in ["", "inf", "epsilon", "1.2.3.4.5", "1.2.3.4.5.6", "1.2.3.4.5.a", "1.a.a.a.a.a.a.a.a.a", "1.a.a.a.a.a.a.a.a.a.a", "abcdefghij", "abcdefghijk", "abcdefghijk1", "not", "version", "1.not", "1.version",
              "1/2", "1,2", "1 2", "1..2", "1.é", "v1", "V1", "1.v1", "a__b", " 1.0 ", "\t1.0\n", "1.inf", "inf.1", "epsilon.1"] { check_parse(w); }
    // all strings of length 1..maxlen, split over the cores by their first two characters
    for c in &chars { check_parse(&c.to_string()); }
    par(firsts.len(), |i| {
        let base: String = [chars[firsts[i].0], chars[firsts[i].1]].iter().collect();
        fn go(base: &mut String, left: usize, chars: &[char], f: &dyn Fn(&str)) {
            f(base);
            if left == 0 { return; }
            for c in chars { base.push(*c); go(base, left - 1, chars, f); base.pop(); }
        }
        let mut b = base;
        go(&mut b, maxlen - 2, &chars, &check_parse);
    });
    r.bound("parse_max_len", maxlen as u64); r.bound("parse_alphabet", chars.iter().collect::<String>());

    // --- B. order over token alphabets ---
    let t2: &[&str] = r.pick(
        &["0", "1", "2", "9", "10", "01", "00", "a", "b", "B", "alpha", "beta", "rc", "rc1", "rc2", "rc10", "rc01", "1a", "1a2", "2a", "b_1", "a1b", "18446744073709551615", "18446744073709551616", "9223372036854775808"][..],
        &["0", "1", "2", "9", "10", "11", "01", "00", "a", "b", "c", "B", "alpha", "beta", "dev", "rc", "rc1", "rc2", "rc9", "rc10", "rc01", "1a", "1a2", "1a10", "2a", "b_1", "a_b", "a1b", "a1c", "a01b", "18446744073709551615", "18446744073709551616", "99999999999999999999", "9223372036854775807", "9223372036854775808", "4294967296"][..]);
    let t3: &[&str] = r.pick(&["0", "1", "2", "10", "a", "rc1"][..], &["0", "1", "2", "10", "a", "b", "rc1", "00"][..]);
    let t4: &[&str] = r.pick(&["0", "1", "a"][..], &["0", "1", "2", "a"][..]);
    let t5: &[&str] = &["0", "1"];
    let mut set: BTreeSet<String> = BTreeSet::new();
    for (al, n) in [(t2, 2), (t3, 3), (t4, 4), (t5, 5)] { for s in sequences(al, n) { set.insert(s.join(".")); } }
    for s in ["1-2", "1+2", "1-0", "1.0-a", "1-a.0", "2+0", "inf", "1-rc1"] { set.insert(s.into()); }
    let strs: Vec<String> = set.into_iter().collect();
    let vs: Vec<Version> = strs.iter().map(|s| Version::parse(s).unwrap()).collect();
    let n = vs.len();
    r.state(n as u64);
    r.bound("versions", n as u64);
    let words = (n + 63) / 64;
    // lt / eq bit matrices from the implementation
    let rows: Vec<std::sync::OnceLock<(Vec<u64>, Vec<u64>, u64)>> = (0..n).map(|_| std::sync::OnceLock::new()).collect();
    par(n, |i| {
        let (mut lt, mut eq) = (vec![0u64; words], vec![0u64; words]);
        for j in 0..n {
            let (a, b) = (&vs[i], &vs[j]);
            let c = a.cmp(b);
            let want = ref_cmp(&strs[i], &strs[j]);
            let k = || json!({"a": strs[i], "b": strs[j]});
            if c != want { r.fail("order", format!("compare({}, {}) = {c:?}, documented order says {want:?}", strs[i], strs[j]), k()); }
            if b.cmp(a) != c.reverse() { r.fail("antisymmetry", format!("compare({0},{1}) and compare({1},{0}) disagree", strs[i], strs[j]), k()); }
            if a.partial_cmp(b) != Some(c) || (a == b) != (c == Ordering::Equal) || (a < b) != (c == Ordering::Less) || (a >= b) != (c != Ordering::Less) {
                r.fail("operators", format!("operators disagree with cmp on {} {}", strs[i], strs[j]), k());
            }
            if c == Ordering::Equal && hash_of(a) != hash_of(b) { r.fail("hash", format!("{} == {} but they hash differently", strs[i], strs[j]), k()); }
            let hp = { let (x, y) = (toks(&strs[i]), toks(&strs[j])); if strs[j] == "inf" || strs[j].is_empty() { true } else if strs[i] == "inf" { false } else { x.len() >= y.len() && x.iter().zip(&y).all(|(p, q)| tok_cmp(p, q) == Ordering::Equal) } };
            if a.has_prefix(b) != hp { r.fail("prefix", format!("{} has_prefix {} = {}, expected {hp}", strs[i], strs[j], a.has_prefix(b)), k()); }
            match c { Ordering::Less => lt[j / 64] |= 1 << (j % 64), Ordering::Equal => eq[j / 64] |= 1 << (j % 64), _ => {} }
        }
        r.trans(n as u64); r.eval(n as u64);
        let h = hash_of(&vs[i]);
        let _ = rows[i].set((lt, eq, h));
    });
    // transitivity over all ordered triples: i<j (or i==j) and j<k  =>  i<k ; i==j and j==k => i==k
    par(n, |i| {
        let (lt, eq, _) = rows[i].get().unwrap();
        for j in 0..n {
            let bit = |m: &Vec<u64>| m[j / 64] >> (j % 64) & 1 == 1;
            let (is_lt, is_eq) = (bit(lt), bit(eq));
            if !is_lt && !is_eq { continue; }
            let (ltj, eqj, _) = rows[j].get().unwrap();
            for w in 0..words {
                let bad = if is_lt { (ltj[w] | eqj[w]) & !lt[w] } else { (ltj[w] & !lt[w]) | (eqj[w] & !eq[w]) };
                let mut b = bad;
                while b != 0 {
                    let k = w * 64 + b.trailing_zeros() as usize;
                    b &= b - 1;
                    let (x, y, z) = (&strs[i], &strs[j], &strs[k]);
                    let key = if zero_ext(x, y) || zero_ext(y, z) || zero_ext(x, z) { "intransitive:zero-extended-version" } else { "intransitive" };
                    r.fail(key, format!("{x} <= {y} <= {z} but not {x} <= {z}"), json!({"triple": [x, y, z]}));
                }
            }
        }
        r.eval((n * n) as u64);
    });
    // --- C. sorting and maximum are independent of arrival order ---
    let pool: Vec<&str> = vec!["1.0", "1.2", "1.10", "2.0", "1.0.1", "1.0.rc1", "1.0.rc2", "1.0.rc10", "10.0", "1.0a", "alpha", "9.1", "1-5", "2.0.b", "01.3", "18446744073709551616.1"];
    let k = r.pick(4, 6);
    let mut execs = 0u64;
    for sub in subsets(pool.len(), k) {
        if sub.len() < 2 { continue; }
        let names: Vec<&str> = sub.iter().map(|i| pool[*i]).collect();
        if names.iter().any(|a| names.iter().any(|b| zero_ext(a, b))) { continue; }
        let mut want = names.clone();
        want.sort_by(|a, b| ref_cmp(a, b));
        for p in permutations(&names) {
            let mut v: Vec<Version> = p.iter().map(|s| Version::parse(s).unwrap()).collect();
            let mx = v.iter().max().unwrap().as_str().to_string();
            v.sort();
            let got: Vec<&str> = v.iter().map(|x| x.as_str()).collect();
            execs += 1;
            if got != want || mx != *want.last().unwrap() { r.fail("sort", format!("sorting {p:?} gives {got:?}, max {mx}; expected {want:?}"), json!({"input": p})); }
        }
        r.outcome(&want);
    }
    r.eval(execs); r.trace(execs);
    r.part("sorting", "permutations", execs);
    // large families (past the insertion-sort threshold of the standard sort): every rotation of the full pool
    let big: Vec<String> = (0..40).map(|i| format!("{}.{}", i % 7, i)).collect();
    let mut want = big.clone(); want.sort_by(|a, b| ref_cmp(a, b));
    for rot in 0..big.len() {
        let mut b = big.clone(); b.rotate_left(rot);
        let mut v: Vec<Version> = b.iter().map(|s| Version::parse(s).unwrap()).collect();
        v.sort();
        if v.iter().map(|x| x.as_str().to_string()).collect::<Vec<_>>() != want { r.fail("sort-large", format!("rotation {rot} sorts differently"), json!({"rotation": rot})); }
    }
    r.sample(json!({"pair": ["1.0", "1.0.rc1"], "cmp": format!("{:?}", Version::parse("1.0").unwrap().cmp(&Version::parse("1.0.rc1").unwrap()))}));
    r.sample(json!({"pair": ["rc10", "rc2"], "cmp": format!("{:?}", Version::parse("rc10").unwrap().cmp(&Version::parse("rc2").unwrap()))}));
}
