//! C02: the two-level in-memory cache: all operation sequences, and all schedules of concurrent tasks.
use mccore::*;
use rez_next_cache::{IntelligentCacheManager, UnifiedCache, UnifiedCacheConfig};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

const SEC: i64 = 1_000_000_000;
const TTL: u64 = 10;
/// Hashing a key is a schedule point: every map operation hashes its key before it touches the map.
#[derive(Clone, Debug)]
struct Key(u8);
impl PartialEq for Key { fn eq(&self, o: &Key) -> bool { self.0 == o.0 } }
impl Eq for Key {}
impl std::hash::Hash for Key { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { thr::point(|| format!("map operation on key {}", self.0)); h.write_u8(self.0); } }
type Cache = IntelligentCacheManager<Key, u64>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub(crate) enum Op { Put(u8), Get(u8), Del(u8), Has(u8), Clear, Tick }
use Op::*;
impl Op { fn key(self) -> Option<u8> { match self { Put(k) | Get(k) | Del(k) | Has(k) => Some(k), _ => None } } }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub(crate) enum Res { Done, Val(Option<u64>), Yes(bool) }

fn config(l1: usize, l2: usize, threshold: u64, ttl: u64, extras: bool) -> UnifiedCacheConfig {
    let mut c = UnifiedCacheConfig::default();
    c.l1_config.max_entries = l1;
    c.l2_config.max_entries = l2;
    c.l1_config.promotion_threshold = threshold;
    c.l1_config.default_ttl = ttl;
    c.l2_config.default_ttl = ttl;
    c.preheating_config.enable_pattern_learning = extras;
    c.preheating_config.enable_predictive_preheating = extras;
    c.tuning_config.enable_adaptive_tuning = extras;
    c
}
async fn apply(c: &Cache, op: Op, v: u64) -> Res {
    match op {
        Put(k) => { c.put(Key(k), v).await.unwrap(); Res::Done }
        Get(k) => Res::Val(c.get(&Key(k)).await),
        Del(k) => Res::Yes(c.remove(&Key(k)).await),
        Has(k) => Res::Yes(c.contains_key(&Key(k)).await),
        Clear => { c.clear().await.unwrap(); Res::Done }
        Tick => { fsx::clock_add(6 * SEC); Res::Done }
    }
}
/// key -> (value, seconds at which it was stored)
type M = BTreeMap<u8, (u64, u64)>;

/// Sequences in which new keys appear in order (keys are interchangeable).
fn canonical(seq: &[Op]) -> bool {
    let mut next = 0;
    for o in seq { if let Some(k) = o.key() { if k > next { return false; } if k == next { next += 1; } } }
    true
}
fn sequential(r: &'static Run, shard: usize, shards: usize) {
    let ops = [Put(0), Get(0), Del(0), Has(0), Put(1), Get(1), Del(1), Put(2), Get(2), Put(3), Clear, Tick];
    let depth = r.pick(5, 6);
    let mut cfgs = vec![];
    for (l1, l2) in [(1, 1), (1, 2), (2, 1), (2, 2)] { for th in [1, 2, 3] { for (ttl, extras) in [(0, false), (TTL, false), (TTL, true)] {
        if extras && th != 2 { continue; }
        cfgs.push((l1, l2, th, ttl, extras));
    } } }
    // a storing prefix, then every continuation: promotions and evictions need a warm cache
    let warm: Vec<Vec<Op>> = vec![vec![], vec![Put(0), Get(0), Put(1)], vec![Put(0), Get(0), Put(1), Get(1), Put(2), Get(2)]];
    let seqs: Vec<Vec<Op>> = sequences(&ops, depth).into_iter().filter(|s| s.len() == depth && !matches!(s[depth - 1], Tick)).collect();
    let (mut states, mut trans, mut evals) = (0u64, 0u64, 0u64);
    for (wi, w) in warm.iter().enumerate() { for (si, s) in seqs.iter().enumerate() {
        if si % shards != shard { continue; }
        let full: Vec<Op> = w.iter().chain(s).copied().collect();
        if !canonical(&full) { continue; }
        // warm prefixes are longer; keep only those continuations that end in a read
        if wi > 0 && !matches!(full.last().unwrap(), Get(_) | Has(_) | Del(_)) { continue; }
        for &(l1, l2, th, ttl, extras) in &cfgs {
            if extras && wi != 1 { continue; }
            // quick: after the longer prefix only the configurations in which it overflows both levels
            if !r.thorough && wi == 2 && l1 + l2 > 3 { continue; }
            if !r.thorough && wi == 0 && th == 3 { continue; }
            if (ttl == 0) == full.contains(&Tick) && !extras { continue; }
            fsx::clock_set_offset(0);
            let c = Cache::new(config(l1, l2, th, ttl, extras));
            let mut m: M = BTreeMap::new();
            let (mut now, mut val) = (0u64, 0u64);
            let (mut hits, mut misses) = (0u64, 0u64);
            // keys stored since the cache was last certainly empty
            let mut crowd: BTreeSet<u8> = BTreeSet::new();
            let mut fits = true;
            states += 1;
            for (i, op) in full.iter().enumerate() {
                val += 1;
                let res = match guard(|| thr::block_on(apply(&c, *op, val))) { Ok(x) => x, Err(p) => { report(r, (l1, l2, th, ttl), &full[..=i], format!("panicked: {p}")); break } };
                trans += 1; evals += 1;
                let live = |m: &M, k: u8, now: u64| m.get(&k).filter(|x| ttl == 0 || now < x.1 + ttl).map(|x| x.0);
                let mut bad = None;
                match (*op, res) {
                    (Put(k), _) => { m.insert(k, (val, now)); crowd.insert(k); if crowd.len() > l1 { fits = false; } }
                    (Get(k), Res::Val(g)) => {
                        let want = live(&m, k, now);
                        if g.is_some() { hits += 1 } else { misses += 1 }
                        if g.is_some() && g != want { bad = Some(format!("read of {k} gave {g:?}, stored is {want:?}")); }
                        if g.is_none() && want.is_some() && (fits || i > 0 && full[i - 1] == Put(k)) { bad = Some(format!("read of {k} found nothing although {want:?} is stored and the cache never overflowed since")); }
                    }
                    (Has(k), Res::Yes(y)) => if y && live(&m, k, now).is_none() || !y && fits && live(&m, k, now).is_some() { bad = Some(format!("presence of {k} reported as {y}")) },
                    (Del(k), Res::Yes(y)) => {
                        if y && !m.contains_key(&k) || !y && fits && live(&m, k, now).is_some() { bad = Some(format!("removal of {k} reported as {y}")) }
                        m.remove(&k);
                    }
                    (Clear, _) => { m.clear(); crowd.clear(); fits = true; hits = 0; misses = 0; }
                    (Tick, _) => now += 6,
                    _ => {}
                }
                if m.is_empty() { crowd.clear(); fits = true; }
                if bad.is_none() && (i + 1 == full.len() || wi > 0) {
                    let st = thr::block_on(c.get_stats());
                    let size = thr::block_on(c.size());
                    evals += 1;
                    if size > m.len() || size > l1 + l2 { bad = Some(format!("{size} entries counted, {} keys stored", m.len())); }
                    else if st.l1_stats.entries > l1 || st.l2_stats.entries > l2 { bad = Some(format!("levels hold {} and {} entries", st.l1_stats.entries, st.l2_stats.entries)); }
                    else if st.overall_stats.total_entries != size { bad = Some(format!("statistics count {} entries, the cache {size}", st.overall_stats.total_entries)); }
                    else if st.l1_stats.hits + st.l2_stats.hits != hits || st.l1_stats.misses != misses || st.overall_stats.total_hits != hits { bad = Some(format!("statistics count {} hits and {} misses; {hits} and {misses} happened", st.l1_stats.hits + st.l2_stats.hits, st.l1_stats.misses)); }
                    else if (size == 0) != thr::block_on(c.is_empty()) || thr::block_on(c.capacity()) != l1 + l2 { bad = Some("emptiness or capacity wrong".into()); }
                    if states % 64 == 0 { r.outcome(&(size, hits, misses, st.l1_stats.entries)); }
                }
                if let Some(b) = bad { report(r, (l1, l2, th, ttl), &full[..=i], b); break; }
            }
        }
    } }
    fsx::clock_set_offset(0);
    r.state(states); r.trans(trans); r.eval(evals);
    r.part("sequences", "histories", states);
    if shard == 0 { r.bound("sequence depth", format!("{depth} after prefixes of 0, 3 and 6 operations")); r.bound("capacities", "1-2 entries per level, 4 keys"); }
}
fn report(r: &Run, cfg: (usize, usize, u64, u64), ops: &[Op], what: String) {
    r.fail(&format!("seq:{cfg:?}:{ops:?}"), format!("capacities {}/{}, promotion after {}, ttl {}: after {ops:?} {what}", cfg.0, cfg.1, cfg.2, cfg.3), json!({"config (l1, l2, threshold, ttl)": format!("{cfg:?}"), "operations": format!("{ops:?}")}));
}

#[derive(Clone, Debug)]
pub(crate) struct Ev { pub start: u64, pub end: u64, pub op: Op, pub val: u64, pub res: Res }
/// Is there an order of the events, consistent with real time, in which every positive answer is right?
/// (A cache may drop entries, so "nothing" is always an acceptable answer.)
pub(crate) fn linearizable(evs: &[Ev], used: u32, m: &BTreeMap<u8, u64>) -> bool {
    if used.count_ones() as usize == evs.len() { return true; }
    for i in 0..evs.len() {
        if used >> i & 1 == 1 { continue; }
        if (0..evs.len()).any(|j| j != i && used >> j & 1 == 0 && evs[j].end < evs[i].start) { continue; }
        let e = &evs[i];
        let mut n = m.clone();
        let ok = match (e.op, e.res) {
            (Put(k), _) => { n.insert(k, e.val); true }
            (Get(k), Res::Val(Some(v))) => n.get(&k) == Some(&v),
            (Has(k), Res::Yes(true)) => n.contains_key(&k),
            (Del(k), Res::Yes(y)) => { let had = n.remove(&k).is_some(); had || !y }
            (Clear, _) => { n.clear(); true }
            _ => true,
        };
        if ok && linearizable(evs, used | 1 << i, &n) { return true; }
    }
    false
}
fn concurrent(r: &'static Run, shard: usize, shards: usize) {
    let single = [Put(0), Get(0), Del(0), Has(0), Put(1), Get(1), Put(2), Clear];
    let setups: Vec<((usize, usize, u64), Vec<Op>)> = vec![
        ((1, 1, 2), vec![]),
        ((1, 1, 2), vec![Put(0)]),
        ((1, 2, 1), vec![Put(0), Get(0)]),
        ((1, 2, 2), vec![Put(0), Get(0), Put(1)]),
        ((1, 2, 2), vec![Put(0), Get(0), Put(1), Get(1)]),
        ((1, 1, 9), vec![Put(0), Get(0), Put(1), Get(1)]),
        ((2, 2, 3), vec![Put(0), Get(0), Put(1), Get(1), Put(2)]),
        ((1, 2, 2), vec![Put(0), Get(0), Put(1), Get(1), Tick, Tick]),
        ((1, 2, 2), vec![Put(0), Tick, Tick]),
    ];
    let mut progs: Vec<Vec<Vec<Op>>> = vec![];
    for (i, a) in single.iter().enumerate() { for b in &single[i..] { progs.push(vec![vec![*a], vec![*b]]); } }
    for a in single { for b in single { for c in single {
        if !matches!((a, b, c), (Put(_) | Del(_) | Clear, _, _) | (_, Put(_) | Del(_) | Clear, _) | (_, _, Put(_) | Del(_) | Clear)) { continue; }
        // quick: leave out programs that only repeat a read
        if !r.thorough && (matches!(a, Has(_) | Clear) || matches!((a, b), (Get(_), Has(_) | Get(_))) || a == b && a != Put(0)) { continue; }
        progs.push(vec![vec![a, b], vec![c]]);
        if r.thorough && a <= b && b <= c { progs.push(vec![vec![a], vec![b], vec![c]]); }
        if r.thorough { for d in [Put(0), Get(0), Put(1), Get(1)] { if (a, b) <= (c, d) { progs.push(vec![vec![a, b], vec![c, d]]); } } }
    } } }
    for t in [vec![Get(0), Put(0), Put(0)], vec![Get(0), Put(0), Put(1)], vec![Get(0), Del(0), Put(1)], vec![Get(0), Put(0), Clear], vec![Put(0), Put(0), Put(0)], vec![Get(0), Get(1), Put(2)]] { progs.push(t.into_iter().map(|o| vec![o]).collect()); }
    let bound = r.pick(2, 3);
    let mut total = 0u64;
    let mut idx = 0;
    let mut cache: std::collections::HashSet<u64> = Default::default();
    for (cfg, setup) in &setups { for prog in &progs {
        idx += 1;
        if idx % shards != shard { continue; }
        let n = explore(|ch| {
            fsx::clock_set_offset(0);
            let c = Arc::new(Cache::new(config(cfg.0, cfg.1, cfg.2, if setup.contains(&Tick) { TTL } else { 0 }, false)));
            let mut m: BTreeMap<u8, u64> = BTreeMap::new();
            let mut v = 0;
            for o in setup { v += 1; thr::block_on(apply(&c, *o, v)); match o { Put(k) => { m.insert(*k, v); } Tick => m.clear(), _ => {} } }
            if setup.iter().filter(|o| **o == Tick).count() == 1 { unreachable!() }
            // a later removal may still report an expired entry as removed
            let expired = setup.contains(&Tick);
            let clock = Arc::new(AtomicU64::new(1));
            let evs: Arc<Mutex<Vec<Ev>>> = Default::default();
            let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
            for (t, p) in prog.iter().enumerate() {
                let (c, clock, evs, p) = (c.clone(), clock.clone(), evs.clone(), p.clone());
                bodies.push(Box::new(move || for (i, op) in p.into_iter().enumerate() {
                    let val = 100 + 10 * t as u64 + i as u64;
                    let start = clock.fetch_add(1, SeqCst);
                    let res = thr::block_on(apply(&c, op, val));
                    let end = clock.fetch_add(1, SeqCst);
                    evs.lock().unwrap().push(Ev { start, end, op, val, res });
                }));
            }
            let (log, done) = thr::run(ch, bound, bodies);
            r.trans(log.len() as u64);
            let fail = |what: String| r.fail(&format!("race:{cfg:?}:{setup:?}:{prog:?}"), format!("capacities {}/{} promotion after {}: after {setup:?}, concurrently {prog:?}: {what}", cfg.0, cfg.1, cfg.2), json!({"setup": format!("{setup:?}"), "programs": format!("{prog:?}"), "schedule": log, "choices": ch.path()}));
            if !done { fail("the tasks never finish".into()); return; }
            let mut e = evs.lock().unwrap().clone();
            if e.len() != prog.iter().map(Vec::len).sum::<usize>() { fail("a task panicked".into()); return; }
            // and what is there afterwards
            for k in 0..3u8 { let start = clock.fetch_add(1, SeqCst); let res = thr::block_on(apply(&c, Get(k), 0)); let end = clock.fetch_add(1, SeqCst); e.push(Ev { start, end, op: Get(k), val: 0, res }); }
            let h = hash_of(&(cfg, setup, e.iter().map(|e| (e.start, e.end, e.op, e.val, e.res)).collect::<Vec<_>>()));
            if cache.insert(h) {
                r.eval(1);
                let mut judged = e.clone();
                if expired { for x in judged.iter_mut() { if let (Del(_), Res::Yes(_)) = (x.op, x.res) { x.res = Res::Yes(false); } } }
                if !linearizable(&judged, 0, &m) { fail(format!("no order of the operations explains the answers {:?}", e.iter().map(|x| (x.op, x.res)).collect::<Vec<_>>())); }
                r.outcome(&("race", e.iter().map(|x| x.res).collect::<Vec<_>>()));
            }
            let st = thr::block_on(c.get_stats());
            let keys: BTreeSet<u8> = setup.iter().chain(prog.iter().flatten()).filter_map(|o| if let Put(k) = o { Some(*k) } else { None }).collect();
            if st.overall_stats.total_entries > keys.len() || st.l1_stats.entries + st.l2_stats.entries != thr::block_on(c.size()) { fail(format!("{} entries counted for {} keys", st.overall_stats.total_entries, keys.len())); }
            if st.l2_stats.entries > cfg.1 || st.l1_stats.entries > cfg.0 { fail(format!("levels hold {} and {} entries", st.l1_stats.entries, st.l2_stats.entries)); }
            if idx == 40 { r.sample(json!({"setup": format!("{setup:?}"), "programs": format!("{prog:?}"), "schedule": log})); }
        });
        total += n;
    } }
    r.state(total); r.trace(total);
    r.part("schedules", "executions", total);
    if shard == 0 { r.bound("preemptions", bound as u64); r.bound("concurrent programs", (progs.len() * setups.len()) as u64); }
    fsx::clock_set_offset(0);
}
pub fn run(r: &'static Run) {
    r.rule("every operation answer is compared with a register model (sequences) or with some linear order (schedules)");
    r.sharded(8, |s, n| {
        watchdog(r, 600);
        fsx::clock_freeze(1_700_000_000 * SEC);
        sequential(r, s, n);
        concurrent(r, s, n);
    });
}
