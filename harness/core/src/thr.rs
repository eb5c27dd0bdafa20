//! Controlled schedules of OS threads: one thread runs at a time, and hands over at schedule points.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};
use std::time::Duration;

pub static SCHED: AtomicBool = AtomicBool::new(false);
const CTL: usize = usize::MAX;
thread_local! { static TID: Cell<usize> = const { Cell::new(CTL) }; }
#[derive(Default)]
struct Turn {
    turn: usize,
    done: Vec<bool>,
    /// blocked outside a schedule point (on a lock of the code under test)
    blocked: Vec<bool>,
    /// gave up its turn because it waits for something another thread must do
    spin: Vec<bool>,
    what: Vec<String>,
    tid: Vec<i64>,
    progress: u64,
}
static TURN: Mutex<Turn> = Mutex::new(Turn { turn: CTL, done: vec![], blocked: vec![], spin: vec![], what: vec![], tid: vec![], progress: 0 });
static CV: Condvar = Condvar::new();

fn progress(g: &mut Turn, me: usize) { g.progress += 1; for i in 0..g.spin.len() { if i != me { g.spin[i] = false; } } }
fn hand_over(w: String, spin: bool) {
    let me = TID.with(|t| t.get());
    let mut g = TURN.lock().unwrap();
    g.what[me] = w;
    g.spin[me] = spin;
    // progress of one thread lets waiting ones try again
    if !spin { progress(&mut g, me); }
    // a thread that was found blocked went on without the turn
    if g.blocked[me] { g.blocked[me] = false; } else { g.turn = CTL; }
    CV.notify_all();
    while g.turn != me { g = CV.wait(g).unwrap(); }
}
/// A schedule point: another thread may run before this one goes on.
pub fn point(what: impl FnOnce() -> String) {
    if !SCHED.load(SeqCst) || TID.with(|t| t.get()) == CTL { return; }
    hand_over(what(), false);
}
/// A schedule point of a thread that cannot go on by itself.
pub fn wait_point(what: &str) {
    if !SCHED.load(SeqCst) || TID.with(|t| t.get()) == CTL { std::thread::yield_now(); return; }
    hand_over(what.to_string(), true);
}
/// Runs `f` without giving up the turn.
pub fn unscheduled<T>(f: impl FnOnce() -> T) -> T { let me = TID.with(|t| t.replace(CTL)); let v = f(); TID.with(|t| t.set(me)); v }
fn sleeping(tid: i64) -> bool {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    s.rsplit(')').next().map(|x| x.trim_start().starts_with('S')).unwrap_or(false)
}
/// Drives a future on the calling thread; Pending is a schedule point.
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let w = crate::sched::noop_waker();
    let mut cx = std::task::Context::from_waker(&w);
    loop { match f.as_mut().poll(&mut cx) { std::task::Poll::Ready(v) => return v, std::task::Poll::Pending => wait_point("pending") } }
}
/// Runs the bodies as threads that take turns at schedule points. Which thread runs next is `ch`'s choice; taking the
/// turn away from a thread that could go on costs one of `preemptions`. Threads that block on a lock are recognised by
/// sleeping away from a schedule point. Returns the executed schedule and whether all threads finished (false: deadlock).
pub fn run(ch: &mut crate::Chooser, preemptions: usize, bodies: Vec<Box<dyn FnOnce() + Send>>) -> (Vec<String>, bool) {
    let n = bodies.len();
    { let mut g = TURN.lock().unwrap(); *g = Turn { turn: CTL, done: vec![false; n], blocked: vec![false; n], spin: vec![false; n], what: vec!["start".into(); n], tid: vec![0; n], progress: 0 }; }
    SCHED.store(true, SeqCst);
    let mut log = vec![];
    let mut ok = true;
    let mut hs = vec![];
    for (i, f) in bodies.into_iter().enumerate() {
        hs.push(std::thread::spawn(move || {
            TID.with(|t| t.set(i));
            { let mut g = TURN.lock().unwrap(); g.tid[i] = unsafe { libc::syscall(libc::SYS_gettid) }; while g.turn != i { g = CV.wait(g).unwrap(); } }
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            TID.with(|t| t.set(CTL));
            let mut g = TURN.lock().unwrap();
            g.done[i] = true;
            progress(&mut g, i);
            if g.blocked[i] { g.blocked[i] = false; } else { g.turn = CTL; }
            CV.notify_all();
        }));
    }
    let (mut cur, mut left, mut idle, mut seen) = (CTL, preemptions, 0, 0);
    loop {
        let mut g = TURN.lock().unwrap();
        // wait for the turn to come back
        let mut quiet = 0;
        while g.turn != CTL {
            let (h, to) = CV.wait_timeout(g, Duration::from_millis(3)).unwrap();
            g = h;
            if g.turn == CTL || !to.timed_out() { continue; }
            let t = g.turn;
            if sleeping(g.tid[t]) { quiet += 1; } else { quiet = 0; }
            if quiet >= 4 && g.turn == t { g.blocked[t] = true; g.turn = CTL; }
        }
        // threads that were blocked and can go on now run to their next schedule point
        let mut quiet = 0;
        loop {
            let bl: Vec<usize> = (0..n).filter(|i| g.blocked[*i]).collect();
            if bl.is_empty() { break; }
            if bl.iter().all(|i| sleeping(g.tid[*i])) { quiet += 1 } else { quiet = 0 }
            if quiet >= 2 { break; }
            g = CV.wait_timeout(g, Duration::from_millis(1)).unwrap().0;
        }
        if (0..n).all(|i| g.done[i]) { break; }
        let mut live: Vec<usize> = (0..n).filter(|i| !g.done[*i] && !g.blocked[*i] && !g.spin[*i]).collect();
        if g.progress != seen { seen = g.progress; idle = 0; }
        if live.is_empty() {
            idle += 1;
            if idle > 40 { ok = false; break; }
            for i in 0..n { g.spin[i] = false; }
            live = (0..n).filter(|i| !g.done[*i] && !g.blocked[*i]).collect();
            if live.is_empty() { drop(g); std::thread::sleep(Duration::from_millis(5)); continue; }
            // nobody can be shown to go on: let each try in turn, without branching
            live = vec![live[idle % live.len()]];
        }
        let next = if live.contains(&cur) {
            if left == 0 || live.len() == 1 { cur } else {
                let mut o = vec![cur]; o.extend(live.iter().filter(|i| **i != cur));
                let k = ch.choose(o.len()); if k > 0 { left -= 1; } o[k]
            }
        } else if live.len() == 1 { live[0] } else { live[ch.choose(live.len())] };
        cur = next;
        if log.len() < 400 { log.push(format!("{next}: {}", g.what[next])); }
        g.turn = next;
        CV.notify_all();
        drop(g);
    }
    SCHED.store(false, SeqCst);
    // a deadlocked run leaves its threads behind
    if ok { for h in hs { let _ = h.join(); } }
    (log, ok)
}
