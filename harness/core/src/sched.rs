//! Controlled poll-order exploration for async tasks (filled in by users of `explore`).
use crate::Chooser;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

fn noop_raw() -> RawWaker {
    fn c(_: *const ()) -> RawWaker { noop_raw() }
    fn n(_: *const ()) {}
    static V: RawWakerVTable = RawWakerVTable::new(c, n, n, n);
    RawWaker::new(std::ptr::null(), &V)
}
pub fn noop_waker() -> Waker { unsafe { Waker::from_raw(noop_raw()) } }

/// Polls the tasks in an order decided by `ch` until all are done.
/// A task that stays Pending is simply offered again; returns false on livelock (horizon hit).
pub fn run_tasks(ch: &mut Chooser, mut tasks: Vec<Pin<Box<dyn Future<Output = ()> + '_>>>, horizon: usize) -> bool {
    let w = noop_waker();
    let mut cx = Context::from_waker(&w);
    let mut alive: Vec<usize> = (0..tasks.len()).collect();
    let mut stuck = 0;
    let mut steps = 0;
    while !alive.is_empty() {
        steps += 1;
        if steps > horizon { return false; }
        let k = if alive.len() == 1 { 0 } else { ch.choose(alive.len()) };
        let i = alive[k];
        match tasks[i].as_mut().poll(&mut cx) {
            Poll::Ready(()) => { alive.remove(k); stuck = 0; }
            Poll::Pending => { stuck += 1; if stuck > 64 { return false; } }
        }
    }
    true
}

struct Flag { woken: std::sync::atomic::AtomicBool }
impl std::task::Wake for Flag { fn wake(self: std::sync::Arc<Self>) { self.woken.store(true, std::sync::atomic::Ordering::SeqCst); } }
/// Polls the tasks in an order decided by `ch`; only tasks that were woken are offered, so a task waiting for a lock
/// is not. `settle` runs after every poll and returns when all I/O the tasks started is finished.
/// Returns the schedule and whether all tasks finished (false: deadlock).
pub fn run_woken(ch: &mut Chooser, mut tasks: Vec<Pin<Box<dyn Future<Output = ()> + '_>>>, mut settle: impl FnMut()) -> (Vec<usize>, bool) {
    use std::sync::atomic::Ordering::SeqCst;
    let flags: Vec<std::sync::Arc<Flag>> = tasks.iter().map(|_| std::sync::Arc::new(Flag { woken: true.into() })).collect();
    let wakers: Vec<Waker> = flags.iter().map(|f| f.clone().into()).collect();
    let mut alive: Vec<usize> = (0..tasks.len()).collect();
    let mut log = vec![];
    while !alive.is_empty() {
        let ready: Vec<usize> = alive.iter().copied().filter(|i| flags[*i].woken.load(SeqCst)).collect();
        if ready.is_empty() { return (log, false); }
        let i = if ready.len() == 1 { ready[0] } else { ready[ch.choose(ready.len())] };
        flags[i].woken.store(false, SeqCst);
        log.push(i);
        if log.len() > 20000 { return (log, false); }
        if tasks[i].as_mut().poll(&mut Context::from_waker(&wakers[i])).is_ready() { alive.retain(|x| *x != i); }
        settle();
    }
    (log, true)
}
