//! In-process interposition of the libc calls std::fs uses. Definitions here take precedence over
//! libc.so for the whole executable. Outside an armed scope they fall through to the real syscall.
use libc::{c_char, c_int, c_uint, c_void, mode_t, off64_t, size_t, ssize_t};
use std::ffi::CStr;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Plan {
    None,
    /// The n-th mutating call (0-based) fails once with this errno and has no effect.
    Fault { at: u64, errno: i32 },
    /// The process "dies" at the n-th mutating call: it and all later ones have no effect.
    /// `torn`: if that call is a data write, half of the bytes reach the file first.
    Crash { at: u64, torn: bool },
}

static ARMED: AtomicBool = AtomicBool::new(false);
static COUNT: AtomicU64 = AtomicU64::new(0);
static PLAN: Mutex<Plan> = Mutex::new(Plan::None);
static PREFIX: Mutex<Vec<u8>> = Mutex::new(vec![]);
static LOG: Mutex<Vec<String>> = Mutex::new(vec![]);
static ESCAPES: Mutex<Vec<String>> = Mutex::new(vec![]);
static CRASHED: AtomicBool = AtomicBool::new(false);
static READ_FAULTS: AtomicBool = AtomicBool::new(false);
const NFD: usize = 4096;
static FDS: [AtomicBool; NFD] = [const { AtomicBool::new(false) }; NFD];
/// Added to CLOCK_REALTIME and CLOCK_MONOTONIC (nanoseconds).
static CLOCK: AtomicI64 = AtomicI64::new(0);
static FIXED_RT: AtomicI64 = AtomicI64::new(0);
static SEED: AtomicUsize = AtomicUsize::new(0);

pub fn arm(prefix: &std::path::Path, plan: Plan) {
    *PREFIX.lock().unwrap() = prefix.to_string_lossy().as_bytes().to_vec();
    *PLAN.lock().unwrap() = plan;
    LOG.lock().unwrap().clear();
    COUNT.store(0, SeqCst);
    CRASHED.store(false, SeqCst);
    ARMED.store(true, SeqCst);
}
/// Returns the number of mutating calls seen and their descriptions.
pub fn disarm() -> (u64, Vec<String>) {
    ARMED.store(false, SeqCst);
    (COUNT.load(SeqCst), std::mem::take(&mut *LOG.lock().unwrap()))
}
pub fn crashed() -> bool { CRASHED.load(SeqCst) }
pub fn clock_add(ns: i64) { CLOCK.fetch_add(ns, SeqCst); }
pub fn clock_set_offset(ns: i64) { CLOCK.store(ns, SeqCst); }
/// Freeze CLOCK_REALTIME at this many ns since the epoch (0 = run freely).
pub fn clock_freeze(ns: i64) { FIXED_RT.store(ns, SeqCst); }
/// Make getrandom() return a deterministic stream derived from `s` (0 = real randomness).
pub fn hash_seed(s: usize) { SEED.store(s, SeqCst); }
pub fn set_read_faults(on: bool) { READ_FAULTS.store(on, SeqCst); }

static JAIL: AtomicBool = AtomicBool::new(false);
/// Refuse (and record) every mutating call on a path outside `prefix` until `unjail`.
pub fn jail(prefix: &std::path::Path) {
    *PREFIX.lock().unwrap() = prefix.to_string_lossy().as_bytes().to_vec();
    ESCAPES.lock().unwrap().clear();
    JAIL.store(true, SeqCst);
}
/// Ends the jail; returns the refused calls.
pub fn unjail() -> Vec<String> { JAIL.store(false, SeqCst); std::mem::take(&mut *ESCAPES.lock().unwrap()) }
pub fn take_escapes() -> Vec<String> { std::mem::take(&mut *ESCAPES.lock().unwrap()) }
fn in_scope(path: &[u8]) -> bool {
    // lexical normalisation of "." and ".."
    let mut parts: Vec<&[u8]> = vec![];
    for c in path.split(|c| *c == b'/') { match c { b"" | b"." => {} b".." => { parts.pop(); } c => parts.push(c) } }
    let mut n = vec![];
    for c in parts { n.push(b'/'); n.extend_from_slice(c); }
    let pre = PREFIX.lock().unwrap();
    n.starts_with(&pre) && (n.len() == pre.len() || n[pre.len()] == b'/' || pre.ends_with(b"/"))
}
/// In jail mode: true (and recorded) when this mutating call must be refused.
fn jailed(scope: bool, what: &str, p: &[u8]) -> bool {
    if !JAIL.load(SeqCst) || scope || p == b"/dev/null" { return false; }
    let mut e = ESCAPES.lock().unwrap();
    if e.len() < 1000 { e.push(format!("{what} {}", s(p))); }
    true
}
// ---- controlled scheduling of threads (see thr.rs) at filesystem calls ------------------------------------
use crate::thr::SCHED;
fn sched_point(what: impl FnOnce() -> String) { crate::thr::point(what) }
pub use crate::thr::unscheduled;
/// Runs the bodies as threads that take turns at every filesystem call under `prefix`.
pub fn run_threads(prefix: &std::path::Path, ch: &mut crate::Chooser, preemptions: usize, bodies: Vec<Box<dyn FnOnce() + Send>>) -> Vec<String> {
    *PREFIX.lock().unwrap() = prefix.to_string_lossy().as_bytes().to_vec();
    crate::thr::run(ch, preemptions, bodies).0
}
fn set_errno(e: i32) { unsafe { *libc::__errno_location() = e } }

enum Act { Go, Fail(i32), Torn }
/// Decide what happens to a mutating call.
fn mutating(desc: impl FnOnce() -> String) -> Act {
    if SCHED.load(SeqCst) { sched_point(desc); return Act::Go; }
    if !ARMED.load(SeqCst) { return Act::Go; }
    if CRASHED.load(SeqCst) { return Act::Fail(libc::EIO); }
    let n = COUNT.fetch_add(1, SeqCst);
    { let mut l = LOG.lock().unwrap(); if l.len() < 4000 { l.push(desc()); } }
    match *PLAN.lock().unwrap() {
        Plan::Fault { at, errno } if at == n => Act::Fail(errno),
        Plan::Crash { at, torn } if at == n => { CRASHED.store(true, SeqCst); if torn { Act::Torn } else { Act::Fail(libc::EIO) } }
        _ => Act::Go,
    }
}
unsafe fn b<'a>(p: *const c_char) -> &'a [u8] { CStr::from_ptr(p).to_bytes() }
fn s(p: &[u8]) -> String { String::from_utf8_lossy(p).to_string() }
fn tracked(fd: c_int) -> bool { fd >= 0 && (fd as usize) < NFD && FDS[fd as usize].load(SeqCst) }
fn track(fd: c_int, on: bool) { if fd >= 0 && (fd as usize) < NFD { FDS[fd as usize].store(on, SeqCst); } }
macro_rules! sys { ($($a:expr),*) => { libc::syscall($($a),*) } }
macro_rules! gate { ($d:expr) => { match mutating(|| $d) { Act::Go => {} Act::Fail(e) => { set_errno(e); return -1; } Act::Torn => { set_errno(libc::EIO); return -1; } } } }

fn path_scope(dirfd: c_int, p: &[u8]) -> bool {
    (ARMED.load(SeqCst) || JAIL.load(SeqCst) || SCHED.load(SeqCst)) && if p.first() == Some(&b'/') { in_scope(p) } else { tracked(dirfd) }
}

// ---- virtual read-only paths: reading, stat and readlink of these go to the given real file ----------------
static VIRT: AtomicBool = AtomicBool::new(false);
static VIRTUAL: Mutex<Vec<(Vec<u8>, Vec<u8>)>> = Mutex::new(vec![]);
/// Every path equal to or below a virtual name is looked up at its real location instead (the first match counts).
pub fn set_virtual(map: &[(String, String)]) {
    *VIRTUAL.lock().unwrap() = map.iter().map(|(a, b)| (a.clone().into_bytes(), { let mut v = b.clone().into_bytes(); v.push(0); v })).collect();
    VIRT.store(!map.is_empty(), SeqCst);
}
fn virt(p: &[u8]) -> Option<Vec<u8>> {
    if !VIRT.load(SeqCst) { return None; }
    let m = VIRTUAL.lock().unwrap();
    m.iter().find(|(k, _)| p.starts_with(k) && (p.len() == k.len() || p[k.len()] == b'/')).map(|(k, v)| { let mut o = v[..v.len() - 1].to_vec(); o.extend_from_slice(&p[k.len()..]); o.push(0); o })
}
#[no_mangle] pub unsafe extern "C" fn readlink(p: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    if b(p) == b"/proc/self/exe" { if let Some(t) = virt(b"/proc/self/exe") {
        let k = (t.len() - 1).min(n);
        std::ptr::copy_nonoverlapping(t.as_ptr() as *const c_char, buf, k);
        return k as ssize_t;
    } }
    sys!(libc::SYS_readlink, p, buf, n) as ssize_t
}

unsafe fn do_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if let Some(t) = virt(b(path)) { return sys!(libc::SYS_openat, dirfd as libc::c_long, t.as_ptr(), flags as libc::c_long, mode as libc::c_long) as c_int; }
    let scope = path_scope(dirfd, b(path));
    let acc = flags & libc::O_ACCMODE;
    if (acc != libc::O_RDONLY || flags & (libc::O_CREAT | libc::O_TRUNC) != 0) && jailed(scope, "open-for-write", b(path)) { set_errno(libc::EPERM); return -1; }
    if scope && SCHED.load(SeqCst) { sched_point(|| format!("open {}", s(b(path)))); }
    else if scope && ARMED.load(SeqCst) {
        if flags & libc::O_CREAT != 0 || flags & libc::O_TRUNC != 0 {
            // creating or truncating: mutating only if it changes anything on disk
            gate!(format!("open+create {}", s(b(path))));
        } else if acc != libc::O_RDONLY && CRASHED.load(SeqCst) {
            set_errno(libc::EIO); return -1;
        } else if READ_FAULTS.load(SeqCst) {
            gate!(format!("open-read {}", s(b(path))));
        }
    }
    let fd = sys!(libc::SYS_openat, dirfd as libc::c_long, path, flags as libc::c_long, mode as libc::c_long) as c_int;
    track(fd, scope && fd >= 0);
    fd
}
// NB: declared with a fixed third argument; the SysV ABI passes variadic ints in the same registers.
#[no_mangle] pub unsafe extern "C" fn open64(p: *const c_char, f: c_int, m: mode_t) -> c_int { do_open(libc::AT_FDCWD, p, f, m) }
#[no_mangle] pub unsafe extern "C" fn open(p: *const c_char, f: c_int, m: mode_t) -> c_int { do_open(libc::AT_FDCWD, p, f, m) }
#[no_mangle] pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, f: c_int, m: mode_t) -> c_int { do_open(d, p, f, m) }
#[no_mangle] pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, f: c_int, m: mode_t) -> c_int { do_open(d, p, f, m) }
#[no_mangle] pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut libc::DIR {
    static REAL: AtomicUsize = AtomicUsize::new(0);
    if SCHED.load(SeqCst) && path_scope(libc::AT_FDCWD, b(p)) { sched_point(|| format!("opendir {}", s(b(p)))); }
    else if ARMED.load(SeqCst) && READ_FAULTS.load(SeqCst) && path_scope(libc::AT_FDCWD, b(p)) {
        if let Act::Fail(e) = mutating(|| format!("opendir {}", s(b(p)))) { set_errno(e); return std::ptr::null_mut(); }
    }
    let mut f = REAL.load(SeqCst);
    if f == 0 { f = libc::dlsym(libc::RTLD_NEXT, c"opendir".as_ptr()) as usize; REAL.store(f, SeqCst); }
    let f: extern "C" fn(*const c_char) -> *mut libc::DIR = std::mem::transmute(f);
    f(p)
}
#[no_mangle] pub unsafe extern "C" fn close(fd: c_int) -> c_int { track(fd, false); sys!(libc::SYS_close, fd as libc::c_long) as c_int }
#[no_mangle] pub unsafe extern "C" fn mkdir(p: *const c_char, m: mode_t) -> c_int {
    let sc = path_scope(libc::AT_FDCWD, b(p)); if jailed(sc, "mkdir", b(p)) { set_errno(libc::EPERM); return -1; } if sc { gate!(format!("mkdir {}", s(b(p)))); }
    sys!(libc::SYS_mkdirat, libc::AT_FDCWD as libc::c_long, p, m as libc::c_long) as c_int
}
#[no_mangle] pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    let sc = path_scope(libc::AT_FDCWD, b(p)); if jailed(sc, "rmdir", b(p)) { set_errno(libc::EPERM); return -1; } if sc { gate!(format!("rmdir {}", s(b(p)))); }
    sys!(libc::SYS_unlinkat, libc::AT_FDCWD as libc::c_long, p, libc::AT_REMOVEDIR as libc::c_long) as c_int
}
#[no_mangle] pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    let sc = path_scope(libc::AT_FDCWD, b(p)); if jailed(sc, "unlink", b(p)) { set_errno(libc::EPERM); return -1; } if sc { gate!(format!("unlink {}", s(b(p)))); }
    sys!(libc::SYS_unlinkat, libc::AT_FDCWD as libc::c_long, p, 0 as libc::c_long) as c_int
}
#[no_mangle] pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, f: c_int) -> c_int {
    let sc = path_scope(d, b(p)); if jailed(sc, "unlinkat", b(p)) { set_errno(libc::EPERM); return -1; } if sc { gate!(format!("unlinkat {}", s(b(p)))); }
    sys!(libc::SYS_unlinkat, d as libc::c_long, p, f as libc::c_long) as c_int
}
#[no_mangle] pub unsafe extern "C" fn rename(a: *const c_char, c: *const c_char) -> c_int {
    let (sa, sc) = (path_scope(libc::AT_FDCWD, b(a)), path_scope(libc::AT_FDCWD, b(c)));
    if jailed(sa, "rename-from", b(a)) || jailed(sc, "rename-to", b(c)) { set_errno(libc::EPERM); return -1; }
    if sa || sc { gate!(format!("rename {} {}", s(b(a)), s(b(c)))); }
    sys!(libc::SYS_renameat2, libc::AT_FDCWD as libc::c_long, a, libc::AT_FDCWD as libc::c_long, c, 0 as libc::c_long) as c_int
}
#[no_mangle] pub unsafe extern "C" fn symlink(t: *const c_char, p: *const c_char) -> c_int {
    let sc = path_scope(libc::AT_FDCWD, b(p)); if jailed(sc, "symlink", b(p)) { set_errno(libc::EPERM); return -1; } if sc { gate!(format!("symlink {}", s(b(p)))); }
    sys!(libc::SYS_symlinkat, t, libc::AT_FDCWD as libc::c_long, p) as c_int
}
#[no_mangle] pub unsafe extern "C" fn link(t: *const c_char, p: *const c_char) -> c_int {
    let sc = path_scope(libc::AT_FDCWD, b(p)); if jailed(sc, "link", b(p)) { set_errno(libc::EPERM); return -1; } if sc { gate!(format!("link {}", s(b(p)))); }
    sys!(libc::SYS_linkat, libc::AT_FDCWD as libc::c_long, t, libc::AT_FDCWD as libc::c_long, p, 0 as libc::c_long) as c_int
}
#[no_mangle] pub unsafe extern "C" fn chmod(p: *const c_char, m: mode_t) -> c_int {
    let sc = path_scope(libc::AT_FDCWD, b(p)); if jailed(sc, "chmod", b(p)) { set_errno(libc::EPERM); return -1; } if sc { gate!(format!("chmod {}", s(b(p)))); }
    sys!(libc::SYS_fchmodat, libc::AT_FDCWD as libc::c_long, p, m as libc::c_long) as c_int
}
#[no_mangle] pub unsafe extern "C" fn fchmod(fd: c_int, m: mode_t) -> c_int {
    if (ARMED.load(SeqCst) || SCHED.load(SeqCst)) && tracked(fd) { gate!("fchmod".into()); }
    sys!(libc::SYS_fchmod, fd as libc::c_long, m as libc::c_long) as c_int
}
#[no_mangle] pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off64_t) -> c_int {
    if (ARMED.load(SeqCst) || SCHED.load(SeqCst)) && tracked(fd) { gate!("ftruncate".into()); }
    sys!(libc::SYS_ftruncate, fd as libc::c_long, n) as c_int
}
#[no_mangle] pub unsafe extern "C" fn write(fd: c_int, p: *const c_void, n: size_t) -> ssize_t {
    if (ARMED.load(SeqCst) || SCHED.load(SeqCst)) && tracked(fd) {
        match mutating(|| format!("write {n}")) {
            Act::Go => {}
            Act::Fail(e) => { set_errno(e); return -1; }
            Act::Torn => { sys!(libc::SYS_write, fd as libc::c_long, p, n / 2); set_errno(libc::EIO); return -1; }
        }
    }
    sys!(libc::SYS_write, fd as libc::c_long, p, n) as ssize_t
}
#[no_mangle] pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if (ARMED.load(SeqCst) || SCHED.load(SeqCst)) && tracked(fd) { gate!("writev".into()); }
    sys!(libc::SYS_writev, fd as libc::c_long, iov, n as libc::c_long) as ssize_t
}
#[no_mangle] pub unsafe extern "C" fn copy_file_range(i: c_int, oi: *mut off64_t, o: c_int, oo: *mut off64_t, n: size_t, f: c_uint) -> ssize_t {
    if (ARMED.load(SeqCst) || SCHED.load(SeqCst)) && tracked(o) {
        match mutating(|| "copy_file_range".to_string()) {
            Act::Go => {}
            Act::Fail(e) => { set_errno(e); return -1; }
            Act::Torn => { sys!(libc::SYS_copy_file_range, i as libc::c_long, oi, o as libc::c_long, oo, 3usize.min(n), f as libc::c_long); set_errno(libc::EIO); return -1; }
        }
    }
    sys!(libc::SYS_copy_file_range, i as libc::c_long, oi, o as libc::c_long, oo, n, f as libc::c_long) as ssize_t
}
#[no_mangle] pub unsafe extern "C" fn sendfile(o: c_int, i: c_int, off: *mut libc::off_t, n: size_t) -> ssize_t {
    if (ARMED.load(SeqCst) || SCHED.load(SeqCst)) && tracked(o) { gate!("sendfile".into()); }
    sys!(libc::SYS_sendfile, o as libc::c_long, i as libc::c_long, off, n) as ssize_t
}
#[no_mangle] pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, f: c_int, m: c_uint, o: *mut c_void) -> c_int {
    if SCHED.load(SeqCst) && !p.is_null() && f & libc::AT_EMPTY_PATH == 0 && path_scope(d, b(p)) { sched_point(|| format!("stat {}", s(b(p)))); }
    if !p.is_null() { if let Some(t) = virt(b(p)) { return sys!(libc::SYS_statx, d as libc::c_long, t.as_ptr(), f as libc::c_long, m as libc::c_long, o) as c_int; } }
    sys!(libc::SYS_statx, d as libc::c_long, p, f as libc::c_long, m as libc::c_long, o) as c_int
}
#[no_mangle] pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    let r = sys!(libc::SYS_clock_gettime, id as libc::c_long, ts) as c_int;
    if r == 0 && (id == libc::CLOCK_REALTIME || id == libc::CLOCK_MONOTONIC) {
        let fixed = FIXED_RT.load(SeqCst);
        let mut ns = (*ts).tv_sec as i128 * 1_000_000_000 + (*ts).tv_nsec as i128;
        if fixed != 0 && id == libc::CLOCK_REALTIME { ns = fixed as i128; }
        ns += CLOCK.load(SeqCst) as i128;
        (*ts).tv_sec = (ns / 1_000_000_000) as i64;
        (*ts).tv_nsec = (ns % 1_000_000_000) as i64;
    }
    r
}
#[no_mangle] pub unsafe extern "C" fn getrandom(p: *mut c_void, n: size_t, f: c_uint) -> ssize_t {
    let sd = SEED.load(SeqCst);
    if sd != 0 {
        let mut x = sd as u64;
        for i in 0..n {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            *(p as *mut u8).add(i) = (x >> 33) as u8;
        }
        return n as ssize_t;
    }
    sys!(libc::SYS_getrandom, p, n, f as libc::c_long) as ssize_t
}
/// Paths outside the scope that were handed to destructive calls (recorded, never executed) - reserved.
pub fn escapes() -> Vec<String> { ESCAPES.lock().unwrap().clone() }
