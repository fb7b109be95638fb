//! Virtual terminal device.
//!
//! The pty slave opened by the code under test is a real pty (termios and window size are real),
//! but read/write/select/poll on it, and the clock, are interposed so that short writes, EINTR,
//! errors, input arrival, signal arrival and the passing of time follow a plan.

use libc::{c_int, c_void, size_t, ssize_t};
use std::collections::VecDeque;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::{Mutex, MutexGuard};

#[derive(Clone, Debug)]
pub enum WAct { Full, Short(usize), Err(i32) }
#[derive(Clone, Debug)]
pub enum RAct { Max(usize), Err(i32), Sig(i32) }
#[derive(Clone, Debug)]
pub enum SAct { In(i64, Vec<u8>), Sig(i64, i32), SigX(i64, i32), Int(i64), Race(i32), Err(i32) }

#[derive(Default)]
pub struct Dev {
    pub out: Vec<u8>,
    pub wplan: VecDeque<WAct>,
    pub rplan: VecDeque<RAct>,
    pub splan: VecDeque<SAct>,
    pub aplan: VecDeque<(usize, i32)>, // after an operation on an atomic value (and so many more): a signal arrives
    pub inq: VecDeque<u8>,
    pub sys: Vec<String>,
    pub log_sys: bool,
    pub calls: usize,
    pub rd: usize,
    pub blocked: bool,
    pub tag_threads: bool,
    pub chunks: Vec<(u64, Vec<u8>)>,
    pub ioctl_fail: VecDeque<(char, i32)>, // 'g' tcgets, 's' tcsets, 'w' winsize
    pub szplan: VecDeque<(u16, u16)>, // the sizes that the next planned window-size signals are about
    pub wsplan: VecDeque<(usize, u16, u16)>, // after a query of the size (and so many more): the size changes
}

pub static RDEV: AtomicU64 = AtomicU64::new(0);
/// The device of the output, when it is not that of the input.
pub static RDEV2: AtomicU64 = AtomicU64::new(0);
/// A signal was delivered since the library's memory of signals was last drained.
pub static SIGNALLED: AtomicBool = AtomicBool::new(false);
/// The current operation is one that reads or waits: signals of `aplan` arrive only then.
pub static READING: AtomicBool = AtomicBool::new(false);
pub static ACTIVE: AtomicBool = AtomicBool::new(false);
pub static CLOCK: AtomicI64 = AtomicI64::new(0); // virtual ns added
pub static OPCLK: AtomicI64 = AtomicI64::new(0); // CLOCK at the start of the operation
static DEV: Mutex<Option<Dev>> = Mutex::new(None);
pub const CALL_LIMIT: usize = 20000;

pub struct DevRef(MutexGuard<'static, Option<Dev>>);
impl std::ops::Deref for DevRef { type Target = Dev; fn deref(&self) -> &Dev { self.0.as_ref().unwrap() } }
impl std::ops::DerefMut for DevRef { fn deref_mut(&mut self) -> &mut Dev { self.0.as_mut().unwrap() } }
pub fn dev() -> DevRef {
    let mut g = DEV.lock().unwrap_or_else(|e| e.into_inner());
    if g.is_none() { *g = Some(Dev::default()); }
    DevRef(g)
}
pub fn reset() { *dev() = Dev::default(); CLOCK.store(0, SeqCst); }

pub fn signal_name(sig: i32) -> &'static str {
    match sig { libc::SIGINT => "int", libc::SIGCONT => "cont", libc::SIGWINCH => "winch", libc::SIGTSTP => "tstp", libc::SIGQUIT => "quit", _ => "other" }
}
fn set_errno(e: i32) { unsafe { *libc::__errno_location() = e; } }

fn rdev(fd: c_int) -> u64 {
    if !ACTIVE.load(SeqCst) || RDEV.load(SeqCst) == 0 { return 0; }
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        let sv = *libc::__errno_location();
        let ok = libc::fstat(fd, &mut st) == 0 && (st.st_mode & libc::S_IFMT) == libc::S_IFCHR;
        set_errno(sv);
        if ok { st.st_rdev } else { 0 }
    }
}
/// Whether it is the device's input, its output, any of the two.
pub fn is_in(fd: c_int) -> bool { let r = rdev(fd); r != 0 && r == RDEV.load(SeqCst) }
pub fn is_out(fd: c_int) -> bool {
    let (r, two) = (rdev(fd), RDEV2.load(SeqCst));
    r != 0 && r == if two != 0 { two } else { RDEV.load(SeqCst) }
}
pub fn is_dev(fd: c_int) -> bool { let r = rdev(fd); r != 0 && (r == RDEV.load(SeqCst) || r == RDEV2.load(SeqCst)) }

fn over_limit(d: &mut Dev) {
    d.calls += 1;
    if d.calls > CALL_LIMIT {
        crate::trace_hang("too many device calls in one operation");
    }
}

pub static SIZEFD: AtomicI32 = AtomicI32::new(-1);
/// A planned signal; if it is about the size, that may be planned as well.
fn planned(sig: i32) -> bool {
    if sig == libc::SIGWINCH { resized_first(); }
    deliver(sig)
}
fn resized_first() {
    let mut d = dev();
    if let Some((l, c)) = d.szplan.pop_front() {
        let t = (CLOCK.load(SeqCst) - OPCLK.load(SeqCst) + 999_999) / 1_000_000;
        d.sys.push(format!("{{\"k\":\"wz\",\"l\":{},\"c\":{},\"t\":{}}}", l, c, t));
        drop(d);
        let ws = libc::winsize { ws_row: l, ws_col: c, ws_xpixel: 0, ws_ypixel: 0 };
        unsafe { libc::syscall(libc::SYS_ioctl, SIZEFD.load(SeqCst), libc::TIOCSWINSZ, &ws); }
    }
}

/// Deliver a signal to this thread if a handler function is installed
/// (SIGCONT/SIGWINCH are harmless by default). Returns whether a handler ran.
pub fn deliver(sig: i32) -> bool {
    unsafe {
        let mut old: libc::sigaction = std::mem::zeroed();
        libc::sigaction(sig, std::ptr::null(), &mut old);
        if old.sa_sigaction == libc::SIG_DFL || old.sa_sigaction == libc::SIG_IGN { return false; }
        // A stop signal discards a SIGCONT that is still blocked, and the other way round: that loss is the system's.
        let other = match sig { libc::SIGCONT => libc::SIGTSTP, libc::SIGTSTP => libc::SIGCONT, _ => 0 };
        let mut pend: libc::sigset_t = std::mem::zeroed();
        libc::sigpending(&mut pend);
        if other != 0 && libc::sigismember(&pend, other) == 1 { return false; }
        SIGNALLED.store(true, SeqCst);
        libc::syscall(libc::SYS_tgkill, libc::getpid(), libc::syscall(libc::SYS_gettid), sig);
        true
    }
}

/// Deliver a signal to another thread of the process: this thread is not interrupted.
fn deliver_elsewhere(sig: i32) -> bool {
    std::thread::spawn(move || unsafe {
        let mut set: libc::sigset_t = std::mem::zeroed();
        libc::sigemptyset(&mut set);
        libc::sigaddset(&mut set, sig);
        libc::pthread_sigmask(libc::SIG_UNBLOCK, &set, std::ptr::null_mut());
        planned(sig)
    }).join().unwrap()
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if !is_dev(fd) {
        return libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t;
    }
    if !is_out(fd) { return n as ssize_t; } // shown on another terminal
    crate::sched::point("syswrite");
    let data = std::slice::from_raw_parts(buf as *const u8, n);
    dev_write(data)
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if !is_dev(fd) {
        return libc::syscall(libc::SYS_writev, fd, iov, cnt) as ssize_t;
    }
    let other = !is_out(fd);
    let mut v = Vec::new();
    for i in 0..cnt as usize {
        let io = &*iov.add(i);
        v.extend_from_slice(std::slice::from_raw_parts(io.iov_base as *const u8, io.iov_len));
    }
    if other { return v.len() as ssize_t; }
    dev_write(&v)
}

fn dev_write(data: &[u8]) -> ssize_t {
    let mut d = dev();
    over_limit(&mut d);
    let n = data.len();
    let act = d.wplan.pop_front().unwrap_or(WAct::Full);
    let r: ssize_t = match act {
        WAct::Full => n as ssize_t,
        WAct::Short(k) => k.min(n) as ssize_t,
        WAct::Err(e) => { set_errno(e); -(e as ssize_t) }
    };
    if r > 0 {
        d.out.extend_from_slice(&data[..r as usize]);
        if d.tag_threads {
            let t = crate::sched::tid() as u64;
            crate::conc_write(t, &data[..r as usize]);
        }
    }
    if d.log_sys {
        let s = if r >= 0 {
            format!("{{\"k\":\"w\",\"n\":{},\"r\":{},\"e\":0}}", n, r)
        } else {
            format!("{{\"k\":\"w\",\"n\":{},\"r\":-1,\"e\":{}}}", n, -r)
        };
        d.sys.push(s);
    }
    if r < 0 { -1 } else { r }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if !is_dev(fd) {
        return libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t;
    }
    if !is_in(fd) { set_errno(libc::EIO); return -1; } // nobody types there
    crate::sched::point("sysread");
    let mut d = dev();
    over_limit(&mut d);
    let act = d.rplan.pop_front();
    let mut max = n;
    match act {
        Some(RAct::Err(e)) => {
            if d.log_sys { d.sys.push(format!("{{\"k\":\"r\",\"n\":{},\"r\":-1,\"e\":{}}}", n.min(1000000), e)); }
            set_errno(e);
            return -1;
        }
        Some(RAct::Sig(s)) => {
            drop(d);
            let ran = planned(s);
            let mut d = dev();
            if ran { let t = (CLOCK.load(SeqCst) - OPCLK.load(SeqCst) + 999_999) / 1_000_000;
                d.sys.push(format!("{{\"k\":\"sig\",\"s\":\"{}\",\"t\":{}}}", signal_name(s), t)); }
            set_errno(libc::EINTR);
            return -1;
        }
        Some(RAct::Max(k)) => max = max.min(k),
        None => ()
    }
    let k = max.min(d.inq.len());
    let out = std::slice::from_raw_parts_mut(buf as *mut u8, k);
    for b in out.iter_mut() { *b = d.inq.pop_front().unwrap(); }
    d.rd += k;
    if d.log_sys { d.sys.push(format!("{{\"k\":\"r\",\"n\":{},\"r\":{},\"e\":0}}", n.min(1000000), k)); }
    k as ssize_t
}

/// A signal arrives while the program runs: it is handled at once unless the thread has blocked it.
fn arrives(sig: i32) {
    let t = (CLOCK.load(SeqCst) - OPCLK.load(SeqCst) + 999_999) / 1_000_000;
    if planned(sig) { dev().sys.push(format!("{{\"k\":\"sig\",\"s\":\"{}\",\"t\":{}}}", signal_name(sig), t)); }
}

/// Called after each operation of the library on an atomic value, also by signal handlers.
pub fn atomic_hook() {
    thread_local! { static BUSY: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
    if !ACTIVE.load(SeqCst) || !READING.load(SeqCst) || BUSY.with(|x| x.replace(true)) { return; }
    loop {
        let mut d = dev();
        match d.aplan.front_mut() {
            None => break,
            Some(a) if a.0 > 0 => { a.0 -= 1; break }
            Some(&mut (_, sig)) => { d.aplan.pop_front(); drop(d); arrives(sig); }
        }
    }
    BUSY.with(|x| x.set(false));
}

/// The signals that the plan has arrive right before a wait.
fn races() {
    loop {
        let mut d = dev();
        match d.splan.front() {
            Some(&SAct::Race(sig)) => { d.splan.pop_front(); drop(d); arrives(sig); }
            _ => return
        }
    }
}

/// Enters a wait with another signal mask; whether a signal that it no longer blocks ends the wait at once.
unsafe fn masked(mask: *const libc::sigset_t, old: &mut libc::sigset_t) -> bool {
    races();
    let mut pend: libc::sigset_t = std::mem::zeroed();
    libc::sigpending(&mut pend);
    let due = (1..32).any(|s| libc::sigismember(&pend, s) == 1 && libc::sigismember(mask, s) == 0);
    libc::pthread_sigmask(libc::SIG_SETMASK, mask, old);
    if due { libc::pthread_sigmask(libc::SIG_SETMASK, old, std::ptr::null_mut()); }
    due
}

/// Core of all waiting calls. `timeout` in ns (None: infinite), updated to the remaining time.
/// Returns Ok(ready) or Err(errno).
fn dev_wait(timeout: &mut Option<i64>) -> Result<bool, i32> {
    if dev().inq.is_empty() { crate::sched::input(); }
    races();
    loop {
        let mut d = dev();
        over_limit(&mut d);
        let now = || (CLOCK.load(SeqCst) - OPCLK.load(SeqCst) + 999_999) / 1_000_000;
        let act = match d.splan.pop_front() { Some(SAct::Race(sig)) => Some(SAct::Sig(0, sig)), a => a };
        let rem = timeout.unwrap_or(i64::MAX);
        let pass = |ns: i64, timeout: &mut Option<i64>| {
            CLOCK.fetch_add(ns, SeqCst);
            if let Some(t) = timeout.as_mut() { *t -= ns; }
        };
        match act {
            Some(SAct::Err(e)) => { d.sys.push(format!("{{\"k\":\"serr\",\"e\":{}}}", e)); return Err(e) }
            other => {
                if !d.inq.is_empty() {
                    if let Some(a) = other { d.splan.push_front(a); }
                    return Ok(true);
                }
                match other {
                    None => {
                        return match *timeout {
                            // nothing happens any more: waits for ever, or longer than the clock is moved
                            None => { d.blocked = true; Err(libc::EIO) }
                            Some(t) if t >= 2_000_000_000_000_000 => { d.blocked = true; Err(libc::EIO) }
                            Some(t) => { pass(t, timeout); Ok(false) }
                        };
                    }
                    Some(SAct::In(ms, bytes)) => {
                        let ns = ms * 1_000_000;
                        if ns > rem { d.splan.push_front(SAct::In(ms - (rem / 1_000_000), bytes)); pass(rem, timeout); return Ok(false); }
                        pass(ns, timeout);
                        let list: Vec<String> = bytes.iter().map(|b| b.to_string()).collect();
                        d.sys.push(format!("{{\"k\":\"arr\",\"b\":[{}],\"t\":{}}}", list.join(","), now()));
                        d.inq.extend(bytes);
                        return Ok(true);
                    }
                    Some(SAct::Sig(ms, sig)) => {
                        let ns = ms * 1_000_000;
                        if ns > rem { d.splan.push_front(SAct::Sig(ms - (rem / 1_000_000), sig)); pass(rem, timeout); return Ok(false); }
                        pass(ns, timeout);
                        drop(d);
                        let ran = planned(sig);
                        let mut d = dev();
                        if ran { d.sys.push(format!("{{\"k\":\"sig\",\"s\":\"{}\",\"t\":{}}}", signal_name(sig), now())); return Err(libc::EINTR); }
                        continue;
                    }
                    Some(SAct::SigX(ms, sig)) => {
                        let ns = ms * 1_000_000;
                        if ns > rem { d.splan.push_front(SAct::SigX(ms - (rem / 1_000_000), sig)); pass(rem, timeout); return Ok(false); }
                        pass(ns, timeout);
                        drop(d);
                        let ran = deliver_elsewhere(sig);
                        let mut d = dev();
                        if ran { d.sys.push(format!("{{\"k\":\"sig\",\"s\":\"{}\",\"t\":{}}}", signal_name(sig), now())); }
                        continue;
                    }
                    Some(SAct::Int(ms)) => {
                        let ns = ms * 1_000_000;
                        if ns > rem { d.splan.push_front(SAct::Int(ms - (rem / 1_000_000))); pass(rem, timeout); return Ok(false); }
                        pass(ns, timeout);
                        return Err(libc::EINTR);
                    }
                    _ => unreachable!()
                }
            }
        }
    }
}

fn tv_ns(s: i64, sub: i64) -> i64 { s.saturating_mul(1_000_000_000).saturating_add(sub) }

unsafe fn fdset_dev(nfds: c_int, set: *mut libc::fd_set) -> Option<c_int> {
    if set.is_null() { return None; }
    (0..nfds).find(|&fd| libc::FD_ISSET(fd, set) && is_in(fd))
}

#[no_mangle]
pub unsafe extern "C" fn select(nfds: c_int, r: *mut libc::fd_set, w: *mut libc::fd_set,
        e: *mut libc::fd_set, tv: *mut libc::timeval) -> c_int {
    let devfd = fdset_dev(nfds, r);
    if devfd.is_none() {
        return libc::syscall(libc::SYS_select, nfds, r, w, e, tv) as c_int;
    }
    let fd = devfd.unwrap();
    if !tv.is_null() && ((*tv).tv_sec < 0 || (*tv).tv_usec < 0 || (*tv).tv_usec >= 1_000_000) {
        set_errno(libc::EINVAL);
        return -1;
    }
    let mut t = if tv.is_null() { None } else { Some(tv_ns((*tv).tv_sec, (*tv).tv_usec * 1000)) };
    let res = dev_wait(&mut t);
    if !tv.is_null() {
        let t = t.unwrap().max(0);
        (*tv).tv_sec = t / 1_000_000_000;
        (*tv).tv_usec = (t % 1_000_000_000) / 1000;
    }
    fd_result(res, fd, r, w, e)
}

unsafe fn fd_result(res: Result<bool, i32>, fd: c_int, r: *mut libc::fd_set, w: *mut libc::fd_set, e: *mut libc::fd_set) -> c_int {
    match res {
        Err(en) => { set_errno(en); -1 }
        Ok(ready) => {
            libc::FD_ZERO(r);
            if !w.is_null() { libc::FD_ZERO(w); }
            if !e.is_null() { libc::FD_ZERO(e); }
            if ready { libc::FD_SET(fd, r); 1 } else { 0 }
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn pselect(nfds: c_int, r: *mut libc::fd_set, w: *mut libc::fd_set,
        e: *mut libc::fd_set, ts: *const libc::timespec, mask: *const libc::sigset_t) -> c_int {
    let devfd = fdset_dev(nfds, r);
    if devfd.is_none() {
        #[repr(C)] struct M(*const libc::sigset_t, usize);
        let m = M(mask, 8);
        let mut tsc = if ts.is_null() { None } else { Some(*ts) };
        return libc::syscall(libc::SYS_pselect6, nfds, r, w, e,
            tsc.as_mut().map_or(std::ptr::null_mut(), |t| t as *mut _), &m) as c_int;
    }
    let fd = devfd.unwrap();
    if !ts.is_null() && ((*ts).tv_sec < 0 || (*ts).tv_nsec < 0 || (*ts).tv_nsec >= 1_000_000_000) {
        set_errno(libc::EINVAL);
        return -1;
    }
    let mut t = if ts.is_null() { None } else { Some(tv_ns((*ts).tv_sec, (*ts).tv_nsec)) };
    let mut old: libc::sigset_t = std::mem::zeroed();
    if !mask.is_null() {
        if masked(mask, &mut old) { set_errno(libc::EINTR); return -1; }
    }
    let res = dev_wait(&mut t);
    if !mask.is_null() { libc::pthread_sigmask(libc::SIG_SETMASK, &old, std::ptr::null_mut()); }
    fd_result(res, fd, r, w, e)
}

unsafe fn do_poll(fds: *mut libc::pollfd, n: libc::nfds_t, t: &mut Option<i64>, mask: *const libc::sigset_t) -> Option<c_int> {
    let v = std::slice::from_raw_parts_mut(fds, n as usize);
    let idx = v.iter().position(|p| p.events & libc::POLLIN != 0 && is_in(p.fd))?;
    for p in v.iter_mut() { p.revents = 0; }
    let mut old: libc::sigset_t = std::mem::zeroed();
    if !mask.is_null() && masked(mask, &mut old) { set_errno(libc::EINTR); return Some(-1); }
    let res = dev_wait(t);
    if !mask.is_null() { libc::pthread_sigmask(libc::SIG_SETMASK, &old, std::ptr::null_mut()); }
    Some(match res {
        Err(e) => { set_errno(e); -1 }
        Ok(true) => { v[idx].revents = libc::POLLIN; 1 }
        Ok(false) => 0
    })
}

#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut libc::pollfd, n: libc::nfds_t, ms: c_int) -> c_int {
    let mut t = if ms < 0 { None } else { Some(ms as i64 * 1_000_000) };
    match do_poll(fds, n, &mut t, std::ptr::null()) {
        Some(r) => r,
        None => libc::syscall(libc::SYS_poll, fds, n, ms) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn ppoll(fds: *mut libc::pollfd, n: libc::nfds_t, ts: *const libc::timespec, mask: *const libc::sigset_t) -> c_int {
    let mut t = if ts.is_null() { None } else { Some(tv_ns((*ts).tv_sec, (*ts).tv_nsec)) };
    match do_poll(fds, n, &mut t, mask) {
        Some(r) => r,
        None => {
            let mut tsc = if ts.is_null() { None } else { Some(*ts) };
            libc::syscall(libc::SYS_ppoll, fds, n, tsc.as_mut().map_or(std::ptr::null_mut(), |t| t as *mut _), mask, 8usize) as c_int
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, tp: *mut libc::timespec) -> c_int {
    // While a device is active the clock stands still except for the waits of the plan.
    if ACTIVE.load(SeqCst) {
        let t = 1_000_000_000_000_i64.saturating_add(CLOCK.load(SeqCst));
        (*tp).tv_sec = t / 1_000_000_000;
        (*tp).tv_nsec = t % 1_000_000_000;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, id, tp) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: libc::c_ulong, arg: *mut c_void) -> c_int {
    if req == libc::TIOCGWINSZ && is_out(fd) && !OBS.with(|o| o.get()) {
        if let Some(e) = planned_failure('w') { set_errno(e); return -1; }
    }
    let r = libc::syscall(libc::SYS_ioctl, fd, req, arg) as c_int;
    if r == 0 && req == libc::TIOCGWINSZ && is_out(fd) && !OBS.with(|o| o.get()) { size_changes(fd); }
    r
}

/// The size changes right after it has been asked for.
unsafe fn size_changes(fd: c_int) {
    let (l, c) = {
        let mut d = dev();
        match d.wsplan.front_mut() {
            Some(x) if x.0 > 0 => { x.0 -= 1; return; }
            None => return,
            _ => ()
        }
        let (_, l, c) = d.wsplan.pop_front().unwrap();
        let t = (CLOCK.load(SeqCst) - OPCLK.load(SeqCst) + 999_999) / 1_000_000;
        d.sys.push(format!("{{\"k\":\"wz\",\"l\":{},\"c\":{},\"t\":{}}}", l, c, t));
        (l, c)
    };
    let mut ws: libc::winsize = std::mem::zeroed();
    ws.ws_row = l; ws.ws_col = c;
    libc::syscall(libc::SYS_ioctl, fd, libc::TIOCSWINSZ, &ws);
    deliver(libc::SIGWINCH);
}

fn planned_failure(k: char) -> Option<i32> {
    let mut d = dev();
    let i = d.ioctl_fail.iter().position(|&(c, _)| c == k)?;
    let (_, mut e) = d.ioctl_fail[i];
    // e >= 1000 encodes "let one call pass, then fail"
    if e >= 1000 { d.ioctl_fail[i].1 = e - 1000; return None; }
    d.ioctl_fail.remove(i);
    if e == 0 { e = libc::EIO; }
    d.sys.push(format!("{{\"k\":\"{}\",\"e\":{}}}", if k == 'w' { 'z' } else { k }, e));
    Some(e)
}

#[no_mangle]
pub unsafe extern "C" fn tcgetattr(fd: c_int, t: *mut libc::termios) -> c_int {
    if is_in(fd) && !OBS.with(|o| o.get()) {
        if let Some(e) = planned_failure('g') { set_errno(e); return -1; }
    }
    next::<unsafe extern "C" fn(c_int, *mut libc::termios) -> c_int>(b"tcgetattr\0")(fd, t)
}

#[no_mangle]
pub unsafe extern "C" fn tcsetattr(fd: c_int, a: c_int, t: *const libc::termios) -> c_int {
    if is_in(fd) && !OBS.with(|o| o.get()) {
        if let Some(e) = planned_failure('s') { set_errno(e); return -1; }
    }
    let r = next::<unsafe extern "C" fn(c_int, c_int, *const libc::termios) -> c_int>(b"tcsetattr\0")(fd, a, t);
    if r == 0 && a == libc::TCSAFLUSH && is_in(fd) && !OBS.with(|o| o.get()) { dev().inq.clear(); }
    r
}

#[no_mangle]
pub unsafe extern "C" fn tcflush(fd: c_int, q: c_int) -> c_int {
    if is_in(fd) && q != libc::TCOFLUSH { dev().inq.clear(); }
    next::<unsafe extern "C" fn(c_int, c_int) -> c_int>(b"tcflush\0")(fd, q)
}

unsafe fn next<F: Copy>(name: &[u8]) -> F {
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const _);
    assert!(!p.is_null());
    std::mem::transmute_copy::<*mut c_void, F>(&p)
}

thread_local! { pub static OBS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// Run harness-side observations without fault injection.
pub fn observing<T>(f: impl FnOnce() -> T) -> T {
    OBS.with(|o| o.set(true));
    let r = f();
    OBS.with(|o| o.set(false));
    r
}

pub struct Pty { pub master: c_int, pub slave: c_int, pub path: String }
impl Pty {
    /// The device of the output alone.
    pub fn open_out() -> Pty {
        let r = RDEV.load(SeqCst);
        let p = Pty::open();
        RDEV2.store(RDEV.swap(r, SeqCst), SeqCst);
        p
    }
    pub fn open() -> Pty {
        unsafe {
            let m = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY);
            assert!(m >= 0, "posix_openpt");
            assert_eq!(libc::grantpt(m), 0);
            assert_eq!(libc::unlockpt(m), 0);
            let mut name = [0 as libc::c_char; 128];
            assert_eq!(libc::ptsname_r(m, name.as_mut_ptr(), 128), 0);
            let path = std::ffi::CStr::from_ptr(name.as_ptr()).to_str().unwrap().to_string();
            let s = libc::open(name.as_ptr(), libc::O_RDWR | libc::O_NOCTTY);
            assert!(s >= 0, "open slave");
            let mut st: libc::stat = std::mem::zeroed();
            libc::fstat(s, &mut st);
            RDEV.store(st.st_rdev, SeqCst);
            ACTIVE.store(true, SeqCst);
            Pty { master: m, slave: s, path }
        }
    }
    pub fn set_size(&self, l: u16, c: u16) {
        let ws = libc::winsize { ws_row: l, ws_col: c, ws_xpixel: 0, ws_ypixel: 0 };
        unsafe { libc::ioctl(self.slave, libc::TIOCSWINSZ, &ws); }
    }
    pub fn tio(&self) -> libc::termios {
        observing(|| unsafe { let mut t: libc::termios = std::mem::zeroed(); libc::tcgetattr(self.slave, &mut t); t })
    }
    pub fn set_tio(&self, t: &libc::termios) {
        observing(|| unsafe { libc::tcsetattr(self.slave, libc::TCSANOW, t); })
    }
}
impl Drop for Pty {
    fn drop(&mut self) {
        RDEV.store(0, SeqCst);
        RDEV2.store(0, SeqCst);
        unsafe { libc::close(self.slave); libc::close(self.master); }
    }
}

// ---- output tokenizer ---------------------------------------------------------------------

#[derive(Default)]
pub struct Tok { pend: Vec<u8> }

pub fn width_kind(cp: u32) -> u32 {
    match cp {
        9 => 3, 13 => 4, 10 => 5,
        0..=0x1f | 0x7f..=0x9f | 0x200b..=0x200d | 0xad | 0xfeff => 6,
        0x300..=0x36f | 0x3099..=0x309a | 0x20d0..=0x20f0 => 0,
        0x1100..=0x115f | 0x2e80..=0x303e | 0x3041..=0x33ff | 0x3400..=0xa4cf | 0xac00..=0xd7a3
            | 0xf900..=0xfaff | 0xfe30..=0xfe6f | 0xff00..=0xff60 | 0x1f300..=0x1f64f | 0x20000..=0x3fffd => 2,
        _ => 1,
    }
}

impl Tok {
    pub fn pending(&self) -> usize { self.pend.len() }
    /// Feed bytes; returns JSON tokens of complete device operations.
    pub fn feed(&mut self, bytes: &[u8]) -> Vec<String> {
        self.pend.extend_from_slice(bytes);
        let mut out = Vec::new();
        let mut i = 0;
        let b = std::mem::take(&mut self.pend);
        while i < b.len() {
            match one(&b[i..], &mut out) {
                Some(n) => i += n,
                None => break,
            }
        }
        self.pend = b[i..].to_vec();
        out
    }
}

fn one(b: &[u8], out: &mut Vec<String>) -> Option<usize> {
    let c = b[0];
    let simple = |s: &str| format!("{{\"o\":\"{}\"}}", s);
    let num = |s: &str, n: i64| format!("{{\"o\":\"{}\",\"n\":{}}}", s, n);
    match c {
        8 => { out.push(num("cub", 1)); Some(1) }
        10 => { out.push(simple("lf")); Some(1) }
        13 => { out.push(simple("cr")); Some(1) }
        9 => { out.push(simple("ht")); Some(1) }
        14 | 15 => Some(1),
        0..=0x1a | 0x1c..=0x1f | 0x7f => { out.push(num("ctl", c as i64)); Some(1) }
        0x1b => {
            let d = *b.get(1)?;
            match d {
                b'(' | b')' => { b.get(2)?; Some(3) }
                b'=' => { out.push("{\"o\":\"kp\",\"on\":true}".into()); Some(2) }
                b'>' => { out.push("{\"o\":\"kp\",\"on\":false}".into()); Some(2) }
                b'M' => { out.push(simple("ri")); Some(2) }
                b'7' | b'8' => Some(2),
                b'[' => {
                    let mut i = 2;
                    while i < b.len() && (0x30..=0x3f).contains(&b[i]) { i += 1; }
                    let pe = i;
                    while i < b.len() && (0x20..=0x2f).contains(&b[i]) { i += 1; }
                    let f = *b.get(i)?;
                    if !(0x40..=0x7e).contains(&f) { out.push(num("bad", f as i64)); return Some(i); }
                    csi(&b[2..pe], &b[pe..i], f, out);
                    Some(i + 1)
                }
                _ => { out.push(num("bad", d as i64)); Some(2) }
            }
        }
        _ => {
            let len = if c < 0x80 { 1 } else if c >= 0xf0 { 4 } else if c >= 0xe0 { 3 } else if c >= 0xc0 { 2 } else { 0 };
            // Malformed: terminals show a replacement character and go on with the next byte that can begin one
            let junk = "{\"o\":\"put\",\"c\":65533,\"w\":1}";
            if len == 0 { out.push(junk.into()); return Some(1); }
            if b.len() < len && std::str::from_utf8(b).map_or_else(|e| e.error_len().is_none(), |_| true) { return None; }
            let len = len.min(b.len());
            match std::str::from_utf8(&b[..len]) {
                Ok(s) => {
                    let cp = s.chars().next().unwrap() as u32;
                    let k = width_kind(cp);
                    if k == 6 { out.push(num("ctl", cp as i64)); }
                    else { out.push(format!("{{\"o\":\"put\",\"c\":{},\"w\":{}}}", cp, k)); }
                    Some(len)
                }
                Err(e) => { out.push(junk.into()); Some(e.error_len().unwrap_or(1)) }
            }
        }
    }
}

fn csi(par: &[u8], inter: &[u8], f: u8, out: &mut Vec<String>) {
    let s = std::str::from_utf8(par).unwrap_or("");
    let (pre, s) = match s.chars().next() { Some(p @ ('?' | '<' | '>' | '=')) => (p, &s[1..]), _ => (' ', s) };
    let mut p: Vec<i64> = Vec::new();
    let mut bad = !inter.is_empty();
    if !s.is_empty() {
        for x in s.split(';') {
            if x.is_empty() { p.push(-1); } else { match x.parse::<i64>() { Ok(v) if v < 1 << 40 => p.push(v), _ => { bad = true; } } }
        }
    }
    let arg = |i: usize, d: i64| -> i64 { match p.get(i) { Some(&v) if v > 0 => v, _ => d } };
    let cap = |v: i64| v.min(1_000_000);
    let raw = |i: usize| -> i64 { match p.get(i) { Some(&v) if v >= 0 => v, _ => 0 } };
    if bad { out.push(format!("{{\"o\":\"bad\",\"n\":{}}}", f)); return; }
    match (pre, f) {
        (' ', b'A') => out.push(format!("{{\"o\":\"cuu\",\"n\":{}}}", cap(arg(0, 1)))),
        (' ', b'B') => out.push(format!("{{\"o\":\"cud\",\"n\":{}}}", cap(arg(0, 1)))),
        (' ', b'C') => out.push(format!("{{\"o\":\"cuf\",\"n\":{}}}", cap(arg(0, 1)))),
        (' ', b'D') => out.push(format!("{{\"o\":\"cub\",\"n\":{}}}", cap(arg(0, 1)))),
        (' ', b'H') | (' ', b'f') => out.push(format!("{{\"o\":\"cup\",\"l\":{},\"c\":{}}}", cap(arg(0, 1)) - 1, cap(arg(1, 1)) - 1)),
        (' ', b'G') => out.push(format!("{{\"o\":\"cha\",\"n\":{}}}", cap(arg(0, 1)) - 1)),
        (' ', b'J') => out.push(format!("{{\"o\":\"ed\",\"n\":{}}}", raw(0))),
        (' ', b'K') => out.push(format!("{{\"o\":\"el\",\"n\":{}}}", raw(0))),
        (' ', b'r') => out.push(format!("{{\"o\":\"csr\",\"t\":{},\"b\":{}}}", cap(arg(0, 1)) - 1, cap(arg(1, 1_000_000)) - 1)),
        (' ', b'm') => {
            let v: Vec<String> = if p.is_empty() { vec!["0".into()] } else { p.iter().map(|x| x.max(&0).to_string()).collect() };
            out.push(format!("{{\"o\":\"sgr\",\"p\":[{}]}}", v.join(",")));
        }
        (' ', b't') => (),
        ('?', b'h') | ('?', b'l') => for v in &p { out.push(format!("{{\"o\":\"mode\",\"n\":{},\"on\":{}}}", v, f == b'h')); },
        (' ', b'h') | (' ', b'l') => (),
        ('=', b'C') | ('?', b'c') => (), // linux console cursor shape
        _ => out.push(format!("{{\"o\":\"bad\",\"n\":{}}}", f)),
    }
}
