//! Lock observation and controlled scheduling of several threads.

use mortal::verif::LockEvent;
use std::cell::Cell;
use std::collections::HashMap;
use std::sync::{Condvar, Mutex, MutexGuard};

thread_local! { static TID: Cell<usize> = const { Cell::new(0) }; }
pub fn tid() -> usize { TID.with(|t| t.get()) }

#[derive(Clone, Debug, PartialEq)]
pub enum St { Ready, Want(usize), Input, Done, Running }

#[derive(Default)]
pub struct S {
    pub rec: bool,
    pub log: Vec<String>,       // lock log of the uncontrolled thread
    pub hold: HashMap<usize, usize>,
    pub on: bool,               // controlled mode
    pub st: Vec<St>,
    pub turn: usize,            // 0 = scheduler, k = thread k
    pub trace: Vec<String>,     // events of controlled threads
    pub steps: usize,
    pub told: Vec<bool>,        // "blocked" was recorded for the thread's current wait
}

static SCH: Mutex<Option<S>> = Mutex::new(None);
static CV: Condvar = Condvar::new();

fn lock() -> MutexGuard<'static, Option<S>> {
    let mut g = SCH.lock().unwrap_or_else(|e| e.into_inner());
    if g.is_none() { *g = Some(S::default()); }
    g
}
pub fn with<T>(f: impl FnOnce(&mut S) -> T) -> T { f(lock().as_mut().unwrap()) }
pub fn reset() { *lock() = Some(S::default()); }
pub fn take_log() -> Vec<String> { with(|s| std::mem::take(&mut s.log)) }

pub struct SelfDeadlock(#[allow(dead_code)] pub usize);

pub fn hook(ev: LockEvent, id: usize) {
    let me = tid();
    if me > 0 {
        match ev {
            LockEvent::Want => pause(St::Want(id)),
            LockEvent::TryWant => pause(St::Ready),
            LockEvent::Acquired | LockEvent::TryAcquired => {
                with(|s| {
                    s.hold.insert(id, me);
                    let k = if ev == LockEvent::Acquired { "acq" } else { "tryok" };
                    s.trace.push(format!("{{\"op\":\"{}\",\"th\":{},\"lk\":{}}}", k, me, id));
                });
                pause(St::Ready);
            }
            LockEvent::TryFailed => with(|s| {
                s.trace.push(format!("{{\"op\":\"tryfail\",\"th\":{},\"lk\":{}}}", me, id));
            }),
            LockEvent::Released => with(|s| {
                s.hold.remove(&id);
                s.trace.push(format!("{{\"op\":\"rel\",\"th\":{},\"lk\":{}}}", me, id));
            }),
        }
        return;
    }
    let dead = with(|s| {
        match ev {
            LockEvent::Want => { if s.hold.get(&id) == Some(&0) { return true; } }
            LockEvent::Acquired | LockEvent::TryAcquired => { s.hold.insert(id, 0); }
            LockEvent::Released => { s.hold.remove(&id); }
            _ => ()
        }
        if s.rec {
            let k = match ev {
                LockEvent::Want => "want", LockEvent::Acquired => "acq", LockEvent::TryWant => return false,
                LockEvent::TryAcquired => "tryok", LockEvent::TryFailed => "tryfail", LockEvent::Released => "rel",
            };
            s.log.push(format!("{{\"k\":\"{}\",\"lk\":{}}}", k, id));
        }
        false
    });
    if dead {
        with(|s| s.log.push(format!("{{\"k\":\"self\",\"lk\":{}}}", id)));
        if std::thread::panicking() { crate::trace_hang("lock acquired twice by one thread while panicking"); }
        std::panic::panic_any(SelfDeadlock(id));
    }
}

pub fn point(_name: &str) { if tid() > 0 { pause(St::Ready); } }

/// The thread waits for input of the device.
pub fn input() { if tid() > 0 { pause(St::Input); } }

pub fn trace(line: String) { with(|s| s.trace.push(line)); }

fn pause(st: St) {
    let me = tid();
    let mut g = lock();
    {
        let s = g.as_mut().unwrap();
        s.st[me - 1] = st;
        s.turn = 0;
    }
    CV.notify_all();
    while g.as_ref().unwrap().turn != me {
        g = CV.wait(g).unwrap_or_else(|e| e.into_inner());
    }
    g.as_mut().unwrap().st[me - 1] = St::Running;
}

pub fn enter(id: usize) {
    TID.with(|t| t.set(id));
    let mut g = lock();
    while g.as_ref().unwrap().turn != id {
        g = CV.wait(g).unwrap_or_else(|e| e.into_inner());
    }
    g.as_mut().unwrap().st[id - 1] = St::Running;
}

pub fn finish() {
    let me = tid();
    let mut g = lock();
    let s = g.as_mut().unwrap();
    s.st[me - 1] = St::Done;
    s.turn = 0;
    TID.with(|t| t.set(0));
    CV.notify_all();
}

/// Runs the controlled threads to the end. Returns whether they all finished (no deadlock),
/// and the schedule actually followed as thread numbers.
pub fn drive(n: usize, choices: &[usize]) -> (bool, Vec<usize>) {
    let mut followed = Vec::new();
    let mut i = 0;
    loop {
        let mut g = lock();
        while g.as_ref().unwrap().turn != 0 {
            g = CV.wait(g).unwrap_or_else(|e| e.into_inner());
        }
        let s = g.as_mut().unwrap();
        s.told.resize(n, false);
        let enabled: Vec<usize> = (1..=n).filter(|&k| match s.st[k - 1] {
            St::Ready => true,
            St::Want(l) => !s.hold.contains_key(&l),
            _ => false,
        }).collect();
        let waiting: Vec<usize> = (1..=n).filter(|&k| s.st[k - 1] == St::Input).collect();
        for k in 1..=n {
            let stuck = matches!(s.st[k - 1], St::Want(_)) && !enabled.contains(&k);
            if stuck && !s.told[k - 1] { s.trace.push(format!("{{\"op\":\"blocked\",\"th\":{}}}", k)); }
            s.told[k - 1] = stuck;
        }
        if enabled.is_empty() && waiting.is_empty() {
            return (s.st.iter().all(|x| *x == St::Done), followed);
        }
        s.steps += 1;
        // the schedule names the thread to run; otherwise the current one goes on if it can;
        // waiting for input ends by itself when nothing else can happen
        let c = choices.get(i).copied().unwrap_or(0);
        i += 1;
        let t = if enabled.contains(&c) || waiting.contains(&c) { c }
            else if enabled.is_empty() { waiting[0] }
            else { match followed.last() { Some(l) if enabled.contains(l) => *l, _ => enabled[0] } };
        if waiting.contains(&t) {
            s.trace.push(format!("{{\"op\":\"input\",\"th\":{},\"last\":{}}}", t, enabled.is_empty() && waiting.len() == 1));
        }
        followed.push(t);
        s.turn = t;
        CV.notify_all();
    }
}
