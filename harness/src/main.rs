//! Executes scripts of operations (one JSON object per line) on the real mortal crate and writes
//! what happened, one JSON event per operation.

mod dev;
mod pure;
mod sched;

use mortal::unix::{OpenTerminalExt, TerminalExt};
use mortal::*;
use serde_json::{json, Value};
use std::fs::File;
use std::io::{self, BufRead, Write};
use std::os::unix::io::{AsRawFd, FromRawFd};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Duration;

static OUT: Mutex<Option<io::BufWriter<File>>> = Mutex::new(None);
static CUR: Mutex<(usize, String)> = Mutex::new((0, String::new()));
static PROGRESS: AtomicU64 = AtomicU64::new(0);

fn emit(line: &str) {
    let mut g = OUT.lock().unwrap_or_else(|e| e.into_inner());
    let w = g.as_mut().unwrap();
    w.write_all(line.as_bytes()).unwrap();
    w.write_all(b"\n").unwrap();
}

/// The operation in progress does not end: record that and leave the process.
pub fn trace_hang(msg: &str) -> ! {
    let (scn, op) = CUR.lock().unwrap_or_else(|e| e.into_inner()).clone();
    emit(&format!("{{\"n\":{},\"op\":\"hang\",\"in\":{},\"msg\":{}}}", scn, json!(op), json!(msg)));
    if let Ok(mut g) = OUT.lock() { if let Some(w) = g.as_mut() { let _ = w.flush(); } }
    unsafe { libc::_exit(7) }
}

fn watchdog() {
    std::thread::spawn(|| {
        let mut last = (0, 0);
        loop {
            std::thread::sleep(Duration::from_millis(1000));
            let p = PROGRESS.load(SeqCst);
            if p == last.0 { last.1 += 1; if last.1 >= 20 { trace_hang("no progress"); } } else { last = (p, 0); }
        }
    });
}

// ---- argument helpers ---------------------------------------------------------------------

fn i(v: &Value, k: &str) -> i64 { v.get(k).and_then(|x| x.as_i64()).unwrap_or(0) }
fn b(v: &Value, k: &str) -> bool { v.get(k).and_then(|x| x.as_bool()).unwrap_or(false) }
fn st<'a>(v: &'a Value, k: &str) -> &'a str { v.get(k).and_then(|x| x.as_str()).unwrap_or("") }
fn big(v: &Value, k: &str) -> usize {
    match v.get(&format!("{}big", k)).and_then(|x| x.as_str()) {
        Some(s) => s.parse::<usize>().unwrap(),
        None => i(v, k) as usize
    }
}
fn text(v: &Value, k: &str) -> String {
    let mut s = String::new();
    if let Some(p) = v.get("pat") { // pattern text: op number and length
        return pattern(p[0].as_u64().unwrap(), p[1].as_u64().unwrap() as usize);
    }
    if let Some(a) = v.get(k).and_then(|x| x.as_array()) {
        for c in a {
            let cp = c.as_u64().or_else(|| c[0].as_u64()).unwrap() as u32;
            s.push(char::from_u32(cp).unwrap());
        }
    }
    s
}
pub fn pat_byte(op: u64, i: usize) -> u8 {
    let mut x = (op.wrapping_mul(0x9E3779B97F4A7C15)) ^ ((i as u64).wrapping_mul(0xD1B54A32D192ED03));
    x ^= x >> 29; x = x.wrapping_mul(0xBF58476D1CE4E5B9); x ^= x >> 32;
    // operations close to each other use disjoint characters
    b'!' + (op % 6) as u8 * 15 + (x % 15) as u8
}
fn pattern(op: u64, n: usize) -> String { (0..n).map(|k| pat_byte(op, k) as char).collect() }

const COLORS: [Color; 8] = [Color::Black, Color::Red, Color::Green, Color::Yellow, Color::Blue,
    Color::Magenta, Color::Cyan, Color::White];
fn color(n: i64) -> Option<Color> { if n == 0 { None } else { Some(COLORS[n as usize - 1]) } }
// The same theme, built in one of the ways the library offers.
fn theme(f: i64, b: i64, s: i64) -> Theme {
    match (f + 3 * b + s) % 4 {
        0 => Theme::new(color(f), color(b), opt_style(s, 1)),
        1 => Theme::default().style(opt_style(s, 1)).bg(color(b)).fg(color(f)),
        2 => Theme::new(Color::Red, Color::Blue, Style::BOLD | Style::REVERSE).fg(color(f)).bg(color(b)).style(style(s)),
        _ => Theme{fg: color(f), bg: color(b), style: style(s)},
    }
}
// No style is given as the empty set or as None.
fn opt_style(s: i64, k: i64) -> Option<Style> { if s == 0 && k % 2 == 1 { None } else { Some(style(s)) } }
fn style(n: i64) -> Style {
    // bit 1 bold, 2 italic, 4 underline, 8 reverse
    let mut s = Style::empty();
    if n & 1 != 0 { s |= Style::BOLD }
    if n & 2 != 0 { s |= Style::ITALIC }
    if n & 4 != 0 { s |= Style::UNDERLINE }
    if n & 8 != 0 { s |= Style::REVERSE }
    s
}
fn timeout(v: &Value) -> Option<Duration> {
    match v.get("to") {
        None => Some(Duration::from_millis(0)),
        Some(x) if x.as_str() == Some("max") => Some(Duration::MAX),
        Some(x) if x.is_string() => {
            let (a, b) = x.as_str().unwrap().split_once('.').unwrap();
            Some(Duration::new(a.parse().unwrap(), b.parse().unwrap()))
        }
        Some(x) => { let n = x.as_i64().unwrap(); if n < 0 { None } else { Some(Duration::from_millis(n as u64)) } }
    }
}
pub const SIGNALS: [Signal; 6] = [Signal::Break, Signal::Continue, Signal::Interrupt, Signal::Resize, Signal::Suspend, Signal::Quit];
fn sigset(v: Option<&Value>) -> SignalSet {
    let mut s = SignalSet::new();
    if let Some(a) = v.and_then(|x| x.as_array()) { for x in a {
        s.insert(match x.as_str().unwrap() { "int" => Signal::Interrupt, "cont" => Signal::Continue, "winch" => Signal::Resize,
            "tstp" => Signal::Suspend, "quit" => Signal::Quit, _ => Signal::Break });
    } }
    s
}
pub fn signame(s: Signal) -> &'static str {
    match s { Signal::Interrupt => "int", Signal::Continue => "cont", Signal::Resize => "winch", Signal::Suspend => "tstp", Signal::Quit => "quit", Signal::Break => "break" }
}
fn signo(s: &str) -> i32 {
    match s { "int" => libc::SIGINT, "cont" => libc::SIGCONT, "winch" => libc::SIGWINCH, "tstp" => libc::SIGTSTP, "quit" => libc::SIGQUIT, "usr1" => libc::SIGUSR1, _ => panic!("signal {}", s) }
}
/// The configuration as a user writes it: documented defaults are left to `Default`.
fn config(v: &Value) -> PrepareConfig {
    let mut c = PrepareConfig::default();
    if !b(v, "bs") { c.block_signals = false; }
    if b(v, "cf") { c.enable_control_flow = true; }
    if !b(v, "kp") { c.enable_keypad = false; }
    if b(v, "ms") { c.enable_mouse = true; }
    if b(v, "mo") { c.always_track_motion = true; }
    let rs = sigset(v.get("rs"));
    if !rs.is_empty() { c.report_signals = rs; }
    c
}
fn cursor_mode(v: &Value) -> CursorMode {
    match st(v, "m") { "normal" => CursorMode::Normal, "invisible" => CursorMode::Invisible, _ => CursorMode::Overwrite }
}
fn big_cur(v: &Value) -> Cursor { Cursor{line: big(v, "l"), column: big(v, "c")} }

// ---- results ------------------------------------------------------------------------------

pub fn key_json(k: Key) -> Value {
    let n = |s: &str| json!({"k": "key", "key": s, "c": 0});
    match k {
        Key::Backspace => n("Backspace"), Key::Enter => n("Enter"), Key::Escape => n("Escape"), Key::Tab => n("Tab"),
        Key::Up => n("Up"), Key::Down => n("Down"), Key::Left => n("Left"), Key::Right => n("Right"),
        Key::Delete => n("Delete"), Key::Insert => n("Insert"), Key::Home => n("Home"), Key::End => n("End"),
        Key::PageUp => n("PageUp"), Key::PageDown => n("PageDown"),
        Key::Char(c) => json!({"k": "key", "key": "Char", "c": c as u32}),
        Key::Ctrl(c) => json!({"k": "key", "key": "Ctrl", "c": c as u32}),
        Key::F(k) => json!({"k": "key", "key": "F", "c": k}),
    }
}
fn clip(n: usize) -> i64 { (n as i128).min(2_000_000_000) as i64 }
fn event_json(e: Option<Event>, buf: Option<&[u8]>) -> Value {
    match e {
        None => json!({"k": "none"}),
        Some(Event::Key(k)) => key_json(k),
        Some(Event::Mouse(m)) => {
            let (inp, n) = match m.input {
                MouseInput::Motion => ("motion", 0), MouseInput::WheelUp => ("wheelup", 0), MouseInput::WheelDown => ("wheeldown", 0),
                MouseInput::ButtonPressed(x) => ("press", btn(x)), MouseInput::ButtonReleased(x) => ("release", btn(x)),
            };
            let mut mods = Vec::new();
            if m.modifiers.contains(ModifierState::ALT) { mods.push("alt"); }
            if m.modifiers.contains(ModifierState::CTRL) { mods.push("ctrl"); }
            if m.modifiers.contains(ModifierState::SHIFT) { mods.push("shift"); }
            // values can exceed TLC's integers: written in base 10^6 digits
            json!({"k": "mouse", "l": digits(m.position.line), "c": digits(m.position.column), "i": inp, "b": n, "mods": mods})
        }
        Some(Event::Raw(n)) => match buf {
            Some(bf) => json!({"k": "raw", "n": n, "bytes": &bf[..n.min(bf.len())]}),
            None => json!({"k": "raw", "n": n, "bytes": []}),
        },
        Some(Event::Resize(s)) => json!({"k": "resize", "l": clip(s.lines), "c": clip(s.columns)}),
        Some(Event::Signal(s)) => json!({"k": "sig", "s": signame(s)}),
        Some(Event::NoEvent) => json!({"k": "noevent"}),
    }
}
fn digits(n: usize) -> Value { json!([n / 1_000_000, n % 1_000_000]) }
fn btn(x: MouseButton) -> i64 { match x { MouseButton::Left => 0, MouseButton::Middle => 1, MouseButton::Right => 2, MouseButton::Other(n) => clip(n as usize) } }
fn size_json(s: Size) -> Value { json!({"k": "size", "l": clip(s.lines), "c": clip(s.columns)}) }
fn cur_json(s: Cursor) -> Value { json!({"k": "cursor", "l": clip(s.line), "c": clip(s.column)}) }

type R = io::Result<Value>;
fn unit(r: io::Result<()>) -> R { r.map(|_| json!({"k": "unit"})) }
fn void(_: ()) -> R { Ok(json!({"k": "unit"})) }

macro_rules! fmt_op { ($x:expr, $v:expr) => { { let s = text($v, "t"); write!($x, "{}", s) } } }
macro_rules! fmt_op3 { ($x:expr, $v:expr) => { {
    // formatting in several pieces
    let s = text($v, "t"); let n = s.chars().count() / 2;
    let a: String = s.chars().take(n).collect(); let bb: String = s.chars().skip(n).collect();
    write!($x, "{}{:}", a, bb)
} } }

macro_rules! line_ops { ($x:expr, $v:expr, $op:expr) => { match $op {
    "up" => unit($x.move_up(big($v, "cnt"))), "down" => unit($x.move_down(big($v, "cnt"))),
    "left" => unit($x.move_left(big($v, "cnt"))), "right" => unit($x.move_right(big($v, "cnt"))),
    "cr" => unit($x.move_to_first_column()), "clr" => unit($x.clear_screen()),
    "el" => unit($x.clear_to_line_end()), "ed" => unit($x.clear_to_screen_end()),
    "curmode" => unit($x.set_cursor_mode(cursor_mode($v))),
    "str" => unit($x.write_str(&text($v, "t"))), "chr" => unit($x.write_char(text($v, "t").chars().next().unwrap())),
    "fmt" => unit(fmt_op!($x, $v)), "fmt2" => unit(fmt_op3!($x, $v)),
    "fg" => unit($x.set_fg(color(i($v, "c")))), "bg" => unit($x.set_bg(color(i($v, "c")))),
    "add" => unit($x.add_style(style(i($v, "s")))), "rem" => unit($x.remove_style(style(i($v, "s")))),
    "set" => if i($v, "s") == 0 && b($v, "none") { unit($x.set_style(None)) } else { unit($x.set_style(style(i($v, "s")))) },
    "bold" => unit($x.bold()), "italic" => unit($x.italic()), "underline" => unit($x.underline()), "reverse" => unit($x.reverse()),
    "theme" => unit($x.set_theme(theme(i($v, "f"), i($v, "b"), i($v, "s")))),
    "clrattr" => unit($x.clear_attributes()),
    "styled" => unit($x.write_styled(color(i($v, "f")), color(i($v, "b")), opt_style(i($v, "s"), i($v, "f")), &text($v, "t"))),
    "size" => $x.size().map(size_json),
    o => panic!("unknown line op {}", o)
} } }

macro_rules! screen_ops { ($x:expr, $v:expr, $op:expr) => { match $op {
    "size" => Ok(size_json($x.size())), "cursor" => Ok(cur_json($x.cursor())),
    "setcur" => void($x.set_cursor(big_cur($v))), "nextline" => void($x.next_line(big($v, "c"))),
    "curmode" => unit($x.set_cursor_mode(cursor_mode($v))), "clr" => void($x.clear_screen()),
    "fg" => void($x.set_fg(color(i($v, "c")))), "bg" => void($x.set_bg(color(i($v, "c")))),
    "add" => void($x.add_style(style(i($v, "s")))), "rem" => void($x.remove_style(style(i($v, "s")))),
    "set" => if i($v, "s") == 0 && b($v, "none") { void($x.set_style(None)) } else { void($x.set_style(style(i($v, "s")))) },
    "bold" => void($x.bold()), "italic" => void($x.italic()), "underline" => void($x.underline()), "reverse" => void($x.reverse()),
    "theme" => void($x.set_theme(theme(i($v, "f"), i($v, "b"), i($v, "s")))),
    "clrattr" => void($x.clear_attributes()),
    "refresh" => unit($x.refresh()),
    "at" => void($x.write_at(big_cur($v), &text($v, "t"))),
    "styled" => void($x.write_styled(color(i($v, "f")), color(i($v, "b")), opt_style(i($v, "s"), i($v, "f")), &text($v, "t"))),
    "styledat" => void($x.write_styled_at(big_cur($v), color(i($v, "f")), color(i($v, "b")), opt_style(i($v, "s"), i($v, "f")), &text($v, "t"))),
    "str" => void($x.write_str(&text($v, "t"))), "chr" => void($x.write_char(text($v, "t").chars().next().unwrap())),
    "fmt" => void(fmt_op!($x, $v)), "fmt2" => void(fmt_op3!($x, $v)),
    o => panic!("unknown screen op {}", o)
} } }

macro_rules! read_ops { ($x:expr, $v:expr, $op:expr) => { match $op {
    "ev" => $x.read_event(timeout($v)).map(|e| event_json(e, None)),
    "wait" => $x.wait_event(timeout($v)).map(|r| json!({"k": "bool", "v": r})),
    "raw" => { let mut bf = vec![0xEEu8; i($v, "cnt") as usize]; $x.read_raw(&mut bf, timeout($v)).map(|e| event_json(e, Some(&bf))) }
    o => panic!("unknown read op {}", o)
} } }

// Values of macro elements; each evaluation is recorded.
thread_local! { static EVS: std::cell::RefCell<Vec<usize>> = const { std::cell::RefCell::new(Vec::new()) }; }
fn mev(v: &Value, k: usize) -> &Value { EVS.with(|e| e.borrow_mut().push(k)); &v["a"][k] }
fn mc(v: &Value, k: usize) -> Option<Color> { color(mev(v, k).as_i64().unwrap()) }
fn mcc(v: &Value, k: usize) -> Color { mc(v, k).unwrap() }
fn ms(v: &Value, k: usize) -> Style { style(mev(v, k).as_i64().unwrap()) }
fn mos(v: &Value, k: usize) -> Option<Style> { let n = mev(v, k).as_i64().unwrap(); if n == 0 { None } else { Some(style(n)) } }
fn mt(v: &Value, k: usize) -> Theme { let a = mev(v, k); theme(a[0].as_i64().unwrap(), a[1].as_i64().unwrap(), a[2].as_i64().unwrap()) }
struct Mx(String);
impl std::fmt::Display for Mx { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::fmt::Debug for Mx { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("?")?; f.write_str(&self.0) } }
fn mx(v: &Value, k: usize) -> Mx {
    let a = mev(v, k);
    if i(v, "cut") == k as i64 { return Mx("x".repeat(i(v, "big") as usize)); }
    Mx(a.as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect())
}

include!("macops.rs");

/// Objects of a scenario; guards borrow from the boxed terminal/screen through raw pointers.
#[derive(Default)]
pub struct Shared { term: Option<*mut Terminal>, screen: Option<*mut Screen>, states: Vec<PrepareState> }
unsafe impl Send for Shared {}

#[derive(Default)]
struct Local {
    tw: Option<TerminalWriteGuard<'static>>, tr: Option<TerminalReadGuard<'static>>,
    sw: Option<ScreenWriteGuard<'static>>, sr: Option<ScreenReadGuard<'static>>,
    states: Vec<PrepareState>,
}

/// Whether the guards that an operation of a thread needs are held; a try-lock may have failed.
fn held(lo: &Local, v: &Value) -> bool {
    match (st(v, "on"), st(v, "op")) {
        ("w", _) | (_, "unlockw") => lo.tw.is_some(), ("r", "rest") => lo.tr.is_some() && !lo.states.is_empty(),
        ("r", _) | (_, "unlockr") => lo.tr.is_some(), (_, "rest") => !lo.states.is_empty(),
        ("g", _) | (_, "sunlockw") => lo.sw.is_some(), ("q", _) | (_, "sunlockr") => lo.sr.is_some(),
        _ => true
    }
}

impl Shared {
    fn t(&self) -> &'static mut Terminal { unsafe { &mut *self.term.expect("no terminal") } }
    fn s(&self) -> &'static mut Screen { unsafe { &mut *self.screen.expect("no screen") } }
}

fn locked<T>(r: Result<T, std::sync::PoisonError<T>>, slot: &mut Option<T>) -> R {
    match r {
        Ok(g) => { *slot = Some(g); Ok(json!({"k": "lock", "v": "ok"})) }
        Err(p) => { *slot = Some(p.into_inner()); Ok(json!({"k": "lock", "v": "poison"})) }
    }
}
fn trylocked<T>(r: std::sync::TryLockResult<T>, slot: &mut Option<T>) -> R {
    use std::sync::TryLockError::*;
    match r {
        Ok(g) => { *slot = Some(g); Ok(json!({"k": "lock", "v": "ok"})) }
        Err(Poisoned(p)) => { *slot = Some(p.into_inner()); Ok(json!({"k": "lock", "v": "poison"})) }
        Err(WouldBlock) => Ok(json!({"k": "lock", "v": "busy"})),
    }
}

/// Operations on the objects; usable from any thread.
fn obj_op(sh: &mut Shared, lo: &mut Local, v: &Value) -> R {
    let op = st(v, "op");
    match op {
        "lockw" => return locked(sh.t().lock_write(), &mut lo.tw),
        "lockr" => return locked(sh.t().lock_read(), &mut lo.tr),
        "trylockw" => return trylocked(sh.t().try_lock_write(), &mut lo.tw),
        "trylockr" => return trylocked(sh.t().try_lock_read(), &mut lo.tr),
        "slockw" => return locked(sh.s().lock_write(), &mut lo.sw),
        "slockr" => return locked(sh.s().lock_read(), &mut lo.sr),
        "strylockw" => return trylocked(sh.s().try_lock_write(), &mut lo.sw),
        "strylockr" => return trylocked(sh.s().try_lock_read(), &mut lo.sr),
        // try-lock and release at once; succeeds whatever the caller holds
        "probew" | "prober" | "sprobew" | "sprober" => {
            fn res<T>(r: std::sync::TryLockResult<T>) -> R { let mut x = None; trylocked(r, &mut x) }
            return match op { "probew" => res(sh.t().try_lock_write()), "prober" => res(sh.t().try_lock_read()),
                "sprobew" => res(sh.s().try_lock_write()), _ => res(sh.s().try_lock_read()) };
        }
        "unlockw" => { lo.tw = None; return void(()); }
        "unlockr" => { lo.tr = None; return void(()); }
        "sunlockw" => { lo.sw = None; return void(()); }
        "sunlockr" => { lo.sr = None; return void(()); }
        _ => ()
    }
    match op {
        "prep" => {
            let c = config(v);
            let r = match st(v, "on") {
                "t" => sh.t().prepare(c),
                "r" if lo.tw.is_some() => lo.tr.as_mut().unwrap().prepare_with_lock(lo.tw.as_mut().unwrap(), c),
                _ => lo.tr.as_mut().unwrap().prepare(c),
            };
            return r.map(|s| { if sched::tid() > 0 { lo.states.push(s) } else { sh.states.push(s) } json!({"k": "unit"}) });
        }
        "rest" => {
            let s = if sched::tid() > 0 { lo.states.pop() } else { sh.states.pop() }.expect("no state");
            return unit(match st(v, "on") {
                "t" => sh.t().restore(s),
                "r" if lo.tw.is_some() => lo.tr.as_mut().unwrap().restore_with_lock(lo.tw.as_mut().unwrap(), s),
                _ => lo.tr.as_mut().unwrap().restore(s),
            });
        }
        "flush" => return unit(lo.tw.as_mut().unwrap().flush()),
        _ => ()
    }
    if op == "mac" {
        EVS.with(|e| e.borrow_mut().clear());
        let (ok, en) = match st(v, "on") {
            "t" => mac_t(sh.t(), v), "w" => mac_w(lo.tw.as_mut().unwrap(), v),
            "s" => mac_s(sh.s(), v), _ => mac_g(lo.sw.as_mut().unwrap(), v),
        };
        return Ok(json!({"k": "mac", "ok": ok, "e": en, "evs": EVS.with(|e| e.borrow().clone())}));
    }
    match (st(v, "on"), op) {
        ("t", "ev" | "wait" | "raw") => read_ops!(sh.t(), v, op),
        ("r", _) => read_ops!(lo.tr.as_mut().expect("no read guard"), v, op),
        ("s", "ev" | "wait" | "raw") => read_ops!(sh.s(), v, op),
        ("q", _) => read_ops!(lo.sr.as_mut().expect("no read guard"), v, op),
        ("t", _) => line_ops!(sh.t(), v, op),
        ("w", _) => line_ops!(lo.tw.as_mut().expect("no write guard"), v, op),
        ("s", _) => screen_ops!(sh.s(), v, op),
        ("g", _) => screen_ops!(lo.sw.as_mut().expect("no write guard"), v, op),
        x => panic!("unknown operation {:?}", x)
    }
}

extern "C" fn user_handler(_: libc::c_int) { }
fn disp(sig: i32) -> i64 {
    unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        libc::sigaction(sig, std::ptr::null(), &mut a);
        let full = (0..).take_while(|&k| k < 65).filter(|&k| k > 0 && libc::sigismember(&a.sa_mask, k) == 1).count();
        let fl = (a.sa_flags & !0x0400_0000) as i64;
        match a.sa_sigaction {
            libc::SIG_DFL => 0,
            libc::SIG_IGN => 1,
            x if x == user_handler as *const () as usize => 10 + fl.min(1_000_000) * 100 + full as i64,
            _ => 2,
        }
    }
}
fn set_disp(sig: i32, d: &str) {
    unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        match d {
            "dfl" => a.sa_sigaction = libc::SIG_DFL,
            "ign" => a.sa_sigaction = libc::SIG_IGN,
            _ => { a.sa_sigaction = user_handler as *const () as usize; a.sa_flags = libc::SA_RESTART; libc::sigaddset(&mut a.sa_mask, libc::SIGUSR2); }
        }
        libc::sigaction(sig, &a, std::ptr::null_mut());
    }
}
const SIGS: [&str; 5] = ["int", "quit", "tstp", "cont", "winch"];

struct World {
    pty: Option<dev::Pty>,
    out: Option<dev::Pty>, // where the output goes, when not to pty
    tok: dev::Tok,
    sh: Shared,
    lo: Local,
    obs: bool,
    sysl: bool,
    lkl: bool,
    seg: Option<Seg>,
    stopped: bool,
    size: (u16, u16),
    scn: usize,
    saved_fds: Option<(i32, i32, i32)>,
    base_tio: Option<libc::termios>,
}

/// Decoder of delivered pattern bytes into segments <<op, from, to>>.
#[derive(Default)]
struct Seg { ops: Vec<(u64, usize)>, bytes: Vec<u8>, done: usize, segs: Vec<(u64, usize, usize)> }
impl Seg {
    fn feed(&mut self, data: &[u8]) {
        self.bytes.extend_from_slice(data);
        // recompute from scratch: deterministic and simple
        self.segs.clear();
        let n = self.bytes.len();
        let mut p = 0;
        while p < n {
            let cont = self.segs.last().copied().filter(|&(o, _, to)| {
                self.ops.iter().any(|&(k, l)| k == o && to < l) && pat_byte(o, to) == self.bytes[p]
            });
            if let Some((_, _, to)) = cont { self.segs.last_mut().unwrap().2 = to + 1; p += 1; continue; }
            // a new segment: prefer the start of a later operation, else the best match anywhere
            let look = &self.bytes[p..(p + 12).min(n)];
            let last = self.segs.last().map_or(0, |s| s.0);
            let matches = |o: u64, l: usize, at: usize| look.iter().enumerate().take_while(|&(k, &x)| at + k < l && pat_byte(o, at + k) == x).count();
            // the longest match, the start of a later operation being preferred
            let mut best = None;
            let mut most = 0;
            let mut later: Vec<_> = self.ops.iter().filter(|x| x.0 > last).collect();
            later.sort();
            for &&(o, l) in &later { let m = matches(o, l, 0); if m > most { most = m; best = Some((o, 0)); } }
            if most < look.len() {
                for &(o, l) in &self.ops { for at in 0..l { if pat_byte(o, at) == look[0] { let m = matches(o, l, at); if m > most { most = m; best = Some((o, at)); } } } }
            }
            match best {
                Some((o, at)) => { self.segs.push((o, at, at + 1)); }
                None => { self.segs.push((0, self.bytes[p] as usize, self.bytes[p] as usize + 1)); }
            }
            p += 1;
        }
    }
}

/// The library may remember signals of the previous scenario.
fn drain_signals() {
    let p = dev::Pty::open();
    *CUR.lock().unwrap() = (0, "drain".into());
    let path = p.path.clone();
    let _ = catch_unwind(AssertUnwindSafe(move || {
        std::env::set_var("TERM", "xterm");
        let mut t = Terminal::from_path(path).unwrap();
        for _ in 0..12 { let _ = t.read_raw(&mut [0; 16], Some(Duration::from_millis(0))); }
    }));
    drop(p);
    dev::reset();
}

impl World {
    fn new() -> World {
        World{pty: None, out: None, tok: Default::default(), sh: Default::default(), lo: Local::default(), obs: false, sysl: false, lkl: false,
            seg: None, stopped: false, size: (0, 0), scn: 0, saved_fds: None, base_tio: None}
    }

    fn cleanup(&mut self) {
        // Dropping must not disturb later scenarios: no plans, errors ignored.
        { let mut d = dev::dev(); d.wplan.clear(); d.rplan.clear(); d.splan.clear(); d.aplan.clear(); d.ioctl_fail.clear(); d.wsplan.clear(); d.szplan.clear(); d.calls = 0; }
        *CUR.lock().unwrap() = (self.scn, "cleanup".into());
        let lo = std::mem::take(&mut self.lo);
        let sh = std::mem::take(&mut self.sh);
        let _ = catch_unwind(AssertUnwindSafe(move || { let Local{tw, tr, sw, sr, ..} = lo;
            let _ = catch_unwind(AssertUnwindSafe(|| drop(tw))); let _ = catch_unwind(AssertUnwindSafe(|| drop(tr)));
            let _ = catch_unwind(AssertUnwindSafe(|| drop(sw))); let _ = catch_unwind(AssertUnwindSafe(|| drop(sr))); }));
        let _ = catch_unwind(AssertUnwindSafe(move || { if let Some(p) = sh.screen { drop(unsafe { Box::from_raw(p) }); } }));
        let _ = catch_unwind(AssertUnwindSafe(move || { if let Some(p) = sh.term { drop(unsafe { Box::from_raw(p) }); } }));
        for s in SIGS { set_disp(signo(s), "dfl"); }
        set_disp(libc::SIGINT, "ign"); set_disp(libc::SIGQUIT, "ign"); set_disp(libc::SIGTSTP, "ign");
        if let Some((a, bb, c)) = self.saved_fds.take() { unsafe { for (s, d) in [(a, 0), (bb, 1), (c, 2)] { libc::dup2(s, d); libc::close(s); } } }
        self.out = None;
        self.pty = None;
        // drain a signal the library may still remember
        dev::reset(); sched::reset();
    }

    fn start(&mut self, v: &Value) -> R {
        self.cleanup();
        *self = World::new();
        if dev::SIGNALLED.swap(false, SeqCst) { drain_signals(); }
        self.scn = i(v, "n") as usize;
        self.obs = b(v, "obs"); self.sysl = b(v, "sysl"); self.lkl = b(v, "lkl");
        if b(v, "seg") { self.seg = Some(Seg::default()); }
        std::env::set_var("TERM", if st(v, "term").is_empty() { "xterm" } else { st(v, "term") });
        let p = dev::Pty::open();
        self.size = (i(v, "h").max(0) as u16, i(v, "w").max(0) as u16);
        p.set_size(self.size.0, self.size.1);
        self.base_tio = Some(p.tio());
        self.pty = Some(p);
        dev::dev().log_sys = self.sysl;
        mortal::verif::set_hook(Some(sched::hook));
        mortal::verif::set_atomic_hook(Some(dev::atomic_hook));
        sched::with(|s| s.rec = self.lkl);
        if let Some(d) = v.get("disp").and_then(|x| x.as_object()) { for (k, x) in d { set_disp(signo(k), x.as_str().unwrap()); } }
        if let Some(t) = v.get("tio") { self.set_tio(t); }
        for (n, name) in [(0, "stdin"), (1, "stdout"), (2, "stderr")] { let _ = (n, name); }
        void(())
    }

    fn set_tio(&mut self, v: &Value) {
        let p = self.pty.as_ref().unwrap();
        let mut t = p.tio();
        let o = v.as_object().unwrap();
        for (k, x) in o {
            let on = x.as_bool().unwrap_or(false);
            let f = |fl: &mut libc::tcflag_t, bit: libc::tcflag_t| if on { *fl |= bit } else { *fl &= !bit };
            match k.as_str() {
                "icanon" => f(&mut t.c_lflag, libc::ICANON), "echo" => f(&mut t.c_lflag, libc::ECHO), "isig" => f(&mut t.c_lflag, libc::ISIG),
                "iexten" => f(&mut t.c_lflag, libc::IEXTEN), "ixon" => f(&mut t.c_iflag, libc::IXON), "icrnl" => f(&mut t.c_iflag, libc::ICRNL),
                "inlcr" => f(&mut t.c_iflag, libc::INLCR), "igncr" => f(&mut t.c_iflag, libc::IGNCR), "opost" => f(&mut t.c_oflag, libc::OPOST),
                "vmin" => t.c_cc[libc::VMIN] = x.as_u64().unwrap() as u8, "vtime" => t.c_cc[libc::VTIME] = x.as_u64().unwrap() as u8,
                "vintr" => t.c_cc[libc::VINTR] = x.as_u64().unwrap() as u8,
                _ => panic!("tio {}", k)
            }
        }
        p.set_tio(&t);
    }

    fn observe(&self) -> Value {
        let t = self.pty.as_ref().unwrap().tio();
        let f = |fl: libc::tcflag_t, bit: libc::tcflag_t| fl & bit != 0;
        let lmask = libc::ICANON | libc::ECHO | libc::ISIG | libc::IEXTEN;
        let imask = libc::IXON | libc::ICRNL | libc::INLCR | libc::IGNCR;
        let mut h: u64 = 17;
        for x in [t.c_lflag & !lmask, t.c_iflag & !imask, t.c_oflag & !libc::OPOST, t.c_cflag, t.c_line as u32,
            unsafe { libc::cfgetispeed(&t) }, unsafe { libc::cfgetospeed(&t) },
            self.out.as_ref().map_or(0, |p| { let t = p.tio(); t.c_lflag ^ t.c_iflag << 8 ^ t.c_oflag << 16 })] { h = h.wrapping_mul(1000003) ^ x as u64; }
        for (k, x) in t.c_cc.iter().enumerate() { if k != libc::VMIN && k != libc::VTIME && k != libc::VINTR { h = h.wrapping_mul(31) ^ *x as u64; } }
        let d: serde_json::Map<String, Value> = SIGS.iter().map(|s| (s.to_string(), json!(disp(signo(s))))).collect();
        json!({"tio": {"icanon": f(t.c_lflag, libc::ICANON), "echo": f(t.c_lflag, libc::ECHO), "isig": f(t.c_lflag, libc::ISIG),
            "iexten": f(t.c_lflag, libc::IEXTEN), "ixon": f(t.c_iflag, libc::IXON), "icrnl": f(t.c_iflag, libc::ICRNL),
            "inlcr": f(t.c_iflag, libc::INLCR), "igncr": f(t.c_iflag, libc::IGNCR), "opost": f(t.c_oflag, libc::OPOST),
            "vmin": t.c_cc[libc::VMIN], "vtime": t.c_cc[libc::VTIME], "vintr": t.c_cc[libc::VINTR], "rest": h % 1_000_000_007},
            "disp": d, "fds": self.fd_count(), "std": (0..3).filter(|&fd| dev::is_dev(fd)).count()})
    }

    /// Open descriptors of the device besides the harness's own.
    fn fd_count(&self) -> i64 {
        let own = self.pty.as_ref().unwrap().slave;
        let own2 = self.out.as_ref().map_or(own, |p| p.slave);
        let mut n = 0;
        for fd in 3..256 {
            if fd == own || fd == own2 { continue; }
            if let Some((a, bb, c)) = self.saved_fds { if fd == a || fd == bb || fd == c { continue; } }
            if dev::is_dev(fd) { n += 1; }
        }
        n
    }

    fn ctl_op(&mut self, v: &Value) -> Option<R> {
        let op = st(v, "op");
        let bytes = |k: &str| -> Vec<u8> { v.get(k).and_then(|x| x.as_array()).map_or(vec![], |a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect()) };
        Some(match op {
            "in" => { dev::dev().inq.extend(bytes("bytes")); void(()) }
            "winsz" => { self.out.as_ref().or(self.pty.as_ref()).unwrap().set_size(i(v, "l") as u16, i(v, "c") as u16);
                if b(v, "sig") { dev::deliver(libc::SIGWINCH); } void(()) }
            "sig" => { let ran = dev::deliver(signo(st(v, "s"))); Ok(json!({"k": "bool", "v": ran})) }
            "wplan" => { let mut d = dev::dev(); d.wplan = v["p"].as_array().unwrap().iter().map(|x| {
                if let Some(n) = x.as_i64() { if n >= 0 { dev::WAct::Short(n as usize) } else { dev::WAct::Err(-n as i32) } } else { dev::WAct::Full } }).collect(); void(()) }
            "rplan" => { let mut d = dev::dev(); d.rplan = v["p"].as_array().unwrap().iter().map(|x| {
                if let Some(n) = x.as_i64() { if n >= 0 { dev::RAct::Max(n as usize) } else { dev::RAct::Err(-n as i32) } } else { dev::RAct::Sig(signo(x.as_str().unwrap())) } }).collect(); void(()) }
            "splan" => { let mut d = dev::dev(); d.splan = v["p"].as_array().unwrap().iter().map(|x| {
                let ms = i(x, "ms");
                match st(x, "k") {
                    "in" => dev::SAct::In(ms, x["bytes"].as_array().unwrap().iter().map(|y| y.as_u64().unwrap() as u8).collect()),
                    "sig" => dev::SAct::Sig(ms, signo(st(x, "s"))), "sigx" => dev::SAct::SigX(ms, signo(st(x, "s"))), "int" => dev::SAct::Int(ms), "race" => dev::SAct::Race(signo(st(x, "s"))),
                    _ => dev::SAct::Err(i(x, "e") as i32) } }).collect(); void(()) }
            "aplan" => { dev::dev().aplan = v["p"].as_array().unwrap().iter().map(|x| (i(x, "skip") as usize, signo(st(x, "s")))).collect(); void(()) }
            "szplan" => {
                dev::SIZEFD.store(self.out.as_ref().or(self.pty.as_ref()).unwrap().slave, SeqCst);
                dev::dev().szplan = v["p"].as_array().unwrap().iter().map(|x| (i(x, "l") as u16, i(x, "c") as u16)).collect(); void(()) }
            "wsplan" => { dev::dev().wsplan = v["p"].as_array().unwrap().iter().map(|x| (i(x, "skip") as usize, i(x, "l") as u16, i(x, "c") as u16)).collect(); void(()) }
            "fail" if st(v, "call") == "none" => { dev::dev().ioctl_fail.clear(); void(()) }
            "fail" => { let mut d = dev::dev(); d.ioctl_fail.push_back((st(v, "call").chars().next().unwrap(), i(v, "e") as i32 + 1000 * i(v, "skip") as i32)); void(()) }
            "tioset" => { let t = v["tio"].clone(); self.set_tio(&t); void(()) }
            "sigh" => { set_disp(signo(st(v, "s")), st(v, "d")); void(()) }
            "junk" | "devreset" | "mark" => void(()),
            "clk" => { dev::CLOCK.fetch_add(i(v, "ms") * 1_000_000, SeqCst); void(()) }
            "stdfds" => { unsafe {
                let s = (libc::dup(0), libc::dup(1), libc::dup(2));
                let p = self.pty.as_ref().unwrap().slave;
                self.saved_fds = Some(s);
                if b(v, "two") { // input from one terminal, output to another
                    let (h, w) = self.size;
                    self.out = Some(dev::Pty::open_out());
                    let q = self.out.as_ref().unwrap();
                    q.set_size(h, w);
                    self.pty.as_ref().unwrap().set_size(h + 3, w + 5);
                    libc::dup2(p, 0);
                    libc::dup2(if b(v, "err") { p } else { q.slave }, 1); if b(v, "err") { libc::dup2(q.slave, 2); }
                } else { libc::dup2(p, 0); libc::dup2(p, 1); if b(v, "err") { libc::dup2(p, 2); } }
                } void(()) }
            "open" => { let p = self.pty.as_ref().unwrap().path.clone();
                let r = match st(v, "via") { "std" => Terminal::new(), "err" => Terminal::stderr(), _ => Terminal::from_path(p) };
                r.map(|t| { self.sh.term = Some(Box::into_raw(Box::new(t))); json!({"k": "unit"}) }) }
            "screen" => {
                let c = config(v);
                let r = match st(v, "via") {
                    "std" => Screen::new(c), "err" => Screen::stderr(c),
                    "path" => { let _ = c; Screen::from_path_cfg(self.pty.as_ref().unwrap().path.clone(), c) }
                    _ => { let t = *unsafe { Box::from_raw(self.sh.term.take().expect("no terminal")) }; Screen::with_terminal(t, c) }
                };
                r.map(|s| {
                    let ret = if b(v, "ws") { let z = s.size(); json!({"k": "unit", "l": z.lines, "c": z.columns}) } else { json!({"k": "unit"}) };
                    self.sh.screen = Some(Box::into_raw(Box::new(s))); ret }) }
            "dropt" => { drop(unsafe { Box::from_raw(self.sh.term.take().unwrap()) }); void(()) }
            "drops" => { drop(unsafe { Box::from_raw(self.sh.screen.take().unwrap()) }); void(()) }
            "panic" => { // a thread panics while holding a guard
                let sh = &mut self.sh; let kind = st(v, "g").to_string(); let vv = v.clone();
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let mut lo = Local::default();
                    let l = match kind.as_str() { "w" => "lockw", "r" => "lockr", "g" => "slockw", _ => "slockr" };
                    let _ = obj_op(sh, &mut lo, &json!({"op": l}));
                    if let Some(a) = vv.get("ops").and_then(|x| x.as_array()) { for o in a { let _ = obj_op(sh, &mut lo, o); } }
                    std::panic::panic_any("planned");
                    #[allow(unreachable_code)] { drop(lo); }
                }));
                match r { Err(e) if e.downcast_ref::<&str>() == Some(&"planned") => void(()), Err(e) => std::panic::resume_unwind(e), Ok(()) => void(()) } }
            "conc" => return Some(self.conc(v)),
            _ => return None
        })
    }

    fn conc(&mut self, v: &Value) -> R {
        let threads = v["threads"].as_array().unwrap().clone();
        let n = threads.len();
        let choices: Vec<usize> = v.get("sched").and_then(|x| x.as_array()).map_or(vec![], |a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect());
        { let mut d = dev::dev(); d.tag_threads = true; }
        sched::with(|s| { s.on = true; s.st = vec![sched::St::Ready; n]; s.turn = 0; s.trace.clear(); s.hold.clear(); s.told.clear(); });
        *CTOK.lock().unwrap_or_else(|e| e.into_inner()) = None;
        let sh_ptr = &mut self.sh as *mut Shared as usize;
        let mut handles = Vec::new();
        for (k, ops) in threads.into_iter().enumerate() {
            handles.push(std::thread::spawn(move || {
                sched::enter(k + 1);
                let sh = unsafe { &mut *(sh_ptr as *mut Shared) };
                let mut lo = Local::default();
                let r = catch_unwind(AssertUnwindSafe(|| {
                    for (j, o) in ops.as_array().unwrap().iter().enumerate() {
                        PROGRESS.fetch_add(1, SeqCst);
                        sched::point("op");
                        if !held(&lo, o) { continue; }
                        let mut e = o.as_object().unwrap().clone();
                        e.insert("th".into(), json!(k + 1)); e.insert("j".into(), json!(j));
                        let mut bgn = e.clone(); bgn.insert("what".into(), e["op"].clone()); bgn.insert("op".into(), json!("begin"));
                        sched::trace(Value::Object(bgn).to_string());
                        let r = obj_op(sh, &mut lo, o);
                        let (rs, ret) = match r { Ok(x) => ("ok", x), Err(_) => ("err", json!({"k": "unit"})) };
                        e.insert("what".into(), e["op"].clone()); e.insert("op".into(), json!("end"));
                        e.insert("r".into(), json!(rs)); e.insert("ret".into(), ret);
                        sched::trace(Value::Object(e).to_string());
                    }
                }));
                let _ = catch_unwind(AssertUnwindSafe(|| drop(lo)));
                if r.is_err() { sched::trace(format!("{{\"op\":\"cpanic\",\"th\":{}}}", k + 1)); }
                sched::finish();
            }));
        }
        let (ok, followed) = sched::drive(n, &choices);
        let tr = sched::with(|s| { s.on = false; std::mem::take(&mut s.trace) });
        for t in annotate(tr) { emit(&format!("{{\"n\":{},{}", self.scn, &t[1..])); }
        if !ok {
            emit(&json!({"n": self.scn, "op": "deadlock", "followed": followed}).to_string());
            if let Ok(mut g) = OUT.lock() { let _ = g.as_mut().unwrap().flush(); }
            unsafe { libc::_exit(8) }
        }
        for h in handles { let _ = h.join(); }
        { let mut d = dev::dev(); d.tag_threads = false; d.out.clear(); }
        Ok(json!({"k": "followed", "n": followed.len()}))
    }

    /// Whether the objects that the operation needs exist; opening them may have failed.
    fn possible(&self, v: &Value, op: &str) -> bool {
        let (t, s) = (self.sh.term.is_some(), self.sh.screen.is_some());
        match op {
            "open" | "stdfds" | "conc" => return true,
            "screen" => return t || !st(v, "via").is_empty(),
            "dropt" => return t,
            "rest" if self.sh.states.is_empty() => return false,
            "panic" => return if matches!(st(v, "g"), "w" | "r") { t } else { s },
            _ => ()
        }
        match st(v, "on") { "t" | "w" | "r" => t, "s" | "g" | "q" => s,
            _ => if matches!(op, "lockw" | "lockr" | "unlockw" | "unlockr" | "trylockw" | "trylockr" | "probew" | "prober") { t }
                else if op == "drops" || op.starts_with("slock") || op.starts_with("sunlock") || op.starts_with("strylock") || op.starts_with("sprobe") { s }
                else { true } }
    }

    fn run(&mut self, v: &Value) {
        PROGRESS.fetch_add(1, SeqCst);
        let op = st(v, "op").to_string();
        if op == "pure" { for l in pure::run(v) { emit(&l); } return; }
        if op == "scn" {
            self.stopped = false;
            let _ = self.start(v);
            let mut e = v.as_object().unwrap().clone();
            if self.obs { e.insert("obs".into(), self.observe()); }
            emit(&Value::Object(e).to_string());
            return;
        }
        if self.stopped || !self.possible(v, &op) { return; }
        *CUR.lock().unwrap() = (self.scn, v.to_string());
        { let mut d = dev::dev(); d.calls = 0; d.sys.clear(); d.blocked = false; d.out.clear(); }
        sched::take_log();
        let clk0 = dev::CLOCK.load(SeqCst);
        dev::OPCLK.store(clk0, SeqCst);
        dev::READING.store(["ev", "wait", "raw"].contains(&op.as_str()), SeqCst);
        if let Some(s) = self.seg.as_mut() { if let Some(p) = v.get("pat") { s.ops.push((p[0].as_u64().unwrap(), p[1].as_u64().unwrap() as usize)); } }
        let r = catch_unwind(AssertUnwindSafe(|| {
            match self.ctl_op(v) { Some(r) => r, None => { let (sh, lo) = (&mut self.sh as *mut _, &mut self.lo as *mut _); obj_op(unsafe { &mut *sh }, unsafe { &mut *lo }, v) } }
        }));
        let (blocked, rd, out, sys) = { let mut d = dev::dev(); (d.blocked, d.rd, std::mem::take(&mut d.out), std::mem::take(&mut d.sys)) };
        let clk1 = dev::CLOCK.load(SeqCst);
        let mut e = v.as_object().unwrap().clone();
        if e.contains_key("pat") { e.insert("t".into(), json!([])); }
        let mut msg = String::new();
        let (rs, ret, en) = match r {
            Ok(Ok(x)) => ("ok", x, 0),
            Ok(Err(er)) => ("err", json!({"k": "unit"}), er.raw_os_error().unwrap_or(-1)),
            Err(p) => { self.stopped = true;
                if p.downcast_ref::<sched::SelfDeadlock>().is_some() { ("dead", json!({"k": "unit"}), 0) }
                else {
                    msg = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    ("panic", json!({"k": "unit"}), 0) } }
        };
        e.insert("n".into(), json!(self.scn)); 
        e.insert("r".into(), json!(if blocked { "block" } else { rs }));
        e.insert("e".into(), json!(en)); e.insert("ret".into(), ret);
        if !msg.is_empty() { e.insert("msg".into(), json!(msg)); }
        if let Some(s) = self.seg.as_mut() {
            s.feed(&out);
            e.insert("segs".into(), json!(s.segs.iter().map(|x| json!([x.0, x.1, x.2])).collect::<Vec<_>>()));
        } else {
            let toks: Vec<Value> = self.tok.feed(&out).iter().map(|s| serde_json::from_str(s).unwrap()).collect();
            e.insert("dev".into(), Value::Array(toks));
            e.insert("pend".into(), json!(self.tok.pending()));
        }
        if self.sysl { e.insert("sys".into(), Value::Array(sys.iter().map(|s| serde_json::from_str(s).unwrap()).collect())); }
        e.insert("rd".into(), json!(rd));
        let ns = clk1 - clk0;
        // in milliseconds, rounded up; large values are cut
        e.insert("clk".into(), json!(((ns + 999_999) / 1_000_000).min(2_000_000_000)));
        e.insert("clkf".into(), json!((ns / 1_000_000).min(2_000_000_000)));
        if self.lkl { e.insert("lk".into(), Value::Array(sched::take_log().iter().map(|s| serde_json::from_str(s).unwrap()).collect())); }
        if self.obs { e.insert("obs".into(), self.observe()); }
        emit(&Value::Object(e).to_string());
    }
}

trait FromPathCfg: Sized { fn from_path_cfg(p: String, c: PrepareConfig) -> io::Result<Self>; }
impl FromPathCfg for Screen {
    fn from_path_cfg(p: String, c: PrepareConfig) -> io::Result<Screen> { Screen::with_terminal(Terminal::from_path(p)?, c) }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    // keep the harness's own files away from low descriptors
    let inp = File::open(&args[1]).expect("script");
    let outf = std::fs::OpenOptions::new().create(true).append(true).open(&args[2]).expect("trace");
    let skip: usize = args.get(3).map_or(0, |s| s.parse().unwrap());
    let hi = |f: File, n: i32| unsafe { let fd = libc::fcntl(f.as_raw_fd(), libc::F_DUPFD_CLOEXEC, n); assert!(fd >= 0); drop(f); File::from_raw_fd(fd) };
    let inp = hi(inp, 300);
    *OUT.lock().unwrap() = Some(io::BufWriter::with_capacity(1 << 16, hi(outf, 310)));
    let e2 = unsafe { libc::fcntl(2, libc::F_DUPFD_CLOEXEC, 320) };
    std::panic::set_hook(Box::new(move |i| { let m = format!("{}\n", i); unsafe { libc::syscall(libc::SYS_write, e2, m.as_ptr(), m.len()); } }));
    unsafe { libc::signal(libc::SIGHUP, libc::SIG_IGN); libc::signal(libc::SIGTTOU, libc::SIG_IGN); }
    for (s, d) in [("int", "ign"), ("quit", "ign"), ("tstp", "ign")] { set_disp(signo(s), d); }
    watchdog();
    let mut w = World::new();
    let mut scn = 0;
    for line in io::BufReader::new(inp).lines() {
        let line = line.unwrap();
        if line.trim().is_empty() { continue; }
        if line.contains("\"op\":\"scn\"") || line.contains("\"op\":\"pure\"") { scn += 1; }
        if scn <= skip { continue; }
        let v: Value = serde_json::from_str(&line).unwrap_or_else(|e| panic!("bad script line: {} {}", e, line));
        w.run(&v);
    }
    w.stopped = false;
    w.cleanup();
    OUT.lock().unwrap().as_mut().unwrap().flush().unwrap();
}

static CTOK: Mutex<Option<dev::Tok>> = Mutex::new(None);
/// Bytes written while several threads run: recorded in the scheduler's trace.
pub fn conc_write(th: u64, data: &[u8]) {
    let mut g = CTOK.lock().unwrap_or_else(|e| e.into_inner());
    let k = g.get_or_insert_with(Default::default);
    let t = k.feed(data);
    sched::trace(format!("{{\"op\":\"cw\",\"th\":{},\"dev\":[{}],\"pend\":{}}}", th, t.join(","), k.pending()));
}

/// Adds to every `begin` what the operation will return and how often it writes to the device, and
/// marks the last write of every operation.
fn annotate(tr: Vec<String>) -> Vec<String> {
    let mut v: Vec<Value> = tr.iter().map(|s| serde_json::from_str(s).unwrap()).collect();
    let n = v.len();
    for a in 0..n {
        if v[a]["op"] != "begin" { continue; }
        let (mut ncw, mut last, mut fut) = (0, None, json!({"k": "never"}));
        for b in a + 1..n {
            if v[b]["th"] != v[a]["th"] { continue; }
            if v[b]["op"] == "cw" { ncw += 1; v[b]["last"] = json!(false); last = Some(b); }
            if v[b]["op"] == "end" { fut = v[b]["ret"].clone(); break; }
        }
        if let Some(b) = last { v[b]["last"] = json!(true); }
        v[a]["ncw"] = json!(ncw);
        v[a]["fut"] = fut;
    }
    for e in v.iter_mut() { if e["op"] == "cw" && e.get("last").is_none() { e["last"] = json!(false); } }
    // "n" is put in front
    v.iter().map(|e| e.to_string()).collect()
}
