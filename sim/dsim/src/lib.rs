//! Deterministic simulation runtime: see `rt.c` for the scheduler. This side
//! has the workload API, and the orchestrator that runs seeds in parallel
//! worker processes, minimises failures, writes replay files and evidence.
use std::fmt::Write as _;

mod orchestrate;
pub use orchestrate::main;

#[repr(C)]
#[derive(Clone, Copy, Default, Debug)]
pub struct Config {
    pub policy: u32,
    pub switch_pct: u32,
    pub fine_log: u32,
    pub step_ns: u32,
    pub fine_ns: u32,
    pub spurious_pm: u32,
    pub eintr_pm: u32,
    pub stall_pm: u32,
    pub stall_max_us: u32,
    pub jump_pm: u32,
    pub jump_max_ms: u32,
    pub pct_log: u32,
    pub max_points: u64,
    pub max_atomics: u64,
}

pub(crate) const CAP_CHOICES: usize = 1 << 20;
pub(crate) const NCNT: usize = 160;

#[repr(C)]
pub(crate) struct Counter {
    pub name: [u8; 48],
    pub kind: u32,
    pub pad: u32,
    pub n: u64,
}
#[repr(C)]
pub(crate) struct Shared {
    pub status: u32,
    pub nchoices: u32,
    pub hash: u64,
    pub sched_hash: u64,
    pub event_hash: u64,
    pub points: u64,
    pub atomics: u64,
    pub switches: u64,
    pub fine_preempts: u64,
    pub simtime: u64,
    pub nevents: u64,
    pub nontrivial: u32,
    pub nthreads: u32,
    pub cls: [u8; 128],
    pub msg: [u8; 4096],
    pub panic_msg: [u8; 1024],
    pub summary: [u8; 1024],
    pub cnt: [Counter; NCNT],
    pub choices: [u32; CAP_CHOICES],
}

mod ffi {
    use super::*;
    extern "C" {
        pub fn rt_choose(n: u32) -> u32;
        pub fn rt_set_config(c: *const Config);
        pub fn rt_point();
        pub fn rt_nopreempt(d: i32);
        pub fn rt_now() -> u64;
        pub fn rt_points() -> u64;
        pub fn rt_self() -> i32;
        pub fn rt_verbose() -> i32;
        pub fn rt_in_sim() -> i32;
        pub fn rt_advance(ns: u64);
        pub fn rt_sleep_ns(ns: u64);
        pub fn rt_event(s: *const u8, n: usize);
        pub fn rt_summary(s: *const u8, n: usize);
        pub fn rt_panic_msg(s: *const u8, n: usize);
        pub fn rt_finish();
        pub fn rt_blocked_ns() -> u64;
        pub fn rt_nontrivial();
        pub fn rt_count(name: *const u8, len: usize, kind: u32, n: u64);
        pub fn rt_violation(c: *const u8, cl: usize, m: *const u8, ml: usize);
        pub(crate) fn rt_map_shared() -> *mut Shared;
        pub(crate) fn rt_fork_run(
            s: *mut Shared,
            seed: u64,
            seq: *const u32,
            len: u32,
            is_replay: i32,
            vfd: i32,
            timeout_s: u32,
            f: extern "C" fn(),
        ) -> i32;
    }
}
pub(crate) use ffi::{rt_fork_run, rt_map_shared};

/// While alive, the scheduler doesn't preempt this thread.
pub struct Quiet(());
pub fn quiet() -> Quiet {
    unsafe { ffi::rt_nopreempt(1) };
    Quiet(())
}
impl Drop for Quiet {
    fn drop(&mut self) {
        unsafe { ffi::rt_nopreempt(-1) };
    }
}

/// Uniform in `0..n`; 0 must be the most ordinary alternative.
pub fn choose(n: usize) -> usize {
    let me = thread_no();
    if (0..64).contains(&me) {
        let t = unsafe { TAPES[me as usize] };
        if !t.is_null() {
            let t = unsafe { &mut *t };
            if t.playing {
                let c = t.choices.get(t.pos).copied().unwrap_or(0) as usize % n.max(1);
                t.pos += 1;
                return c;
            }
            let c = unsafe { ffi::rt_choose(n as u32) as usize };
            let _q = quiet();
            t.choices.push(c as u32);
            return c;
        }
    }
    unsafe { ffi::rt_choose(n as u32) as usize }
}
/// Choices that a thread made, to make them again.
#[derive(Default)]
pub struct Tape {
    choices: Vec<u32>,
    pos: usize,
    playing: bool,
}
impl Tape {
    pub fn rewind(&mut self) {
        self.pos = 0;
        self.playing = true;
    }
}
static mut TAPES: [*mut Tape; 64] = [std::ptr::null_mut(); 64];
/// While alive, the choices of this thread go onto the tape, or come from it.
pub struct Taping(usize);
pub fn tape(t: &mut Tape) -> Taping {
    let me = thread_no() as usize;
    unsafe { TAPES[me] = t };
    Taping(me)
}
impl Drop for Taping {
    fn drop(&mut self) {
        unsafe { TAPES[self.0] = std::ptr::null_mut() }
    }
}
/// True with probability `num / den`; minimisation pulls it to false.
pub fn chance(num: usize, den: usize) -> bool {
    choose(den) >= den - num
}
/// Uniform in `lo..=hi`; minimisation pulls it to `lo`.
pub fn range(lo: usize, hi: usize) -> usize {
    lo + choose(hi - lo + 1)
}
pub fn pick<T: Copy>(xs: &[T]) -> T {
    xs[choose(xs.len())]
}
/// Picks an index by weight; the first one is the simplest.
pub fn weighted(ws: &[usize]) -> usize {
    let total: usize = ws.iter().sum();
    let mut r = choose(total);
    for (i, w) in ws.iter().enumerate() {
        if r < *w {
            return i;
        }
        r -= w;
    }
    unreachable!()
}
pub fn bits64() -> u64 {
    (choose(1 << 16) as u64)
        | (choose(1 << 16) as u64) << 16
        | (choose(1 << 16) as u64) << 32
        | (choose(1 << 16) as u64) << 48
}
pub fn set_config(c: &Config) {
    unsafe { ffi::rt_set_config(c) }
}
pub fn point() {
    unsafe { ffi::rt_point() }
}
/// Simulated monotonic time in nanoseconds.
pub fn now() -> u64 {
    unsafe { ffi::rt_now() }
}
pub fn points() -> u64 {
    unsafe { ffi::rt_points() }
}
pub fn thread_no() -> i32 {
    unsafe { ffi::rt_self() }
}
pub fn verbose() -> bool {
    unsafe { ffi::rt_verbose() != 0 }
}
pub fn in_sim() -> bool {
    unsafe { ffi::rt_in_sim() != 0 }
}
pub fn advance(ns: u64) {
    unsafe { ffi::rt_advance(ns) }
}
pub fn sleep_ns(ns: u64) {
    unsafe { ffi::rt_sleep_ns(ns) }
}
pub fn event(s: &str) {
    let _q = quiet();
    unsafe { ffi::rt_event(s.as_ptr(), s.len()) }
}
#[macro_export]
macro_rules! ev {
    ($($x:tt)*) => {{
        let _q = $crate::quiet();
        $crate::event(&format!($($x)*));
    }};
}
pub fn summary(s: &str) {
    unsafe { ffi::rt_summary(s.as_ptr(), s.len()) }
}
/// Marks the run as one that reached the behaviour the property is about.
pub fn nontrivial() {
    unsafe { ffi::rt_nontrivial() }
}
/// Counts an injected fault.
pub fn fault(name: &str) {
    unsafe { ffi::rt_count(name.as_ptr(), name.len(), 0, 1) }
}
/// Counts a rare condition that the workload is meant to reach.
pub fn probe(name: &str) {
    unsafe { ffi::rt_count(name.as_ptr(), name.len(), 1, 1) }
}
pub fn violation(class: &str, msg: &str) -> ! {
    unsafe { ffi::rt_violation(class.as_ptr(), class.len(), msg.as_ptr(), msg.len()) }
    unreachable!()
}
/// Simulated time this thread has spent blocked so far.
pub fn blocked_ns() -> u64 {
    unsafe { ffi::rt_blocked_ns() }
}
static mut ACTIVE: &str = "";
pub(crate) fn set_active(p: &'static str) {
    unsafe { ACTIVE = p }
}
/// The property being checked.
pub fn active() -> &'static str {
    unsafe { ACTIVE }
}
/// Reports a violation if the property being checked is one of `props`;
/// otherwise ends the run, since what follows can't be judged.
pub fn broken(props: &[&str], class: &str, msg: &str) -> ! {
    let _q = quiet();
    if props.is_empty() || props.contains(&active()) {
        violation(class, msg)
    }
    probe(&format!("cut short: {class}"));
    unsafe { ffi::rt_finish() };
    unreachable!()
}
/// Reports that `props` don't hold. If the property being checked isn't one of
/// them, the run goes on: what follows may still break that one.
pub fn deviation(props: &[&str], class: &str, msg: &str) {
    let _q = quiet();
    if props.is_empty() || props.contains(&active()) {
        violation(class, msg)
    }
    probe(&format!("deviation from another property: {class}"));
}
/// `deviation` for `props` unless `cond`. Without properties: for any.
#[macro_export]
macro_rules! ensure_for {
    ($props:expr, $cond:expr, $class:expr, $($x:tt)*) => {
        if !$cond {
            let _q = $crate::quiet();
            $crate::deviation($props, $class, &format!($($x)*));
        }
    };
}
/// Reports a violation of the property unless `cond`.
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($x:tt)*) => {
        if !$cond {
            let _q = $crate::quiet();
            $crate::violation($class, &format!($($x)*));
        }
    };
}

/// Shared by simulated threads; only the baton holder touches it.
pub struct SimCell<T>(std::cell::UnsafeCell<T>);
unsafe impl<T> Sync for SimCell<T> {}
unsafe impl<T> Send for SimCell<T> {}
impl<T> SimCell<T> {
    pub const fn new(t: T) -> Self {
        Self(std::cell::UnsafeCell::new(t))
    }
    /// `f` runs without preemption, and must not block.
    pub fn with<R>(&self, f: impl FnOnce(&mut T) -> R) -> R {
        let _q = quiet();
        f(unsafe { &mut *self.0.get() })
    }
}

pub struct Scenario {
    pub name: &'static str,
    /// How often it is picked, relative to the others of the property.
    pub weight: u32,
    pub run: fn(),
}
pub struct Prop {
    pub id: &'static str,
    pub scenarios: &'static [Scenario],
    pub quick_runs: u64,
    /// Used by the thorough tier, which otherwise runs until its time is up.
    pub thorough_runs: u64,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stubs: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

static mut CURRENT: Option<fn()> = None;
pub(crate) fn set_current(f: fn()) {
    unsafe { CURRENT = Some(f) }
}
pub(crate) fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".to_string()
    }
}
static LAST_PANIC: SimCell<String> = SimCell::new(String::new());
/// Message and place of the last panic of any simulated thread.
pub fn last_panic() -> String {
    LAST_PANIC.with(|s| s.clone())
}
pub(crate) extern "C" fn root() {
    std::panic::set_hook(Box::new(|info| {
        let _q = quiet();
        let place = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("{} at {}", panic_text(info.payload()), place);
        unsafe { ffi::rt_panic_msg(text.as_ptr(), text.len()) };
        LAST_PANIC.with(|s| *s = text);
    }));
    let f = unsafe { CURRENT.expect("no scenario") };
    if let Err(e) = std::panic::catch_unwind(f) {
        let _q = quiet();
        let _ = e;
        let m = last_panic();
        violation("panic", &m);
    }
}

/// Runs `f`, turning a panic into an error with its message.
pub fn catching<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| last_panic())
}

pub(crate) fn cstr(b: &[u8]) -> String {
    let n = b.iter().position(|&c| c == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).into_owned()
}
pub(crate) fn json_str(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
