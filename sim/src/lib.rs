//! dsim: a deterministic simulator for library code. See /verif/DESIGN.md.

pub mod alloc;
pub mod fs;
pub mod rng;
pub mod runner;
pub mod sched;
pub mod shared;
pub mod tape;

pub use shared::{count_n, log_args, sh};
pub use tape::*;

use std::fmt::Write as _;

#[macro_export]
macro_rules! ev {
    ($($t:tt)*) => { $crate::log_args(format_args!($($t)*)) };
}

/// Report a violation of the property under test and end the run.
#[macro_export]
macro_rules! violate {
    ($class:expr, $($t:tt)*) => { $crate::violation_args($class, format_args!($($t)*)) };
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($t:tt)*) => { if !($cond) { $crate::violation_args($class, format_args!($($t)*)) } };
}

pub fn violation(class: &str, msg: &str) -> ! {
    violation_args(class, format_args!("{}", msg))
}

pub fn violation_args(class: &str, args: std::fmt::Arguments) -> ! {
    let s = sh();
    let c = class.as_bytes();
    let n = c.len().min(shared::CLASS_CAP);
    s.class[..n].copy_from_slice(&c[..n]);
    s.class_len = n;
    let mut w = shared::FixedWriter {
        buf: &mut s.msg,
        len: 0,
    };
    let _ = w.write_fmt(args);
    s.msg_len = w.len;
    log_args(format_args!("!! {}: {}", class, args));
    sched::publish_stats();
    s.status = shared::ST_VIOLATION;
    unsafe { libc::_exit(0) }
}

/// End the run without a verdict (the generated case is not usable).
pub fn discard() -> ! {
    sh().status = shared::ST_DISCARD;
    unsafe { libc::_exit(0) }
}

/// Count an event (`fault.*`, `probe.*`, `op.*`).
pub fn count(name: &str) {
    count_n(name, 1)
}

/// Fold a value into the signature that tells distinct runs apart.
pub fn sig(x: u64) {
    let s = sh();
    let mut h = s.sig;
    for i in 0..8 {
        h ^= (x >> (8 * i)) & 0xff;
        h = h.wrapping_mul(0x1000_0000_01b3);
    }
    s.sig = h;
}
pub fn sig_str(x: &str) {
    sig(rng::fnv(x.as_bytes()))
}

/// Mark the run as non-trivial for the evidence.
pub fn nontrivial() {
    sh().nontrivial = 1;
}

static mut PANIC_MSG: [u8; 300] = [0; 300];
static mut PANIC_LEN: usize = 0;

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        #[allow(static_mut_refs)]
        let mut w = shared::FixedWriter {
            buf: unsafe { &mut PANIC_MSG },
            len: 0,
        };
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.as_str()
        } else {
            "<non-string payload>"
        };
        let loc = info.location();
        let _ = write!(
            w,
            "{} ({}:{})",
            &msg[..msg.char_indices().nth(160).map(|x| x.0).unwrap_or(msg.len())],
            loc.map(|l| l.file()).unwrap_or("?"),
            loc.map(|l| l.line()).unwrap_or(0)
        );
        unsafe { PANIC_LEN = w.len }
    }));
}

pub fn last_panic() -> &'static str {
    #[allow(static_mut_refs)]
    unsafe {
        std::str::from_utf8(&PANIC_MSG[..PANIC_LEN]).unwrap_or("?")
    }
}

/// Payload of panics that the simulator injects into user callbacks.
pub struct Injected;

/// Panic on purpose inside a user-supplied callback.
pub fn inject_panic() -> ! {
    count_n("fault.callback_panic", 1);
    std::panic::resume_unwind(Box::new(Injected))
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Stopped {
    Injected,
    Panic,
}

/// Run `f`, turning any panic into a value.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, Stopped> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            let r = if p.is::<Injected>() {
                Stopped::Injected
            } else {
                Stopped::Panic
            };
            std::mem::forget(p);
            Err(r)
        }
    }
}

/// Run `f`, which must not panic.
pub fn must<T>(what: &str, f: impl FnOnce() -> T) -> T {
    match catch(f) {
        Ok(v) => v,
        Err(_) => violation_args(
            &format!("unexpected-panic/{}", what),
            format_args!("{} panicked: {}", what, last_panic()),
        ),
    }
}

/// Run `f`, which must be rejected by a panic.
pub fn must_reject<T>(what: &str, f: impl FnOnce() -> T) {
    if catch(f).is_ok() {
        violation_args(
            &format!("not-rejected/{}", what),
            format_args!("{} was accepted but must be rejected", what),
        )
    }
}
