//! Memory shared between a worker and the runs (child processes) it forks: the choice tapes, the
//! outcome, the event log and the counters survive any way a run can end.

use std::fmt::Write as _;

pub const STREAMS: usize = 4;
pub const TAPE_CAP: usize = 1 << 15;
pub const LOG_CAP: usize = 1 << 18;
pub const MSG_CAP: usize = 4096;
pub const CLASS_CAP: usize = 160;
pub const COUNTERS: usize = 384;
pub const NAME_CAP: usize = 56;
pub const COV_CAP: usize = 1 << 18;

pub const ST_RUNNING: u32 = 0;
pub const ST_OK: u32 = 1;
pub const ST_VIOLATION: u32 = 2;
pub const ST_DISCARD: u32 = 3;

#[repr(C)]
pub struct TapeMem {
    pub len: usize,
    pub pos: usize,
    pub data: [u64; TAPE_CAP],
}

#[repr(C)]
pub struct Counter {
    pub name_len: usize,
    pub name: [u8; NAME_CAP],
    pub value: u64,
}

#[repr(C)]
pub struct Shared {
    // ---- reset before every run
    pub status: u32,
    pub nontrivial: u32,
    pub class_len: usize,
    pub class: [u8; CLASS_CAP],
    pub msg_len: usize,
    pub msg: [u8; MSG_CAP],
    pub log_len: usize,
    pub log_on: u32,
    pub log: [u8; LOG_CAP],
    pub replay: u32,
    pub tapes: [TapeMem; STREAMS],
    pub steps: u64,
    pub switches: u64,
    pub sim_ns: u64,
    pub sig: u64,
    pub sched_sig: u64,
    pub loghash: u64,
    pub known_hits: u64,
    /// an injected allocation failure is being handled
    pub oom_open: u32,
    // ---- accumulated over the runs of a worker
    pub counters: [Counter; COUNTERS],
    pub cov: [u8; COV_CAP],
}

static mut SHARED: *mut Shared = std::ptr::null_mut();

#[allow(static_mut_refs)]
pub fn sh() -> &'static mut Shared {
    unsafe {
        debug_assert!(!SHARED.is_null());
        &mut *SHARED
    }
}

pub fn has_shared() -> bool {
    unsafe { !SHARED.is_null() }
}

pub fn alloc_shared() -> *mut Shared {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p as *mut Shared
    }
}

pub fn set_shared(p: *mut Shared) {
    unsafe { SHARED = p }
}

impl Shared {
    pub fn reset_run(&mut self) {
        self.status = ST_RUNNING;
        self.nontrivial = 0;
        self.class_len = 0;
        self.msg_len = 0;
        self.log_len = 0;
        self.steps = 0;
        self.switches = 0;
        self.sim_ns = 0;
        self.sig = 0xcbf2_9ce4_8422_2325;
        self.sched_sig = 0xcbf2_9ce4_8422_2325;
        self.loghash = 0xcbf2_9ce4_8422_2325;
        self.known_hits = 0;
        self.oom_open = 0;
        for t in self.tapes.iter_mut() {
            t.pos = 0;
        }
    }
    pub fn class_str(&self) -> String {
        String::from_utf8_lossy(&self.class[..self.class_len]).into_owned()
    }
    pub fn msg_str(&self) -> String {
        String::from_utf8_lossy(&self.msg[..self.msg_len]).into_owned()
    }
    pub fn log_str(&self) -> String {
        String::from_utf8_lossy(&self.log[..self.log_len]).into_owned()
    }
    pub fn tape_vecs(&self) -> Vec<Vec<u64>> {
        self.tapes
            .iter()
            .map(|t| t.data[..t.len.min(TAPE_CAP)].to_vec())
            .collect()
    }
}

pub struct FixedWriter<'a> {
    pub buf: &'a mut [u8],
    pub len: usize,
}
impl<'a> std::fmt::Write for FixedWriter<'a> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let b = s.as_bytes();
        let n = b.len().min(self.buf.len() - self.len);
        self.buf[self.len..self.len + n].copy_from_slice(&b[..n]);
        self.len += n;
        Ok(())
    }
}

/// Append a line to the event log. Never draws from the tapes, never allocates.
pub fn log_args(args: std::fmt::Arguments) {
    let s = sh();
    if s.log_on == 0 {
        return;
    }
    let start = s.log_len;
    let mut w = FixedWriter {
        buf: &mut s.log,
        len: start,
    };
    let _ = w.write_fmt(args);
    let _ = w.write_str("\n");
    let end = w.len;
    s.log_len = end;
    let mut h = s.loghash;
    for b in &s.log[start..end] {
        h ^= *b as u64;
        h = h.wrapping_mul(0x1000_0000_01b3);
    }
    s.loghash = h;
}

pub fn count_n(name: &str, n: u64) {
    let s = sh();
    let nb = &name.as_bytes()[..name.len().min(NAME_CAP)];
    for c in s.counters.iter_mut() {
        if c.name_len == 0 {
            c.name[..nb.len()].copy_from_slice(nb);
            c.name_len = nb.len();
            c.value = n;
            return;
        }
        if &c.name[..c.name_len] == nb {
            c.value += n;
            return;
        }
    }
}
