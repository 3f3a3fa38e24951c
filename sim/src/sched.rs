//! Thread scheduler and libc seams. Real threads, one runs at a time; who runs next is decided by
//! the SCHED tape at every synchronisation operation, yield, thread start/exit and, in
//! instrumented code, at any basic block or memory access.

use crate::shared::{count_n, sh};
use crate::tape::{draw, draw_with, ENV, FAULT, SCHED};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};

pub const MAXT: usize = 256;

const FREE: u32 = 0;
const RUNNABLE: u32 = 1;
const FUTEX: u32 = 2;
const JOIN: u32 = 3;
const SLEEP: u32 = 4;
const DONE: u32 = 5;

struct Slot {
    state: AtomicU32,
    /// baton word: 1 = may run
    word: AtomicU32,
    addr: AtomicUsize,
    deadline: AtomicU64,
    timed_out: AtomicBool,
    pthread: AtomicUsize,
    prio: AtomicU64,
}

#[allow(clippy::declare_interior_mutable_const)]
const SLOT0: Slot = Slot {
    state: AtomicU32::new(FREE),
    word: AtomicU32::new(0),
    addr: AtomicUsize::new(0),
    deadline: AtomicU64::new(u64::MAX),
    timed_out: AtomicBool::new(false),
    pthread: AtomicUsize::new(0),
    prio: AtomicU64::new(0),
};
static SLOTS: [Slot; MAXT] = [SLOT0; MAXT];
static ACTIVE: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static NSLOTS: AtomicUsize = AtomicUsize::new(0);
static COUNTDOWN: AtomicU64 = AtomicU64::new(0);
static STEPS: AtomicU64 = AtomicU64::new(0);
static STEP_LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
static NOW: AtomicU64 = AtomicU64::new(0);
static START_NOW: AtomicU64 = AtomicU64::new(0);
static POLICY_PCT: AtomicBool = AtomicBool::new(false);
static GAPBITS: AtomicU64 = AtomicU64::new(8);
static SPURIOUS: AtomicU64 = AtomicU64::new(0);
static CREATE_FAIL: AtomicBool = AtomicBool::new(false);
static EXIT_KEY: AtomicU32 = AtomicU32::new(u32::MAX);
static mut ENTROPY: crate::rng::Rng = crate::rng::Rng::zero();
static NO_PREEMPT: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}

#[inline]
fn me() -> usize {
    ME.with(|m| m.get())
}

// ------------------------------------------------------------------ raw system calls

#[inline]
pub unsafe fn raw_syscall(n: i64, a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}

fn baton_wait(w: &AtomicU32) {
    let mut spins = 0;
    while w.load(Acquire) == 0 {
        spins += 1;
        if spins < 20 {
            std::hint::spin_loop();
            continue;
        }
        unsafe {
            raw_syscall(
                libc::SYS_futex,
                w as *const _ as u64,
                (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as u64,
                0,
                0,
                0,
                0,
            );
        }
    }
    w.store(0, Relaxed);
}
fn baton_give(w: &AtomicU32) {
    w.store(1, Release);
    unsafe {
        raw_syscall(
            libc::SYS_futex,
            w as *const _ as u64,
            (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as u64,
            1,
            0,
            0,
            0,
        );
    }
}

// ------------------------------------------------------------------ lifecycle

extern "C" fn exit_dtor(v: *mut libc::c_void) {
    // Called in rounds after all other thread-local destructors; hand the baton on only in the
    // last round, so that destructors still run under the scheduler.
    let round = v as usize;
    let key = EXIT_KEY.load(Relaxed);
    if round < 4 {
        unsafe {
            libc::pthread_setspecific(key, (round + 1) as *const _);
        }
        return;
    }
    let i = me();
    if i == usize::MAX || !ACTIVE.load(Relaxed) {
        return;
    }
    SLOTS[i].state.store(DONE, Relaxed);
    LIVE.fetch_sub(1, Relaxed);
    note_switch(0xE0 + i as u64);
    let target = SLOTS[i].pthread.load(Relaxed);
    for s in SLOTS.iter().take(NSLOTS.load(Relaxed)) {
        if s.state.load(Relaxed) == JOIN && s.addr.load(Relaxed) == target {
            s.state.store(RUNNABLE, Relaxed);
        }
    }
    ME.with(|m| m.set(usize::MAX));
    let next = choose_next(usize::MAX);
    baton_give(&SLOTS[next].word);
}

pub struct Params {
    pub step_limit: u64,
}

/// Put the calling thread under the scheduler as thread 0.
pub fn start(p: Params) {
    // environment choices of the run
    let pct = draw(ENV, 3) == 2;
    POLICY_PCT.store(pct, Relaxed);
    GAPBITS.store(2 + draw(ENV, 14), Relaxed);
    SPURIOUS.store(if draw(ENV, 4) == 3 { 1 } else { 0 }, Relaxed);
    let eseed = draw(ENV, 1 << 32);
    unsafe {
        ENTROPY = crate::rng::Rng::new(eseed);
    }
    NOW.store(1_600_000_000_000_000_000 + draw(ENV, 1 << 20) * 1_000_003, Relaxed);
    START_NOW.store(NOW.load(Relaxed), Relaxed);
    STEP_LIMIT.store(p.step_limit, Relaxed);
    STEPS.store(0, Relaxed);
    if EXIT_KEY.load(Relaxed) == u32::MAX {
        let mut key = 0;
        unsafe {
            libc::pthread_key_create(&mut key, Some(exit_dtor));
        }
        EXIT_KEY.store(key, Relaxed);
    }
    ME.with(|m| m.set(0));
    SLOTS[0].state.store(RUNNABLE, Relaxed);
    SLOTS[0]
        .pthread
        .store(unsafe { libc::pthread_self() } as usize, Relaxed);
    SLOTS[0].prio.store(1 << 20, Relaxed);
    NSLOTS.store(1, Relaxed);
    LIVE.store(1, Relaxed);
    next_gap();
    ACTIVE.store(true, Relaxed);
}

pub fn stop() {
    ACTIVE.store(false, Relaxed);
    sh().steps = STEPS.load(Relaxed);
    sh().sim_ns = NOW.load(Relaxed) - START_NOW.load(Relaxed);
}

pub fn publish_stats() {
    if crate::shared::has_shared() {
        sh().steps = STEPS.load(Relaxed);
    }
}

pub fn threads_created() -> usize {
    NSLOTS.load(Relaxed)
}

pub fn steps() -> u64 {
    STEPS.load(Relaxed)
}

pub fn fail_thread_creation(on: bool) {
    CREATE_FAIL.store(on, Relaxed);
}

fn next_gap() {
    let bits = GAPBITS.load(Relaxed);
    // 0 on the tape: no further preemption
    let v = draw_with(SCHED, |r| {
        let b = r.below(bits + 1);
        1 + r.below(1 << b)
    });
    COUNTDOWN.store(if v == 0 { u64::MAX } else { v }, Relaxed);
}

fn note_switch(x: u64) {
    let s = sh();
    s.sched_sig = (s.sched_sig ^ x).wrapping_mul(0x1000_0000_01b3);
}

fn choose_next(current: usize) -> usize {
    loop {
        let n = NSLOTS.load(Relaxed);
        let mut cand = [0usize; MAXT];
        let mut k = 0;
        // the current thread first: tape value 0 means "do not switch"
        if current != usize::MAX && SLOTS[current].state.load(Relaxed) == RUNNABLE {
            cand[k] = current;
            k += 1;
        }
        for i in 0..n {
            if i != current && SLOTS[i].state.load(Relaxed) == RUNNABLE {
                cand[k] = i;
                k += 1;
            }
        }
        if k > 0 {
            if POLICY_PCT.load(Relaxed) {
                let mut best = cand[0];
                for &c in &cand[1..k] {
                    if SLOTS[c].prio.load(Relaxed) > SLOTS[best].prio.load(Relaxed) {
                        best = c;
                    }
                }
                return best;
            }
            return cand[draw(SCHED, k as u64) as usize];
        }
        // nobody can run: jump the clock to the next deadline
        let mut best = usize::MAX;
        for i in 0..n {
            let st = SLOTS[i].state.load(Relaxed);
            if (st == FUTEX || st == SLEEP)
                && SLOTS[i].deadline.load(Relaxed) != u64::MAX
                && (best == usize::MAX
                    || SLOTS[i].deadline.load(Relaxed) < SLOTS[best].deadline.load(Relaxed))
            {
                best = i;
            }
        }
        if best == usize::MAX {
            crate::violation(
                "deadlock",
                "every thread is blocked and no timer is pending",
            );
        }
        let d = SLOTS[best].deadline.load(Relaxed);
        if d > NOW.load(Relaxed) {
            NOW.store(d, Relaxed);
            count_n("sim.clock_jumps", 1);
        }
        SLOTS[best].timed_out.store(true, Relaxed);
        SLOTS[best].state.store(RUNNABLE, Relaxed);
    }
}

/// Give up the baton (the caller's slot state says whether it can run again).
fn switch(i: usize) {
    let next = choose_next(i);
    if next != i {
        sh().switches += 1;
        note_switch(((next as u64) << 32) ^ STEPS.load(Relaxed));
        baton_give(&SLOTS[next].word);
        baton_wait(&SLOTS[i].word);
    }
}

fn lower_prio(i: usize) {
    if POLICY_PCT.load(Relaxed) {
        let mut low = u64::MAX;
        for s in SLOTS.iter().take(NSLOTS.load(Relaxed)) {
            low = low.min(s.prio.load(Relaxed));
        }
        SLOTS[i].prio.store(low.saturating_sub(1), Relaxed);
    }
}

/// A scheduling point of the current thread.
#[inline(never)]
fn preempt(i: usize) {
    if NO_PREEMPT.load(Relaxed) != 0 {
        COUNTDOWN.store(1, Relaxed);
        return;
    }
    next_gap();
    lower_prio(i);
    switch(i);
}

pub fn no_preempt<T>(f: impl FnOnce() -> T) -> T {
    NO_PREEMPT.fetch_add(1, Relaxed);
    let r = f();
    NO_PREEMPT.fetch_sub(1, Relaxed);
    r
}

#[inline]
fn point() {
    if !ACTIVE.load(Relaxed) {
        return;
    }
    let i = me();
    if i == usize::MAX {
        return;
    }
    let st = STEPS.load(Relaxed) + 1;
    STEPS.store(st, Relaxed);
    if st > STEP_LIMIT.load(Relaxed) {
        STEP_LIMIT.store(u64::MAX, Relaxed);
        crate::violation("hang", "the run did not finish within its step budget");
    }
    if LIVE.load(Relaxed) > 1 {
        let c = COUNTDOWN.load(Relaxed) - 1;
        COUNTDOWN.store(c, Relaxed);
        if c == 0 {
            COUNTDOWN.store(u64::MAX, Relaxed);
            preempt(i);
        }
    }
}

/// Scheduling point at a synchronisation operation: more likely to switch.
fn sync_point(i: usize) {
    point();
    if LIVE.load(Relaxed) > 1 && NO_PREEMPT.load(Relaxed) == 0 && draw(SCHED, 4) == 3 {
        lower_prio(i);
        switch(i);
    }
}

fn registered() -> Option<usize> {
    if !ACTIVE.load(Relaxed) {
        return None;
    }
    let i = me();
    if i == usize::MAX {
        None
    } else {
        Some(i)
    }
}

// ------------------------------------------------------------------ coverage callbacks

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    if crate::shared::has_shared() {
        let id = *guard as usize;
        if id < crate::shared::COV_CAP {
            sh().cov[id] = 1;
        }
    }
    point();
}
static GUARDS: AtomicU32 = AtomicU32::new(0);
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        *p = GUARDS.fetch_add(1, Relaxed) + 1;
        p = p.add(1);
    }
}
pub fn guards() -> u32 {
    GUARDS.load(Relaxed)
}
macro_rules! mem_cb {
    ($($n:ident),*) => { $(#[no_mangle] pub unsafe extern "C" fn $n(_a: *const u8) { point(); })* };
}
mem_cb!(
    __sanitizer_cov_load1,
    __sanitizer_cov_load2,
    __sanitizer_cov_load4,
    __sanitizer_cov_load8,
    __sanitizer_cov_load16,
    __sanitizer_cov_store1,
    __sanitizer_cov_store2,
    __sanitizer_cov_store4,
    __sanitizer_cov_store8,
    __sanitizer_cov_store16
);

// ------------------------------------------------------------------ libc seams

unsafe fn real(name: &'static [u8]) -> *mut libc::c_void {
    libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const _)
}

unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}

unsafe fn fold(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        set_errno((-r) as i32);
        -1
    } else {
        r
    }
}

static ENTROPY_FAIL: AtomicU64 = AtomicU64::new(0);
static ENTROPY_ERRNO: AtomicU64 = AtomicU64::new(0);

/// Let the next `n` requests for entropy fail with `errno`.
pub fn fail_entropy(n: u64, errno: i32) {
    ENTROPY_ERRNO.store(errno as u64, Relaxed);
    ENTROPY_FAIL.store(n, Relaxed);
}
/// Failures that have not been delivered yet.
pub fn entropy_failures_left() -> u64 {
    ENTROPY_FAIL.load(Relaxed)
}
unsafe fn entropy_fault() -> bool {
    let n = ENTROPY_FAIL.load(Relaxed);
    if n == 0 {
        return false;
    }
    ENTROPY_FAIL.store(n - 1, Relaxed);
    let e = ENTROPY_ERRNO.load(Relaxed) as i32;
    count_n(if e == libc::EINTR { "fault.entropy_interrupted" } else { "fault.entropy_unavailable" }, 1);
    *libc::__errno_location() = e;
    true
}

unsafe fn fill_entropy(buf: *mut u8, len: usize) {
    #[allow(static_mut_refs)]
    for i in 0..len {
        *buf.add(i) = ENTROPY.next() as u8;
    }
    count_n("seam.getrandom", 1);
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if registered().is_some() {
        if entropy_fault() {
            return -1;
        }
        fill_entropy(buf, len);
        return len as isize;
    }
    fold(raw_syscall(
        libc::SYS_getrandom,
        buf as u64,
        len as u64,
        flags as u64,
        0,
        0,
        0,
    )) as isize
}

#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: i64,
    a: u64,
    b: u64,
    c: u64,
    d: u64,
    e: u64,
    f: u64,
) -> i64 {
    if let Some(i) = registered() {
        if n == libc::SYS_futex {
            return futex(i, a, b as i32, c as u32, d as *const libc::timespec);
        }
        if n == libc::SYS_getrandom {
            if entropy_fault() {
                return -1;
            }
            fill_entropy(a as *mut u8, b as usize);
            return b as i64;
        }
    }
    fold(raw_syscall(n, a, b, c, d, e, f))
}

unsafe fn futex(i: usize, addr: u64, op: i32, val: u32, ts: *const libc::timespec) -> i64 {
    let cmd = op & 0x7f;
    match cmd {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            sync_point(i);
            let cur = (*(addr as *const AtomicU32)).load(SeqCst);
            if cur != val {
                set_errno(libc::EAGAIN);
                return -1;
            }
            if SPURIOUS.load(Relaxed) != 0 && draw(FAULT, 8) == 7 {
                count_n("fault.spurious_futex_wakeup", 1);
                set_errno(libc::EINTR);
                return -1;
            }
            let deadline = if ts.is_null() {
                u64::MAX
            } else {
                let t = (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64;
                if cmd == libc::FUTEX_WAIT {
                    NOW.load(Relaxed) + t
                } else {
                    t
                }
            };
            let s = &SLOTS[i];
            s.addr.store(addr as usize, Relaxed);
            s.deadline.store(deadline, Relaxed);
            s.timed_out.store(false, Relaxed);
            s.state.store(FUTEX, Relaxed);
            switch(i);
            s.deadline.store(u64::MAX, Relaxed);
            if s.timed_out.swap(false, Relaxed) {
                set_errno(libc::ETIMEDOUT);
                return -1;
            }
            0
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let mut woken = 0i64;
            while woken < val as i64 {
                let n = NSLOTS.load(Relaxed);
                let mut w = [0usize; MAXT];
                let mut k = 0;
                for j in 0..n {
                    if SLOTS[j].state.load(Relaxed) == FUTEX
                        && SLOTS[j].addr.load(Relaxed) == addr as usize
                    {
                        w[k] = j;
                        k += 1;
                    }
                }
                if k == 0 {
                    break;
                }
                let j = w[draw(SCHED, k as u64) as usize];
                SLOTS[j].state.store(RUNNABLE, Relaxed);
                woken += 1;
            }
            sync_point(i);
            woken
        }
        _ => fold(raw_syscall(
            libc::SYS_futex,
            addr,
            op as u64,
            val as u64,
            ts as u64,
            0,
            0,
        )),
    }
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if let Some(i) = registered() {
        point();
        if LIVE.load(Relaxed) > 1 && NO_PREEMPT.load(Relaxed) == 0 {
            NOW.fetch_add(1000, Relaxed);
            lower_prio(i);
            switch(i);
        }
        return 0;
    }
    raw_syscall(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as i32
}

unsafe fn sim_sleep(i: usize, ns: u64) {
    let s = &SLOTS[i];
    s.deadline.store(NOW.load(Relaxed).saturating_add(ns), Relaxed);
    s.timed_out.store(false, Relaxed);
    s.state.store(SLEEP, Relaxed);
    count_n("seam.sleep", 1);
    switch(i);
    s.deadline.store(u64::MAX, Relaxed);
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if let Some(i) = registered() {
        sim_sleep(i, (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64);
        return 0;
    }
    fold(raw_syscall(libc::SYS_nanosleep, req as u64, rem as u64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clk: i32,
    flags: i32,
    req: *const libc::timespec,
    rem: *mut libc::timespec,
) -> i32 {
    if let Some(i) = registered() {
        let t = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        let ns = if flags & libc::TIMER_ABSTIME != 0 {
            t.saturating_sub(NOW.load(Relaxed))
        } else {
            t
        };
        sim_sleep(i, ns);
        return 0;
    }
    -(raw_syscall(
        libc::SYS_clock_nanosleep,
        clk as u64,
        flags as u64,
        req as u64,
        rem as u64,
        0,
        0,
    ) as i32)
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut libc::timespec) -> i32 {
    if registered().is_some() && (clk == libc::CLOCK_MONOTONIC || clk == libc::CLOCK_REALTIME) {
        let t = NOW.fetch_add(1000, Relaxed) + 1000;
        (*ts).tv_sec = (t / 1_000_000_000) as i64;
        (*ts).tv_nsec = (t % 1_000_000_000) as i64;
        count_n("seam.clock", 1);
        return 0;
    }
    fold(raw_syscall(libc::SYS_clock_gettime, clk as u64, ts as u64, 0, 0, 0, 0)) as i32
}

struct Pack {
    f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
    slot: usize,
}

extern "C" fn trampoline(p: *mut libc::c_void) -> *mut libc::c_void {
    let pack = unsafe { std::ptr::read(p as *mut Pack) };
    let i = pack.slot;
    baton_wait(&SLOTS[i].word);
    ME.with(|m| m.set(i));
    unsafe {
        libc::free(p);
        libc::pthread_setspecific(EXIT_KEY.load(Relaxed), 1 as *const _);
    }
    (pack.f)(pack.arg)
}

type CreateFn = unsafe extern "C" fn(
    *mut libc::pthread_t,
    *const libc::pthread_attr_t,
    extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    *mut libc::c_void,
) -> i32;

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
) -> i32 {
    let real_create: CreateFn = std::mem::transmute(real(b"pthread_create\0"));
    let Some(i) = registered() else {
        return real_create(t, attr, f, arg);
    };
    if CREATE_FAIL.load(Relaxed) && draw(FAULT, 4) == 3 {
        count_n("fault.thread_creation", 1);
        return libc::EAGAIN;
    }
    let slot = NSLOTS.load(Relaxed);
    if slot >= MAXT {
        return libc::EAGAIN;
    }
    let p = libc::malloc(std::mem::size_of::<Pack>()) as *mut Pack;
    std::ptr::write(p, Pack { f, arg, slot });
    SLOTS[slot].word.store(0, Relaxed);
    let prio = if POLICY_PCT.load(Relaxed) { draw(SCHED, 1 << 20) + (1 << 19) } else { 0 };
    SLOTS[slot].prio.store(prio, Relaxed);
    let r = real_create(t, attr, trampoline, p as *mut _);
    if r != 0 {
        return r;
    }
    SLOTS[slot].pthread.store(*t as usize, Relaxed);
    SLOTS[slot].state.store(RUNNABLE, Relaxed);
    NSLOTS.store(slot + 1, Relaxed);
    LIVE.fetch_add(1, Relaxed);
    count_n("sim.threads", 1);
    sync_point(i);
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, ret: *mut *mut libc::c_void) -> i32 {
    type JoinFn = unsafe extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> i32;
    let real_join: JoinFn = std::mem::transmute(real(b"pthread_join\0"));
    if let Some(i) = registered() {
        sync_point(i);
        let n = NSLOTS.load(Relaxed);
        for j in 0..n {
            if SLOTS[j].pthread.load(Relaxed) == t as usize
                && SLOTS[j].state.load(Relaxed) != DONE
            {
                SLOTS[i].addr.store(t as usize, Relaxed);
                SLOTS[i].deadline.store(u64::MAX, Relaxed);
                SLOTS[i].state.store(JOIN, Relaxed);
                switch(i);
                break;
            }
        }
    }
    real_join(t, ret)
}
