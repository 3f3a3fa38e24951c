//! Allocator seam: inside a run, memory comes from an arena at a fixed address with seeded
//! placement, seeded fill, guard zones, poisoning on free and injectable failures.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub struct SimAlloc;

const BASE: usize = 0x5100_0000_0000;
const SIZE: usize = 192 << 20;
const HDR: usize = 32;
const TAIL: usize = 16;
const MAGIC_LIVE: u64 = 0x51AA_0BB1_51A1_1AE5;
const MAGIC_FREE: u64 = 0xDEAD_0BB1_51A1_F4EE;
const CANARY: u8 = 0xFB;

static ON: AtomicBool = AtomicBool::new(false);
static MISALIGN: AtomicBool = AtomicBool::new(false);
static READY: AtomicBool = AtomicBool::new(false);
static BUMP: AtomicUsize = AtomicUsize::new(BASE);
static LOCK: AtomicBool = AtomicBool::new(false);
static PLACE: AtomicU64 = AtomicU64::new(0);
static OOM_COUNTDOWN: AtomicU64 = AtomicU64::new(0);
static OOM_FIRED: AtomicBool = AtomicBool::new(false);
static OVERFLOWED: AtomicBool = AtomicBool::new(false);
static ALLOCS: AtomicU64 = AtomicU64::new(0);
static OOM_MINSIZE: AtomicUsize = AtomicUsize::new(0);

pub fn reserve() {
    if READY.load(Relaxed) {
        return;
    }
    unsafe {
        let p = libc::mmap(
            BASE as *mut _,
            SIZE,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE
                | libc::MAP_ANONYMOUS
                | libc::MAP_NORESERVE
                | libc::MAP_FIXED_NOREPLACE,
            -1,
            0,
        );
        if p as usize != BASE {
            eprintln!("dsim: cannot reserve the arena");
            std::process::exit(2);
        }
    }
    READY.store(true, Relaxed);
}

pub fn enable(place_seed: u64) {
    PLACE.store(place_seed, Relaxed);
    ON.store(true, Relaxed);
}
pub fn disable() {
    ON.store(false, Relaxed);
}

/// Byte allocations are placed without any alignment.
pub fn misalign(on: bool) {
    MISALIGN.store(on, Relaxed);
}

/// Let the `n`-th allocation from now (1-based) of at least `min_size` bytes fail once.
pub fn arm_oom(n: u64, min_size: usize) {
    OOM_FIRED.store(false, Relaxed);
    OOM_MINSIZE.store(min_size, Relaxed);
    OOM_COUNTDOWN.store(n, Relaxed);
}
/// Returns whether the armed failure has fired.
pub fn disarm_oom() -> bool {
    OOM_COUNTDOWN.store(0, Relaxed);
    crate::shared::sh().oom_open = 0;
    OOM_FIRED.swap(false, Relaxed)
}
pub fn oom_fired() -> bool {
    OOM_FIRED.load(Relaxed)
}
pub fn allocations() -> u64 {
    ALLOCS.load(Relaxed)
}

fn place_next() -> u64 {
    let mut x = PLACE.load(Relaxed);
    let r = crate::rng::splitmix(&mut x);
    PLACE.store(x, Relaxed);
    r
}

struct Guard;
fn lock() -> Guard {
    while LOCK.compare_exchange(false, true, Relaxed, Relaxed).is_err() {
        std::hint::spin_loop();
    }
    Guard
}
impl Drop for Guard {
    fn drop(&mut self) {
        LOCK.store(false, Relaxed)
    }
}

#[inline]
fn in_arena(p: *mut u8) -> bool {
    let a = p as usize;
    a >= BASE && a < BASE + SIZE
}

unsafe fn check_block(p: *mut u8, expect_live: bool) -> Result<usize, &'static str> {
    let h = (p as usize - HDR) as *const u64;
    let magic = h.read_unaligned();
    if magic == MAGIC_FREE && expect_live {
        return Err("double free");
    }
    if magic != MAGIC_LIVE && magic != MAGIC_FREE {
        return Err("allocation header overwritten (write before the start of a block)");
    }
    let size = h.add(1).read_unaligned() as usize;
    let chk = h.add(2).read_unaligned();
    if chk != (size as u64 ^ 0x5555_AAAA_1234_4321) {
        return Err("allocation header overwritten (write before the start of a block)");
    }
    for i in 0..TAIL {
        if *p.add(size + i) != CANARY {
            return Err("write past the end of an allocation");
        }
    }
    Ok(size)
}

/// Walk the arena and check every block, live or freed.
pub fn check_all() -> Result<usize, &'static str> {
    let _g = lock();
    let end = BUMP.load(Relaxed);
    let mut a = BASE;
    let mut n = 0;
    unsafe {
        while a < end {
            // every block is preceded by a link word: offset to user pointer and to next block
            let link = a as *const u32;
            let user = a + *link as usize;
            let next = a + *link.add(1) as usize;
            if *link.add(2) != 0x11AB_11AB || next <= a || next > end || user >= next {
                return Err("arena link overwritten (write past the end of an allocation)");
            }
            let size = check_block(user as *mut u8, false)?;
            let h = (user - HDR) as *const u64;
            if h.read_unaligned() == MAGIC_FREE {
                for i in 0..size.min(256) {
                    if *((user + i) as *const u8) != 0xDD {
                        return Err("write to freed memory");
                    }
                }
            }
            n += 1;
            a = next;
        }
    }
    Ok(n)
}

fn corrupt(what: &'static str) -> ! {
    ON.store(false, Relaxed);
    crate::violation("memory-error", what)
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ON.load(Relaxed) {
            return System.alloc(l);
        }
        ALLOCS.fetch_add(1, Relaxed);
        let cd = OOM_COUNTDOWN.load(Relaxed);
        if cd > 0 && !std::thread::panicking() && l.size() >= OOM_MINSIZE.load(Relaxed) {
            OOM_COUNTDOWN.store(cd - 1, Relaxed);
            if cd == 1 {
                OOM_FIRED.store(true, Relaxed);
                crate::shared::sh().oom_open = 1;
                return std::ptr::null_mut();
            }
        }
        if l.size() > (SIZE >> 1) {
            return System.alloc(l);
        }
        let r = place_next();
        let _g = lock();
        let base = BUMP.load(Relaxed);
        let align = l.align().max(16);
        // seeded gap: 0..=7 quanta of 16 bytes
        let gap = ((r & 7) * 16) as usize;
        let mut user = (base + 16 + HDR + gap + align - 1) & !(align - 1);
        if l.align() == 1 && MISALIGN.load(Relaxed) {
            // bytes get no more alignment than they ask for
            user += ((r >> 4) & 15) as usize;
        }
        let next = (user + l.size() + TAIL + 15) & !15;
        if next > BASE + SIZE {
            OVERFLOWED.store(true, Relaxed);
            return System.alloc(l);
        }
        BUMP.store(next, Relaxed);
        let link = base as *mut u32;
        *link = (user - base) as u32;
        *link.add(1) = (next - base) as u32;
        *link.add(2) = 0x11AB_11AB;
        let h = (user - HDR) as *mut u64;
        h.write_unaligned(MAGIC_LIVE);
        h.add(1).write_unaligned(l.size() as u64);
        h.add(2).write_unaligned(l.size() as u64 ^ 0x5555_AAAA_1234_4321);
        let fill = ((r >> 8) as u8) | 1;
        std::ptr::write_bytes(user as *mut u8, fill, l.size());
        std::ptr::write_bytes((user + l.size()) as *mut u8, CANARY, next - user - l.size());
        user as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if !in_arena(p) {
            return System.dealloc(p, l);
        }
        if !ON.load(Relaxed) {
            return;
        }
        match check_block(p, true) {
            Ok(size) => {
                if size != l.size() {
                    corrupt("deallocation with the wrong layout");
                }
                let h = (p as usize - HDR) as *mut u64;
                h.write_unaligned(MAGIC_FREE);
                std::ptr::write_bytes(p, 0xDD, size);
            }
            Err(e) => corrupt(e),
        }
    }
}
