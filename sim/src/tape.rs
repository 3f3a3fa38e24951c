//! Choice tapes. Every decision of a run is one entry of one of four streams; in search mode an
//! entry comes from the run's PRNG and is recorded, in replay mode it comes from the tape (and is 0
//! once the tape is exhausted).

use crate::rng::Rng;
use crate::shared::{sh, STREAMS, TAPE_CAP};

pub const WORK: usize = 0;
pub const SCHED: usize = 1;
pub const FAULT: usize = 2;
pub const ENV: usize = 3;

static mut RNGS: [Rng; STREAMS] = [Rng::zero(); STREAMS];

pub fn seed_streams(seed: u64) {
    for i in 0..STREAMS {
        unsafe {
            RNGS[i] = Rng::new(crate::rng::mix(seed, 0x7A9E_0000 + i as u64));
        }
    }
}

#[allow(static_mut_refs)]
pub fn draw_with(stream: usize, gen: impl FnOnce(&mut Rng) -> u64) -> u64 {
    let s = sh();
    let replay = s.replay != 0;
    let t = &mut s.tapes[stream];
    if replay {
        let v = if t.pos < t.len { t.data[t.pos] } else { 0 };
        t.pos += 1;
        v
    } else {
        let v = gen(unsafe { &mut RNGS[stream] });
        if t.pos < TAPE_CAP {
            t.data[t.pos] = v;
            t.len = t.pos + 1;
        }
        t.pos += 1;
        v
    }
}

/// A value in `0..n`
pub fn draw(stream: usize, n: u64) -> u64 {
    if n <= 1 {
        return 0;
    }
    let v = draw_with(stream, |r| r.below(n));
    v % n
}

/// True with probability `num / den`; the tape's 0 means false.
pub fn chance(stream: usize, num: u64, den: u64) -> bool {
    if num == 0 {
        return false;
    }
    draw(stream, den) >= den - num.min(den)
}

pub fn work(n: usize) -> usize {
    draw(WORK, n as u64) as usize
}
pub fn work_in(lo: usize, hi: usize) -> usize {
    lo + work(hi - lo + 1)
}
pub fn fault(n: usize) -> usize {
    draw(FAULT, n as u64) as usize
}
pub fn env(n: usize) -> usize {
    draw(ENV, n as u64) as usize
}
/// raw 64 random bits on the work stream
pub fn bits() -> u64 {
    draw_with(WORK, |r| r.next())
}
/// Loop control: continues with probability `(avg-1)/avg`, stops on an exhausted tape.
pub fn more(avg: usize) -> bool {
    draw(WORK, avg as u64) != 0
}
pub fn pick<'a, T>(xs: &'a [T]) -> &'a T {
    &xs[work(xs.len())]
}
