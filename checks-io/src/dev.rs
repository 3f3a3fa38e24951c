//! The simulated storage device behind every reader and writer: a byte array with a position, whose
//! every operation may be split, interrupted, refused or lost as the seed decides.

use dsim::{count, ev, violate};
use std::io::{self, BufRead, BufReader, BufWriter, Read, Seek, SeekFrom, Write};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Hard {
    ReadErr,
    ReadZero,
    WriteErr,
    WriteZero,
    FlushErr,
    SeekErr,
    /// no more room: nothing beyond this length is stored
    Full(u64),
}

#[derive(Clone, Copy, Debug)]
struct Armed {
    kind: Hard,
    after: u64,
    times: u64,
}

struct State {
    image: Vec<u8>,
    durable: Vec<u8>,
    pos: u64,
    short: u64,
    eintr: u64,
    armed: Vec<Armed>,
    hard: u64,
    ops: u64,
    written: u64,
    seeks: u64,
    op_limit: u64,
    /// decisions left before the device stops splitting and interrupting
    soft_left: u64,
    /// writes left until the content is recorded as what a crash at this moment would leave
    crash_after: Option<u64>,
    crash: Option<Vec<u8>>,
}

#[derive(Clone)]
pub struct Dev(Arc<Mutex<State>>);

impl Dev {
    pub fn new(data: Vec<u8>) -> Dev {
        Dev(Arc::new(Mutex::new(State {
            durable: data.clone(),
            image: data,
            pos: 0,
            short: 0,
            eintr: 0,
            armed: vec![],
            hard: 0,
            ops: 0,
            written: 0,
            seeks: 0,
            op_limit: 10_000_000,
            soft_left: 5_000,
            crash_after: None,
            crash: None,
        })))
    }
    fn st<T>(&self, f: impl FnOnce(&mut State) -> T) -> T {
        dsim::sched::no_preempt(|| f(&mut self.0.lock().unwrap()))
    }
    /// Let the seed decide how transfers are split and interrupted.
    pub fn choose_soft(&self) {
        let short = [0, 0, 8, 128, 224, 256][dsim::fault(6)];
        let eintr = [0, 0, 4, 64, 128][dsim::fault(5)];
        ev!("device splits {}/256 and interrupts {}/256 of the transfers", short, eintr);
        self.st(|s| {
            s.short = short;
            s.eintr = eintr;
        })
    }
    pub fn calm(&self) {
        self.st(|s| {
            s.short = 0;
            s.eintr = 0;
            s.armed.clear();
        })
    }
    pub fn arm(&self, kind: Hard, after: u64, times: u64) {
        ev!("device: {:?} after {} operations, {} times", kind, after, times);
        self.st(|s| s.armed.push(Armed { kind, after, times }))
    }
    pub fn disarm(&self) {
        self.st(|s| s.armed.clear())
    }
    pub fn armed(&self) -> bool {
        self.st(|s| !s.armed.is_empty())
    }
    /// Number of errors the device has reported so far.
    pub fn hard(&self) -> u64 {
        self.st(|s| s.hard)
    }
    pub fn ops(&self) -> u64 {
        self.st(|s| s.ops)
    }
    pub fn image(&self) -> Vec<u8> {
        self.st(|s| s.image.clone())
    }
    pub fn durable(&self) -> Vec<u8> {
        self.st(|s| s.durable.clone())
    }
    pub fn pos(&self) -> u64 {
        self.st(|s| s.pos)
    }
    pub fn set_pos(&self, p: u64) {
        self.st(|s| s.pos = p)
    }
    pub fn truncate(&self) {
        self.st(|s| {
            s.image.clear();
            crash_point(s);
        })
    }
    pub fn set_size(&self, n: usize) {
        self.st(|s| {
            s.image.resize(n, 0);
            crash_point(s);
        })
    }
    /// Record the content after `n` more changes.
    pub fn crash_after(&self, n: u64) {
        self.st(|s| {
            s.crash_after = Some(n);
            s.crash = None;
        })
    }
    /// What a crash at the recorded moment would have left.
    pub fn crash_image(&self) -> Option<Vec<u8>> {
        self.st(|s| s.crash.clone())
    }
    /// Forget what was never flushed.
    pub fn image_len(&self) -> usize {
        self.st(|s| s.image.len())
    }
}

fn fails(s: &mut State, pred: impl Fn(Hard) -> bool) -> Option<Hard> {
    for a in s.armed.iter_mut() {
        if !pred(a.kind) || a.times == 0 {
            continue;
        }
        if a.after > 0 {
            a.after -= 1;
            continue;
        }
        if a.times != u64::MAX {
            a.times -= 1;
        }
        s.hard += 1;
        return Some(a.kind);
    }
    None
}

fn crash_point(s: &mut State) {
    match s.crash_after {
        Some(0) => {
            s.crash = Some(s.image.clone());
            s.crash_after = None;
        }
        Some(k) => s.crash_after = Some(k - 1),
        None => {}
    }
}

fn tick(s: &mut State) {
    s.ops += 1;
    if s.ops > s.op_limit {
        violate!("no-progress/device", "more than {} operations on the device", s.op_limit);
    }
}

fn eio(what: &'static str) -> io::Error {
    io::Error::new(io::ErrorKind::Other, what)
}

fn soft(s: &mut State, n: usize) -> io::Result<usize> {
    if s.soft_left == 0 {
        return Ok(n);
    }
    s.soft_left -= 1;
    if s.eintr > 0 && dsim::chance(dsim::FAULT, s.eintr, 257) {
        count("fault.interrupted");
        return Err(io::Error::from(io::ErrorKind::Interrupted));
    }
    if n > 1 && s.short > 0 && dsim::chance(dsim::FAULT, s.short, 257) {
        count("fault.short_transfer");
        return Ok(if dsim::fault(2) == 0 { 1 + dsim::fault(n - 1) } else { 1 + dsim::fault(n.min(9) - 1) });
    }
    Ok(n)
}

impl Read for Dev {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.st(|s| {
            tick(s);
            if buf.is_empty() {
                return Ok(0);
            }
            match fails(s, |k| matches!(k, Hard::ReadErr | Hard::ReadZero)) {
                Some(Hard::ReadErr) => {
                    count("fault.read_error");
                    return Err(eio("injected read error"));
                }
                Some(_) => {
                    count("fault.read_zero");
                    return Ok(0);
                }
                None => {}
            }
            let at = s.pos.min(s.image.len() as u64) as usize;
            let n = buf.len().min(s.image.len() - at);
            let n = soft(s, n)?;
            buf[..n].copy_from_slice(&s.image[at..at + n]);
            s.pos += n as u64;
            Ok(n)
        })
    }
}

impl Write for Dev {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.st(|s| {
            tick(s);
            if buf.is_empty() {
                return Ok(0);
            }
            match fails(s, |k| matches!(k, Hard::WriteErr | Hard::WriteZero)) {
                Some(Hard::WriteErr) => {
                    count("fault.write_error");
                    return Err(eio("injected write error"));
                }
                Some(_) => {
                    count("fault.write_zero");
                    return Ok(0);
                }
                None => {}
            }
            let mut n = soft(s, buf.len())?;
            if let Some(Armed { kind: Hard::Full(cap), .. }) = s.armed.iter().find(|a| matches!(a.kind, Hard::Full(_))) {
                let cap = *cap;
                if s.pos + n as u64 > cap {
                    if s.pos >= cap {
                        s.hard += 1;
                        count("fault.disk_full");
                        return Err(io::Error::from(io::ErrorKind::StorageFull));
                    }
                    n = (cap - s.pos) as usize;
                }
            }
            let at = s.pos as usize;
            if s.image.len() < at + n {
                s.image.resize(at + n, 0);
            }
            s.image[at..at + n].copy_from_slice(&buf[..n]);
            s.pos += n as u64;
            s.written += n as u64;
            crash_point(s);
            Ok(n)
        })
    }
    fn flush(&mut self) -> io::Result<()> {
        self.st(|s| {
            tick(s);
            if fails(s, |k| k == Hard::FlushErr).is_some() {
                count("fault.flush_error");
                return Err(eio("injected flush error"));
            }
            s.durable = s.image.clone();
            Ok(())
        })
    }
}

impl Seek for Dev {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        self.st(|s| {
            tick(s);
            if fails(s, |k| k == Hard::SeekErr).is_some() {
                count("fault.seek_error");
                return Err(eio("injected seek error"));
            }
            let p = match to {
                SeekFrom::Start(p) => p as i128,
                SeekFrom::End(d) => s.image.len() as i128 + d as i128,
                SeekFrom::Current(d) => s.pos as i128 + d as i128,
            };
            if p < 0 || p > i64::MAX as i128 {
                return Err(io::Error::from(io::ErrorKind::InvalidInput));
            }
            s.seeks += 1;
            s.pos = p as u64;
            Ok(s.pos)
        })
    }
}

/// A destination: the device itself, or the device behind a write buffer of some size.
pub enum Dest {
    Raw(Dev),
    Buf(BufWriter<Dev>),
}

impl Dest {
    pub fn choose(dev: &Dev) -> Dest {
        match dsim::work(3) {
            0 => Dest::Raw(dev.clone()),
            _ => {
                let cap = [0, 1, 7, 64, 600, 8192][dsim::work(6)];
                ev!("write buffer of {} bytes", cap);
                Dest::Buf(BufWriter::with_capacity(cap, dev.clone()))
            }
        }
    }
}
impl Write for Dest {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        match self {
            Dest::Raw(d) => d.write(b),
            Dest::Buf(d) => d.write(b),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        match self {
            Dest::Raw(d) => d.flush(),
            Dest::Buf(d) => d.flush(),
        }
    }
}
impl Seek for Dest {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        match self {
            Dest::Raw(d) => d.seek(to),
            Dest::Buf(d) => d.seek(to),
        }
    }
}

/// A source: the device behind a read buffer of some size.
pub struct Src(BufReader<Dev>);

impl Src {
    pub fn choose(dev: &Dev) -> Src {
        let cap = [1, 2, 7, 13, 64, 600, 8192][dsim::work(7)];
        ev!("read buffer of {} bytes", cap);
        Src(BufReader::with_capacity(cap, dev.clone()))
    }
}
impl Read for Src {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.0.read(b)
    }
}
impl BufRead for Src {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        self.0.fill_buf()
    }
    fn consume(&mut self, n: usize) {
        self.0.consume(n)
    }
}
impl Seek for Src {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        self.0.seek(to)
    }
}

/// A number of operations or repetitions, mostly small.
pub fn some_ops() -> u64 {
    match dsim::fault(4) {
        0 => dsim::fault(3) as u64,
        1 => dsim::fault(12) as u64,
        2 => dsim::fault(40) as u64,
        _ => dsim::fault(300) as u64,
    }
}
pub fn some_times() -> u64 {
    [1, 1, 1, 2, 5, u64::MAX][dsim::fault(6)]
}

/// In some runs byte allocations get no alignment at all, as the allocator is free to do.
pub fn choose_alignment() {
    if dsim::fault(3) == 2 {
        count("fault.unaligned_bytes");
        ev!("byte allocations are not aligned");
        dsim::alloc::misalign(true);
    }
}
