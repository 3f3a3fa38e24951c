//! Stand-in for the `laz` crate. The calls, their order and their failure behaviour are those of laz
//! 0.8; instead of LASzip compression the point records are stored as they are, in chunks of
//! 50,000 points preceded by the 8-byte offset of a chunk table that `done` writes at the end.
use std::fmt;
use std::io::{self, Read, Seek, SeekFrom, Write};

#[derive(Debug)]
pub enum LasZipError { UnsupportedPointFormat(u8), Io(io::Error), Malformed(&'static str) }
impl fmt::Display for LasZipError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            LasZipError::UnsupportedPointFormat(n) => write!(f, "Point format {n} is not supported"),
            LasZipError::Io(e) => write!(f, "IO error: {e}"),
            LasZipError::Malformed(w) => write!(f, "malformed: {w}"),
        }
    }
}
impl From<io::Error> for LasZipError { fn from(e: io::Error) -> Self { LasZipError::Io(e) } }

#[derive(Clone, Debug, PartialEq)]
pub struct LazItem { pub kind: u16, pub size: u16 }

pub struct LazItemRecordBuilder;
impl LazItemRecordBuilder {
    pub fn default_for_point_format_id(id: u8, extra: u16) -> Result<Vec<LazItem>, LasZipError> {
        let it = |kind, size| LazItem { kind, size };
        let mut v = match id {
            0 => vec![it(6, 20)],
            1 => vec![it(6, 20), it(7, 8)],
            2 => vec![it(6, 20), it(8, 6)],
            3 => vec![it(6, 20), it(7, 8), it(8, 6)],
            4 => vec![it(6, 20), it(7, 8), it(9, 29)],
            5 => vec![it(6, 20), it(7, 8), it(8, 6), it(9, 29)],
            6 => vec![it(10, 30)],
            7 => vec![it(10, 30), it(11, 6)],
            8 => vec![it(10, 30), it(12, 8)],
            n => return Err(LasZipError::UnsupportedPointFormat(n)),
        };
        if extra > 0 { v.push(it(0, extra)); }
        Ok(v)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct LazVlr { items: Vec<LazItem> }
impl LazVlr {
    pub const USER_ID: &'static str = "laszip encoded";
    pub const RECORD_ID: u16 = 22204;
    pub const DESCRIPTION: &'static str = "https://laszip.org";
    pub fn from_laz_items(items: Vec<LazItem>) -> Self { LazVlr { items } }
    pub fn items_size(&self) -> u64 { self.items.iter().map(|i| i.size as u64).sum() }
    pub fn write_to<W: Write>(&self, w: &mut W) -> io::Result<()> {
        w.write_all(&[0u8; 32])?;
        w.write_all(&(self.items.len() as u16).to_le_bytes())?;
        for i in &self.items {
            w.write_all(&i.kind.to_le_bytes())?;
            w.write_all(&i.size.to_le_bytes())?;
            w.write_all(&2u16.to_le_bytes())?;
        }
        Ok(())
    }
    pub fn from_buffer(b: &[u8]) -> Result<Self, LasZipError> {
        if b.len() < 34 { return Err(LasZipError::Io(io::ErrorKind::UnexpectedEof.into())); }
        let n = u16::from_le_bytes([b[32], b[33]]) as usize;
        if b.len() < 34 + 6 * n { return Err(LasZipError::Io(io::ErrorKind::UnexpectedEof.into())); }
        let items: Vec<LazItem> = (0..n)
            .map(|i| { let o = 34 + 6 * i; LazItem { kind: u16::from_le_bytes([b[o], b[o + 1]]), size: u16::from_le_bytes([b[o + 2], b[o + 3]]) } })
            .collect();
        if items.iter().all(|i| i.size == 0) { return Err(LasZipError::Malformed("no items")); }
        Ok(LazVlr { items })
    }
}
pub mod las { pub mod laszip { pub use crate::LazVlr; } }

pub struct LasZipCompressor<'a, W: Write + Seek + Send + 'a> { dst: W, size: u64, start: Option<u64>, count: u64, _p: std::marker::PhantomData<&'a ()> }
impl<'a, W: Write + Seek + Send + 'a> LasZipCompressor<'a, W> {
    pub fn new(dst: W, vlr: LazVlr) -> Result<Self, LasZipError> {
        Ok(Self { dst, size: vlr.items_size(), start: None, count: 0, _p: Default::default() })
    }
    fn begin(&mut self) -> io::Result<()> {
        if self.start.is_none() {
            let pos = self.dst.stream_position()?;
            self.dst.write_all(&(-1i64).to_le_bytes())?;
            self.start = Some(pos);
        }
        Ok(())
    }
    pub fn compress_one(&mut self, p: &[u8]) -> io::Result<()> {
        self.begin()?;
        self.dst.write_all(p)?;
        self.count += 1;
        Ok(())
    }
    pub fn compress_many(&mut self, p: &[u8]) -> io::Result<()> {
        for r in p.chunks_exact(self.size as usize) { self.compress_one(r)?; }
        Ok(())
    }
    /// Must be called once, after the last point.
    pub fn done(&mut self) -> io::Result<()> {
        self.begin()?;
        let table = self.dst.stream_position()?;
        self.dst.seek(SeekFrom::Start(self.start.unwrap()))?;
        self.dst.write_all(&(table as i64).to_le_bytes())?;
        self.dst.seek(SeekFrom::Start(table))?;
        self.dst.write_all(&0u32.to_le_bytes())?;
        self.dst.write_all(&(self.count as u32).to_le_bytes())?;
        Ok(())
    }
    pub fn get(&self) -> &W { &self.dst }
    pub fn get_mut(&mut self) -> &mut W { &mut self.dst }
    pub fn into_inner(self) -> W { self.dst }
}

pub struct LasZipDecompressor<'a, R: Read + Seek + Send + 'a> { src: R, size: u64, start: u64, _p: std::marker::PhantomData<&'a ()> }
impl<'a, R: Read + Seek + Send + 'a> LasZipDecompressor<'a, R> {
    pub fn new(mut src: R, vlr: LazVlr) -> Result<Self, LasZipError> {
        let mut b = [0u8; 8];
        src.read_exact(&mut b)?;
        let start = src.stream_position()?;
        Ok(Self { src, size: vlr.items_size(), start, _p: Default::default() })
    }
    pub fn decompress_one(&mut self, out: &mut [u8]) -> io::Result<()> { self.src.read_exact(out) }
    pub fn decompress_many(&mut self, out: &mut [u8]) -> io::Result<()> {
        for p in out.chunks_exact_mut(self.size as usize) { self.decompress_one(p)?; }
        Ok(())
    }
    pub fn seek(&mut self, point: u64) -> io::Result<()> {
        self.src.seek(SeekFrom::Start(self.start + point * self.size)).map(|_| ())
    }
    pub fn into_inner(self) -> R { self.src }
}
