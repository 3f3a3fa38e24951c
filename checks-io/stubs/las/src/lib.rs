//! Stand-in for the parts of the `las` crate (0.8) that pasture-io uses: LAS headers, VLRs and point
//! formats, read from and written to the binary layout of the LAS 1.4 specification.
use std::collections::HashMap;
use std::{fmt, io};

#[derive(Debug)]
pub enum Error { Io(io::Error), InvalidFormat(String), Other(String) }
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self { Error::Io(e) => write!(f, "io error: {e}"), Error::InvalidFormat(s) | Error::Other(s) => write!(f, "{s}") }
    }
}
impl std::error::Error for Error { fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { match self { Error::Io(e) => Some(e), _ => None } } }
impl From<io::Error> for Error { fn from(e: io::Error) -> Self { Error::Io(e) } }
pub type Result<T> = std::result::Result<T, Error>;
fn other<T>(s: impl Into<String>) -> Result<T> { Err(Error::Other(s.into())) }

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Vector<T> { pub x: T, pub y: T, pub z: T }
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Transform { pub scale: f64, pub offset: f64 }
impl Default for Transform { fn default() -> Self { Transform { scale: 0.001, offset: 0.0 } } }
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Bounds { pub min: Vector<f64>, pub max: Vector<f64> }
impl Default for Bounds {
    fn default() -> Self {
        let v = |n| Vector { x: n, y: n, z: n };
        Bounds { min: v(f64::INFINITY), max: v(f64::NEG_INFINITY) }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Version { pub major: u8, pub minor: u8 }
impl Version {
    pub fn new(major: u8, minor: u8) -> Self { Version { major, minor } }
    fn header_size(&self) -> u16 { match self.minor { 0..=2 => 227, 3 => 235, _ => 375 } }
}
impl Default for Version { fn default() -> Self { Version::new(1, 2) } }
impl From<(u8, u8)> for Version { fn from(v: (u8, u8)) -> Self { Version::new(v.0, v.1) } }
impl fmt::Display for Version { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}.{}", self.major, self.minor) } }

pub mod point {
    use super::*;
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
    pub struct Format { pub has_gps_time: bool, pub has_color: bool, pub is_extended: bool, pub has_waveform: bool, pub has_nir: bool, pub extra_bytes: u16, pub is_compressed: bool }
    impl Format {
        pub fn new(n: u8) -> Result<Format> {
            let compressed = n & 0xC0 == 0x80;
            let n = if compressed { n & 0x3f } else { n };
            if n > 10 { return Err(Error::InvalidFormat(format!("invalid format number: {n}"))); }
            Ok(Format {
                has_gps_time: n == 1 || n == 3 || n == 4 || n == 5 || n > 5,
                has_color: matches!(n, 2 | 3 | 5 | 7 | 8 | 10),
                is_extended: n > 5,
                has_waveform: matches!(n, 4 | 5 | 9 | 10),
                has_nir: matches!(n, 8 | 10),
                extra_bytes: 0,
                is_compressed: compressed,
            })
        }
        pub fn len(&self) -> u16 {
            let mut l = if self.is_extended { 22 } else { 20 } + self.extra_bytes;
            if self.has_gps_time { l += 8 }
            if self.has_color { l += 6 }
            if self.has_nir { l += 2 }
            if self.has_waveform { l += 29 }
            l
        }
        pub fn to_u8(&self) -> Result<u8> {
            let bad = || Err(Error::InvalidFormat(format!("invalid point format: {self:?}")));
            if self.is_extended {
                if !self.has_gps_time { return bad(); }
                match (self.has_nir, self.has_color, self.has_waveform) {
                    (true, true, true) => Ok(10),
                    (true, true, false) => Ok(8),
                    (true, false, _) => bad(),
                    (false, true, true) => bad(),
                    (false, false, true) => Ok(9),
                    (false, true, false) => Ok(7),
                    (false, false, false) => Ok(6),
                }
            } else if self.has_nir { bad() }
            else if self.has_waveform {
                if !self.has_gps_time { bad() } else if self.has_color { Ok(5) } else { Ok(4) }
            } else { Ok(self.has_gps_time as u8 + 2 * self.has_color as u8) }
        }
        pub(crate) fn to_writable_u8(&self) -> Result<u8> { self.to_u8().map(|n| if self.is_compressed { n | 0x80 } else { n }) }
    }
    impl fmt::Display for Format { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { match self.to_u8() { Ok(n) => write!(f, "point format {n}"), Err(_) => write!(f, "point format (does not map onto a code): {self:?}") } } }

    #[derive(Clone, Copy, Debug, PartialEq)]
    pub enum ScanDirection { RightToLeft, LeftToRight }
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct Classification(pub u8);
    impl From<Classification> for u8 { fn from(c: Classification) -> u8 { c.0 } }
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct Color { pub red: u16, pub green: u16, pub blue: u16 }
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct Waveform { pub wave_packet_descriptor_index: u8, pub byte_offset_to_waveform_data: u64, pub waveform_packet_size_in_bytes: u32, pub return_point_waveform_location: f32, pub x_t: f32, pub y_t: f32, pub z_t: f32 }
    #[derive(Clone, Debug, PartialEq)]
    pub struct Point {
        pub x: f64, pub y: f64, pub z: f64, pub intensity: u16, pub return_number: u8, pub number_of_returns: u8,
        pub scan_direction: ScanDirection, pub is_edge_of_flight_line: bool, pub classification: Classification,
        pub is_synthetic: bool, pub is_key_point: bool, pub is_withheld: bool, pub is_overlap: bool, pub scanner_channel: u8,
        pub scan_angle: f32, pub user_data: u8, pub point_source_id: u16, pub gps_time: Option<f64>, pub color: Option<Color>,
        pub waveform: Option<Waveform>, pub nir: Option<u16>, pub extra_bytes: Vec<u8>,
    }
}
pub use point::Point;

fn as_bytes<const N: usize>(s: &str, what: &str) -> Result<[u8; N]> {
    let mut a = [0u8; N];
    if s.len() > N { return other(format!("string too long for {what}: {s}")); }
    a[..s.len()].copy_from_slice(s.as_bytes());
    Ok(a)
}
fn as_str(b: &[u8]) -> Result<String> {
    let n = b.iter().position(|c| *c == 0).unwrap_or(b.len());
    String::from_utf8(b[..n].to_vec()).map_err(|e| Error::Other(e.to_string()))
}
fn as_str_lossy(b: &[u8]) -> String {
    let n = b.iter().position(|c| *c == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).into_owned()
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Vlr { pub user_id: String, pub record_id: u16, pub description: String, pub data: Vec<u8> }
impl Vlr {
    pub fn new(raw: raw::Vlr) -> Vlr { Vlr { user_id: as_str_lossy(&raw.user_id), record_id: raw.record_id, description: as_str_lossy(&raw.description), data: raw.data } }
    pub fn has_large_data(&self) -> bool { self.data.len() > u16::MAX as usize }
    pub fn len(&self, is_extended: bool) -> usize { self.data.len() + if is_extended { 60 } else { 54 } }
    pub fn into_raw(self, is_extended: bool) -> Result<raw::Vlr> {
        let record_length_after_header = if is_extended { raw::vlr::RecordLength::Evlr(self.data.len() as u64) }
            else if self.has_large_data() { return other(format!("vlr too long: {}", self.data.len())) }
            else { raw::vlr::RecordLength::Vlr(self.data.len() as u16) };
        Ok(raw::Vlr { reserved: 0, user_id: as_bytes(&self.user_id, "user_id")?, record_id: self.record_id, record_length_after_header, description: as_bytes(&self.description, "description")?, data: self.data })
    }
}

#[derive(Clone, Debug)]
pub struct Builder {
    pub date: Option<chrono::NaiveDate>, pub evlrs: Vec<Vlr>, pub file_source_id: u16, pub generating_software: String, pub global_encoding: u16,
    pub guid: uuid::Uuid, pub padding: Vec<u8>, pub point_format: point::Format, pub point_padding: Vec<u8>, pub system_identifier: String,
    pub transforms: Vector<Transform>, pub version: Version, pub vlr_padding: Vec<u8>, pub vlrs: Vec<Vlr>,
    bounds: Bounds, number_of_points: u64, number_of_points_by_return: HashMap<u8, u64>, start_of_waveform: Option<u64>,
}
impl Default for Builder {
    fn default() -> Self {
        Builder { date: None, evlrs: vec![], file_source_id: 0, generating_software: "las-rs".into(), global_encoding: 0, guid: uuid::Uuid::nil(), padding: vec![], point_format: Default::default(), point_padding: vec![], system_identifier: "las-rs".into(), transforms: Default::default(), version: Default::default(), vlr_padding: vec![], vlrs: vec![], bounds: Default::default(), number_of_points: 0, number_of_points_by_return: HashMap::new(), start_of_waveform: None }
    }
}
impl<V: Into<Version>> From<V> for Builder { fn from(v: V) -> Self { Builder { version: v.into(), ..Default::default() } } }
impl Builder {
    pub fn new(h: raw::Header) -> Result<Builder> {
        let number_of_points = if h.number_of_point_records > 0 { h.number_of_point_records as u64 } else { h.large_file.map(|l| l.number_of_point_records).unwrap_or(0) };
        let map = |it: &mut dyn Iterator<Item = u64>| it.enumerate().filter(|(_, n)| *n > 0).map(|(i, n)| (i as u8 + 1, n)).collect::<HashMap<u8, u64>>();
        let by_return = if h.number_of_points_by_return.iter().any(|n| *n > 0) { map(&mut h.number_of_points_by_return.iter().map(|n| *n as u64)) } else { h.large_file.map(|l| map(&mut l.number_of_points_by_return.iter().copied())).unwrap_or_default() };
        let mut fmt = point::Format::new(h.point_data_record_format)?;
        if h.point_data_record_length < fmt.len() { return other(format!("the point data record length is too small: {}", h.point_data_record_length)); }
        fmt.extra_bytes = h.point_data_record_length - fmt.len();
        let date = if h.file_creation_year > 0 && h.file_creation_day_of_year > 0 { chrono::NaiveDate::from_yo_opt(h.file_creation_year as i32, h.file_creation_day_of_year as u32) } else { None };
        Ok(Builder {
            date, evlrs: vec![], file_source_id: h.file_source_id, generating_software: as_str(&h.generating_software)?, global_encoding: h.global_encoding,
            guid: uuid::Uuid::from_bytes(h.guid), padding: h.padding, point_format: fmt, point_padding: vec![], system_identifier: as_str(&h.system_identifier)?,
            transforms: Vector { x: Transform { scale: h.x_scale_factor, offset: h.x_offset }, y: Transform { scale: h.y_scale_factor, offset: h.y_offset }, z: Transform { scale: h.z_scale_factor, offset: h.z_offset } },
            version: h.version, vlr_padding: vec![], vlrs: vec![],
            bounds: Bounds { min: Vector { x: h.min_x, y: h.min_y, z: h.min_z }, max: Vector { x: h.max_x, y: h.max_y, z: h.max_z } },
            number_of_points, number_of_points_by_return: by_return, start_of_waveform: h.start_of_waveform_data_packet_record,
        })
    }
    pub fn minimum_supported_version(&self) -> Version {
        if self.point_format.is_extended || !self.evlrs.is_empty() || self.vlrs.iter().any(|v| v.has_large_data()) || self.number_of_points > u32::MAX as u64 { Version::new(1, 4) }
        else if self.point_format.has_waveform { Version::new(1, 3) } else { Version::new(1, 0) }
    }
    pub fn into_header(mut self) -> Result<Header> {
        self.version = self.version.max(self.minimum_supported_version());
        let (large, vlrs): (Vec<Vlr>, Vec<Vlr>) = std::mem::take(&mut self.vlrs).into_iter().partition(|v| v.has_large_data());
        self.vlrs = vlrs;
        self.evlrs.extend(large);
        self.point_format.to_u8()?;
        Ok(Header { b: self })
    }
}

#[derive(Clone, Debug)]
pub struct Header { b: Builder }
impl Default for Header { fn default() -> Self { Header { b: Builder::default() } } }
impl Header {
    pub fn vlrs(&self) -> &Vec<Vlr> { &self.b.vlrs }
    pub fn evlrs(&self) -> &Vec<Vlr> { &self.b.evlrs }
    pub fn vlr_padding(&self) -> &Vec<u8> { &self.b.vlr_padding }
    pub fn point_format(&self) -> &point::Format { &self.b.point_format }
    pub fn transforms(&self) -> &Vector<Transform> { &self.b.transforms }
    pub fn bounds(&self) -> Bounds { self.b.bounds }
    pub fn number_of_points(&self) -> u64 { self.b.number_of_points }
    pub fn number_of_points_by_return(&self, n: u8) -> Option<u64> {
        if n > 15 || (n > 5 && self.b.version.minor < 4) { return None; }
        Some(self.b.number_of_points_by_return.get(&n).copied().unwrap_or(0))
    }
    pub fn date(&self) -> Option<chrono::NaiveDate> { self.b.date }
    pub fn guid(&self) -> uuid::Uuid { self.b.guid }
    pub fn version(&self) -> Version { self.b.version }
    pub fn system_identifier(&self) -> &str { &self.b.system_identifier }
    pub fn generating_software(&self) -> &str { &self.b.generating_software }
    pub fn file_source_id(&self) -> u16 { self.b.file_source_id }
    pub fn into_raw(self) -> Result<raw::Header> {
        use chrono::Datelike;
        let b = self.b;
        let header_size = b.version.header_size() + b.padding.len() as u16;
        let offset = header_size as usize + b.vlrs.iter().map(|v| v.len(false)).sum::<usize>() + b.vlr_padding.len();
        let len = b.point_format.len();
        let legacy = !b.point_format.is_extended && b.number_of_points <= u32::MAX as u64;
        let by = |n: u8| b.number_of_points_by_return.get(&n).copied().unwrap_or(0);
        let evlr = if b.evlrs.is_empty() { None } else { Some(raw::header::Evlr { start_of_first_evlr: offset as u64 + len as u64 * b.number_of_points + b.point_padding.len() as u64, number_of_evlrs: b.evlrs.len() as u32 }) };
        let mut small = [0u32; 5];
        let mut large = [0u64; 15];
        for n in 1..=15u8 { large[n as usize - 1] = by(n); if n <= 5 && legacy { small[n as usize - 1] = by(n) as u32; } }
        Ok(raw::Header {
            file_signature: *b"LASF", file_source_id: b.file_source_id, global_encoding: b.global_encoding, guid: *b.guid.as_bytes(), version: b.version,
            system_identifier: as_bytes(&b.system_identifier, "system_identifier")?, generating_software: as_bytes(&b.generating_software, "generating_software")?,
            file_creation_day_of_year: b.date.map(|d| d.ordinal() as u16).unwrap_or(0), file_creation_year: b.date.map(|d| d.year() as u16).unwrap_or(0),
            header_size, offset_to_point_data: offset as u32, number_of_variable_length_records: b.vlrs.len() as u32,
            point_data_record_format: b.point_format.to_writable_u8()?, point_data_record_length: len,
            number_of_point_records: if legacy { b.number_of_points as u32 } else { 0 }, number_of_points_by_return: small,
            x_scale_factor: b.transforms.x.scale, y_scale_factor: b.transforms.y.scale, z_scale_factor: b.transforms.z.scale,
            x_offset: b.transforms.x.offset, y_offset: b.transforms.y.offset, z_offset: b.transforms.z.offset,
            max_x: b.bounds.max.x, min_x: b.bounds.min.x, max_y: b.bounds.max.y, min_y: b.bounds.min.y, max_z: b.bounds.max.z, min_z: b.bounds.min.z,
            start_of_waveform_data_packet_record: if b.version.minor >= 3 { Some(b.start_of_waveform.unwrap_or(0)) } else { None },
            evlr, large_file: if b.version.minor >= 4 { Some(raw::header::LargeFile { number_of_point_records: b.number_of_points, number_of_points_by_return: large }) } else { None },
            padding: b.padding,
        })
    }
}
pub mod raw {
    pub use header::Header;
    pub use vlr::Vlr;
    use std::io::{Read, Write};
    use super::{other, Result};
    fn arr<const N: usize, R: Read>(r: &mut R) -> Result<[u8; N]> { let mut a = [0u8; N]; r.read_exact(&mut a)?; Ok(a) }
    macro_rules! rd { ($r:expr, $t:ty) => { <$t>::from_le_bytes(arr(&mut $r)?) } }
    macro_rules! wr { ($w:expr, $($v:expr),* $(,)?) => { $($w.write_all(&$v.to_le_bytes())?;)* } }
    pub mod header {
        use super::*;
        use crate::Version;
        #[derive(Clone, Copy, Debug, Default, PartialEq)]
        pub struct Evlr { pub start_of_first_evlr: u64, pub number_of_evlrs: u32 }
        #[derive(Clone, Copy, Debug, Default, PartialEq)]
        pub struct LargeFile { pub number_of_point_records: u64, pub number_of_points_by_return: [u64; 15] }
        #[derive(Clone, Debug, PartialEq)]
        pub struct Header {
            pub file_signature: [u8; 4], pub file_source_id: u16, pub global_encoding: u16, pub guid: [u8; 16], pub version: Version,
            pub system_identifier: [u8; 32], pub generating_software: [u8; 32], pub file_creation_day_of_year: u16, pub file_creation_year: u16,
            pub header_size: u16, pub offset_to_point_data: u32, pub number_of_variable_length_records: u32, pub point_data_record_format: u8,
            pub point_data_record_length: u16, pub number_of_point_records: u32, pub number_of_points_by_return: [u32; 5],
            pub x_scale_factor: f64, pub y_scale_factor: f64, pub z_scale_factor: f64, pub x_offset: f64, pub y_offset: f64, pub z_offset: f64,
            pub max_x: f64, pub min_x: f64, pub max_y: f64, pub min_y: f64, pub max_z: f64, pub min_z: f64,
            pub start_of_waveform_data_packet_record: Option<u64>, pub evlr: Option<Evlr>, pub large_file: Option<LargeFile>, pub padding: Vec<u8>,
        }
        impl Header {
            pub fn read_from<R: Read>(mut r: R) -> Result<Header> {
                let file_signature: [u8; 4] = arr(&mut r)?;
                if &file_signature != b"LASF" { return other(format!("file signature is not LASF: {file_signature:?}")); }
                let file_source_id = rd!(r, u16); let global_encoding = rd!(r, u16); let guid = arr(&mut r)?;
                let version = Version::new(rd!(r, u8), rd!(r, u8));
                let system_identifier = arr(&mut r)?; let generating_software = arr(&mut r)?;
                let (day, year, header_size) = (rd!(r, u16), rd!(r, u16), rd!(r, u16));
                let (offset, nvlr) = (rd!(r, u32), rd!(r, u32));
                let (fmt, len, count) = (rd!(r, u8), rd!(r, u16), rd!(r, u32));
                let mut by = [0u32; 5]; for b in by.iter_mut() { *b = rd!(r, u32); }
                let mut f = [0f64; 12]; for x in f.iter_mut() { *x = rd!(r, f64); }
                let start_of_waveform_data_packet_record = if version.minor >= 3 { Some(rd!(r, u64)) } else { None };
                let (mut evlr, mut large_file) = (None, None);
                if version.minor >= 4 {
                    evlr = Some(Evlr { start_of_first_evlr: rd!(r, u64), number_of_evlrs: rd!(r, u32) });
                    let mut l = LargeFile { number_of_point_records: rd!(r, u64), ..Default::default() };
                    for b in l.number_of_points_by_return.iter_mut() { *b = rd!(r, u64); }
                    large_file = Some(l);
                }
                let base = version.header_size();
                if header_size < base { return other(format!("header size too small: {header_size}")); }
                let mut padding = vec![0u8; (header_size - base) as usize];
                r.read_exact(&mut padding)?;
                Ok(Header { file_signature, file_source_id, global_encoding, guid, version, system_identifier, generating_software, file_creation_day_of_year: day, file_creation_year: year, header_size, offset_to_point_data: offset, number_of_variable_length_records: nvlr, point_data_record_format: fmt, point_data_record_length: len, number_of_point_records: count, number_of_points_by_return: by,
                    x_scale_factor: f[0], y_scale_factor: f[1], z_scale_factor: f[2], x_offset: f[3], y_offset: f[4], z_offset: f[5], max_x: f[6], min_x: f[7], max_y: f[8], min_y: f[9], max_z: f[10], min_z: f[11],
                    start_of_waveform_data_packet_record, evlr, large_file, padding })
            }
            pub fn write_to<W: Write>(&self, mut w: W) -> Result<()> {
                w.write_all(&self.file_signature)?;
                wr!(w, self.file_source_id, self.global_encoding);
                w.write_all(&self.guid)?;
                wr!(w, self.version.major, self.version.minor);
                w.write_all(&self.system_identifier)?;
                w.write_all(&self.generating_software)?;
                wr!(w, self.file_creation_day_of_year, self.file_creation_year, self.header_size, self.offset_to_point_data, self.number_of_variable_length_records, self.point_data_record_format, self.point_data_record_length, self.number_of_point_records);
                for b in self.number_of_points_by_return { wr!(w, b); }
                wr!(w, self.x_scale_factor, self.y_scale_factor, self.z_scale_factor, self.x_offset, self.y_offset, self.z_offset, self.max_x, self.min_x, self.max_y, self.min_y, self.max_z, self.min_z);
                if self.version.minor >= 3 { wr!(w, self.start_of_waveform_data_packet_record.unwrap_or(0)); }
                if self.version.minor >= 4 {
                    let e = self.evlr.unwrap_or_default();
                    wr!(w, e.start_of_first_evlr, e.number_of_evlrs);
                    let l = self.large_file.unwrap_or_default();
                    wr!(w, l.number_of_point_records);
                    for b in l.number_of_points_by_return { wr!(w, b); }
                }
                if !self.padding.is_empty() { w.write_all(&self.padding)?; }
                Ok(())
            }
        }
    }
    pub mod vlr {
        use super::*;
        #[derive(Clone, Copy, Debug, PartialEq)]
        pub enum RecordLength { Vlr(u16), Evlr(u64) }
        impl Default for RecordLength { fn default() -> Self { RecordLength::Vlr(0) } }
        #[derive(Clone, Debug, Default, PartialEq)]
        pub struct Vlr { pub reserved: u16, pub user_id: [u8; 16], pub record_id: u16, pub record_length_after_header: RecordLength, pub description: [u8; 32], pub data: Vec<u8> }
        impl Vlr {
            pub fn read_from<R: Read>(mut r: R, extended: bool) -> Result<Vlr> {
                let reserved = rd!(r, u16); let user_id = arr(&mut r)?; let record_id = rd!(r, u16);
                let (l, n) = if extended { let n = rd!(r, u64); (RecordLength::Evlr(n), n) } else { let n = rd!(r, u16); (RecordLength::Vlr(n), n as u64) };
                let description = arr(&mut r)?;
                let mut data = Vec::new();
                if (&mut r).take(n).read_to_end(&mut data)? as u64 != n { return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into()); }
                Ok(Vlr { reserved, user_id, record_id, record_length_after_header: l, description, data })
            }
            pub fn write_to<W: Write>(&self, mut w: W) -> Result<()> {
                wr!(w, self.reserved);
                w.write_all(&self.user_id)?;
                wr!(w, self.record_id);
                match self.record_length_after_header { RecordLength::Vlr(n) => { wr!(w, n); } RecordLength::Evlr(n) => { wr!(w, n); } }
                w.write_all(&self.description)?;
                w.write_all(&self.data)?;
                Ok(())
            }
        }
    }
}
