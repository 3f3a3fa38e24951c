//! C19 and C20: LAS files (and LAZ files, through a stand-in for the compression).

use crate::common::*;
use crate::dev::*;
use crate::ops::*;
use crate::pnts_read::{arm_read, attempt, Got};
use crate::pnts_write::arm_write;
use crate::with_buf;
use dsim::{catch, count, ensure, ev, nontrivial, sig, violate};
use las::point::Format;
use las::{Builder, Transform, Vlr};
use pasture_core::containers::*;
use pasture_core::layout::attributes::*;
use pasture_core::layout::*;
use pasture_io::base::{PointReader, PointWriter, SeekToPoint};
use pasture_io::las::{LASReader, LASWriter};
use std::borrow::Cow;
use std::io::SeekFrom;

// ------------------------------------------------------------------ point records

/// The attributes of a point format besides the position, in the order of the record.
fn fields(fmt: u8) -> Vec<PointAttributeDefinition> {
    let ext = fmt > 5;
    let mut v = vec![INTENSITY, RETURN_NUMBER, NUMBER_OF_RETURNS];
    if ext {
        v.extend([CLASSIFICATION_FLAGS, SCANNER_CHANNEL]);
    }
    v.extend([SCAN_DIRECTION_FLAG, EDGE_OF_FLIGHT_LINE, CLASSIFICATION]);
    if ext {
        v.extend([USER_DATA, SCAN_ANGLE]);
    } else {
        v.extend([SCAN_ANGLE_RANK, USER_DATA]);
    }
    v.push(POINT_SOURCE_ID);
    if ![0, 2].contains(&fmt) {
        v.push(GPS_TIME);
    }
    if [2, 3, 5, 7, 8, 10].contains(&fmt) {
        v.push(COLOR_RGB);
    }
    if [8, 10].contains(&fmt) {
        v.push(NIR);
    }
    if [4, 5, 9, 10].contains(&fmt) {
        v.extend([WAVE_PACKET_DESCRIPTOR_INDEX, WAVEFORM_DATA_OFFSET, WAVEFORM_PACKET_SIZE, RETURN_POINT_WAVEFORM_LOCATION, WAVEFORM_PARAMETERS]);
    }
    v
}

fn record_len(fmt: u8) -> usize {
    [20, 28, 26, 34, 57, 63, 30, 36, 38, 59, 67][fmt as usize]
}

/// Width and shift of the attributes that share bytes, in the little-endian flag field.
fn bits(fmt: u8, d: &PointAttributeDefinition) -> Option<(u32, u32)> {
    let n = d.name();
    let t: &[(PointAttributeDefinition, u32, u32)] = if fmt > 5 {
        &[
            (RETURN_NUMBER, 4, 0),
            (NUMBER_OF_RETURNS, 4, 4),
            (CLASSIFICATION_FLAGS, 4, 8),
            (SCANNER_CHANNEL, 2, 12),
            (SCAN_DIRECTION_FLAG, 1, 14),
            (EDGE_OF_FLIGHT_LINE, 1, 15),
        ]
    } else {
        &[(RETURN_NUMBER, 3, 0), (NUMBER_OF_RETURNS, 3, 3), (SCAN_DIRECTION_FLAG, 1, 6), (EDGE_OF_FLIGHT_LINE, 1, 7)]
    };
    t.iter().find(|x| x.0.name() == n).map(|x| (x.1, x.2))
}

/// A decoded record: the integer position, one value per field, the extra bytes.
#[derive(Clone, Debug, PartialEq)]
struct Rec {
    pos: [i32; 3],
    vals: Vec<Vec<u8>>,
    extra: Vec<u8>,
}

fn decode(fmt: u8, b: &[u8]) -> Rec {
    let i = |o: usize| i32::from_le_bytes(b[o..o + 4].try_into().unwrap());
    let pos = [i(0), i(4), i(8)];
    let mut o = 12;
    let mut vals = vec![];
    let mut flags: Option<u16> = None;
    for d in fields(fmt) {
        if let Some((w, s)) = bits(fmt, &d) {
            let f = *flags.get_or_insert_with(|| {
                let n = if fmt > 5 { 2 } else { 1 };
                let v = if n == 2 { u16::from_le_bytes([b[o], b[o + 1]]) } else { b[o] as u16 };
                o += n;
                v
            });
            vals.push(vec![((f >> s) & ((1 << w) - 1)) as u8]);
        } else {
            let n = d.datatype().size() as usize;
            vals.push(b[o..o + n].to_vec());
            o += n;
        }
    }
    assert_eq!(o, record_len(fmt));
    Rec { pos, vals, extra: b[o..].to_vec() }
}

fn encode(fmt: u8, r: &Rec) -> Vec<u8> {
    let mut b = vec![];
    for p in r.pos {
        b.extend(p.to_le_bytes());
    }
    let mut at = None;
    for (d, v) in fields(fmt).iter().zip(&r.vals) {
        if let Some((_, s)) = bits(fmt, d) {
            let n = if fmt > 5 { 2 } else { 1 };
            let o = *at.get_or_insert_with(|| {
                let o = b.len();
                b.extend(vec![0; n]);
                o
            });
            let f = (v[0] as u16) << s;
            b[o] |= f as u8;
            if n == 2 {
                b[o + 1] |= (f >> 8) as u8;
            }
        } else {
            b.extend_from_slice(v);
        }
    }
    assert_eq!(b.len(), record_len(fmt));
    b.extend_from_slice(&r.extra);
    b
}

// ------------------------------------------------------------------ extra bytes

#[derive(Clone)]
struct Extra {
    def: PointAttributeDefinition,
    code: u8,
}

fn rand_extra() -> (Vec<Extra>, usize) {
    let types = [DT::U8, DT::I8, DT::U16, DT::I16, DT::U32, DT::I32, DT::U64, DT::I64, DT::F32, DT::F64];
    let mut v = vec![];
    for k in 0..dsim::work(4) {
        let c = dsim::work(types.len());
        v.push(Extra { def: PointAttributeDefinition::custom(Cow::Owned(format!("Extra{}", k)), types[c]), code: c as u8 + 1 });
    }
    let undescribed = if v.is_empty() || dsim::work(3) == 2 { 1 + dsim::work(12) } else { 0 };
    (v, undescribed)
}

fn extra_vlr(x: &[Extra]) -> Vlr {
    let mut data = vec![];
    for e in x {
        let mut b = [0u8; 192];
        b[2] = e.code;
        b[4..4 + e.def.name().len()].copy_from_slice(e.def.name().as_bytes());
        data.extend_from_slice(&b);
    }
    Vlr { user_id: "LASF_Spec".into(), record_id: 4, description: "extra".into(), data }
}

fn some_vlr(max: usize) -> Vlr {
    let n = dsim::work(max);
    Vlr {
        user_id: ["me", "sixteen bytes..."][dsim::work(2)].into(),
        record_id: dsim::work(60000) as u16 + 100,
        description: "d".into(),
        data: (0..n).map(|k| (k * 7 + n) as u8).collect(),
    }
}

fn axis() -> Transform {
    Transform {
        scale: [0.001, 0.01, 0.1, 1.0, 0.5, 1.0 / 1024.0, 2.0][dsim::work(7)],
        offset: [0.0, 0.0, 1.0, -1000.0, 500_000.5, -0.25][dsim::work(6)],
    }
}

// ------------------------------------------------------------------ C19

struct Written {
    /// position and per field the value (in the datatype of the format)
    pos: [f64; 3],
    vals: Vec<Vec<u8>>,
    extra: Vec<u8>,
}

/// A value for a field such that it survives the record.
fn fit(fmt: u8, d: &PointAttributeDefinition, dt: DT, v: &mut [u8]) {
    let Some((w, _)) = bits(fmt, d) else { return };
    let max = 1u64 << w;
    let r = dsim::bits() % max;
    v.copy_from_slice(&ref_convert(DT::U64, dt, &r.to_ne_bytes()));
}

struct Target {
    fmt: u8,
    laz: bool,
    t: [Transform; 3],
    extra: Vec<Extra>,
    undescribed: usize,
    vlrs: Vec<Vlr>,
    evlrs: Vec<Vlr>,
    vlr_padding: Vec<u8>,
    minor: u8,
}

fn u(b: &[u8], o: usize, n: usize) -> u64 {
    let mut x = [0u8; 8];
    x[..n].copy_from_slice(&b[o..o + n]);
    u64::from_le_bytes(x)
}
fn f(b: &[u8], o: usize) -> f64 {
    f64::from_le_bytes(b[o..o + 8].try_into().unwrap())
}

fn check_las(b: &[u8], t: &Target, m: &[Written]) -> Result<(), String> {
    if b.len() < 227 {
        return Err(format!("only {} bytes", b.len()));
    }
    if &b[..4] != b"LASF" {
        return Err("no LASF signature".into());
    }
    let minor = b[25];
    let hs = u(b, 94, 2) as usize;
    let want_hs = match minor {
        0..=2 => 227,
        3 => 235,
        _ => 375,
    };
    if b[24] != 1 || minor < t.minor || hs != want_hs || b.len() < hs {
        return Err(format!("version {}.{} with a header of {} bytes", b[24], minor, hs));
    }
    let off = u(b, 96, 4) as usize;
    let nvlr = u(b, 100, 4) as usize;
    let extra = t.extra.iter().map(|e| e.def.size() as usize).sum::<usize>() + t.undescribed;
    if b[104] & 0x3f != t.fmt {
        return Err(format!("point format {} instead of {}", b[104] & 0x3f, t.fmt));
    }
    let len = u(b, 105, 2) as usize;
    if len != record_len(t.fmt) + extra {
        return Err(format!("record length {} instead of {} + {}", len, record_len(t.fmt), extra));
    }
    // variable length records
    let mut o = hs;
    let mut seen = vec![];
    for k in 0..nvlr {
        if o + 54 > b.len() {
            return Err(format!("VLR {} lies outside of the file", k));
        }
        let n = u(b, o + 20, 2) as usize;
        if o + 54 + n > b.len() {
            return Err(format!("the data of VLR {} lies outside of the file", k));
        }
        seen.push((b[o + 2..o + 18].to_vec(), u(b, o + 18, 2) as u16, b[o + 54..o + 54 + n].to_vec()));
        o += 54 + n;
    }
    let find = |v: &Vlr, l: &[(Vec<u8>, u16, Vec<u8>)]| {
        l.iter().any(|x| x.0.iter().take_while(|c| **c != 0).eq(v.user_id.as_bytes()) && x.1 == v.record_id && x.2 == v.data)
    };
    for v in &t.vlrs {
        if !find(v, &seen) {
            return Err(format!("the VLR {} of the header with {} bytes is missing", v.record_id, v.data.len()));
        }
    }
    if o + t.vlr_padding.len() != off || b[o..off.min(b.len())] != t.vlr_padding[..] {
        return Err(format!("the VLRs end at {}, with {} bytes of padding the points start at {}", o, t.vlr_padding.len(), off));
    }
    // counts
    let n = m.len() as u64;
    let legacy = u(b, 107, 4);
    if t.fmt < 6 {
        if legacy != n {
            return Err(format!("the legacy point count is {} instead of {}", legacy, n));
        }
    } else if legacy != 0 {
        return Err(format!("the legacy point count is {} in a file of point format {}", legacy, t.fmt));
    }
    let rn = fields(t.fmt).iter().position(|d| d.name() == RETURN_NUMBER.name()).unwrap();
    let by = |r: usize| m.iter().filter(|w| w.vals[rn][0] as usize == r).count() as u64;
    for r in 1..=5 {
        let got = u(b, 111 + 4 * (r - 1), 4);
        if t.fmt < 6 && got != by(r) {
            return Err(format!("the legacy header counts {} points of return {} instead of {}", got, r, by(r)));
        }
    }
    if minor >= 4 {
        let got = u(b, 247, 8);
        if got != n {
            return Err(format!("the point count is {} instead of {}", got, n));
        }
        for r in 1..=15 {
            let got = u(b, 255 + 8 * (r - 1), 8);
            if got != by(r) {
                return Err(format!("the header counts {} points of return {} instead of {}", got, r, by(r)));
            }
        }
    }
    // transforms, bounds
    for a in 0..3 {
        let (s, of) = (f(b, 131 + 8 * a), f(b, 155 + 8 * a));
        if s != t.t[a].scale || of != t.t[a].offset {
            return Err(format!("scale {} and offset {} of axis {}, expected {} and {}", s, of, a, t.t[a].scale, t.t[a].offset));
        }
        if !m.is_empty() {
            let (max, min) = (f(b, 179 + 16 * a), f(b, 187 + 16 * a));
            let wmax = m.iter().map(|w| w.pos[a]).fold(f64::NEG_INFINITY, f64::max);
            let wmin = m.iter().map(|w| w.pos[a]).fold(f64::INFINITY, f64::min);
            let tol = s * 1.000001 + wmax.abs().max(wmin.abs()) * 1e-12;
            if !((max - wmax).abs() <= tol && (min - wmin).abs() <= tol) {
                return Err(format!("axis {} is bounded by [{}, {}], the points by [{}, {}]", a, min, max, wmin, wmax));
            }
        }
    }
    // points
    let start = if t.laz { off + 8 } else { off };
    let end = start + m.len() * len;
    if b.len() < end {
        return Err(format!("the file has {} bytes, the points end at {}", b.len(), end));
    }
    if t.laz {
        let table = u(b, off, 8);
        if table as usize != end || u(b, end + 4, 4) != n {
            return Err(format!("the compressed data ends at {} with {} points, expected {} and {}", table, if b.len() >= end + 8 { u(b, end + 4, 4) } else { 0 }, end, n));
        }
    }
    let defs = fields(t.fmt);
    for (k, w) in m.iter().enumerate() {
        let r = decode(t.fmt, &b[start + k * len..start + (k + 1) * len]);
        for a in 0..3 {
            let got = r.pos[a] as f64 * t.t[a].scale + t.t[a].offset;
            let tol = t.t[a].scale * 0.500001 + w.pos[a].abs() * 1e-12;
            if !((got - w.pos[a]).abs() <= tol) {
                return Err(format!("point {} is at {} on axis {}, it was written with {} (scale {})", k, got, a, w.pos[a], t.t[a].scale));
            }
        }
        for (i, d) in defs.iter().enumerate() {
            if r.vals[i] != w.vals[i] {
                return Err(format!("{} of point {} is {:02x?}, it was written with {:02x?}", d.name(), k, r.vals[i], w.vals[i]));
            }
        }
        if r.extra != w.extra {
            return Err(format!("the extra bytes of point {} are {:02x?}, it was written with {:02x?}", k, r.extra, w.extra));
        }
    }
    // extended variable length records
    if !t.evlrs.is_empty() {
        let (mut o, n) = (u(b, 235, 8) as usize, u(b, 243, 4) as usize);
        if o < end {
            return Err(format!("the EVLRs start at {}, before the end of the points at {}", o, end));
        }
        let mut seen = vec![];
        for k in 0..n {
            if o + 60 > b.len() || o + 60 + u(b, o + 20, 8) as usize > b.len() {
                return Err(format!("EVLR {} lies outside of the file", k));
            }
            let n = u(b, o + 20, 8) as usize;
            seen.push((b[o + 2..o + 18].to_vec(), u(b, o + 18, 2) as u16, b[o + 60..o + 60 + n].to_vec()));
            o += 60 + n;
        }
        for v in &t.evlrs {
            if !find(v, &seen) {
                return Err(format!("the EVLR {} of the header with {} bytes is missing", v.record_id, v.data.len()));
            }
        }
    }
    Ok(())
}

/// The schema of the points of one write: the default layout or another one.
fn source(t: &Target, default: &PointLayout) -> Schema {
    if dsim::work(2) == 0 {
        return Schema::of(default.clone(), None);
    }
    let mut a: Vec<PointAttributeDefinition> = vec![];
    for d in default.attributes() {
        let d = d.attribute_definition().clone();
        if d.name() != POSITION_3D.name() && dsim::work(4) == 3 {
            continue;
        }
        let d = match split_dt(d.datatype()) {
            Some(_) if dsim::work(4) == 3 => {
                let c: Vec<DT> = ALL_PRIMS.iter().copied().filter(|x| convertible(*x, d.datatype())).collect();
                d.with_custom_datatype(c[dsim::work(c.len())])
            }
            _ => d,
        };
        a.push(d);
    }
    for _ in 0..dsim::work(3) {
        let x = rand_attr(false);
        if !a.iter().any(|b| b.name() == x.name()) && !default.has_attribute_with_name(x.name()) {
            a.push(x);
        }
    }
    for i in (1..a.len()).rev() {
        a.swap(i, dsim::work(i + 1));
    }
    let _ = t;
    Schema::of(layout_from(&a), None)
}

/// Points that the file can represent, and what it should then contain.
fn points(t: &Target, s: &Schema, n: usize) -> (Vec<u8>, Vec<Written>) {
    let mut raw = s.points(n);
    let mut out = vec![];
    let defs = fields(t.fmt);
    let spread = [1 << 6, 1 << 14, 1 << 22][dsim::work(3)];
    for k in 0..n {
        let p = &mut raw[k * s.stride..(k + 1) * s.stride];
        let mut w = Written { pos: [0.0; 3], vals: vec![], extra: vec![] };
        let i = s.attrs.iter().position(|a| a.def.name() == POSITION_3D.name()).unwrap();
        let (pt, _) = split_dt(s.attrs[i].dt).unwrap();
        let m = s.member(i);
        let (o, z) = (m.offset() as usize, m.size() as usize);
        let mut v = vec![];
        for a in 0..3 {
            let x = ((dsim::bits() % spread) as f64 - spread as f64 / 2.0 + [0.0, 0.25, 0.5, 0.75, 0.999][(dsim::bits() % 5) as usize]) * t.t[a].scale + t.t[a].offset;
            v.extend(ref_convert(DT::F64, pt, &x.to_ne_bytes()));
        }
        p[o..o + z].copy_from_slice(&v);
        let back = ref_convert(s.attrs[i].dt, DT::Vec3f64, &v);
        for a in 0..3 {
            w.pos[a] = f64::from_ne_bytes(back[a * 8..a * 8 + 8].try_into().unwrap());
        }
        for d in &defs {
            w.vals.push(match s.attrs.iter().position(|a| a.def.name() == d.name()) {
                None => vec![0; d.datatype().size() as usize],
                Some(i) => {
                    let m = s.member(i);
                    let (o, z) = (m.offset() as usize, m.size() as usize);
                    fit(t.fmt, d, s.attrs[i].dt, &mut p[o..o + z]);
                    ref_convert(s.attrs[i].dt, d.datatype(), &p[o..o + z])
                }
            });
        }
        let mut ex: Vec<PointAttributeDefinition> = t.extra.iter().map(|e| e.def.clone()).collect();
        if t.undescribed > 0 {
            ex.push(PointAttributeDefinition::custom(Cow::Borrowed("UndescribedExtraBytes"), DT::ByteArray(t.undescribed as u64)));
        }
        for d in ex {
            match s.attrs.iter().position(|a| a.def.name() == d.name()) {
                None => w.extra.extend(vec![0; d.datatype().size() as usize]),
                Some(i) => {
                    let m = s.member(i);
                    w.extra.extend(ref_convert(s.attrs[i].dt, d.datatype(), &p[m.offset() as usize..(m.offset() + m.size()) as usize]));
                }
            }
        }
        out.push(w);
    }
    (raw, out)
}

/// Positions that can't be stored
fn out_of_range(t: &Target, s: &Schema, raw: &mut [u8]) -> bool {
    let i = s.attrs.iter().position(|a| a.def.name() == POSITION_3D.name()).unwrap();
    if s.attrs[i].dt != DT::Vec3f64 || raw.is_empty() {
        return false;
    }
    let n = raw.len() / s.stride;
    let k = dsim::work(n);
    let a = dsim::work(3);
    let o = k * s.stride + s.member(i).offset() as usize + 8 * a;
    let x = (3_000_000_000.0 * if dsim::work(2) == 0 { 1.0 } else { -1.0 }) * t.t[a].scale + t.t[a].offset;
    raw[o..o + 8].copy_from_slice(&x.to_ne_bytes());
    true
}

pub fn c19() {
    choose_scale();
    let laz = dsim::work(5) == 4;
    let fmt = dsim::work(if laz { 9 } else { 11 }) as u8;
    let mut t = Target {
        fmt,
        laz,
        t: [axis(), axis(), axis()],
        extra: vec![],
        undescribed: 0,
        vlrs: vec![],
        evlrs: vec![],
        vlr_padding: vec![],
        minor: if fmt > 5 || dsim::work(4) > 0 { 4 } else { [3, 3, 2][dsim::work(3)].max(if fmt > 3 { 3 } else { 2 }) },
    };
    let dev = Dev::new(vec![]);
    dev.choose_soft();
    let dest = Dest::choose(&dev);
    for _ in 0..dsim::fault(3) {
        arm_write(&dev, 3000);
    }
    let simple = dsim::work(6) == 5;
    let made = if simple {
        // the writer chooses the header
        for a in t.t.iter_mut() {
            *a = Transform { scale: 0.001, offset: 0.0 };
        }
        t.minor = 4;
        let mut a = vec![POSITION_3D];
        a.extend(fields(fmt));
        for i in (1..a.len()).rev() {
            a.swap(i, dsim::work(i + 1));
        }
        ev!("LAS writer for a point layout, format {} expected, laz {}", fmt, laz);
        let l = layout_from(&a);
        attempt("create", &dev, false, || LASWriter::from_writer_and_point_layout(dest, &l, laz))
    } else {
        if !laz && dsim::work(3) == 2 {
            (t.extra, t.undescribed) = rand_extra();
            if !t.extra.is_empty() {
                t.vlrs.push(extra_vlr(&t.extra));
            }
        }
        if dsim::work(3) == 2 {
            for _ in 0..dsim::work(3) {
                t.vlrs.push(some_vlr(60));
            }
        }
        if dsim::work(3) == 2 {
            t.minor = 4;
            for _ in 0..1 + dsim::work(2) {
                t.evlrs.push(some_vlr(80));
            }
        }
        if dsim::work(6) == 5 {
            t.vlr_padding = vec![0xEE; dsim::work(9)];
        }
        let mut b = Builder::from((1, t.minor));
        b.point_format = Format::new(fmt).unwrap();
        b.point_format.extra_bytes = t.extra.iter().map(|e| e.def.size() as u16).sum::<u16>() + t.undescribed as u16;
        b.transforms = las::Vector { x: t.t[0], y: t.t[1], z: t.t[2] };
        b.vlrs = t.vlrs.clone();
        b.evlrs = t.evlrs.clone();
        b.vlr_padding = t.vlr_padding.clone();
        ev!(
            "LAS writer, version 1.{}, format {}, laz {}, {:?} extra bytes, {} VLRs, {} EVLRs, {} bytes of padding",
            t.minor,
            fmt,
            laz,
            b.point_format.extra_bytes,
            t.vlrs.len(),
            t.evlrs.len(),
            t.vlr_padding.len()
        );
        let h = b.into_header().unwrap();
        attempt("create", &dev, false, || LASWriter::from_writer_and_header(dest, h, laz))
    };
    let mut w = match made {
        Got::Ok(w) => w,
        Got::Err => return,
    };
    let default = w.get_default_point_layout().clone();
    let mut m: Vec<Written> = vec![];
    let mut finished = false;
    let mut failed = false;
    let mut ops = 0;
    let huge = dsim::work(700) == 699;
    while dsim::more(7) && ops < 24 {
        ops += 1;
        match dsim::work(8) {
            0..=4 => {
                let n = if huge { [49_999, 50_000, 50_001, 100_001][dsim::work(4)] } else { count_points() };
                let s = if huge { Schema::of(layout_from(&[INTENSITY, POSITION_3D, RETURN_NUMBER]), None) } else { source(&t, &default) };
                let (mut raw, mut want) = points(&t, &s, n);
                let bad = !huge && dsim::fault(12) == 11 && out_of_range(&t, &s, &mut raw);
                let b = make(dsim::work(4), &s, &raw);
                ev!("write {} points from a {} with {} attributes{}", n, b.kind(), s.attrs.len(), if bad { ", one is out of range" } else { "" });
                count("op.write");
                let refused = finished && t.laz && n > 0;
                let r = if !bad && dsim::work(5) == 4 && n > 0 {
                    let r = sub_range(n);
                    ev!("  only {}..{} of them", r.start, r.end);
                    want = want.drain(r.clone()).collect();
                    with_buf!(&b, x => { let sl = x.slice(r); attempt("write", &dev, refused || failed, || w.write(&sl)) })
                } else if bad {
                    count("fault.out_of_range");
                    match catch(|| with_buf!(&b, x => w.write(x))) {
                        Ok(Ok(())) => violate!("not-rejected", "a position out of the range of the file was written"),
                        Ok(Err(_)) => Got::Err,
                        Err(_) => return,
                    }
                } else {
                    with_buf!(&b, x => attempt("write", &dev, refused || failed, || w.write(x)))
                };
                match r {
                    Got::Ok(()) => m.append(&mut want),
                    Got::Err => {
                        count("op.write_failed");
                        failed |= t.laz && !refused;
                    }
                }
                if huge {
                    break;
                }
            }
            5 | 6 => {
                count("op.flush");
                match attempt("flush", &dev, failed, || w.flush()) {
                    Got::Ok(()) => {
                        ev!("flushed");
                        finished = true;
                        check("flush", &dev, &t, &m, failed);
                    }
                    Got::Err => failed |= t.laz,
                }
            }
            _ => {
                if dsim::fault(2) == 1 {
                    dev.disarm();
                    ev!("device recovers");
                } else if dsim::fault(2) == 1 {
                    arm_write(&dev, dev.image_len() as u64 + 3000);
                }
            }
        }
    }
    if dsim::fault(4) != 3 {
        dev.disarm();
    }
    ev!("into_inner");
    if let Got::Ok(d) = attempt("into_inner", &dev, failed, || w.into_inner()) {
        check("into_inner", &dev, &t, &m, failed);
        drop(d);
    }
    if !m.is_empty() {
        nontrivial();
    }
    sig(m.len() as u64);
    sig(dev.ops());
    sig(dsim::rng::fnv(&dev.image()));
}

fn check(when: &str, dev: &Dev, t: &Target, m: &[Written], failed: bool) {
    count("probe.file");
    ensure!(!failed, &format!("failure-forgotten/{}", when), "{} succeeded although points were lost in an earlier failure", when);
    if let Err(e) = check_las(&dev.durable(), t, m) {
        violate!(
            &format!("wrong-file/{}", when),
            "after a successful {} the destination holds a wrong file: {} ({} points written, format {}, laz {})",
            when,
            e,
            m.len(),
            t.fmt,
            t.laz
        );
    }
}

// ------------------------------------------------------------------ C20

struct LasFile {
    t: Target,
    bytes: Vec<u8>,
    recs: Vec<Rec>,
    off: usize,
}

fn encode_file() -> LasFile {
    let laz = dsim::work(5) == 4;
    let fmt = dsim::work(if laz { 9 } else { 11 }) as u8;
    let mut t = Target {
        fmt,
        laz,
        t: [axis(), axis(), axis()],
        extra: vec![],
        undescribed: 0,
        vlrs: vec![],
        evlrs: vec![],
        vlr_padding: vec![],
        minor: if fmt > 5 || dsim::work(3) > 0 { 4 } else if fmt > 3 { 3 } else { dsim::work(4) as u8 },
    };
    if dsim::work(3) == 2 {
        (t.extra, t.undescribed) = rand_extra();
        if !t.extra.is_empty() {
            t.vlrs.push(extra_vlr(&t.extra));
        }
    }
    // records so large that few of them make up a lot of data
    let wide = !laz && dsim::work(30) == 29;
    if wide {
        t.undescribed = 20_000 + dsim::work(45_000 - 70);
    }
    for _ in 0..dsim::work(3) {
        t.vlrs.push(some_vlr(60));
    }
    if dsim::work(4) == 3 && t.minor == 4 {
        t.evlrs.push(some_vlr(80));
    }
    if dsim::work(5) == 4 {
        t.vlr_padding = vec![0xEE; dsim::work(9)];
    }
    let extra = t.extra.iter().map(|e| e.def.size() as usize).sum::<usize>() + t.undescribed;
    if laz {
        // what the compression needs to know
        let mut items: Vec<(u16, u16)> = match fmt {
            0 => vec![(6, 20)],
            1 => vec![(6, 20), (7, 8)],
            2 => vec![(6, 20), (8, 6)],
            3 => vec![(6, 20), (7, 8), (8, 6)],
            4 => vec![(6, 20), (7, 8), (9, 29)],
            5 => vec![(6, 20), (7, 8), (8, 6), (9, 29)],
            6 => vec![(10, 30)],
            7 => vec![(10, 30), (11, 6)],
            _ => vec![(10, 30), (12, 8)],
        };
        if extra > 0 {
            items.push((0, extra as u16));
        }
        let mut data = vec![0u8; 32];
        data.extend((items.len() as u16).to_le_bytes());
        for i in items {
            data.extend(i.0.to_le_bytes());
            data.extend(i.1.to_le_bytes());
            data.extend(2u16.to_le_bytes());
        }
        t.vlrs.insert(dsim::work(t.vlrs.len() + 1), Vlr { user_id: "laszip encoded".into(), record_id: 22204, description: "https://laszip.org".into(), data });
    }
    let n = if wide { 20 + dsim::work(140) } else { count_points() };
    let defs = fields(fmt);
    let recs: Vec<Rec> = (0..n)
        .map(|_| Rec {
            pos: [0; 3].map(|_: i32| match dsim::bits() % 4 {
                0 => dsim::bits() as i32,
                _ => (dsim::bits() % 200_000) as i32 - 100_000,
            }),
            vals: defs
                .iter()
                .map(|d| match bits(fmt, d) {
                    Some((w, _)) => vec![(dsim::bits() % (1 << w)) as u8],
                    None => gen_value(d.datatype(), d.datatype().size() as usize, dsim::bits()),
                })
                .collect(),
            extra: if wide { vec![dsim::bits() as u8; extra] } else { (0..extra).map(|_| dsim::bits() as u8).collect() },
        })
        .collect();
    let hs: usize = match t.minor {
        0..=2 => 227,
        3 => 235,
        _ => 375,
    };
    let header_padding = if dsim::work(6) == 5 { dsim::work(7) } else { 0 };
    let vl: usize = t.vlrs.iter().map(|v| 54 + v.data.len()).sum();
    let off = hs + header_padding + vl + t.vlr_padding.len();
    let len = record_len(fmt) + extra;
    let end = off + n * len + if laz { 8 } else { 0 };
    let mut b = b"LASF".to_vec();
    b.extend([0u8; 20]);
    b.extend([1, t.minor]);
    b.extend([b'x'; 3]);
    b.extend([0u8; 61]);
    b.extend([0u8; 4]);
    b.extend(((hs + header_padding) as u16).to_le_bytes());
    b.extend((off as u32).to_le_bytes());
    b.extend((t.vlrs.len() as u32).to_le_bytes());
    b.push(fmt | if laz { 0x80 } else { 0 });
    b.extend((len as u16).to_le_bytes());
    let legacy = fmt < 6 && !(t.minor == 4 && dsim::work(4) == 3);
    b.extend((if legacy { n as u32 } else { 0 }).to_le_bytes());
    let by = |r: usize| recs.iter().filter(|x| x.vals[1][0] as usize == r).count();
    for r in 1..=5 {
        b.extend((if legacy { by(r) as u32 } else { 0 }).to_le_bytes());
    }
    for a in 0..3 {
        b.extend(t.t[a].scale.to_le_bytes());
    }
    for a in 0..3 {
        b.extend(t.t[a].offset.to_le_bytes());
    }
    for a in 0..3 {
        let w = |p: i32| p as f64 * t.t[a].scale + t.t[a].offset;
        b.extend(recs.iter().map(|r| w(r.pos[a])).fold(if n == 0 { 0.0 } else { f64::MIN }, f64::max).to_le_bytes());
        b.extend(recs.iter().map(|r| w(r.pos[a])).fold(if n == 0 { 0.0 } else { f64::MAX }, f64::min).to_le_bytes());
    }
    if t.minor >= 3 {
        b.extend(0u64.to_le_bytes());
    }
    if t.minor >= 4 {
        b.extend((if t.evlrs.is_empty() { 0 } else { end as u64 }).to_le_bytes());
        b.extend((t.evlrs.len() as u32).to_le_bytes());
        b.extend((n as u64).to_le_bytes());
        for r in 1..=15 {
            b.extend((by(r) as u64).to_le_bytes());
        }
    }
    assert_eq!(b.len(), hs);
    b.extend(vec![0xAA; header_padding]);
    let vlr = |b: &mut Vec<u8>, v: &Vlr, ext: bool| {
        b.extend([0u8; 2]);
        let mut id = [0u8; 16];
        id[..v.user_id.len()].copy_from_slice(v.user_id.as_bytes());
        b.extend(id);
        b.extend(v.record_id.to_le_bytes());
        if ext {
            b.extend((v.data.len() as u64).to_le_bytes());
        } else {
            b.extend((v.data.len() as u16).to_le_bytes());
        }
        let mut d = [0u8; 32];
        d[..v.description.len()].copy_from_slice(v.description.as_bytes());
        b.extend(d);
        b.extend(&v.data);
    };
    for v in &t.vlrs {
        vlr(&mut b, v, false);
    }
    b.extend(&t.vlr_padding);
    assert_eq!(b.len(), off);
    if laz {
        b.extend((end as i64).to_le_bytes());
    }
    for r in &recs {
        b.extend(encode(fmt, r));
    }
    assert_eq!(b.len(), end);
    if laz {
        b.extend(0u32.to_le_bytes());
        b.extend((n as u32).to_le_bytes());
    }
    for v in &t.evlrs {
        vlr(&mut b, v, true);
    }
    ev!(
        "LAS file: version 1.{}, format {}, laz {}, {} points of {} bytes at {}, {} VLRs, {} extra bytes ({} not described), header padding {}, legacy counts {}",
        t.minor,
        fmt,
        laz,
        n,
        len,
        off,
        t.vlrs.len(),
        extra,
        t.undescribed,
        header_padding,
        legacy
    );
    LasFile { t, bytes: b, recs, off }
}

/// The value that an attribute of this name and datatype must get, if the file has it.
fn expected(fl: &LasFile, r: &Rec, name: &str, dt: DT) -> Option<Vec<u8>> {
    let t = &fl.t;
    let mut v = vec![];
    if name == "LASLocalPosition" {
        for p in r.pos {
            v.extend(p.to_ne_bytes());
        }
        return Some(ref_convert(DT::Vec3i32, dt, &v));
    }
    if name == POSITION_3D.name() {
        for a in 0..3 {
            v.extend((r.pos[a] as f64 * t.t[a].scale + t.t[a].offset).to_ne_bytes());
        }
        return Some(ref_convert(DT::Vec3f64, dt, &v));
    }
    let rec = encode(t.fmt, r);
    if name == "LASBasicFlags" && t.fmt < 6 {
        return Some(ref_convert(DT::U8, dt, &rec[14..15]));
    }
    if name == "LASExtendedFlags" && t.fmt > 5 {
        return Some(ref_convert(DT::U16, dt, &rec[14..16]));
    }
    if let Some(i) = fields(t.fmt).iter().position(|d| d.name() == name) {
        return Some(ref_convert(fields(t.fmt)[i].datatype(), dt, &r.vals[i]));
    }
    let mut o = 0;
    for e in &t.extra {
        let n = e.def.size() as usize;
        if e.def.name() == name {
            return Some(ref_convert(e.def.datatype(), dt, &r.extra[o..o + n]));
        }
        o += n;
    }
    if name == "UndescribedExtraBytes" && t.undescribed > 0 {
        return Some(r.extra[o..].to_vec());
    }
    None
}

fn known(fl: &LasFile, name: &str) -> bool {
    ["LASLocalPosition", "LASBasicFlags", "LASExtendedFlags", "UndescribedExtraBytes", POSITION_3D.name()].contains(&name)
        || fields(fl.t.fmt).iter().any(|d| d.name() == name)
        || fl.t.extra.iter().any(|e| e.def.name() == name)
}

fn matches(dt: DT, got: &[u8], want: &[u8], name: &str) -> bool {
    if got == want {
        return true;
    }
    let (Some((s, n)), true) = (split_dt(dt), name == POSITION_3D.name()) else { return false };
    (0..n).all(|k| match s {
        DT::F64 => {
            let (a, b) = (f64::from_ne_bytes(got[k * 8..k * 8 + 8].try_into().unwrap()), f64::from_ne_bytes(want[k * 8..k * 8 + 8].try_into().unwrap()));
            (a - b).abs() <= 1e-14 * a.abs().max(b.abs()) + 1e-9
        }
        DT::F32 => {
            let (a, b) = (f32::from_ne_bytes(got[k * 4..k * 4 + 4].try_into().unwrap()), f32::from_ne_bytes(want[k * 4..k * 4 + 4].try_into().unwrap()));
            (a as f64 - b as f64).abs() <= 3e-7 * (a.abs().max(b.abs()) as f64 + 600_000.0)
        }
        _ => false,
    })
}

pub fn c20() {
    choose_scale();
    choose_alignment();
    let mut fl = encode_file();
    let n = fl.recs.len();
    // a file that ends early
    let mut cut = None;
    if dsim::fault(6) == 5 {
        let to = dsim::fault(fl.bytes.len());
        cut = Some(to);
        fl.bytes.truncate(to);
        count("fault.truncated");
        ev!("the file ends after {} bytes", to);
    }
    let len = record_len(fl.t.fmt) + fl.recs.first().map(|r| r.extra.len()).unwrap_or(0);
    let start = fl.off + if fl.t.laz { 8 } else { 0 };
    let whole = match cut {
        None => n,
        Some(c) => (c.saturating_sub(start) / len.max(1)).min(n),
    };
    let dev = Dev::new(fl.bytes.clone());
    dev.choose_soft();
    if dsim::fault(3) == 2 {
        arm_read(&dev);
    }
    let exact = dsim::work(3) == 2;
    let src = Src::choose(&dev);
    let mut r = match attempt("open", &dev, cut.is_some(), || LASReader::from_read(src, fl.t.laz, exact)) {
        Got::Ok(r) => r,
        Got::Err => return,
    };
    ensure!(r.remaining_points() == n, "metadata", "{} points remain in a file of {}", r.remaining_points(), n);
    let default = r.get_default_point_layout().clone();
    {
        let md = r.get_metadata();
        ensure!(md.number_of_points() == Some(n), "metadata", "the metadata counts {:?} points instead of {}", md.number_of_points(), n);
    }
    // the default layout names everything in the file
    let mut names: Vec<String> = if exact {
        let mut v: Vec<String> = vec!["LASLocalPosition".into(), if fl.t.fmt > 5 { "LASExtendedFlags".into() } else { "LASBasicFlags".into() }];
        v.extend(fields(fl.t.fmt).iter().filter(|d| bits(fl.t.fmt, d).is_none()).map(|d| d.name().to_string()));
        v
    } else {
        let mut v = vec![POSITION_3D.name().to_string()];
        v.extend(fields(fl.t.fmt).iter().map(|d| d.name().to_string()));
        v
    };
    names.extend(fl.t.extra.iter().map(|e| e.def.name().to_string()));
    for x in &names {
        ensure!(default.has_attribute_with_name(x), "metadata", "the default layout lacks {}: {}", x, default);
    }
    let mut pos = 0usize;
    let mut ops = 0;
    while dsim::more(10) && ops < 40 {
        ops += 1;
        match dsim::work(10) {
            0..=2 => {
                let to = match dsim::work(5) {
                    0 => SeekFrom::Start(dsim::work(n + 3) as u64),
                    1 => SeekFrom::Current(dsim::work(n + 1) as i64 - pos as i64),
                    2 => SeekFrom::End(-(dsim::work(n + 1) as i64)),
                    3 => SeekFrom::Current(dsim::work(7) as i64 - 3),
                    _ => [SeekFrom::Start(u64::MAX), SeekFrom::End(i64::MAX), SeekFrom::Current(i64::MAX), SeekFrom::Start(i64::MAX as u64 + 5), SeekFrom::End(i64::MIN), SeekFrom::Current(i64::MIN)][dsim::work(6)],
                };
                let want = match to {
                    SeekFrom::Start(x) => x as i128,
                    SeekFrom::End(x) => n as i128 + x as i128,
                    SeekFrom::Current(x) => pos as i128 + x as i128,
                };
                count("op.seek");
                ev!("seek {:?}", to);
                let before = dev.hard();
                if want < 0 {
                    // refused
                    match catch(|| r.seek_point(to)) {
                        Ok(Ok(p)) => violate!("seek/negative", "seeking to point {} succeeded and returned {}", want, p),
                        _ => count("op.seek_refused"),
                    }
                } else if let Got::Ok(p) = attempt("seek", &dev, false, || r.seek_point(to)) {
                    let w = want.min(n as i128) as usize;
                    ensure!(p == w, "seek/position", "seeking to {:?} at {} of {} returned {} instead of {}", to, pos, n, p, w);
                    pos = p;
                }
                let _ = before;
            }
            3 => {
                ensure!(r.remaining_points() == n - pos, "position", "{} points remain at {} of {}", r.remaining_points(), pos, n);
                if let Got::Ok(p) = attempt("point_index", &dev, false, || r.point_index()) {
                    ensure!(p == pos, "position", "the reader is at {} instead of {}", p, pos);
                }
                if dsim::work(3) == 2 {
                    match attempt("point_count", &dev, false, || r.point_count()) {
                        Got::Ok(c) => ensure!(c == n, "metadata", "point_count is {} instead of {}", c, n),
                        // where a failed attempt to count ends is not specified
                        Got::Err => match attempt("seek", &dev, false, || r.seek_point(SeekFrom::Start(pos as u64))) {
                            Got::Ok(_) => {}
                            Got::Err => break,
                        },
                    }
                }
            }
            4 => {
                if dsim::fault(2) == 1 {
                    dev.disarm();
                    ev!("source recovers");
                } else if dsim::fault(3) == 2 {
                    arm_read(&dev);
                }
            }
            _ => {
                let cnt = match dsim::work(5) {
                    0 => dsim::work(4),
                    1 => n - pos,
                    2 => n - pos + dsim::work(4),
                    _ => count_points(),
                };
                let k = cnt.min(n - pos);
                let missing = k > 0 && pos + k > whole;
                let own = dsim::work(3) == 2;
                let (s, got, now, old) = if own {
                    let s = Schema::of(default.clone(), None);
                    count("op.read");
                    if dsim::work(2) == 0 {
                        ev!("read {} at {} into a VectorBuffer", cnt, pos);
                        match attempt("read", &dev, missing, || r.read::<VectorBuffer>(cnt)) {
                            Got::Ok(b) => (Got::Ok(b.len()), snapshot(&b, &s)),
                            Got::Err => (Got::Err, vec![]),
                        }
                    } else {
                        ev!("read {} at {} into a HashMapBuffer", cnt, pos);
                        match attempt("read", &dev, missing, || r.read::<HashMapBuffer>(cnt)) {
                            Got::Ok(b) => (Got::Ok(b.len()), snapshot(&b, &s)),
                            Got::Err => (Got::Err, vec![]),
                        }
                    }
                    .into_tuple(s)
                } else {
                    let s = target(&fl, &default);
                    let l = cnt + dsim::work(2) * dsim::work(4);
                    let raw = s.points(l);
                    let old = s.split(&raw);
                    let mut b = make(dsim::work(4), &s, &raw);
                    ev!("read {} at {} into a {} of {}", cnt, pos, b.kind(), l);
                    describe(&s);
                    count("op.read_into");
                    let g = with_buf!(&mut b, x => attempt("read_into", &dev, missing, || r.read_into(x, cnt)));
                    let now = with_buf!(&b, x => snapshot(x, &s));
                    ensure!(now.len() == l, "length", "reading changed the buffer's length from {} to {}", l, now.len());
                    (s, g, now, old)
                };
                match got {
                    Got::Ok(x) => {
                        ensure!(!missing, "past-the-end", "{} points were read at {} although the file ends after {}", x, pos, whole);
                        ensure!(x == k, "count", "{} points reported, {} of {} are left and {} were requested", x, n - pos, n, cnt);
                        for (j, p) in now.iter().enumerate() {
                            if j >= x {
                                ensure!(s.same(p, &old[j]), "untouched", "point {} changed although only {} points were read", j, x);
                                continue;
                            }
                            for (i, a) in s.attrs.iter().enumerate() {
                                let got = s.attr_of(i, p);
                                if let Some(want) = expected(&fl, &fl.recs[pos + j], a.def.name(), a.dt) {
                                    ensure!(
                                        matches(a.dt, got, &want, a.def.name()),
                                        "wrong-point",
                                        "{} ({}) of point {} is {:02x?}, the file has {:02x?}",
                                        a.def.name(),
                                        a.dt,
                                        pos + j,
                                        got,
                                        want
                                    );
                                } else if !old.is_empty() {
                                    ensure!(
                                        got == s.attr_of(i, &old[j]) || got.iter().all(|b| *b == 0),
                                        "invented",
                                        "{} of point {} changed although the file does not have it",
                                        a.def.name(),
                                        pos + j
                                    );
                                }
                            }
                        }
                        pos += x;
                        if x > 0 {
                            nontrivial();
                        }
                        count("probe.points_compared");
                    }
                    Got::Err => {
                        count("op.read_failed");
                        for j in k..old.len() {
                            ensure!(s.same(&now[j], &old[j]), "untouched", "point {} changed in a failed read of {}", j, k);
                        }
                    }
                }
                ensure!(r.remaining_points() == n - pos, "position", "{} points remain after a read, expected {} of {}", r.remaining_points(), n - pos, n);
            }
        }
    }
    sig(pos as u64);
    sig(dev.ops());
    sig(dsim::rng::fnv(&fl.bytes));
}

trait IntoTuple {
    fn into_tuple(self, s: Schema) -> (Schema, Got<usize>, Vec<Pt>, Vec<Pt>);
}
impl IntoTuple for (Got<usize>, Vec<Pt>) {
    fn into_tuple(self, s: Schema) -> (Schema, Got<usize>, Vec<Pt>, Vec<Pt>) {
        (s, self.0, self.1, vec![])
    }
}

/// A layout to read into: the default one, the exact one, or a selection with other datatypes.
fn target(fl: &LasFile, default: &PointLayout) -> Schema {
    if dsim::work(3) == 0 {
        return Schema::of(default.clone(), None);
    }
    let mut all: Vec<PointAttributeDefinition> = vec![];
    all.push(POSITION_3D);
    if dsim::work(4) == 3 {
        all.push(PointAttributeDefinition::custom(Cow::Borrowed("LASLocalPosition"), DT::Vec3i32));
    }
    if dsim::work(4) == 3 {
        all.push(if fl.t.fmt > 5 {
            PointAttributeDefinition::custom(Cow::Borrowed("LASExtendedFlags"), DT::U16)
        } else {
            PointAttributeDefinition::custom(Cow::Borrowed("LASBasicFlags"), DT::U8)
        });
    }
    all.extend(fields(fl.t.fmt));
    all.extend(fl.t.extra.iter().map(|e| e.def.clone()));
    let mut a: Vec<PointAttributeDefinition> = vec![];
    for d in all {
        if dsim::work(4) == 3 {
            continue;
        }
        let fixed = bits(fl.t.fmt, &d).is_some() && fl.t.fmt < 6;
        let d = match split_dt(d.datatype()) {
            Some(_) if d.name() == POSITION_3D.name() => d.with_custom_datatype([DT::Vec3f64, DT::Vec3f32][dsim::work(2)]),
            Some(_) if !fixed && dsim::work(4) == 3 => {
                let c: Vec<DT> = ALL_PRIMS.iter().copied().filter(|x| convertible(*x, d.datatype())).collect();
                d.with_custom_datatype(c[dsim::work(c.len())])
            }
            _ => d,
        };
        a.push(d);
    }
    for _ in 0..dsim::work(2) {
        let x = rand_attr(false);
        if !a.iter().any(|b| b.name() == x.name()) && !known(fl, x.name()) {
            a.push(x);
        }
    }
    if a.is_empty() {
        a.push(INTENSITY);
    }
    for i in (1..a.len()).rev() {
        a.swap(i, dsim::work(i + 1));
    }
    Schema::of(layout_from(&a), None)
}

/// All attributes of a point format.
pub fn default_layout_of(fmt: u8) -> PointLayout {
    let mut a = vec![POSITION_3D];
    a.extend(fields(fmt));
    layout_from(&a)
}

/// Make points representable in the smallest fields of any format.
pub fn fit_all(s: &Schema, raw: &mut [u8]) {
    for p in raw.chunks_exact_mut(s.stride) {
        for (i, a) in s.attrs.iter().enumerate() {
            let m = s.member(i);
            let v = &mut p[m.offset() as usize..(m.offset() + m.size()) as usize];
            if a.def.name() == POSITION_3D.name() {
                for k in 0..3 {
                    let x = (dsim::bits() % 2_000_001) as f64 / 1000.0 - 1000.0;
                    v[k * 8..k * 8 + 8].copy_from_slice(&x.to_ne_bytes());
                }
            } else {
                let n = [0u8, 6]
                    .iter()
                    .filter_map(|f| fields(*f).iter().find(|d| d.name() == a.def.name()).and_then(|d| bits(*f, d)))
                    .map(|b| b.1)
                    .min();
                if let Some(n) = n {
                    v[0] &= ((1u32 << n) - 1) as u8;
                }
            }
        }
    }
}
