//! Shared vocabulary of the buffer scenarios: schemas, the list-of-points model, value generation
//! and the comparison of a buffer's every access path with the model.

use dsim::{catch, ensure, ev, violate};
use pasture_core::containers::*;
use pasture_core::layout::*;
use pasture_core::nalgebra::{Vector3, Vector4};
use pasture_derive::PointType;
use std::borrow::Cow;
use std::ops::Range;

pub use pasture_core::layout::PointAttributeDataType as DT;

/// One point: its interleaved bytes with the padding zeroed.
pub type Pt = Vec<u8>;

#[derive(Clone, Debug)]
pub struct Attr {
    pub def: PointAttributeDefinition,
    pub off: usize,
    pub size: usize,
    pub dt: DT,
}

#[derive(Clone)]
pub struct Schema {
    pub layout: PointLayout,
    pub attrs: Vec<Attr>,
    pub stride: usize,
    /// index of a static point type, if there is one
    pub ty: Option<usize>,
}

pub fn mixh(mut x: u64) -> u64 {
    dsim::rng::splitmix(&mut x)
}

impl Schema {
    pub fn of(layout: PointLayout, ty: Option<usize>) -> Schema {
        let attrs = layout
            .attributes()
            .map(|a| Attr {
                def: a.attribute_definition().clone(),
                off: a.offset() as usize,
                size: a.size() as usize,
                dt: a.datatype(),
            })
            .collect();
        let stride = layout.size_of_point_entry() as usize;
        Schema {
            layout,
            attrs,
            stride,
            ty,
        }
    }
    /// keep the attribute bytes, zero the padding
    pub fn norm(&self, raw: &[u8]) -> Pt {
        let mut r = vec![0u8; self.stride];
        for a in &self.attrs {
            r[a.off..a.off + a.size].copy_from_slice(&raw[a.off..a.off + a.size]);
        }
        r
    }
    pub fn zero(&self) -> Pt {
        vec![0; self.stride]
    }
    pub fn member(&self, i: usize) -> &PointAttributeMember {
        self.layout.at(i)
    }
    /// random value of attribute `i`
    pub fn value(&self, i: usize, seed: u64) -> Vec<u8> {
        gen_value(self.attrs[i].dt, self.attrs[i].size, seed)
    }
    /// random point; padding bytes are random too
    pub fn point(&self, seed: u64) -> Vec<u8> {
        let mut r: Vec<u8> = (0..self.stride).map(|i| mixh(seed ^ i as u64) as u8).collect();
        for (i, a) in self.attrs.iter().enumerate() {
            r[a.off..a.off + a.size].copy_from_slice(&self.value(i, mixh(seed ^ (i as u64) << 17)));
        }
        r
    }
    pub fn points(&self, n: usize) -> Vec<u8> {
        let seed = dsim::bits();
        let mut r = Vec::with_capacity(n * self.stride);
        for i in 0..n {
            r.extend_from_slice(&self.point(mixh(seed).wrapping_add(i as u64)));
        }
        r
    }
    pub fn split(&self, raw: &[u8]) -> Vec<Pt> {
        if self.stride == 0 {
            return vec![];
        }
        raw.chunks_exact(self.stride).map(|c| self.norm(c)).collect()
    }
    pub fn attr_of<'p>(&self, i: usize, p: &'p Pt) -> &'p [u8] {
        &p[self.attrs[i].off..self.attrs[i].off + self.attrs[i].size]
    }
    pub fn set_attr(&self, i: usize, p: &mut Pt, v: &[u8]) {
        let a = &self.attrs[i];
        p[a.off..a.off + a.size].copy_from_slice(v);
    }
    pub fn same(&self, raw: &[u8], p: &Pt) -> bool {
        self.attrs
            .iter()
            .all(|a| raw[a.off..a.off + a.size] == p[a.off..a.off + a.size])
    }
    pub fn flat(&self, m: &[Pt]) -> Vec<u8> {
        m.concat()
    }
}

pub fn scalar(dt: DT, r: u64) -> Vec<u8> {
    let mode = r >> 60;
    let small = (r >> 8) % 7;
    macro_rules! int {
        ($t:ty) => {{
            let v = if mode < 5 { small as $t } else { (r >> 3) as $t };
            v.to_ne_bytes().to_vec()
        }};
    }
    match dt {
        DT::U8 => int!(u8),
        DT::I8 => int!(i8),
        DT::U16 => int!(u16),
        DT::I16 => int!(i16),
        DT::U32 => int!(u32),
        DT::I32 => int!(i32),
        DT::U64 => int!(u64),
        DT::I64 => int!(i64),
        DT::F32 => {
            let v = if mode < 5 {
                small as f32 - 3.0
            } else {
                ((r >> 11) as i32 % 2_000_000) as f32 / 8.0
            };
            v.to_ne_bytes().to_vec()
        }
        DT::F64 => {
            let v = if mode < 5 {
                small as f64 - 3.0
            } else {
                ((r >> 5) as i64 % 2_000_000_000) as f64 / 1024.0
            };
            v.to_ne_bytes().to_vec()
        }
        _ => unreachable!(),
    }
}

pub fn gen_value(dt: DT, size: usize, seed: u64) -> Vec<u8> {
    let (s, n) = match dt {
        DT::Vec3u8 => (DT::U8, 3),
        DT::Vec3u16 => (DT::U16, 3),
        DT::Vec3f32 => (DT::F32, 3),
        DT::Vec3i32 => (DT::I32, 3),
        DT::Vec3f64 => (DT::F64, 3),
        DT::Vec4u8 => (DT::U8, 4),
        DT::ByteArray(_) | DT::Custom { .. } => {
            return (0..size).map(|i| mixh(seed.wrapping_add(i as u64)) as u8).collect()
        }
        d => (d, 1),
    };
    let mut v = Vec::with_capacity(size);
    for i in 0..n {
        v.extend_from_slice(&scalar(s, mixh(seed.wrapping_add(77 * i))));
    }
    v
}

// ------------------------------------------------------------------ layouts

pub const ALL_PRIMS: [DT; 16] = [
    DT::U8,
    DT::I8,
    DT::U16,
    DT::I16,
    DT::U32,
    DT::I32,
    DT::U64,
    DT::I64,
    DT::F32,
    DT::F64,
    DT::Vec3u8,
    DT::Vec3u16,
    DT::Vec3f32,
    DT::Vec3i32,
    DT::Vec3f64,
    DT::Vec4u8,
];

pub fn builtins() -> Vec<PointAttributeDefinition> {
    use attributes::*;
    vec![
        POSITION_3D,
        INTENSITY,
        RETURN_NUMBER,
        NUMBER_OF_RETURNS,
        CLASSIFICATION_FLAGS,
        SCANNER_CHANNEL,
        SCAN_DIRECTION_FLAG,
        EDGE_OF_FLIGHT_LINE,
        CLASSIFICATION,
        SCAN_ANGLE_RANK,
        SCAN_ANGLE,
        USER_DATA,
        POINT_SOURCE_ID,
        COLOR_RGB,
        GPS_TIME,
        NIR,
        WAVE_PACKET_DESCRIPTOR_INDEX,
        WAVEFORM_DATA_OFFSET,
        WAVEFORM_PACKET_SIZE,
        RETURN_POINT_WAVEFORM_LOCATION,
        WAVEFORM_PARAMETERS,
        POINT_ID,
        NORMAL,
    ]
}

const NAMES: [&str; 8] = ["a", "b", "c", "Intensity2", "ä", "", "long attribute name with spaces", "A"];

pub fn rand_attr(prims_only: bool) -> PointAttributeDefinition {
    let b = builtins();
    let k = dsim::work(5);
    if k <= 2 {
        let d = b[dsim::work(b.len())].clone();
        if k == 2 {
            d.with_custom_datatype(*dsim::pick(&ALL_PRIMS))
        } else {
            d
        }
    } else {
        let name = NAMES[dsim::work(NAMES.len())];
        let dt = if !prims_only && dsim::work(4) == 3 {
            if dsim::work(2) == 0 {
                let most = if dsim::work(6) == 5 { 600 } else { 20 };
                DT::ByteArray(1 + dsim::work(most) as u64)
            } else {
                let al = 1u64 << dsim::work(4);
                DT::Custom {
                    size: al * (1 + dsim::work(3) as u64),
                    min_alignment: al,
                    name: uuid::Uuid::from_u128(7),
                }
            }
        } else {
            *dsim::pick(&ALL_PRIMS)
        };
        PointAttributeDefinition::custom(Cow::Borrowed(name), dt)
    }
}

pub fn rand_attrs(max: usize, prims_only: bool) -> Vec<PointAttributeDefinition> {
    let n = 1 + dsim::work(max);
    let mut v: Vec<PointAttributeDefinition> = vec![];
    for _ in 0..n {
        let a = rand_attr(prims_only);
        if !v.iter().any(|b| b.name() == a.name()) {
            v.push(a);
        }
    }
    v
}

pub fn layout_from(attrs: &[PointAttributeDefinition]) -> PointLayout {
    match dsim::work(5) {
        0 | 1 => PointLayout::from_attributes(attrs),
        2 | 3 => PointLayout::from_attributes_packed(attrs, 1 << dsim::work(4)),
        _ => {
            // explicit members with gaps, in an order of their own
            let mut off = 0u64;
            let mut m = vec![];
            for a in attrs {
                off += dsim::work(4) as u64;
                m.push(a.at_offset_in_type(off));
                off += a.size();
            }
            if dsim::work(2) == 1 {
                m.reverse();
            }
            PointLayout::from_members_and_alignment(&m, 1 << dsim::work(4))
        }
    }
}

/// The attributes of the layout chosen last in this run.
static LAST: std::sync::Mutex<Vec<PointAttributeDefinition>> = std::sync::Mutex::new(vec![]);

/// Much the same attributes as the layout before, in another order, some left out or of another type.
fn sibling(last: &[PointAttributeDefinition]) -> Vec<PointAttributeDefinition> {
    let mut v = last.to_vec();
    for i in (1..v.len()).rev() {
        v.swap(i, dsim::work(i + 1));
    }
    if v.len() > 1 && dsim::work(2) == 0 {
        v.truncate(1 + dsim::work(v.len() - 1));
    }
    for d in v.iter_mut() {
        if dsim::work(3) == 0 {
            *d = d.with_custom_datatype(*dsim::pick(&ALL_PRIMS));
        }
    }
    v
}

/// A layout: one of the static point types or a dynamic one, perhaps close to the one before.
pub fn rand_schema() -> Schema {
    let last = LAST.lock().unwrap().clone();
    let s = if !last.is_empty() && dsim::work(2) == 0 {
        Schema::of(layout_from(&sibling(&last)), None)
    } else if dsim::work(2) == 0 {
        static_schema(dsim::work(NTYPES))
    } else {
        let max = if dsim::work(6) == 5 { 20 } else { 6 };
        let l = layout_from(&rand_attrs(max, false));
        Schema::of(l, None)
    };
    *LAST.lock().unwrap() = s.attrs.iter().map(|a| a.def.clone()).collect();
    s
}

/// One scenario, sometimes followed by another one with other layouts in the same process.
pub fn rounds(body: fn()) {
    body();
    if dsim::work(10) == 9 {
        dsim::count("run.second_scenario");
        ev!("---- another scenario in the same process");
        body();
    }
}

// ------------------------------------------------------------------ static point types

#[derive(PointType, Default, Copy, Clone, PartialEq, Debug, bytemuck::AnyBitPattern, bytemuck::NoUninit)]
#[repr(C, packed)]
pub struct Small {
    #[pasture(BUILTIN_POSITION_3D)]
    pub position: Vector3<f64>,
    #[pasture(BUILTIN_CLASSIFICATION)]
    pub classification: u8,
}

#[derive(PointType, Default, Copy, Clone, PartialEq, Debug, bytemuck::AnyBitPattern, bytemuck::NoUninit)]
#[repr(C, packed)]
pub struct Wide {
    #[pasture(attribute = "w_u8")]
    pub a: u8,
    #[pasture(attribute = "w_i8")]
    pub b: i8,
    #[pasture(attribute = "w_u16")]
    pub c: u16,
    #[pasture(attribute = "w_i16")]
    pub d: i16,
    #[pasture(attribute = "w_u32")]
    pub e: u32,
    #[pasture(attribute = "w_i32")]
    pub f: i32,
    #[pasture(attribute = "w_u64")]
    pub g: u64,
    #[pasture(attribute = "w_i64")]
    pub h: i64,
    #[pasture(attribute = "w_f32")]
    pub i: f32,
    #[pasture(attribute = "w_f64")]
    pub j: f64,
    #[pasture(attribute = "w_v3u8")]
    pub k: Vector3<u8>,
    #[pasture(BUILTIN_COLOR_RGB)]
    pub l: Vector3<u16>,
    #[pasture(attribute = "w_v3f32")]
    pub m: Vector3<f32>,
    #[pasture(attribute = "w_v3i32")]
    pub n: Vector3<i32>,
    #[pasture(BUILTIN_POSITION_3D)]
    pub o: Vector3<f64>,
    #[pasture(attribute = "w_v4u8")]
    pub p: Vector4<u8>,
}

#[derive(PointType, Default, Copy, Clone, PartialEq, Debug, bytemuck::AnyBitPattern, bytemuck::NoUninit)]
#[repr(C)]
pub struct Aligned {
    #[pasture(BUILTIN_POSITION_3D)]
    pub position: Vector3<f64>,
    #[pasture(BUILTIN_GPS_TIME)]
    pub time: f64,
    #[pasture(BUILTIN_WAVEFORM_PACKET_SIZE)]
    pub size: u32,
    #[pasture(BUILTIN_INTENSITY)]
    pub intensity: u16,
    #[pasture(BUILTIN_RETURN_NUMBER)]
    pub rn: u8,
    #[pasture(BUILTIN_USER_DATA)]
    pub ud: u8,
}

#[derive(PointType, Default, Copy, Clone, PartialEq, Debug, bytemuck::AnyBitPattern, bytemuck::NoUninit)]
#[repr(C)]
pub struct One {
    #[pasture(BUILTIN_INTENSITY)]
    pub intensity: u16,
}

pub const NTYPES: usize = 4;

#[macro_export]
macro_rules! with_type {
    ($ty:expr, $T:ident, $e:expr) => {
        match $ty {
            0 => {
                type $T = $crate::common::Small;
                $e
            }
            1 => {
                type $T = $crate::common::Wide;
                $e
            }
            2 => {
                type $T = $crate::common::Aligned;
                $e
            }
            _ => {
                type $T = $crate::common::One;
                $e
            }
        }
    };
}

pub fn static_schema(i: usize) -> Schema {
    with_type!(i, T, Schema::of(T::layout(), Some(i)))
}

#[macro_export]
macro_rules! with_prim {
    ($dt:expr, $T:ident, $e:expr, $other:expr) => {{
        use pasture_core::layout::PointAttributeDataType as D;
        #[allow(unused_imports)]
        use pasture_core::nalgebra::{Vector3, Vector4};
        match $dt {
            D::U8 => { type $T = u8; $e }
            D::I8 => { type $T = i8; $e }
            D::U16 => { type $T = u16; $e }
            D::I16 => { type $T = i16; $e }
            D::U32 => { type $T = u32; $e }
            D::I32 => { type $T = i32; $e }
            D::U64 => { type $T = u64; $e }
            D::I64 => { type $T = i64; $e }
            D::F32 => { type $T = f32; $e }
            D::F64 => { type $T = f64; $e }
            D::Vec3u8 => { type $T = Vector3<u8>; $e }
            D::Vec3u16 => { type $T = Vector3<u16>; $e }
            D::Vec3f32 => { type $T = Vector3<f32>; $e }
            D::Vec3i32 => { type $T = Vector3<i32>; $e }
            D::Vec3f64 => { type $T = Vector3<f64>; $e }
            D::Vec4u8 => { type $T = Vector4<u8>; $e }
            _ => $other,
        }
    }};
}

pub fn is_prim(dt: DT) -> bool {
    !matches!(dt, DT::ByteArray(_) | DT::Custom { .. })
}

pub fn to_t<T: PrimitiveType>(b: &[u8]) -> T {
    bytemuck::pod_read_unaligned(b)
}
pub fn of_t<T: PrimitiveType>(t: &T) -> Vec<u8> {
    bytemuck::bytes_of(t).to_vec()
}

// ------------------------------------------------------------------ reference conversion

#[derive(Clone, Copy, Debug, PartialEq)]
enum Num {
    I(i128),
    F(f64),
    F32(f32),
}

pub fn split_dt(dt: DT) -> Option<(DT, usize)> {
    Some(match dt {
        DT::Vec3u8 => (DT::U8, 3),
        DT::Vec3u16 => (DT::U16, 3),
        DT::Vec3f32 => (DT::F32, 3),
        DT::Vec3i32 => (DT::I32, 3),
        DT::Vec3f64 => (DT::F64, 3),
        DT::Vec4u8 => (DT::U8, 4),
        DT::ByteArray(_) | DT::Custom { .. } => return None,
        d => (d, 1),
    })
}

fn ssize(s: DT) -> usize {
    s.size() as usize
}

/// May `from` be converted to `to`, according to the documentation of the converters?
pub fn convertible(from: DT, to: DT) -> bool {
    if from == to {
        return false;
    }
    match (split_dt(from), split_dt(to)) {
        (Some((_, 1)), Some((_, 1))) => true,
        (Some((_, 3)), Some((_, 3))) => true,
        _ => false,
    }
}

fn read_num(s: DT, b: &[u8]) -> Num {
    macro_rules! i {
        ($t:ty) => {
            Num::I(<$t>::from_ne_bytes(b.try_into().unwrap()) as i128)
        };
    }
    match s {
        DT::U8 => i!(u8),
        DT::I8 => i!(i8),
        DT::U16 => i!(u16),
        DT::I16 => i!(i16),
        DT::U32 => i!(u32),
        DT::I32 => i!(i32),
        DT::U64 => i!(u64),
        DT::I64 => i!(i64),
        DT::F32 => Num::F32(f32::from_ne_bytes(b.try_into().unwrap())),
        DT::F64 => Num::F(f64::from_ne_bytes(b.try_into().unwrap())),
        _ => unreachable!(),
    }
}

fn write_num(s: DT, n: Num) -> Vec<u8> {
    // integers wrap, floats saturate, as `as` does
    macro_rules! w {
        ($t:ty) => {
            match n {
                Num::I(v) => (v as $t).to_ne_bytes().to_vec(),
                Num::F(v) => (v as $t).to_ne_bytes().to_vec(),
                Num::F32(v) => (v as $t).to_ne_bytes().to_vec(),
            }
        };
    }
    match s {
        DT::U8 => w!(u8),
        DT::I8 => w!(i8),
        DT::U16 => w!(u16),
        DT::I16 => w!(i16),
        DT::U32 => w!(u32),
        DT::I32 => w!(i32),
        DT::U64 => w!(u64),
        DT::I64 => w!(i64),
        DT::F32 => w!(f32),
        DT::F64 => w!(f64),
        _ => unreachable!(),
    }
}

/// Component-wise cast of a value; identity for equal types.
pub fn ref_convert(from: DT, to: DT, b: &[u8]) -> Vec<u8> {
    if from == to {
        return b.to_vec();
    }
    let (fs, n) = split_dt(from).unwrap();
    let (ts, m) = split_dt(to).unwrap();
    assert_eq!(n, m);
    let mut r = vec![];
    for i in 0..n {
        let k = ssize(fs);
        r.extend_from_slice(&write_num(ts, read_num(fs, &b[i * k..(i + 1) * k])));
    }
    r
}

// ------------------------------------------------------------------ reading a buffer back

pub fn sub_range(n: usize) -> Range<usize> {
    let a = dsim::work(n + 1);
    let b = a + dsim::work(n - a + 1);
    a..b
}

fn bad(path: &str, s: &Schema, i: usize, want: &[u8], got: &[u8]) -> ! {
    violate!(
        &format!("content/{}", path),
        "{}: value {} differs: expected {:02x?} got {:02x?} (layout {})",
        path,
        i,
        want,
        got,
        s.layout
    )
}

pub fn verify_points<'a: 'b, 'b, B: BorrowedBuffer<'a>>(b: &'b B, s: &Schema, m: &[Pt]) {
    ensure!(
        b.len() == m.len(),
        "length",
        "len() is {}, the points written are {}",
        b.len(),
        m.len()
    );
    ensure!(b.is_empty() == m.is_empty(), "length", "is_empty() is {} for {} points", b.is_empty(), m.len());
    let mut tmp = vec![0xA5u8; s.stride];
    for (i, p) in m.iter().enumerate() {
        b.get_point(i, &mut tmp);
        if !s.same(&tmp, p) {
            bad("get_point", s, i, p, &s.norm(&tmp));
        }
    }
}

pub const NPATHS: usize = 8;

/// Compare one access path (chosen by the caller) with the model.
pub fn verify_path<'a: 'b, 'b, B: BorrowedBuffer<'a> + 'a>(b: &'b B, s: &Schema, m: &[Pt], path: usize) {
    let n = m.len();
    match path {
        0 => {
            ensure!(*b.point_layout() == s.layout, "layout", "the buffer's layout changed");
            verify_points(b, s, m)
        }
        1 => {
            for r in [0..n, sub_range(n)] {
                let mut tmp = vec![0x5Au8; r.len() * s.stride];
                b.get_point_range(r.clone(), &mut tmp);
                for (k, i) in r.enumerate() {
                    let g = &tmp[k * s.stride..(k + 1) * s.stride];
                    if !s.same(g, &m[i]) {
                        bad("get_point_range", s, i, &m[i], &s.norm(g));
                    }
                }
            }
        }
        2 => {
            for (k, a) in s.attrs.iter().enumerate() {
                let mut tmp = vec![0x11u8; a.size];
                for (i, p) in m.iter().enumerate() {
                    b.get_attribute(&a.def, i, &mut tmp);
                    if tmp != s.attr_of(k, p) {
                        bad("get_attribute", s, i, s.attr_of(k, p), &tmp);
                    }
                    tmp.fill(0x22);
                    unsafe { b.get_attribute_unchecked(s.layout.at(k), i, &mut tmp) };
                    if tmp != s.attr_of(k, p) {
                        bad("get_attribute_unchecked", s, i, s.attr_of(k, p), &tmp);
                    }
                }
            }
        }
        3 => {
            for (k, a) in s.attrs.iter().enumerate() {
                let r = sub_range(n);
                let mut tmp = vec![0x33u8; a.size * r.len()];
                b.get_attribute_range(&a.def, r.clone(), &mut tmp);
                for (q, i) in r.enumerate() {
                    let g = &tmp[q * a.size..(q + 1) * a.size];
                    if g != s.attr_of(k, &m[i]) {
                        bad("get_attribute_range", s, i, s.attr_of(k, &m[i]), g);
                    }
                }
            }
        }
        4 => {
            for k in 0..s.attrs.len() {
                with_prim!(s.attrs[k].dt, T, verify_attr_typed::<B, T>(b, s, m, k), ());
            }
        }
        5 => {
            for k in 0..s.attrs.len() {
                let to = *dsim::pick(&ALL_PRIMS);
                let a = &s.attrs[k];
                if to == a.dt || convertible(a.dt, to) {
                    with_prim!(to, T, verify_attr_conv::<B, T>(b, s, m, k), ());
                }
            }
        }
        6 => {
            if let Some(ib) = b.as_interleaved() {
                verify_dyn_interleaved(ib, s, m);
            }
            if let Some(cb) = b.as_columnar() {
                verify_dyn_columnar(cb, s, m);
            }
        }
        _ => {
            if n > 0 {
                let i = dsim::work(n);
                let mut raw = vec![0u8; s.stride];
                b.get_point(i, &mut raw);
                verify_untyped(s, &mut raw, &m[i]);
            }
        }
    }
}

pub fn verify_all<'a: 'b, 'b, B: BorrowedBuffer<'a> + 'a>(b: &'b B, s: &Schema, m: &[Pt]) {
    for p in 0..NPATHS {
        verify_path(b, s, m, p);
    }
}

fn verify_attr_typed<'a: 'b, 'b, B: BorrowedBuffer<'a> + 'a, T: PrimitiveType>(
    b: &'b B,
    s: &Schema,
    m: &[Pt],
    k: usize,
) {
    let v = b.view_attribute::<T>(&s.attrs[k].def);
    for (i, p) in m.iter().enumerate() {
        let g = v.at(i);
        if of_t(&g) != s.attr_of(k, p) {
            bad("view_attribute.at", s, i, s.attr_of(k, p), &of_t(&g));
        }
    }
    let got: Vec<T> = v.into_iter().collect();
    ensure!(
        got.len() == m.len(),
        "content/view_attribute.iter",
        "iterating {} yields {} of {} values",
        s.attrs[k].def,
        got.len(),
        m.len()
    );
    for (i, p) in m.iter().enumerate() {
        if of_t(&got[i]) != s.attr_of(k, p) {
            bad("view_attribute.iter", s, i, s.attr_of(k, p), &of_t(&got[i]));
        }
    }
}

fn verify_attr_conv<'a: 'b, 'b, B: BorrowedBuffer<'a> + 'a, T: PrimitiveType>(
    b: &'b B,
    s: &Schema,
    m: &[Pt],
    k: usize,
) {
    let def = s.attrs[k].def.with_custom_datatype(T::data_type());
    let v = match b.view_attribute_with_conversion::<T>(&def) {
        Ok(v) => v,
        Err(e) => violate!("content/view_attribute_with_conversion", "{} -> {}: {}", s.attrs[k].def, def, e),
    };
    for (i, p) in m.iter().enumerate() {
        let want = ref_convert(s.attrs[k].dt, T::data_type(), s.attr_of(k, p));
        let g = of_t(&v.at(i));
        if g != want {
            bad("view_attribute_with_conversion.at", s, i, &want, &g);
        }
    }
    let mut n = 0;
    for (i, g) in v.into_iter().enumerate() {
        ensure!(i < m.len(), "content/view_attribute_with_conversion.iter", "too many values");
        let want = ref_convert(s.attrs[k].dt, T::data_type(), s.attr_of(k, &m[i]));
        if of_t(&g) != want {
            bad("view_attribute_with_conversion.iter", s, i, &want, &of_t(&g));
        }
        n += 1;
    }
    ensure!(n == m.len(), "content/view_attribute_with_conversion.iter", "{} of {} values", n, m.len());
}

fn verify_dyn_interleaved<'a>(b: &dyn InterleavedBuffer<'a>, s: &Schema, m: &[Pt]) {
    for (i, p) in m.iter().enumerate() {
        let g = b.get_point_ref(i);
        if g.len() != s.stride || !s.same(g, p) {
            bad("get_point_ref", s, i, p, g);
        }
    }
    let r = sub_range(m.len());
    let g = b.get_point_range_ref(r.clone());
    ensure!(g.len() == r.len() * s.stride, "content/get_point_range_ref", "wrong length {}", g.len());
    for (q, i) in r.enumerate() {
        let g = &g[q * s.stride..(q + 1) * s.stride];
        if !s.same(g, &m[i]) {
            bad("get_point_range_ref", s, i, &m[i], g);
        }
    }
    for k in 0..s.attrs.len() {
        let v = b.view_raw_attribute(s.layout.at(k));
        ensure!(
            v.len() == m.len() && v.is_empty() == m.is_empty(),
            "content/view_raw_attribute",
            "raw view has length {}",
            v.len()
        );
        for (i, p) in m.iter().enumerate() {
            if &v[i] != s.attr_of(k, p) {
                bad("view_raw_attribute", s, i, s.attr_of(k, p), &v[i]);
            }
        }
    }
}

fn verify_dyn_columnar<'a>(b: &dyn ColumnarBuffer<'a>, s: &Schema, m: &[Pt]) {
    for (k, a) in s.attrs.iter().enumerate() {
        for (i, p) in m.iter().enumerate() {
            let g = b.get_attribute_ref(&a.def, i);
            if g != s.attr_of(k, p) {
                bad("get_attribute_ref", s, i, s.attr_of(k, p), g);
            }
        }
        let r = sub_range(m.len());
        let g = b.get_attribute_range_ref(&a.def, r.clone());
        ensure!(g.len() == r.len() * a.size, "content/get_attribute_range_ref", "wrong length {}", g.len());
        for (q, i) in r.enumerate() {
            let g = &g[q * a.size..(q + 1) * a.size];
            if g != s.attr_of(k, &m[i]) {
                bad("get_attribute_range_ref", s, i, s.attr_of(k, &m[i]), g);
            }
        }
        let v = b.view_raw_attribute(s.layout.at(k));
        ensure!(
            v.len() == m.len() && v.is_empty() == m.is_empty(),
            "content/view_raw_attribute",
            "raw view has length {}",
            v.len()
        );
        for (i, p) in m.iter().enumerate() {
            if &v[i] != s.attr_of(k, p) {
                bad("view_raw_attribute", s, i, s.attr_of(k, p), &v[i]);
            }
        }
    }
}

pub fn verify_untyped(s: &Schema, raw: &mut [u8], p: &Pt) {
    let mut up = UntypedPointBuffer::new(&s.layout);
    for (k, a) in s.attrs.iter().enumerate() {
        if up.set_raw_attribute(&a.def, s.attr_of(k, p)).is_err() {
            violate!("content/untyped", "set_raw_attribute({}) failed", a.def);
        }
    }
    if !s.same(up.get_buffer(), p) {
        bad("untyped.set_raw_attribute", s, 0, p, up.get_buffer());
    }
    let want_k = dsim::work(s.attrs.len().max(1));
    if s.attrs.is_empty() {
        return;
    }
    let a = &s.attrs[want_k];
    {
        let sl = UntypedPointSlice::new(&s.layout, raw);
        for (k, a) in s.attrs.iter().enumerate() {
            match sl.get_raw_attribute(&a.def) {
                Ok(g) if g == s.attr_of(k, p) => {}
                Ok(g) => bad("untyped.get_raw_attribute", s, 0, s.attr_of(k, p), g),
                Err(e) => violate!("content/untyped", "get_raw_attribute({}): {}", a.def, e),
            }
        }
        with_prim!(
            a.dt,
            T,
            {
                let g = sl.get_attribute::<T>(&a.def).map(|t| of_t(&t));
                match g {
                    Ok(g) if g == s.attr_of(want_k, p) => {}
                    Ok(g) => bad("untyped.get_attribute", s, 0, s.attr_of(want_k, p), &g),
                    Err(e) => violate!("content/untyped", "get_attribute({}): {}", a.def, e),
                }
                let g = up.get_attribute::<T>(&a.def).map(|t| of_t(&t)).unwrap_or_default();
                if g != s.attr_of(want_k, p) {
                    bad("untyped.get_attribute", s, 0, s.attr_of(want_k, p), &g);
                }
            },
            ()
        );
        // converting access
        let to = *dsim::pick(&ALL_PRIMS);
        if convertible(a.dt, to) {
            with_prim!(
                to,
                T,
                {
                    let want = ref_convert(a.dt, to, s.attr_of(want_k, p));
                    for g in [sl.get_attribute::<T>(&a.def), up.get_attribute::<T>(&a.def)] {
                        match g {
                            Ok(g) if of_t(&g) == want => {}
                            Ok(g) => bad("untyped.get_attribute(converting)", s, 0, &want, &of_t(&g)),
                            Err(e) => violate!("content/untyped", "get_attribute({} as {}): {}", a.def, to, e),
                        }
                    }
                },
                ()
            );
        }
    }
    // a slice too short for an attribute, or an attribute it does not have: refused without effect
    if dsim::work(4) == 0 {
        let short = a.off + dsim::work(a.size);
        let missing = dsim::work(3) == 0;
        let def = if missing {
            PointAttributeDefinition::custom(std::borrow::Cow::Borrowed("not there"), a.dt)
        } else {
            a.def.clone()
        };
        let mut bytes = raw[..if missing { raw.len() } else { short }].to_vec();
        let before = bytes.clone();
        let v = vec![0x5A; a.size];
        let op = dsim::work(5);
        let r = catch(|| {
            let mut sl = UntypedPointSlice::new(&s.layout, &mut bytes);
            match op {
                0 => sl.get_raw_attribute(&def).is_ok(),
                1 => sl.get_raw_attribute_mut(&def).is_ok(),
                2 => sl.set_raw_attribute(&def, &v).is_ok(),
                3 => with_prim!(a.dt, T, sl.get_attribute::<T>(&def).is_ok(), false),
                _ => with_prim!(a.dt, T, sl.set_attribute::<T>(&def, &to_t::<T>(&v)).is_ok(), false),
            }
        });
        ensure!(
            r != Ok(true),
            "content/untyped",
            "operation {} on {} was accepted by an untyped point of {} bytes (attribute at {}, missing: {})",
            op,
            def,
            before.len(),
            a.off,
            missing
        );
        ensure!(bytes == before, "content/untyped", "a refused operation {} on {} changed the point", op, def);
    }
    // writes through an untyped slice change exactly one attribute
    let seed = dsim::bits();
    let from = if dsim::work(2) == 0 { a.dt } else { *dsim::pick(&ALL_PRIMS) };
    if is_prim(from) && is_prim(a.dt) && (from == a.dt || convertible(from, a.dt)) {
        let v = gen_value(from, from.size() as usize, seed);
        let mut want = p.clone();
        s.set_attr(want_k, &mut want, &ref_convert(from, a.dt, &v));
        let mut sl = UntypedPointSlice::new(&s.layout, raw);
        with_prim!(
            from,
            T,
            {
                let t: T = to_t(&v);
                if sl.set_attribute(&a.def, &t).is_err() || up.set_attribute(&a.def, &t).is_err() {
                    violate!("content/untyped", "set_attribute({} from {}) failed", a.def, from);
                }
            },
            ()
        );
        if !s.same(sl.get_buffer(), &want) {
            bad("untyped.set_attribute", s, 0, &want, sl.get_buffer());
        }
        if !s.same(up.get_buffer(), &want) {
            bad("untyped.set_attribute", s, 0, &want, up.get_buffer());
        }
        // leave `raw` as it was
        raw.copy_from_slice(p);
        let mut sl = UntypedPointSlice::new(&s.layout, raw);
        match sl.get_raw_attribute_mut(&a.def) {
            Ok(g) => g.fill(0xEE),
            Err(e) => violate!("content/untyped", "get_raw_attribute_mut: {}", e),
        }
        let mut want = p.clone();
        s.set_attr(want_k, &mut want, &vec![0xEE; a.size]);
        if !s.same(sl.get_buffer(), &want) {
            bad("untyped.get_raw_attribute_mut", s, 0, &want, sl.get_buffer());
        }
    }
}

/// Reference access with a static point type.
pub fn verify_typed<'a: 'b, 'b, B: BorrowedBuffer<'a> + 'a, T: PointType + PartialEq>(b: &'b B, s: &Schema, m: &[Pt]) {
    let v = b.view::<T>();
    for (i, p) in m.iter().enumerate() {
        let g = v.at(i);
        if bytemuck::bytes_of(&g) != p.as_slice() {
            bad("view.at", s, i, p, bytemuck::bytes_of(&g));
        }
    }
    let mut n = 0;
    for (i, g) in v.into_iter().enumerate() {
        ensure!(i < m.len(), "content/view.into_iter", "too many points");
        if bytemuck::bytes_of(&g) != m[i].as_slice() {
            bad("view.into_iter", s, i, &m[i], bytemuck::bytes_of(&g));
        }
        n += 1;
    }
    ensure!(n == m.len(), "content/view.into_iter", "{} of {} points", n, m.len());
}

pub fn verify_typed_ref<'a: 'b, 'b, B: InterleavedBuffer<'a> + 'a, T: PointType>(b: &'b B, s: &Schema, m: &[Pt]) {
    let v = b.view::<T>();
    for (i, p) in m.iter().enumerate() {
        let g = v.at_ref(i);
        if bytemuck::bytes_of(g) != p.as_slice() {
            bad("view.at_ref", s, i, p, bytemuck::bytes_of(g));
        }
    }
    let mut n = 0;
    for (i, g) in v.iter().enumerate() {
        ensure!(i < m.len(), "content/view.iter", "too many points");
        if bytemuck::bytes_of(g) != m[i].as_slice() {
            bad("view.iter", s, i, &m[i], bytemuck::bytes_of(g));
        }
        n += 1;
    }
    ensure!(n == m.len(), "content/view.iter", "{} of {} points", n, m.len());
}

pub fn verify_attr_ref<'a: 'b, 'b, B: ColumnarBuffer<'a> + 'a, T: PrimitiveType>(
    b: &'b B,
    s: &Schema,
    m: &[Pt],
    k: usize,
) {
    let v = b.view_attribute::<T>(&s.attrs[k].def);
    for (i, p) in m.iter().enumerate() {
        let g = v.at_ref(i);
        if of_t(g) != s.attr_of(k, p) {
            bad("view_attribute.at_ref", s, i, s.attr_of(k, p), &of_t(g));
        }
    }
    let mut n = 0;
    for (i, g) in v.iter().enumerate() {
        ensure!(i < m.len(), "content/view_attribute.iter_ref", "too many values");
        if of_t(g) != s.attr_of(k, &m[i]) {
            bad("view_attribute.iter_ref", s, i, s.attr_of(k, &m[i]), &of_t(g));
        }
        n += 1;
    }
    ensure!(n == m.len(), "content/view_attribute.iter_ref", "{} of {} values", n, m.len());
}

/// What the buffer holds now, read point by point.
pub fn snapshot<'a: 'b, 'b, B: BorrowedBuffer<'a>>(b: &'b B, s: &Schema) -> Vec<Pt> {
    let mut r = vec![];
    let mut tmp = vec![0u8; s.stride];
    for i in 0..b.len() {
        b.get_point(i, &mut tmp);
        r.push(s.norm(&tmp));
    }
    r
}

pub fn describe(s: &Schema) {
    ev!(
        "layout: {} attributes, {} bytes: {}",
        s.attrs.len(),
        s.stride,
        s.attrs
            .iter()
            .map(|a| format!("{}@{}", a.def, a.off))
            .collect::<Vec<_>>()
            .join(" ")
    );
}
