//! Operations on buffers, applied to the real buffer and to the list-of-points model.

use crate::common::*;
use crate::{with_prim, with_type};
use dsim::{count, ensure, ev};
use pasture_core::containers::*;
use pasture_core::layout::*;

pub enum Buf {
    V(VectorBuffer),
    H(HashMapBuffer),
    E(ExternalMemoryBuffer<Vec<u8>>),
    M(ExternalMemoryBuffer<&'static mut [u8]>),
}

#[macro_export]
macro_rules! with_buf {
    ($b:expr, $x:ident => $e:expr) => {
        match $b {
            $crate::ops::Buf::V($x) => $e,
            $crate::ops::Buf::H($x) => $e,
            $crate::ops::Buf::E($x) => $e,
            $crate::ops::Buf::M($x) => $e,
        }
    };
}

impl Buf {
    pub fn kind(&self) -> &'static str {
        match self {
            Buf::V(_) => "VectorBuffer",
            Buf::H(_) => "HashMapBuffer",
            Buf::E(_) => "ExternalMemoryBuffer<Vec>",
            Buf::M(_) => "ExternalMemoryBuffer<&mut [u8]>",
        }
    }
    pub fn owning(&self) -> bool {
        matches!(self, Buf::V(_) | Buf::H(_))
    }
}

/// Was the one giant number of points of this run used already?
static GIANT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static SCALE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

/// Decide how large the buffers of this run are.
pub fn choose_scale() {
    let k = match dsim::work(768) {
        0..=583 => 0,
        584..=731 => 1,
        732..=764 => 2,
        _ => 3,
    };
    SCALE.store(k, std::sync::atomic::Ordering::Relaxed);
}

/// As above; a few of the huge runs have buffers of more points than fit into 16 bits.
pub fn choose_scale_up() {
    choose_scale();
    if huge() && dsim::work(8) == 7 {
        SCALE.store(4, std::sync::atomic::Ordering::Relaxed);
    }
}
pub fn max_points() -> usize {
    [40, 260, 1500, 20000, 140_000][SCALE.load(std::sync::atomic::Ordering::Relaxed)]
}

/// Buffers of thousands of points.
pub fn huge() -> bool {
    SCALE.load(std::sync::atomic::Ordering::Relaxed) >= 3
}

pub fn max_ops() -> u64 {
    [60, 30, 8, 3, 2][SCALE.load(std::sync::atomic::Ordering::Relaxed)]
}

/// A number of points: mostly small, sometimes around powers of two, rarely large.
pub fn count_points() -> usize {
    let scale = SCALE.load(std::sync::atomic::Ordering::Relaxed);
    if scale == 4 && !GIANT.swap(true, std::sync::atomic::Ordering::Relaxed) {
        return [65_535, 65_536, 65_537, 65_540, 66_000, 70_000][dsim::work(6)];
    }
    match (scale, dsim::work(16)) {
        (3, 8..) => [2047, 2048, 2049, 4096, 4097, 4100, 5000, 6000][dsim::work(8)],
        (2, 9..) => [127, 128, 129, 255, 256, 257, 300, 511, 513, 1000, 1024, 1025][dsim::work(12)],
        (_, 0..=10) => dsim::work(6),
        (_, 11 | 12) => dsim::work(12),
        (0, _) => [7, 8, 9, 15, 16, 17][dsim::work(6)],
        (_, 13) => dsim::work(40),
        (1, _) => [31, 32, 33, 63, 64, 65][dsim::work(6)],
        _ => 64 + dsim::work(64),
    }
}

pub fn leak_misaligned(data: &[u8], shift: usize) -> &'static mut [u8] {
    let mut v = vec![0u8; data.len() + shift];
    v[shift..].copy_from_slice(data);
    let l: &'static mut [u8] = Box::leak(v.into_boxed_slice());
    &mut l[shift..]
}

/// A buffer of kind `k` holding the points in `raw`.
pub fn make(k: usize, s: &Schema, raw: &[u8]) -> Buf {
    let k = if s.stride == 0 { k % 2 } else { k % 4 };
    match k {
        0 => {
            let mut b = if dsim::work(2) == 0 {
                VectorBuffer::new_from_layout(s.layout.clone())
            } else {
                VectorBuffer::with_capacity(dsim::work(8), s.layout.clone())
            };
            unsafe { b.push_points(raw) };
            Buf::V(b)
        }
        1 => {
            let mut b = if dsim::work(2) == 0 {
                HashMapBuffer::new_from_layout(s.layout.clone())
            } else {
                HashMapBuffer::with_capacity(dsim::work(8), s.layout.clone())
            };
            unsafe { b.push_points(raw) };
            Buf::H(b)
        }
        2 => Buf::E(ExternalMemoryBuffer::new(raw.to_vec(), s.layout.clone())),
        _ => Buf::M(ExternalMemoryBuffer::new(
            leak_misaligned(raw, dsim::work(8)),
            s.layout.clone(),
        )),
    }
}

pub fn new_value(s: &Schema, k: usize, seed: u64, idx: usize, old: &[u8]) -> Vec<u8> {
    let mut h = seed ^ (idx as u64).wrapping_mul(0x9E37_79B9);
    for b in old {
        h = mixh(h ^ *b as u64);
    }
    s.value(k, h)
}

pub const NMUT: usize = 9;

/// One in-place modification, available on every mutable buffer and slice.
pub fn mutate<'a: 'b, 'b, B: BorrowedMutBuffer<'a> + 'a>(b: &'b mut B, s: &Schema, m: &mut [Pt], op: usize) {
    let n = m.len();
    let na = s.attrs.len();
    match op {
        0 if n > 0 => {
            count("op.set_point");
            let i = dsim::work(n);
            let p = s.points(1);
            ev!("set_point {}", i);
            unsafe { b.set_point(i, &p) };
            m[i] = s.norm(&p);
        }
        1 => {
            count("op.set_point_range");
            let r = sub_range(n);
            let p = s.points(r.len());
            ev!("set_point_range {:?}", r);
            unsafe { b.set_point_range(r.clone(), &p) };
            for (q, i) in r.enumerate() {
                m[i] = s.norm(&p[q * s.stride..(q + 1) * s.stride]);
            }
        }
        2 if n > 0 && na > 0 => {
            count("op.set_attribute");
            let (i, k) = (dsim::work(n), dsim::work(na));
            let v = s.value(k, dsim::bits());
            ev!("set_attribute {} of {}", s.attrs[k].def, i);
            unsafe { b.set_attribute(&s.attrs[k].def, i, &v) };
            s.set_attr(k, &mut m[i], &v);
        }
        3 if na > 0 => {
            count("op.set_attribute_range");
            let k = dsim::work(na);
            let r = sub_range(n);
            let seed = dsim::bits();
            let mut data = vec![];
            for i in r.clone() {
                data.extend_from_slice(&s.value(k, mixh(seed).wrapping_add(i as u64)));
            }
            ev!("set_attribute_range {} {:?}", s.attrs[k].def, r);
            unsafe { b.set_attribute_range(&s.attrs[k].def, r.clone(), &data) };
            let sz = s.attrs[k].size;
            for (q, i) in r.enumerate() {
                s.set_attr(k, &mut m[i], &data[q * sz..(q + 1) * sz]);
            }
        }
        4 if n > 0 => {
            count("op.swap");
            let (i, j) = (dsim::work(n), dsim::work(n));
            ev!("swap {} {}", i, j);
            b.swap(i, j);
            m.swap(i, j);
        }
        5 if na > 0 => {
            let k = dsim::work(na);
            if is_prim(s.attrs[k].dt) {
                count("op.transform_attribute");
                let seed = dsim::bits();
                ev!("transform_attribute {}", s.attrs[k].def);
                with_prim!(
                    s.attrs[k].dt,
                    T,
                    b.transform_attribute::<T, _>(&s.attrs[k].def, |i, t| to_t::<T>(&new_value(
                        s,
                        k,
                        seed,
                        i,
                        &of_t(&t)
                    ))),
                    ()
                );
                for (i, p) in m.iter_mut().enumerate() {
                    let v = new_value(s, k, seed, i, s.attr_of(k, p));
                    s.set_attr(k, p, &v);
                }
            }
        }
        6 if na > 0 && n > 0 => {
            let k = dsim::work(na);
            if is_prim(s.attrs[k].dt) {
                count("op.view_attribute_mut");
                let seed = dsim::bits();
                let idx: Vec<usize> = (0..1 + dsim::work(3)).map(|_| dsim::work(n)).collect();
                ev!("view_attribute_mut({}).set_at {:?}", s.attrs[k].def, idx);
                with_prim!(
                    s.attrs[k].dt,
                    T,
                    {
                        let mut v = b.view_attribute_mut::<T>(&s.attrs[k].def);
                        for (q, &i) in idx.iter().enumerate() {
                            let old = of_t(&v.at(i));
                            ensure!(
                                old == s.attr_of(k, &m[i]),
                                "content/view_attribute_mut.at",
                                "view_attribute_mut.at({}) is {:x?}, expected {:x?}",
                                i,
                                old,
                                s.attr_of(k, &m[i])
                            );
                            let new = new_value(s, k, seed, q, &old);
                            v.set_at(i, to_t::<T>(&new));
                            s.set_attr(k, &mut m[i], &new);
                        }
                    },
                    ()
                );
            }
        }
        7 => mutate_dyn(b, s, m),
        8 => {
            if let (Some(ty), true) = (s.ty, n > 0) {
                count("op.view_mut");
                let i = dsim::work(n);
                let p = s.points(1);
                ev!("view_mut.set_at {}", i);
                with_type!(ty, T, {
                    let mut v = b.view_mut::<T>();
                    let old = v.at(i);
                    ensure!(
                        bytemuck::bytes_of(&old) == m[i].as_slice(),
                        "content/view_mut.at",
                        "view_mut.at({}) differs",
                        i
                    );
                    v.set_at(i, bytemuck::pod_read_unaligned::<T>(&p));
                });
                m[i] = s.norm(&p);
            }
        }
        _ => {}
    }
}

fn mutate_dyn<'a: 'b, 'b, B: BorrowedMutBuffer<'a> + 'a>(b: &'b mut B, s: &Schema, m: &mut [Pt]) {
    let n = m.len();
    let na = s.attrs.len();
    if na == 0 {
        return;
    }
    let which = dsim::work(3);
    let k = dsim::work(na);
    let a = &s.attrs[k];
    if let Some(ib) = b.as_interleaved_mut() {
        match which {
            0 if n > 0 => {
                count("op.get_point_mut");
                let i = dsim::work(n);
                let p = s.points(1);
                ev!("get_point_mut {}", i);
                let g = ib.get_point_mut(i);
                ensure!(s.same(g, &m[i]), "content/get_point_mut", "get_point_mut({}) differs", i);
                g.copy_from_slice(&p);
                m[i] = s.norm(&p);
            }
            1 => {
                count("op.get_point_range_mut");
                let r = sub_range(n);
                let p = s.points(r.len());
                ev!("get_point_range_mut {:?}", r);
                let g = ib.get_point_range_mut(r.clone());
                ensure!(g.len() == p.len(), "content/get_point_range_mut", "wrong length {}", g.len());
                g.copy_from_slice(&p);
                for (q, i) in r.enumerate() {
                    m[i] = s.norm(&p[q * s.stride..(q + 1) * s.stride]);
                }
            }
            _ if n > 0 => {
                count("op.view_raw_attribute_mut");
                let i = dsim::work(n);
                let v = s.value(k, dsim::bits());
                ev!("view_raw_attribute_mut({}) {}", a.def, i);
                let mut g = ib.view_raw_attribute_mut(s.layout.at(k));
                ensure!(
                    &g[i] == s.attr_of(k, &m[i]),
                    "content/view_raw_attribute_mut",
                    "raw mutable view differs at {}",
                    i
                );
                g[i].copy_from_slice(&v);
                s.set_attr(k, &mut m[i], &v);
            }
            _ => {}
        }
    } else if let Some(cb) = b.as_columnar_mut() {
        match which {
            0 if n > 0 => {
                count("op.get_attribute_mut");
                let i = dsim::work(n);
                let v = s.value(k, dsim::bits());
                ev!("get_attribute_mut {} {}", a.def, i);
                let g = cb.get_attribute_mut(&a.def, i);
                ensure!(
                    g == s.attr_of(k, &m[i]),
                    "content/get_attribute_mut",
                    "get_attribute_mut({}) differs",
                    i
                );
                g.copy_from_slice(&v);
                s.set_attr(k, &mut m[i], &v);
            }
            1 => {
                count("op.get_attribute_range_mut");
                let r = sub_range(n);
                let seed = dsim::bits();
                ev!("get_attribute_range_mut {} {:?}", a.def, r);
                let g = cb.get_attribute_range_mut(&a.def, r.clone());
                ensure!(
                    g.len() == r.len() * a.size,
                    "content/get_attribute_range_mut",
                    "wrong length {}",
                    g.len()
                );
                for (q, i) in r.enumerate() {
                    let v = s.value(k, mixh(seed).wrapping_add(q as u64));
                    g[q * a.size..(q + 1) * a.size].copy_from_slice(&v);
                    s.set_attr(k, &mut m[i], &v);
                }
            }
            _ if n > 0 => {
                count("op.view_raw_attribute_mut");
                let i = dsim::work(n);
                let v = s.value(k, dsim::bits());
                ev!("view_raw_attribute_mut({}) {}", a.def, i);
                let mut g = cb.view_raw_attribute_mut(s.layout.at(k));
                ensure!(
                    &g[i] == s.attr_of(k, &m[i]),
                    "content/view_raw_attribute_mut",
                    "raw mutable view differs at {}",
                    i
                );
                g[i].copy_from_slice(&v);
                s.set_attr(k, &mut m[i], &v);
            }
            _ => {}
        }
    }
}

/// Typed by-reference modification of an interleaved buffer or slice.
pub fn mutate_inter<'a: 'b, 'b, B: InterleavedBufferMut<'a> + 'a>(b: &'b mut B, s: &Schema, m: &mut [Pt]) {
    let n = m.len();
    let Some(ty) = s.ty else { return };
    with_type!(ty, T, {
        let mut v = b.view_mut::<T>();
        match dsim::work(3) {
            0 if n > 0 => {
                count("op.view_mut.at_mut");
                let i = dsim::work(n);
                let p = s.points(1);
                ev!("view_mut.at_mut {}", i);
                *v.at_mut(i) = bytemuck::pod_read_unaligned::<T>(&p);
                ensure!(
                    bytemuck::bytes_of(v.at_ref(i)) == p.as_slice(),
                    "content/view_mut.at_ref",
                    "at_ref({}) differs after at_mut",
                    i
                );
                m[i] = s.norm(&p);
            }
            1 => {
                count("op.view_mut.iter_mut");
                ev!("view_mut.iter_mut");
                let seed = dsim::bits();
                let step = 1 + dsim::work(3);
                for (i, t) in v.iter_mut().enumerate() {
                    if i % step == 0 {
                        let p = s.point(mixh(seed ^ i as u64));
                        *t = bytemuck::pod_read_unaligned::<T>(&p);
                        m[i] = s.norm(&p);
                    }
                }
                let g: Vec<Vec<u8>> = v.iter().map(|t| bytemuck::bytes_of(t).to_vec()).collect();
                ensure!(g == m, "content/view_mut.iter", "iter() differs after iter_mut()");
            }
            _ => {
                count("op.sort_by");
                let k = dsim::work(s.stride);
                ev!("sort_by byte {}", k);
                v.sort_by(|x, y| bytemuck::bytes_of(x)[k].cmp(&bytemuck::bytes_of(y)[k]));
                m.sort_by(|x, y| x[k].cmp(&y[k]));
            }
        }
    });
}

/// Typed by-reference modification of a columnar buffer or slice.
pub fn mutate_col<'a: 'b, 'b, B: ColumnarBufferMut<'a> + 'a>(b: &'b mut B, s: &Schema, m: &mut [Pt]) {
    let n = m.len();
    if s.attrs.is_empty() {
        return;
    }
    let k = dsim::work(s.attrs.len());
    if !is_prim(s.attrs[k].dt) {
        return;
    }
    let seed = dsim::bits();
    let which = dsim::work(2);
    with_prim!(
        s.attrs[k].dt,
        T,
        {
            let mut v = b.view_attribute_mut::<T>(&s.attrs[k].def);
            if which == 0 {
                if n > 0 {
                    count("op.view_attribute_mut.at_mut");
                    let i = dsim::work(n);
                    let new = s.value(k, seed);
                    ensure!(
                        of_t(v.at_ref(i)) == s.attr_of(k, &m[i]),
                        "content/view_attribute_mut.at_ref",
                        "at_ref({}) differs",
                        i
                    );
                    ev!("view_attribute_mut({}).at_mut {}", s.attrs[k].def, i);
                    *v.at_mut(i) = to_t::<T>(&new);
                    s.set_attr(k, &mut m[i], &new);
                }
            } else {
                count("op.view_attribute_mut.iter_mut");
                ev!("view_attribute_mut({}).iter_mut", s.attrs[k].def);
                let mut got = 0;
                for (i, t) in v.iter_mut().enumerate() {
                    ensure!(i < n, "content/view_attribute_mut.iter_mut", "too many values");
                    let new = new_value(s, k, seed, i, &of_t(t));
                    *t = to_t::<T>(&new);
                    let want = new_value(s, k, seed, i, s.attr_of(k, &m[i]));
                    s.set_attr(k, &mut m[i], &want);
                    got += 1;
                }
                ensure!(got == n, "content/view_attribute_mut.iter_mut", "{} of {} values", got, n);
            }
        },
        ()
    );
}

/// Growing and shrinking operations of owning buffers.
pub fn grow<B>(b: &mut B, s: &Schema, m: &mut Vec<Pt>, others: &[(Buf, Vec<Pt>)])
where
    B: for<'x> OwningBuffer<'x> + 'static,
{
    match if huge() && dsim::work(3) > 0 { 8 } else { dsim::work(9) } {
        0 | 1 => {
            count("op.push_points");
            let n = if s.stride == 0 || m.len() > max_points() { 0 } else { count_points() };
            let p = s.points(n);
            ev!("push_points {}", n);
            unsafe { b.push_points(&p) };
            m.extend(s.split(&p));
        }
        2 => {
            count("op.resize");
            let n = if dsim::work(3) == 0 || m.len() > max_points() { dsim::work(m.len() + 1) } else { m.len() + count_points() };
            ev!("resize {}", n);
            b.resize(n);
            m.resize(n, s.zero());
        }
        3 => {
            if dsim::work(3) == 0 {
                count("op.clear");
                ev!("clear");
                b.clear();
                m.clear();
            }
        }
        4 => {
            if let Some(ty) = s.ty {
                count("op.view_mut.push_point");
                let p = s.points(1 + dsim::work(3));
                ev!("view_mut.push_point x{}", p.len() / s.stride);
                with_type!(ty, T, {
                    let mut v = b.view_mut::<T>();
                    for c in p.chunks_exact(s.stride) {
                        v.push_point(bytemuck::pod_read_unaligned::<T>(c));
                    }
                });
                m.extend(s.split(&p));
            }
        }
        _ => {
            if others.is_empty() {
                return;
            }
            let (o, om) = &others[dsim::work(others.len())];
            if m.len() + om.len() > max_points() {
                return;
            }
            let whole = dsim::work(2) == 0;
            let r = if whole { 0..om.len() } else { sub_range(om.len()) };
            let special = dsim::work(2) == 1;
            ev!("append {} {:?} (specialised {})", o.kind(), r, special);
            match (o, whole, special) {
                (Buf::V(x), true, false) => b.append(x),
                (Buf::V(x), true, true) => b.append_interleaved(x),
                (Buf::V(x), false, false) => b.append(&x.slice(r.clone())),
                (Buf::V(x), false, true) => b.append_interleaved(&x.slice(r.clone())),
                (Buf::H(x), true, false) => b.append(x),
                (Buf::H(x), true, true) => b.append_columnar(x),
                (Buf::H(x), false, false) => b.append(&x.slice(r.clone())),
                (Buf::H(x), false, true) => b.append_columnar(&x.slice(r.clone())),
                (Buf::E(x), true, false) => b.append(x),
                (Buf::E(x), true, true) => b.append_interleaved(x),
                (Buf::E(x), false, false) => b.append(&x.slice(r.clone())),
                (Buf::E(x), false, true) => b.append_interleaved(&x.slice(r.clone())),
                (Buf::M(x), true, false) => b.append(x),
                (Buf::M(x), true, true) => b.append_interleaved(x),
                (Buf::M(x), false, false) => b.append(&x.slice(r.clone())),
                (Buf::M(x), false, true) => b.append_interleaved(&x.slice(r.clone())),
            }
            count(match (o, special) {
                (_, false) => "op.append",
                (Buf::H(_), true) => "op.append_columnar",
                _ => "op.append_interleaved",
            });
            m.extend_from_slice(&om[r]);
        }
    }
}
