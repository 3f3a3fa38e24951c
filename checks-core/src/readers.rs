//! C08: concurrent readers get the answers a lone reader would get.

use crate::common::*;
use crate::ops::*;
use crate::ransac::{check_found, cloud, positions, Cloud, Which};
use crate::{with_buf, with_prim};
use dsim::{catch, count, ensure, ev, nontrivial, sig, violate, Stopped};
use pasture_algorithms::{bounds::*, convexhull::*, minmax::*, normal_estimation::*, voxel_grid::*};
use pasture_core::containers::*;
use pasture_core::layout::attributes::*;
use pasture_core::layout::conversion::*;
use pasture_core::layout::*;
use pasture_core::nalgebra::{Vector3, Vector4};
use std::fmt::Write;

#[derive(PointType, Copy, Clone, Debug, bytemuck::AnyBitPattern, bytemuck::NoUninit)]
#[repr(C)]
pub struct Kd {
    #[pasture(BUILTIN_POSITION_3D)]
    pub p: Vector3<f64>,
}
use pasture_derive::PointType;
impl kd_tree::KdPoint for Kd {
    type Scalar = f64;
    type Dim = typenum::U3;
    fn at(&self, k: usize) -> f64 {
        self.p[k]
    }
}

struct Shared {
    s: Schema,
    m: Vec<Pt>,
    b: Buf,
    /// positions are f64 vectors, so that the analyses apply
    positions: bool,
    /// and in general position
    general: bool,
}

/// Random choices of one call; the call can be repeated with the same choices.
struct R(u64);
impl R {
    fn below(&mut self, n: usize) -> usize {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        (mixh(self.0) % n.max(1) as u64) as usize
    }
    fn range(&mut self, n: usize) -> std::ops::Range<usize> {
        let a = self.below(n + 1);
        let b = a + self.below(n - a + 1);
        a..b
    }
}

fn bytes<'a: 'b, 'b, B: BorrowedBuffer<'a>>(b: &'b B, s: &Schema) -> String {
    let mut o = format!("{}:", b.len());
    for p in snapshot(b, s) {
        let _ = write!(o, "{:02x?}", p);
    }
    o
}

const NOPS: usize = 16;

/// One call on the shared state; returns everything it said.
fn op(k: usize, seed: u64, w: &[Shared], conv: &[(usize, Schema, RawPointConverter)]) -> String {
    let mut r = R(seed);
    let x = &w[r.below(w.len())];
    let (s, n) = (&x.s, x.m.len());
    let mut o = String::new();
    match k {
        // every access path, compared with the points written
        0 | 1 => {
            let path = r.below(NPATHS);
            with_buf!(&x.b, b => verify_path(b, s, &x.m, path));
        }
        // layout conversion, with a converter of its own
        2 | 3 => {
            let t = &conv[r.below(conv.len())].1;
            let into = r.below(2);
            let how = r.below(2);
            let c = if how == 0 {
                BufferLayoutConverter::for_layouts(&s.layout, &t.layout)
            } else {
                BufferLayoutConverter::for_layouts_with_default(&s.layout, &t.layout)
            };
            if into == 0 {
                let v = with_buf!(&x.b, b => c.convert::<VectorBuffer, _>(b));
                o += &bytes(&v, t);
            } else {
                let v = with_buf!(&x.b, b => c.convert::<HashMapBuffer, _>(b));
                o += &bytes(&v, t);
            }
        }
        // a conversion with a transformation, which may fail
        4 => {
            let t = Schema::of(s.layout.clone(), s.ty);
            let mut c = BufferLayoutConverter::for_layouts(&s.layout, &t.layout);
            let i = r.below(s.attrs.len());
            let dt = s.attrs[i].dt;
            let sd = r.0;
            let fuse = std::cell::Cell::new(if r.below(3) == 0 { r.below(n + 1) } else { usize::MAX });
            with_prim!(
                dt,
                T,
                c.set_custom_mapping_with_transformation::<T, _>(
                    &s.attrs[i].def,
                    &s.attrs[i].def,
                    move |v: T| {
                        if fuse.get() == 0 {
                            dsim::inject_panic();
                        }
                        fuse.set(fuse.get().wrapping_sub(1));
                        let old = of_t(&v);
                        let mut h = sd;
                        for b in &old {
                            h = mixh(h ^ *b as u64);
                        }
                        to_t::<T>(&gen_value(dt, old.len(), h))
                    },
                    true
                ),
                ()
            );
            let v = with_buf!(&x.b, b => c.convert::<HashMapBuffer, _>(b));
            o += &bytes(&v, &t);
        }
        // raw conversion with a shared converter
        5 => {
            let (from, t, c) = &conv[r.below(conv.len())];
            let y = &w[*from];
            let mut out = vec![0u8; t.stride];
            for p in &y.m {
                unsafe { c.convert(p, &mut out) };
                let _ = write!(o, "{:02x?}", t.norm(&out));
            }
        }
        // converting views
        6 | 7 => {
            let i = r.below(s.attrs.len());
            let to = ALL_PRIMS[r.below(ALL_PRIMS.len())];
            with_prim!(
                to,
                T,
                {
                    with_buf!(&x.b, b => match b.view_attribute_with_conversion::<T>(&s.attrs[i].def) {
                        Ok(v) => {
                            for e in v {
                                let _ = write!(o, "{:02x?}", of_t(&e));
                            }
                        }
                        Err(_) => o += "no conversion",
                    })
                },
                ()
            );
        }
        // slices of slices
        8 => {
            let a = r.range(n);
            let b2 = r.range(a.len());
            let want: Vec<Pt> = x.m[a.start + b2.start..a.start + b2.end].to_vec();
            macro_rules! look {
                ($s2:expr) => {{
                    let s2 = $s2;
                    verify_points(&s2, s, &want);
                    let mut raw = vec![0u8; s.stride * b2.len()];
                    s2.get_point_range(0..b2.len(), &mut raw);
                    for p in s.split(&raw) {
                        let _ = write!(o, "{:02x?}", p);
                    }
                }};
            }
            match &x.b {
                Buf::V(b) => {
                    let s1 = b.slice(a.clone());
                    look!(s1.slice(b2.clone()))
                }
                Buf::E(b) => {
                    let s1 = b.slice(a.clone());
                    look!(s1.slice(b2.clone()))
                }
                Buf::H(b) => look!(b.slice(a.start + b2.start..a.start + b2.end)),
                Buf::M(b) => look!(b.slice(a.start + b2.start..a.start + b2.end)),
            }
        }
        // copying out
        9 => {
            let a = r.range(n);
            let mut raw = vec![0u8; s.stride * a.len()];
            with_buf!(&x.b, b => b.get_point_range(a.clone(), &mut raw));
            let mut v = HashMapBuffer::new_from_layout(s.layout.clone());
            unsafe { v.push_points(&raw) };
            if let Buf::V(b) = &x.b {
                v.append(b);
                let c = b.clone();
                ensure!(c == *b, "clone", "a clone differs from its original");
            }
            if let Buf::H(b) = &x.b {
                v.append(b);
                let c = b.clone();
                ensure!(c == *b, "clone", "a clone differs from its original");
                let md = 2 + r.below(3);
                let f: VectorBuffer = b.filter(|i| i % md == 0);
                o += &bytes(&f, s);
            }
            o += &bytes(&v, s);
        }
        // layouts
        10 => {
            let y = &w[r.below(w.len())];
            let _ = write!(o, "{} {} {}", s.layout, s.layout == y.s.layout, s.layout.size_of_point_entry());
            for a in &y.s.attrs {
                let _ = write!(
                    o,
                    "{} {} {:?} {:?}",
                    s.layout.has_attribute(&a.def),
                    s.layout.has_attribute_with_name(a.def.name()),
                    s.layout.index_of(&a.def),
                    s.layout.offset_of(&a.def)
                );
            }
            let _ = write!(o, "{}", s.layout.clone() == s.layout);
        }
        // analyses
        11 => {
            if x.positions {
                with_buf!(&x.b, b => {
                    let _ = write!(o, "{:?}", calculate_bounds(b));
                    let _ = write!(o, "{:?}", minmax_attribute::<Vector3<f64>, _>(b, &POSITION_3D));
                });
            }
            for a in &s.attrs {
                macro_rules! mm {
                    ($($dt:ident $t:ty),*) => { match a.dt { $(DT::$dt => with_buf!(&x.b, b => {
                        let _ = write!(o, "{:?}", minmax_attribute::<$t, _>(b, &a.def));
                    }),)* _ => () } };
                }
                mm!(U8 u8, I8 i8, U16 u16, I16 i16, U32 u32, I32 i32, U64 u64, I64 i64, Vec3u16 Vector3<u16>, Vec3f32 Vector3<f32>);
            }
        }
        12 => {
            if x.positions && n >= 3 {
                with_buf!(&x.b, b => {
                    for (nv, c) in compute_normals::<_, Kd>(b, 3 + (n - 3).min(2)) {
                        let _ = write!(o, "{:?} {:?}", nv.map(|c| c.to_bits()), c.to_bits());
                    }
                    let c = compute_centroid(b);
                    let _ = write!(o, "{:?}", c);
                });
            }
        }
        13 => {
            if x.positions && n >= 1 {
                let mut v = VectorBuffer::new_from_layout(PointLayout::from_attributes(&[POSITION_3D]));
                let t = Schema::of(v.point_layout().clone(), None);
                let leaf = [3.0, 7.0][r.below(2)];
                with_buf!(&x.b, b => {
                    voxelgrid_filter(b, leaf, leaf, leaf, &mut v);
                    // the corners of degenerate inputs are not unique
                    if x.general {
                        let mut h = convex_hull_as_points(b);
                        h.sort();
                        let _ = write!(o, "{:?}", h);
                    }
                });
                o += &bytes(&v, &t);
            }
        }
        // calls that are refused
        14 => {
            let i = n + r.below(3);
            let mut raw = vec![0u8; s.stride];
            match r.below(4) {
                0 => with_buf!(&x.b, b => b.get_point(i, &mut raw)),
                1 => with_buf!(&x.b, b => {
                    let _ = b.slice(n..i + 1).len();
                }),
                2 => with_buf!(&x.b, b => {
                    let d = PointAttributeDefinition::custom(std::borrow::Cow::Borrowed("not there"), DT::Vec4u8);
                    let _ = b.view_attribute::<Vector4<u8>>(&d);
                }),
                _ => with_buf!(&x.b, b => {
                    let a = &s.attrs[r.below(s.attrs.len())];
                    b.get_attribute(&a.def, i, &mut raw)
                }),
            }
        }
        // splitting the work on one buffer among the workers of a pool
        _ => {
            let parts = 1 + r.below(3);
            let step = n / parts + 1;
            let got: Vec<String> = std::thread::scope(|sc| {
                let hs: Vec<_> = (0..parts)
                    .map(|p| {
                        let (a, e) = ((p * step).min(n), ((p + 1) * step).min(n));
                        sc.spawn(move || {
                            with_buf!(&x.b, b => {
                                let sl = b.slice(a..e);
                                verify_points(&sl, s, &x.m[a..e]);
                                bytes(&sl, s)
                            })
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            o += &got.concat();
        }
    }
    o
}

/// what a call did, including how it ended
fn run(k: usize, seed: u64, w: &[Shared], conv: &[(usize, Schema, RawPointConverter)]) -> String {
    match catch(|| op(k, seed, w, conv)) {
        Ok(o) => o,
        Err(Stopped::Injected) => "callback failed".into(),
        Err(Stopped::Panic) => "refused".into(),
    }
}

fn world() -> Vec<Shared> {
    (0..1 + dsim::work(3))
        .map(|_| {
            let (s, positions, general, raw) = if dsim::work(2) == 0 {
                let s = crate::ransac::schema_with_position();
                let n = dsim::work(14);
                let mut raw = s.points(n);
                let general = dsim::work(2) == 0;
                let pos = if general { crate::hull::general(n) } else { crate::ransac::positions(n) };
                for (i, p) in pos.into_iter().enumerate() {
                    let p = p.map(|c| if c.is_finite() { c.clamp(-1e4, 1e4) } else { 1.0 });
                    crate::ransac::set_position(&s, &mut raw[i * s.stride..(i + 1) * s.stride], p);
                }
                (s, true, general, raw)
            } else {
                let s = rand_schema();
                let n = count_points().min(40);
                let raw = s.points(n);
                (s, false, false, raw)
            };
            let m = s.split(&raw);
            let b = make(dsim::work(4), &s, &raw);
            describe(&s);
            ev!("{} points in a {}", m.len(), b.kind());
            Shared { s, m, b, positions, general }
        })
        .collect()
}

fn other_layout(s: &Schema) -> Schema {
    let mut defs = vec![];
    for a in &s.attrs {
        if dsim::work(4) == 0 {
            continue;
        }
        let mut d = a.def.clone();
        if is_prim(a.dt) && dsim::work(2) == 0 {
            d = d.with_custom_datatype(*dsim::pick(&ALL_PRIMS));
        }
        defs.push(d);
    }
    if defs.is_empty() {
        defs.push(s.attrs[0].def.clone());
    }
    Schema::of(PointLayout::from_attributes(&defs), None)
}

pub fn c08() {
    choose_scale();
    crate::ransac::setup_pool();
    let w = world();
    // raw converters are prepared by whoever comes first; some runs prepare none in advance
    let prepared = dsim::work(2) == 0;
    let mut conv: Vec<(usize, Schema, RawPointConverter)> = vec![];
    for _ in 0..1 + dsim::work(2) {
        let from = dsim::work(w.len());
        let t = if prepared {
            other_layout(&w[from].s)
        } else {
            Schema::of(w[from].s.layout.clone(), None)
        };
        // what cannot be converted is refused
        if let Ok(c) = catch(|| RawPointConverter::from_to(&w[from].s.layout, &t.layout)) {
            conv.push((from, t, c));
        }
    }
    if conv.is_empty() {
        let t = Schema::of(w[0].s.layout.clone(), None);
        let c = RawPointConverter::from_to(&t.layout, &t.layout);
        conv.push((0, t, c));
    }
    let ransac: Option<(Cloud, Which)> = if dsim::work(4) == 0 {
        let wh = [Which::PlanePar, Which::LinePar][dsim::work(2)];
        Some((cloud(positions(3 + dsim::work(10)), false), wh))
    } else {
        None
    };
    let threads = 2 + dsim::work(3);
    // the same calls in several threads meet more often in the same code
    let same = dsim::work(3) == 0;
    let focus = dsim::work(NOPS);
    let plan: Vec<Vec<(usize, u64)>> = (0..threads)
        .map(|_| {
            (0..1 + dsim::work(5))
                .map(|_| (if same { focus } else { dsim::work(NOPS) }, dsim::bits()))
                .collect()
        })
        .collect();
    for (t, p) in plan.iter().enumerate() {
        ev!("thread {} will make the calls {:?}", t, p.iter().map(|x| x.0).collect::<Vec<_>>());
    }
    let got: Vec<Vec<String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = plan
            .iter()
            .map(|p| {
                let (w, conv, ransac) = (&w, &conv, &ransac);
                sc.spawn(move || {
                    let r: Vec<String> = p.iter().map(|(k, seed)| run(*k, *seed, w, conv)).collect();
                    if let Some((c, wh)) = ransac {
                        let f = dsim::must("segmentation", || c.call(*wh, 0.5, 3));
                        check_found(c, *wh, 0.5, &f);
                    }
                    r
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (t, (p, g)) in plan.iter().zip(&got).enumerate() {
        for ((k, seed), g) in p.iter().zip(g) {
            let alone = run(*k, *seed, &w, &conv);
            if *g != alone {
                violate!(
                    &format!("differs/{}", k),
                    "call {} of thread {} returned {:.300} among others but {:.300} alone (last panic: {})",
                    k,
                    t,
                    g,
                    alone,
                    dsim::last_panic()
                );
            }
            count(match alone.as_str() {
                "refused" => "c08.refused",
                "callback failed" => "c08.callback_failed",
                _ => "c08.answered",
            });
            sig(alone.len() as u64 * 31 + *k as u64);
        }
    }
    // nothing changed
    for x in &w {
        with_buf!(&x.b, b => verify_points(b, &x.s, &x.m));
    }
    if let Some((c, _)) = &ransac {
        c.unchanged();
    }
    nontrivial();
}
