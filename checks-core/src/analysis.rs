//! C14: the same points give the same analysis wherever and however they are stored.

use crate::common::*;
use crate::ops::*;
use crate::ransac::{cloud, f, set_position, Cloud, Src, Which, V3};
use crate::readers::Kd;
use crate::voxel::same_points;
use crate::{with_buf, with_cloud};
use dsim::{catch, count, ensure, ev, must, nontrivial, sig, violate, Stopped};
use pasture_algorithms::{bounds::*, convexhull::*, minmax::*, normal_estimation::*, reprojection::*, voxel_grid::*};
use pasture_core::containers::*;
use pasture_core::layout::attributes::*;
use pasture_core::layout::*;
use pasture_core::math::AABB;
use pasture_core::nalgebra::{Point3, Vector3, Vector4};

#[derive(Clone, Copy, PartialEq, Debug)]
enum What {
    Bounds,
    MinMax,
    Centroid,
    Normals,
    Hull,
    HullPoints,
    Voxels,
}
use What::*;
const WHATS: [What; 7] = [Bounds, MinMax, Centroid, Normals, Hull, HullPoints, Voxels];

struct Params {
    k: usize,
    leaf: f64,
    general: bool,
    n: usize,
}

fn bits(v: impl IntoIterator<Item = f64>) -> String {
    v.into_iter().map(|c| format!("{:016x} ", c.to_bits())).collect()
}

macro_rules! minmax_of {
    ($b:expr, $dt:expr, $def:expr) => {{
        macro_rules! mm {
            ($t:ident $dtn:ident) => {
                minmax_attribute::<$t, _>($b, $def).map(|(a, b)| (of_t(&a), of_t(&b)))
            };
            ($v:ident<$t:ident>) => {
                minmax_attribute::<$v<$t>, _>($b, $def).map(|(a, b)| (of_t(&a), of_t(&b)))
            };
        }
        match $dt {
            DT::U8 => mm!(u8 U8),
            DT::I8 => mm!(i8 I8),
            DT::U16 => mm!(u16 U16),
            DT::I16 => mm!(i16 I16),
            DT::U32 => mm!(u32 U32),
            DT::I32 => mm!(i32 I32),
            DT::U64 => mm!(u64 U64),
            DT::I64 => mm!(i64 I64),
            DT::F32 => mm!(f32 F32),
            DT::F64 => mm!(f64 F64),
            DT::Vec3u8 => mm!(Vector3<u8>),
            DT::Vec3u16 => mm!(Vector3<u16>),
            DT::Vec3f32 => mm!(Vector3<f32>),
            DT::Vec3i32 => mm!(Vector3<i32>),
            DT::Vec3f64 => mm!(Vector3<f64>),
            _ => None,
        }
    }};
}

/// One analysis, its result as text.
fn analyse(c: &Cloud, w: What, defs: &[PointAttributeDefinition], p: &Params) -> String {
    let one = PointLayout::from_attributes(&[POSITION_3D]);
    match w {
        Bounds => with_cloud!(c, b => match calculate_bounds(b) {
            None => "none".into(),
            Some(a) => bits([a.min().x, a.min().y, a.min().z, a.max().x, a.max().y, a.max().z]),
        }),
        MinMax => with_cloud!(c, b => {
            let mut o = String::new();
            for d in defs {
                if d.name() != POSITION_3D.name() {
                    o += &format!("{} {:02x?}; ", d.name(), minmax_of!(b, d.datatype(), d));
                }
            }
            o
        }),
        Centroid => with_cloud!(c, b => bits(compute_centroid(b).iter().cloned())),
        Normals => with_cloud!(c, b => {
            let mut o = String::new();
            for (nv, cv) in compute_normals::<_, Kd>(b, p.k) {
                o += &bits([nv.x, nv.y, nv.z, cv]);
            }
            o
        }),
        Hull => with_cloud!(c, b => match convex_hull_as_triangle_mesh(b) {
            Err(_) => "none".into(),
            Ok(m) => {
                let mut t: Vec<[usize; 3]> = m.iter().map(|t| { let mut t = [t.x, t.y, t.z]; t.sort(); t }).collect();
                t.sort();
                format!("{:?}", t)
            }
        }),
        HullPoints => with_cloud!(c, b => {
            let mut h = convex_hull_as_points(b);
            h.sort();
            format!("{:?}", h)
        }),
        Voxels => {
            let mut o = HashMapBuffer::new_from_layout(one.clone());
            with_cloud!(c, b => voxelgrid_filter(b, p.leaf, p.leaf, p.leaf * 1.5, &mut o));
            let mut v: Vec<String> = o.view_attribute::<Vector3<f64>>(&POSITION_3D).into_iter().map(|x| bits(x.iter().cloned())).collect();
            v.sort();
            v.concat()
        }
    }
}

/// Does the analysis accept these points?
fn applies(w: What, p: &Params, pos_dt: DT) -> bool {
    let native = pos_dt == DT::Vec3f64;
    match w {
        Bounds | MinMax => true,
        Centroid => native && p.n > 0,
        Normals => native && p.n >= 3,
        Hull | HullPoints => p.general,
        Voxels => native,
    }
}

fn reference(w: What, defs: &[PointAttributeDefinition], values: &[Vec<Vec<u8>>], pos: &[V3], p: &Params) -> Option<String> {
    let fold = |k: usize, dt: DT| -> Option<(Vec<u8>, Vec<u8>)> {
        let vals: Vec<Vec<u8>> = values.iter().map(|v| v[k].clone()).collect();
        let first = vals.first()?;
        let (prim, count) = split_dt(dt).unwrap();
        let size = first.len() / count;
        let (mut lo, mut hi) = (first.clone(), first.clone());
        for v in &vals {
            for c in 0..count {
                let r = c * size..(c + 1) * size;
                if less(prim, &v[r.clone()], &lo[r.clone()]) {
                    lo[r.clone()].copy_from_slice(&v[r.clone()]);
                }
                if less(prim, &hi[r.clone()], &v[r.clone()]) {
                    hi[r.clone()].copy_from_slice(&v[r]);
                }
            }
        }
        Some((lo, hi))
    };
    match w {
        Bounds => {
            if pos.is_empty() {
                return Some("none".into());
            }
            let m = |a: usize, g: fn(f64, f64) -> f64| pos.iter().map(|p| p[a]).reduce(g).unwrap();
            Some(bits([m(0, f64::min), m(1, f64::min), m(2, f64::min), m(0, f64::max), m(1, f64::max), m(2, f64::max)]))
        }
        MinMax => {
            let mut o = String::new();
            for (k, d) in defs.iter().enumerate() {
                if d.name() == POSITION_3D.name() {
                    continue;
                }
                o += &format!("{} {:02x?}; ", d.name(), fold(k, d.datatype()));
            }
            Some(o)
        }
        _ => None,
    }
}

fn less(prim: DT, a: &[u8], b: &[u8]) -> bool {
    macro_rules! l {
        ($t:ty) => {
            <$t>::from_ne_bytes(a.try_into().unwrap()) < <$t>::from_ne_bytes(b.try_into().unwrap())
        };
    }
    match prim {
        DT::U8 => l!(u8),
        DT::I8 => l!(i8),
        DT::U16 => l!(u16),
        DT::I16 => l!(i16),
        DT::U32 => l!(u32),
        DT::I32 => l!(i32),
        DT::U64 => l!(u64),
        DT::I64 => l!(i64),
        DT::F32 => l!(f32),
        DT::F64 => l!(f64),
        _ => unreachable!(),
    }
}

const MINMAX_TYPES: [DT; 13] = [
    DT::U8,
    DT::I8,
    DT::U16,
    DT::I16,
    DT::U32,
    DT::I32,
    DT::U64,
    DT::I64,
    DT::F32,
    DT::F64,
    DT::Vec3u16,
    DT::Vec3f32,
    DT::Vec3f64,
];

/// Reprojection of the same positions in two kinds of storage.
fn reproject(defs: &[PointAttributeDefinition], values: &[Vec<Vec<u8>>], n: usize) {
    let (a, b) = [
        ("EPSG:4326", "EPSG:3857"),
        ("EPSG:4326", "EPSG:32632"),
        ("EPSG:3857", "EPSG:4326"),
        ("EPSG:4326", "EPSG:25832"),
        ("EPSG:3857", "EPSG:32632"),
        ("EPSG:32632", "EPSG:32633"),
        ("EPSG:25833", "EPSG:25832"),
        ("EPSG:32632", "EPSG:4326"),
        ("EPSG:4979", "EPSG:4978"),
        ("EPSG:4326", "+proj=utm +zone=32 +datum=WGS84"),
        ("EPSG:32632", "EPSG:3857"),
    ][dsim::work(11)];
    let degrees = a == "EPSG:4326" || a == "EPSG:4979";
    ev!("reproject from {} to {}", a, b);
    let pos: Vec<V3> = (0..n)
        .map(|_| match a {
            _ if degrees => [47.0 + f(8.0), 9.0 + f(5.0), f(100.0)],
            "EPSG:3857" => [1e6 + f(1e5), 6e6 + f(1e5), f(100.0)],
            _ => [5e5 + f(2e5), 5.2e6 + f(1e5), f(100.0)],
        })
        .collect();
    let proj = Projection::new(a, b).unwrap();
    let want: Vec<V3> = pos
        .iter()
        .map(|p| {
            let t = proj.transform(Vector3::new(p[0], p[1], p[2]));
            [t.x, t.y, t.z]
        })
        .collect();
    // from the source system to the target system: the way back leads to the same coordinates, and Web
    // Mercator is a formula
    let back = Projection::new(b, a).unwrap();
    for (p, w) in pos.iter().zip(&want) {
        let q = back.transform(Vector3::new(w[0], w[1], w[2]));
        let unit = if degrees { 1e-6 } else { 0.1 };
        if b == "EPSG:4978" {
            let (lat, lon) = (p[0].to_radians(), p[1].to_radians());
            let e2 = 0.0066943799901413165;
            let n = 6378137.0 / (1.0 - e2 * lat.sin().powi(2)).sqrt();
            let e = [(n + p[2]) * lat.cos() * lon.cos(), (n + p[2]) * lat.cos() * lon.sin(), (n * (1.0 - e2) + p[2]) * lat.sin()];
            ensure!((0..3).all(|i| (e[i] - w[i]).abs() < 0.1), "reprojection", "{:?} ({} to {}) should be {:?} but is {:?}", p, a, b, e, w);
        }
        ensure!(
            (0..3).all(|i| (q[i] - p[i]).abs() < if i == 2 { 0.1 } else { unit }),
            "reprojection",
            "{:?} in {} is {:?} in {} but that is {:?} in {}",
            p,
            a,
            w,
            b,
            q,
            a
        );
        let (geo, web) = match (a, b) {
            ("EPSG:4326", "EPSG:3857") => (p, w),
            ("EPSG:3857", "EPSG:4326") => (w, p),
            _ => continue,
        };
        let r = 6378137.0f64;
        let x = r * geo[1].to_radians();
        let y = r * (std::f64::consts::FRAC_PI_4 + geo[0].to_radians() / 2.0).tan().ln();
        ensure!(
            (x - web[0]).abs() < 0.1 && (y - web[1]).abs() < 0.1,
            "reprojection",
            "{:?} ({} to {}) should be {} {} in Web Mercator",
            geo,
            a,
            b,
            x,
            y
        );
        count("c14.web_mercator");
    }
    if n >= 2 {
        let (lo, hi) = ([0, 1, 2].map(|i| pos[0][i].min(pos[1][i])), [0, 1, 2].map(|i| pos[0][i].max(pos[1][i])));
        let t = proj.transform_bounds(&AABB::from_min_max(Point3::from(lo), Point3::from(hi)));
        for c in [lo, hi] {
            let c = proj.transform(Vector3::from(c));
            let inside = (0..3).all(|i| t.min()[i] <= c[i] && c[i] <= t.max()[i]);
            ensure!(inside, "reprojection-bounds", "{:?} is a corner of the reprojected box but not of {:?}", c, t);
        }
    }
    for _ in 0..2 {
        let mut c = same_points(defs, values, &pos, false, |_| true);
        let between = dsim::work(2) == 1;
        let t = Schema::of(layout_from(&[POSITION_3D, INTENSITY]), None);
        let start = if let Src::Part(_, r) = &c.src { r.start } else { 0 };
        if between {
            let old = t.points(n);
            let mut out = make(dsim::work(4), &t, &old);
            must("reproject_point_cloud_between", || match &mut c.src {
                Src::Whole(x) => with_buf!(x, x => with_buf!(&mut out, y => reproject_point_cloud_between(x, y, a, b))),
                Src::Part(x, r) => {
                    let r = r.clone();
                    with_buf!(x, x => with_buf!(&mut out, y => reproject_point_cloud_between(&mut x.slice_mut(r), y, a, b)))
                }
                _ => unreachable!(),
            });
            let mut m = old.clone();
            for i in 0..n {
                set_position(&t, &mut m[i * t.stride..(i + 1) * t.stride], want[i]);
            }
            let m = t.split(&m);
            with_buf!(&out, y => verify_points(y, &t, &m));
            c.unchanged();
        } else {
            must("reproject_point_cloud_within", || match &mut c.src {
                Src::Whole(x) => with_buf!(x, x => reproject_point_cloud_within(x, a, b)),
                Src::Part(x, r) => {
                    let r = r.clone();
                    with_buf!(x, x => reproject_point_cloud_within(&mut x.slice_mut(r), a, b))
                }
                _ => unreachable!(),
            });
            let s = c.s.clone();
            for i in 0..n {
                let k = start + i;
                set_position(&s, &mut c.raw[k * s.stride..(k + 1) * s.stride], want[i]);
            }
            c.unchanged();
        }
        count("c14.reprojections");
    }
}

pub fn c14() {
    choose_scale();
    crate::ransac::setup_pool();
    let general = dsim::work(2) == 0;
    let n = match dsim::work(40) {
        0..=12 => dsim::work(4),
        39 => 60 + dsim::work(300),
        _ => 3 + dsim::work(24),
    };
    // whole numbers fit into every position type
    let whole = dsim::work(3) == 0;
    let pos: Vec<V3> = if general && !whole {
        crate::hull::general(n)
    } else {
        (0..n).map(|_| [0, 1, 2].map(|_| if whole { (dsim::work(2000) as f64) - 1000.0 } else { f(20.0) + 3.0 })).collect()
    };
    let clearly_general = general && n <= 27 && crate::hull::faces(&pos).is_some();
    let mut defs = vec![POSITION_3D];
    for i in 0..dsim::work(4) {
        let dt = *dsim::pick(&MINMAX_TYPES);
        let d = if dsim::work(3) == 0 {
            [INTENSITY, GPS_TIME, COLOR_RGB, SCAN_ANGLE][dsim::work(4)].clone()
        } else {
            PointAttributeDefinition::custom(std::borrow::Cow::Borrowed(["x", "y", "z", "w"][i]), dt)
        };
        if !defs.iter().any(|e| e.name() == d.name()) {
            defs.push(d);
        }
    }
    let values: Vec<Vec<Vec<u8>>> = (0..n)
        .map(|_| {
            defs.iter()
                .map(|d| if d.name() == POSITION_3D.name() { vec![] } else { gen_value(d.datatype(), d.size() as usize, dsim::bits()) })
                .collect()
        })
        .collect();
    let p = Params {
        k: 3 + dsim::work(6),
        leaf: [0.7, 3.0, 11.0][dsim::work(3)],
        general: clearly_general,
        n,
    };
    let scale = pos.iter().flatten().fold(1e-9f64, |m, c| m.max(c.abs()));
    let p = Params { leaf: p.leaf * scale / 10.0, ..p };
    ev!("{} points (general position: {}), k {}, leaf {}", n, clearly_general, p.k, p.leaf);
    for d in &defs {
        ev!("  {}", d);
    }
    let mut first: Vec<Option<String>> = vec![None; WHATS.len()];
    for store in 0..2 + dsim::work(3) {
        // history: something else first
        if dsim::work(3) == 0 {
            let o = cloud(crate::ransac::positions(3 + dsim::work(8)), false);
            let _ = catch(|| {
                let w = [Bounds, Centroid, Normals, Hull, Voxels][dsim::work(5)];
                if w == Voxels {
                    let _ = o.call(Which::PlanePar, 1.0, 2);
                } else {
                    let _ = analyse(&o, w, &[], &Params { k: 3, leaf: 1e9, general: false, n: 3 });
                }
            });
            count("c14.history");
        }
        // another type of position, if it can hold them
        let mut my = defs.clone();
        let pos_dt = if whole { [DT::Vec3f64, DT::Vec3f64, DT::Vec3f32, DT::Vec3i32][dsim::work(4)] } else { DT::Vec3f64 };
        my[0] = POSITION_3D.with_custom_datatype(pos_dt);
        let at = dsim::work(my.len());
        let mut vals = values.clone();
        my.swap(0, at);
        for v in vals.iter_mut() {
            v.swap(0, at);
        }
        let c = same_points(&my, &vals, &pos, dsim::work(5) == 0, |_| true);
        ev!("storage {}: {}", store, c.s.layout);
        // analyses in some order, some of them twice, some interrupted
        for _ in 0..6 + dsim::work(8) {
            let wi = dsim::work(WHATS.len());
            let w = WHATS[wi];
            if !applies(w, &p, pos_dt) {
                continue;
            }
            if let Src::Fail(fs) = &c.src {
                if dsim::fault(3) == 1 {
                    fs.arm(dsim::fault(4 * n + 2) as u64);
                    let r = catch(|| analyse(&c, w, &defs, &p));
                    let fired = fs.fired();
                    fs.reset();
                    match r {
                        Ok(_) if fired => violate!("swallowed", "{:?} returned a result although reading a point failed", w),
                        Err(Stopped::Panic) if !fired => violate!("unexpected-panic/analysis", "{:?}: {}", w, dsim::last_panic()),
                        _ => (),
                    }
                }
            }
            let r = must(&format!("{:?}", w), || analyse(&c, w, &defs, &p));
            if let Some(want) = reference(w, &defs, &values, &pos, &p) {
                ensure!(r == want, &format!("wrong/{:?}", w), "{:?} is {} but the points have {}", w, r, want);
            }
            match &first[wi] {
                None => first[wi] = Some(r.clone()),
                Some(x) => {
                    ensure!(
                        *x == r,
                        &format!("differs/{:?}", w),
                        "{:?} of the same points differs: {:.400} and {:.400}",
                        w,
                        x,
                        r
                    );
                    count("c14.comparisons");
                    if n > 0 {
                        nontrivial();
                    }
                }
            }
            sig(dsim::rng::fnv(r.as_bytes()));
        }
        c.unchanged();
    }
    if dsim::work(12) == 0 {
        for _ in 0..1 + dsim::work(3) {
            reproject(&defs, &values, n);
        }
    }
    let _ = Vector4::<u8>::zeros();
}
