//! C12: voxel downsampling yields one faithful point per occupied cell.

use crate::common::*;
use crate::ops::*;
use crate::ransac::{cloud_of, f, Cloud, Src, V3};
use crate::{with_buf, with_cloud};
use dsim::{catch, count, ensure, ev, must, nontrivial, sig, violate, Stopped};
use pasture_algorithms::voxel_grid::voxelgrid_filter;
use pasture_core::containers::*;
use pasture_core::layout::attributes::*;
use pasture_core::layout::*;
use std::collections::BTreeMap;

/// How an attribute is reduced.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Red {
    Mean,
    Most,
    Max,
}

fn supported() -> Vec<(PointAttributeDefinition, Red)> {
    use Red::*;
    vec![
        (POSITION_3D, Mean),
        (INTENSITY, Mean),
        (RETURN_NUMBER, Most),
        (NUMBER_OF_RETURNS, Most),
        (CLASSIFICATION_FLAGS, Max),
        (SCANNER_CHANNEL, Most),
        (SCAN_DIRECTION_FLAG, Most),
        (EDGE_OF_FLIGHT_LINE, Most),
        (CLASSIFICATION, Most),
        (SCAN_ANGLE_RANK, Most),
        (SCAN_ANGLE, Most),
        (USER_DATA, Most),
        (POINT_SOURCE_ID, Most),
        (COLOR_RGB, Mean),
        (GPS_TIME, Max),
        (NIR, Mean),
        (POINT_ID, Max),
        (NORMAL, Mean),
    ]
}

/// The components of an attribute value as exact as f64 and i128 allow.
fn comps(dt: DT, b: &[u8]) -> Vec<f64> {
    macro_rules! c {
        ($t:ty) => {
            b.chunks_exact(std::mem::size_of::<$t>()).map(|x| <$t>::from_ne_bytes(x.try_into().unwrap()) as f64).collect()
        };
    }
    match dt {
        DT::U8 => c!(u8),
        DT::I8 => c!(i8),
        DT::U16 | DT::Vec3u16 => c!(u16),
        DT::I16 => c!(i16),
        DT::F64 | DT::Vec3f64 => c!(f64),
        DT::Vec3f32 => c!(f32),
        DT::U64 => c!(u64),
        _ => unreachable!(),
    }
}

/// A value of an attribute that meets the others often enough.
fn value(def: &PointAttributeDefinition, mode: usize) -> Vec<u8> {
    let r = dsim::bits();
    let few = (r >> 40) % 3;
    let flag = def.name() == SCAN_DIRECTION_FLAG.name() || def.name() == EDGE_OF_FLIGHT_LINE.name();
    let wide = mode == 1;
    match def.datatype() {
        DT::U8 => vec![if flag { (few % 2) as u8 } else if wide { r as u8 } else { few as u8 }],
        DT::I8 => vec![if wide { r as u8 } else { (few as i8 - 1) as u8 }],
        DT::U16 => (if wide { r as u16 } else { few as u16 * 1000 }).to_ne_bytes().to_vec(),
        DT::I16 => (if wide { r as i16 } else { few as i16 * 100 - 100 }).to_ne_bytes().to_vec(),
        DT::U64 => (match mode {
            1 => r,
            2 => (1 << 60) + few,
            _ => few,
        })
        .to_ne_bytes()
        .to_vec(),
        DT::F64 => (match mode {
            1 => f(1e6),
            2 => -1000.0 - few as f64,
            _ => few as f64 / 4.0,
        })
        .to_ne_bytes()
        .to_vec(),
        DT::Vec3u16 => [r as u16, (r >> 16) as u16, few as u16].iter().flat_map(|v| v.to_ne_bytes()).collect(),
        DT::Vec3f32 => [f(2.0) as f32, f(2.0) as f32, few as f32].iter().flat_map(|v| v.to_ne_bytes()).collect(),
        _ => unreachable!(),
    }
}

/// Is `v` an acceptable reduction of the values `xs`?
fn acceptable(red: Red, dt: DT, xs: &[&[u8]], v: &[u8]) -> bool {
    match red {
        Red::Mean => {
            let got = comps(dt, v);
            let integer = matches!(dt, DT::U16 | DT::Vec3u16);
            (0..got.len()).all(|c| {
                let all: Vec<f64> = xs.iter().map(|x| comps(dt, x)[c]).collect();
                let mean = all.iter().sum::<f64>() / all.len() as f64;
                let size = all.iter().fold(0.0f64, |m, x| m.max(x.abs()));
                let d = (got[c] - mean).abs();
                if integer {
                    d < 1.0 + 1e-9
                } else if dt == DT::Vec3f32 {
                    d <= 1e-5 * size
                } else {
                    d <= 1e-9 * size
                }
            })
        }
        Red::Most => {
            let mut n: BTreeMap<&[u8], usize> = BTreeMap::new();
            for x in xs {
                *n.entry(x).or_insert(0) += 1;
            }
            let best = *n.values().max().unwrap();
            n.get(v) == Some(&best)
        }
        Red::Max => {
            if dt == DT::U64 {
                let u = |b: &[u8]| u64::from_ne_bytes(b.try_into().unwrap());
                u(v) == xs.iter().map(|x| u(x)).max().unwrap()
            } else {
                let m = xs.iter().map(|x| comps(dt, x)[0]).fold(f64::NEG_INFINITY, f64::max);
                comps(dt, v)[0] == m
            }
        }
    }
}

/// The cell of a coordinate: the nearest of the marks min + leaf, min + 2 leaf, ... up to the first
/// one that reaches max. None if it is too close to call.
fn cell(x: f64, min: f64, max: f64, leaf: f64) -> Option<usize> {
    let mut marks = vec![];
    let mut c = min;
    while c < max {
        c += leaf;
        marks.push(c);
    }
    if marks.is_empty() {
        return Some(0);
    }
    let mut best: Vec<(f64, usize)> = marks.iter().enumerate().map(|(i, m)| ((m - x).abs(), i)).collect();
    best.sort_by(|a, b| a.partial_cmp(b).unwrap());
    if best.len() > 1 && best[1].0 - best[0].0 < 1e-7 * leaf {
        return None;
    }
    Some(best[0].1)
}

/// Points in cells that are spread over a wide grid, and the size of the cells.
fn wide(n: usize) -> (Vec<V3>, V3) {
    let far = [15usize, 16, 63, 64, 100, 127, 128, 255, 256, 257, 999, 1000, 1023, 1024, 1025, 2048, 4096][dsim::work(17)];
    let leaf = [0, 1, 2].map(|_| [0.25, 0.5, 1.0][dsim::work(3)]);
    let at = |_| -> usize {
        match dsim::work(7) {
            0 | 1 => dsim::work(2),
            2 => 2 + dsim::work(3),
            3 => far - 1,
            4 | 5 => far,
            _ => far + 1,
        }
    };
    let mut places: Vec<[usize; 3]> = vec![[0; 3]];
    while places.len() < n.max(2) {
        let mut k = [0, 1, 2].map(at);
        // near to one that is there already: a step along one axis, or all the way along another
        if dsim::work(2) == 0 {
            k = places[dsim::work(places.len())];
            let (a, b) = (dsim::work(3), dsim::work(3));
            k[a] += 1;
            k[b] = if k[b] >= far { k[b] - far } else { k[b] + if dsim::work(2) == 0 { far } else { 0 } };
        }
        places.push(k);
    }
    let shift = [0.0, -64.0, 4096.0][dsim::work(3)];
    let pos = places
        .iter()
        .enumerate()
        .map(|(i, k)| [0, 1, 2].map(|a| shift + if i == 0 { 0.0 } else { leaf[a] * (k[a] as f64 + 1.0 + [0.0, 0.125, -0.125, 0.25][dsim::work(4)]) }))
        .collect();
    (pos, leaf)
}

fn filter_into(c: &Cloud, leaf: V3, out: &mut Buf) {
    with_cloud!(c, b => match out {
        Buf::V(o) => voxelgrid_filter(b, leaf[0], leaf[1], leaf[2], o),
        Buf::H(o) => voxelgrid_filter(b, leaf[0], leaf[1], leaf[2], o),
        _ => unreachable!(),
    })
}

fn all_points(b: &Buf, s: &Schema) -> Vec<Pt> {
    with_buf!(b, x => snapshot(x, s))
}

/// Every cell has a point of its own (augmenting paths, small numbers).
fn matching(ok: &[Vec<usize>], n: usize) -> Option<usize> {
    fn go(i: usize, ok: &[Vec<usize>], seen: &mut [bool], of: &mut [usize]) -> bool {
        for &j in &ok[i] {
            if !seen[j] {
                seen[j] = true;
                if of[j] == usize::MAX || go(of[j], ok, seen, of) {
                    of[j] = i;
                    return true;
                }
            }
        }
        false
    }
    let mut of = vec![usize::MAX; n];
    (0..ok.len()).find(|i| !go(*i, ok, &mut vec![false; n], &mut of))
}

/// The given points, stored in some way among some other attributes. The position is part of
/// `defs` (its entry in `values` is ignored).
pub fn same_points(
    defs: &[PointAttributeDefinition],
    values: &[Vec<Vec<u8>>],
    pos: &[V3],
    can_fail: bool,
    may_add: impl Fn(&PointAttributeDefinition) -> bool,
) -> Cloud {
    let n = pos.len();
    let mut all = defs.to_vec();
    for _ in 0..dsim::work(if dsim::work(10) == 9 { 16 } else { 3 }) {
        let a = rand_attr(true);
        if may_add(&a) && !all.iter().any(|d| d.name() == a.name()) {
            all.insert(dsim::work(all.len() + 1), a);
        }
    }
    if dsim::work(12) == 11 {
        let blob = PointAttributeDefinition::custom(std::borrow::Cow::Borrowed("blob"), DT::ByteArray(100 + dsim::work(300) as u64));
        all.insert(dsim::work(all.len() + 1), blob);
    }
    let s = Schema::of(layout_from(&all), None);
    let mut c = cloud_of(s.clone(), pos.to_vec(), can_fail);
    let start = match &c.src {
        Src::Part(_, r) => r.start,
        _ => 0,
    };
    for i in 0..n {
        let k = start + i;
        let raw = &mut c.raw[k * s.stride..(k + 1) * s.stride];
        for (d, v) in defs.iter().zip(&values[i]) {
            if d.name() != POSITION_3D.name() {
                let a = s.attrs.iter().find(|a| a.def.name() == d.name()).unwrap();
                raw[a.off..a.off + a.size].copy_from_slice(v);
            }
        }
        let raw = raw.to_vec();
        match &mut c.src {
            Src::Whole(b) | Src::Part(b, _) => with_buf!(b, x => unsafe { x.set_point(k, &raw) }),
            Src::Fail(p) => unsafe { p.inner().set_point(k, &raw) },
        }
    }
    c
}

pub fn c12() {
    choose_scale();
    let n = if dsim::work(3) == 0 { count_points().min(200) } else { 2 + dsim::work(20) };
    let sup = supported();
    // the source has what the target needs, in a layout of its own
    let mut chosen: Vec<usize> = (1..sup.len()).filter(|_| dsim::work(3) == 0).collect();
    if dsim::work(8) == 0 {
        chosen = (1..sup.len()).collect();
    }
    chosen.insert(dsim::work(chosen.len() + 1), 0);
    let src_defs: Vec<PointAttributeDefinition> = chosen.iter().map(|i| sup[*i].0.clone()).collect();
    let mut dst: Vec<usize> = chosen.iter().cloned().filter(|i| *i == 0 || dsim::work(4) != 0).collect();
    if dsim::work(6) == 0 && dst.len() > 1 {
        dst.retain(|i| *i != 0);
    }
    for i in (1..dst.len()).rev() {
        dst.swap(i, dsim::work(i + 1));
    }
    let t = Schema::of(layout_from(&dst.iter().map(|i| sup[*i].0.clone()).collect::<Vec<_>>()), None);
    let red: Vec<Red> = t.attrs.iter().map(|a| sup.iter().find(|x| x.0.name() == a.def.name()).unwrap().1).collect();

    let scale = [1.0, 10.0, 100.0][dsim::work(3)];
    let shift = [0.0, -3.0, 50.0][dsim::work(3)] * scale;
    let flat = dsim::work(5);
    let clusters = 1 + dsim::work(6);
    let centres: Vec<V3> = (0..clusters).map(|_| [f(scale), f(scale), f(scale)]).collect();
    let tight = dsim::work(2) == 0;
    let pos: Vec<V3> = (0..n)
        .map(|_| {
            let c = centres[dsim::work(clusters)];
            let mut p = if tight {
                [c[0] + f(scale * 0.02), c[1] + f(scale * 0.02), c[2] + f(scale * 0.02)]
            } else {
                [f(scale), f(scale), f(scale)]
            };
            if flat < 3 {
                p[flat] = 0.25 * scale;
            }
            p.map(|c| c + shift)
        })
        .collect();
    let leaf = [0, 1, 2].map(|_| scale * [0.071, 0.13, 0.3, 0.71, 2.0, 1000.0][dsim::work(6)]);
    let mode = dsim::work(3);
    // few points that lie far apart: cells whose places differ by a lot along one axis and by a
    // little along another
    let (pos, leaf) = if dsim::work(8) == 7 { wide(n.min(24)) } else { (pos, leaf) };
    let n = pos.len();

    // the same points in several kinds of storage
    let values: Vec<Vec<Vec<u8>>> = (0..n).map(|_| src_defs.iter().map(|d| if d.name() == POSITION_3D.name() { vec![] } else { value(d, mode) }).collect()).collect();
    let make_cloud = |can_fail: bool| -> Cloud { same_points(&src_defs, &values, &pos, can_fail, |a| !sup.iter().any(|x| x.0.name() == a.name())) };

    // cells
    let mut cells: BTreeMap<[usize; 3], Vec<usize>> = BTreeMap::new();
    if n > 0 {
        let lo = [0, 1, 2].map(|a| pos.iter().map(|p| p[a]).fold(f64::INFINITY, f64::min));
        let hi = [0, 1, 2].map(|a| pos.iter().map(|p| p[a]).fold(f64::NEG_INFINITY, f64::max));
        for (i, p) in pos.iter().enumerate() {
            let mut k = [0; 3];
            for a in 0..3 {
                match cell(p[a], lo[a], hi[a], leaf[a]) {
                    Some(c) => k[a] = c,
                    None => dsim::discard(),
                }
            }
            cells.entry(k).or_default().push(i);
        }
    }
    let cells: Vec<Vec<usize>> = cells.into_values().collect();
    describe(&t);
    ev!("{} points, leaf {:?}, {} cells", n, leaf, cells.len());
    sig(n as u64);
    sig(cells.len() as u64);

    let mut earlier: Option<Vec<Pt>> = None;
    let calls = 1 + dsim::work(3);
    for call in 0..calls {
        let c = make_cloud(dsim::work(4) == 0);
        let before = if dsim::work(10) == 9 { dsim::work(150) } else { dsim::work(4) };
        let old = t.points(before);
        let mut out = make(dsim::work(2), &t, &old);
        let oldm = t.split(&old);
        // failures on the way
        if let Src::Fail(fs) = &c.src {
            let k = dsim::fault(n * (t.attrs.len() + 3) + 4) as u64;
            fs.arm(k);
            let r = catch(|| filter_into(&c, leaf, &mut out));
            let fired = fs.fired();
            fs.arm(u64::MAX);
            ev!("call {}: read {} fails: {}", call, k, fired);
            match r {
                Ok(_) if fired => violate!("swallowed", "downsampling finished although reading a point failed"),
                Err(Stopped::Panic) if !fired => violate!("unexpected-panic/voxelgrid_filter", "{}", dsim::last_panic()),
                _ => (),
            }
            let got = all_points(&out, &t);
            ensure!(got.len() >= before && got[..before] == oldm[..], "old-points", "points already in the output changed");
            out = make(dsim::work(2), &t, &old);
        } else if dsim::work(6) == 5 {
            dsim::alloc::arm_oom(1 + dsim::fault(60) as u64, 32);
            let r = catch(|| filter_into(&c, leaf, &mut out));
            let fired = dsim::alloc::disarm_oom();
            if fired {
                count("fault.alloc");
            }
            if r.is_err() && !fired {
                violate!("unexpected-panic/voxelgrid_filter", "{}", dsim::last_panic());
            }
            let got = all_points(&out, &t);
            ensure!(got.len() >= before && got[..before] == oldm[..], "old-points", "points already in the output changed");
            out = make(dsim::work(2), &t, &old);
        }
        must("voxelgrid_filter", || filter_into(&c, leaf, &mut out));
        let got = all_points(&out, &t);
        ensure!(
            got.len() == before + cells.len(),
            "count",
            "{} points for {} occupied cells",
            got.len() as i64 - before as i64,
            cells.len()
        );
        ensure!(got[..before] == oldm[..], "old-points", "points already in the output changed");
        let new = &got[before..];
        // which points are acceptable for which cell
        let fit = |cell: &Vec<usize>, p: &Pt| -> Option<usize> {
            (0..t.attrs.len()).find(|k| {
                let a = &t.attrs[*k];
                let d = src_defs.iter().position(|d| d.name() == a.def.name()).unwrap();
                let posv: Vec<Vec<u8>> = cell.iter().map(|i| pos[*i].iter().flat_map(|c| c.to_ne_bytes()).collect()).collect();
                let xs: Vec<&[u8]> = cell
                    .iter()
                    .enumerate()
                    .map(|(q, i)| if a.def.name() == POSITION_3D.name() { &posv[q][..] } else { &values[*i][d][..] })
                    .collect();
                !acceptable(red[*k], a.dt, &xs, t.attr_of(*k, p))
            })
        };
        let in_order = cells.iter().zip(new).all(|(c, p)| fit(c, p).is_none());
        if !in_order {
            let ok: Vec<Vec<usize>> = cells
                .iter()
                .map(|c| (0..new.len()).filter(|j| fit(c, &new[*j]).is_none()).collect())
                .collect();
            if let Some(bad) = matching(&ok, new.len()) {
                // say which attribute is wrong, assuming the usual order
                let (which, at) = cells
                    .iter()
                    .zip(new)
                    .enumerate()
                    .find_map(|(i, (c, p))| fit(c, p).map(|k| (k, i)))
                    .unwrap_or((0, bad));
                violate!(
                    &format!("reduction/{:?}/{}", red[which], t.attrs[which].def.name()),
                    "the points {:?} of cell {} have no output point with an acceptable {} (output bytes {:02x?})",
                    cells[at],
                    at,
                    t.attrs[which].def,
                    t.attr_of(which, &new[at])
                );
            }
        }
        c.unchanged();
        let mut sorted = new.to_vec();
        sorted.sort();
        if let Some(e) = &earlier {
            ensure!(*e == sorted, "not-reproducible", "downsampling the same points again, stored differently, gives another result");
        }
        earlier = Some(sorted);
        for p in new {
            sig(dsim::rng::fnv(p));
        }
        count("c12.calls");
        if cells.len() > 1 && cells.len() < n {
            nontrivial();
        }
    }
}
