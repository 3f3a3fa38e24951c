//! C13: convex hulls of points in general position.

use crate::common::*;
use crate::ops::*;
use crate::ransac::{cloud_from, f, Cloud, Src, V3};
use dsim::{catch, count, ensure, ev, must, nontrivial, sig, violate, Stopped};
use crate::with_cloud;
use pasture_algorithms::convexhull::*;
use pasture_core::containers::*;
use std::collections::{BTreeMap, BTreeSet};

/// Random positions; general position holds almost surely and is verified where it matters.
pub fn general(n: usize) -> Vec<V3> {
    let mode = dsim::work(5);
    let scale = [1.0, 10.0, 1000.0, 0.001][dsim::work(4)];
    let shift = [0.0, 0.0, 5.0, 100.0][dsim::work(4)] * scale;
    let mut p: Vec<V3> = (0..n)
        .map(|_| {
            let v = [f(2.0), f(2.0), f(2.0)];
            let l = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt().max(1e-3);
            match mode {
                // in a cube
                0 | 1 => v,
                // on a sphere: every point is a corner
                2 => [v[0] / l, v[1] / l, v[2] / l],
                // flat
                3 => [v[0], v[1], v[2] * 0.01],
                // long
                _ => [v[0] * 0.02, v[1] * 0.02, v[2]],
            }
        })
        .map(|v| [v[0] * scale + shift, v[1] * scale - shift, v[2] * scale])
        .collect();
    // along an axis, outwards or inwards: every point changes the hull, or none does
    match dsim::work(4) {
        0 => p.sort_by(|a, b| a[0].partial_cmp(&b[0]).unwrap()),
        1 => p.sort_by(|a, b| (b[0] - shift).abs().partial_cmp(&(a[0] - shift).abs()).unwrap()),
        _ => (),
    }
    p
}

fn det(a: V3, b: V3, c: V3, d: V3) -> (f64, f64) {
    let s = |x: V3, y: V3| [x[0] - y[0], x[1] - y[1], x[2] - y[2]];
    let (u, v, w) = (s(b, a), s(c, a), s(d, a));
    let n = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]];
    let l = |x: V3| (x[0] * x[0] + x[1] * x[1] + x[2] * x[2]).sqrt();
    (n[0] * w[0] + n[1] * w[1] + n[2] * w[2], l(u) * l(v) * l(w))
}

/// The faces of the hull by definition: triples with all other points on one side. None unless the
/// points are clearly in general position.
pub fn faces(p: &[V3]) -> Option<BTreeSet<[usize; 3]>> {
    let n = p.len();
    let mut r = BTreeSet::new();
    let mag = p.iter().flatten().fold(0.0f64, |m, c| m.max(c.abs()));
    for i in 0..n {
        for j in i + 1..n {
            for k in j + 1..n {
                let (mut pos, mut neg) = (0, 0);
                for l in 0..n {
                    if l == i || l == j || l == k {
                        continue;
                    }
                    let (d, size) = det(p[i], p[j], p[k], p[l]);
                    if !(d.abs() > 1e-7 * size) || size < 1e-12 * mag * mag * mag {
                        return None;
                    }
                    if d > 0.0 {
                        pos += 1
                    } else {
                        neg += 1
                    }
                }
                if pos == 0 || neg == 0 {
                    r.insert([i, j, k]);
                }
            }
        }
    }
    Some(r)
}

/// Many points: too many to try all triples, but a closed surface of supporting triangles is the hull.
fn many() {
    let n = 60 + dsim::work([100, 340][dsim::work(2)]);
    let mut pos = general(n);
    let calls = 1 + dsim::work(2);
    let mut corners_before: Option<BTreeSet<[u64; 3]>> = None;
    for call in 0..calls {
        if call > 0 {
            for i in (1..n).rev() {
                pos.swap(i, dsim::work(i + 1));
            }
        }
        let c = cloud_from(pos.clone(), false);
        let Some(m) = must("convex_hull_as_triangle_mesh", || mesh(&c)) else {
            violate!("no-hull", "no hull for {} points in general position", n);
        };
        ev!("call {}: {} points, {} triangles", call, n, m.len());
        // all points lie on one side of every triangle
        let mut sides = vec![];
        for t in &m {
            for k in 0..3 {
                ensure!(t[k] < n, "index", "triangle {:?} refers to a point that does not exist ({} points)", t, n);
                ensure!(t[k] != t[(k + 1) % 3], "triangle", "triangle {:?} has a repeated corner", t);
            }
            let (mut above, mut below) = (0, 0);
            for l in 0..n {
                if t.contains(&l) {
                    continue;
                }
                let (d, size) = det(pos[t[0]], pos[t[1]], pos[t[2]], pos[l]);
                if !(d.abs() > 1e-9 * size) {
                    dsim::discard();
                } else if d > 0.0 {
                    above += 1;
                } else {
                    below += 1;
                }
            }
            sides.push(above.min(below));
        }
        if let Some(k) = sides.iter().position(|s| *s > 0) {
            violate!("not-enclosing", "triangle {:?} is reported but {} points are outside of it", m[k], sides[k]);
        }
        let mut edges: BTreeMap<(usize, usize), usize> = BTreeMap::new();
        for t in &m {
            for k in 0..3 {
                let (a, b) = (t[k], t[(k + 1) % 3]);
                *edges.entry((a.min(b), a.max(b))).or_insert(0) += 1;
            }
        }
        for (e, k) in &edges {
            ensure!(*k == 2, "not-closed", "edge {:?} belongs to {} triangles", e, k);
        }
        let want: BTreeSet<usize> = m.iter().flatten().cloned().collect();
        ensure!(m.len() == 2 * want.len() - 4, "not-closed", "{} triangles and {} corners are no single closed surface", m.len(), want.len());
        let pts = must("convex_hull_as_points", || corners(&c));
        let set: BTreeSet<usize> = pts.iter().cloned().collect();
        ensure!(set.len() == pts.len(), "corner-twice", "a corner is reported twice");
        ensure!(set == want, "corners", "the {} hull points are not the {} corners of the triangles", set.len(), want.len());
        let back: BTreeSet<[u64; 3]> = set.iter().map(|i| pos[*i].map(|c| c.to_bits())).collect();
        if let Some(b) = &corners_before {
            ensure!(*b == back, "order-dependent", "the corners depend on the order or storage of the points");
        }
        corners_before = Some(back);
        c.unchanged();
        sig(m.len() as u64);
        sig(pos[0][0].to_bits());
    }
    count("c13.large_hulls");
    nontrivial();
}

fn mesh(c: &Cloud) -> Option<Vec<[usize; 3]>> {
    with_cloud!(c, b => convex_hull_as_triangle_mesh(b).ok().map(|v| v.iter().map(|t| [t.x, t.y, t.z]).collect()))
}
fn corners(c: &Cloud) -> Vec<usize> {
    with_cloud!(c, b => convex_hull_as_points(b))
}

fn check_mesh(n: usize, want: &BTreeSet<[usize; 3]>, m: &[[usize; 3]]) {
    let mut edges: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    let mut got = BTreeSet::new();
    for t in m {
        for k in 0..3 {
            ensure!(t[k] < n, "index", "triangle {:?} refers to a point that does not exist ({} points)", t, n);
            let (a, b) = (t[k], t[(k + 1) % 3]);
            ensure!(a != b, "triangle", "triangle {:?} has a repeated corner", t);
            *edges.entry((a.min(b), a.max(b))).or_insert(0) += 1;
        }
        let mut t = *t;
        t.sort();
        ensure!(n == 3 || got.insert(t), "triangle", "triangle {:?} is reported twice", t);
        got.insert(t);
    }
    for (e, k) in &edges {
        ensure!(*k == 2, "not-closed", "edge {:?} belongs to {} triangles", e, k);
    }
    for t in &got {
        ensure!(want.contains(t), "not-enclosing", "triangle {:?} is reported but some points are outside of it", t);
    }
    for t in want {
        ensure!(got.contains(t), "missing-face", "triangle {:?} has all points on one side but is not part of the hull", t);
    }
}

pub fn c13() {
    choose_scale();
    if dsim::work(24) == 23 {
        return many();
    }
    let n = match dsim::work(8) {
        0 => dsim::work(5),
        1 => 4,
        7 => 12 + dsim::work(28),
        _ => 4 + dsim::work(12),
    };
    let pos = general(n);
    let Some(want) = faces(&pos) else {
        dsim::discard();
    };
    let want_corners: BTreeSet<usize> = if n >= 3 {
        want.iter().flatten().cloned().collect()
    } else {
        (0..n).collect()
    };
    for p in &pos {
        sig(p[0].to_bits());
    }
    let mut by_pos: Option<BTreeSet<usize>> = None;
    let calls = 1 + dsim::work(3);
    for call in 0..calls {
        // the order of the points and the way they are stored must not matter
        let mut order: Vec<usize> = (0..n).collect();
        if call > 0 {
            for i in (1..n).rev() {
                order.swap(i, dsim::work(i + 1));
            }
        }
        let c = cloud_from(order.iter().map(|i| pos[*i]).collect(), dsim::work(3) == 0);
        let rank: Vec<usize> = {
            let mut r = vec![0; n];
            for (k, i) in order.iter().enumerate() {
                r[*i] = k;
            }
            r
        };
        let want: BTreeSet<[usize; 3]> = want
            .iter()
            .map(|t| {
                let mut t = t.map(|i| rank[i]);
                t.sort();
                t
            })
            .collect();
        if let Src::Fail(fs) = &c.src {
            // a read fails somewhere on the way
            let k = dsim::fault(n * n + 4) as u64;
            fs.arm(k);
            let r = catch(|| mesh(&c));
            let fired = fs.fired();
            fs.arm(u64::MAX);
            ev!("call {}: read {} fails: {}", call, k, fired);
            match r {
                Ok(_) if fired => violate!("swallowed", "a hull was returned although reading a point failed"),
                Err(Stopped::Panic) if !fired => violate!("unexpected-panic/hull", "{}", dsim::last_panic()),
                _ => (),
            }
        }
        // (building an error value allocates where nothing may unwind)
        let oom = n >= 3 && dsim::work(6) == 5;
        if oom {
            dsim::alloc::arm_oom(1 + dsim::fault(40) as u64, 64);
            let r = catch(|| mesh(&c).is_some());
            let fired = dsim::alloc::disarm_oom();
            if fired {
                count("fault.alloc");
            }
            if r.is_err() && !fired {
                violate!("unexpected-panic/hull", "{}", dsim::last_panic());
            }
        }
        match must("convex_hull_as_triangle_mesh", || mesh(&c)) {
            Some(m) => {
                ensure!(n >= 3, "too-few", "{} points have a hull of {:?}", n, m);
                ev!("call {}: {} points, {} triangles", call, n, m.len());
                check_mesh(n, &want, &m);
                sig(m.len() as u64);
                if n > 3 {
                    nontrivial();
                }
            }
            None => ensure!(n < 3, "no-hull", "no hull for {} points in general position", n),
        }
        let pts = must("convex_hull_as_points", || corners(&c));
        let set: BTreeSet<usize> = pts.iter().cloned().collect();
        ensure!(set.len() == pts.len(), "corner-twice", "a corner is reported twice: {:?}", pts);
        let back: BTreeSet<usize> = set.iter().map(|k| if *k < n { order[*k] } else { usize::MAX }).collect();
        ensure!(
            back == want_corners,
            "corners",
            "the hull points are {:?}, the corners of the hull are {:?} (in the first order)",
            back,
            want_corners
        );
        if let Some(b) = &by_pos {
            ensure!(*b == back, "order-dependent", "the corners depend on the order or storage of the points");
        }
        by_pos = Some(back);
        c.unchanged();
        count("c13.hulls");
        for i in &set {
            sig(*i as u64);
        }
    }
}
