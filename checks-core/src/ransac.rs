//! C09-C11: RANSAC plane and line segmentation under seeded schedules, pool sizes, random streams
//! and failures inside the workers.

use crate::common::*;
use crate::ops::*;
use dsim::{catch, count, ensure, ev, nontrivial, sig, violate, Stopped};
use pasture_algorithms::segmentation::*;
use pasture_core::containers::*;
use pasture_core::layout::attributes::POSITION_3D;
use pasture_core::layout::*;
use std::ops::Range;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};

pub type V3 = [f64; 3];

fn sub(a: V3, b: V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn cross(a: V3, b: V3) -> V3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn dot(a: V3, b: V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn norm(a: V3) -> f64 {
    dot(a, a).sqrt()
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Which {
    PlanePar,
    PlaneSerial,
    LinePar,
    LineSerial,
}
use Which::*;

impl Which {
    fn plane(self) -> bool {
        matches!(self, PlanePar | PlaneSerial)
    }
    fn par(self) -> bool {
        matches!(self, PlanePar | LinePar)
    }
    fn min(self) -> usize {
        if self.plane() {
            3
        } else {
            2
        }
    }
    fn rand() -> Which {
        [PlanePar, LinePar, PlaneSerial, LineSerial][dsim::work(4)]
    }
    fn rand_par() -> Which {
        [PlanePar, LinePar][dsim::work(2)]
    }
}

/// What a segmentation returned: model parameters, ranking, indices.
pub struct Found {
    pub par: Vec<f64>,
    pub ranking: usize,
    pub idx: Vec<usize>,
}

/// The model's fields are private; its Debug output has them all.
fn numbers(dbg: &str) -> Vec<f64> {
    dbg.split(|c: char| "{}[](),: \n".contains(c)).filter_map(|t| t.parse::<f64>().ok()).collect()
}

fn found(dbg: String, k: usize, idx: Vec<usize>) -> Found {
    let n = dsim::sched::no_preempt(|| numbers(&dbg));
    ensure!(n.len() == k + 1, "model", "the returned model has {} numbers instead of {}: {}", n.len(), k + 1, dbg);
    Found {
        par: n[..k].to_vec(),
        ranking: n[k] as usize,
        idx,
    }
}

fn run_on<'a, T: BorrowedBuffer<'a> + Sync>(b: &'a T, w: Which, thr: f64, n: usize) -> Found {
    match w {
        PlanePar => {
            let (m, i) = ransac_plane_par(b, thr, n);
            found(format!("{:?}", m), 4, i)
        }
        PlaneSerial => {
            let (m, i) = ransac_plane_serial(b, thr, n);
            found(format!("{:?}", m), 4, i)
        }
        LinePar => {
            let (m, i) = ransac_line_par(b, thr, n);
            found(format!("{:?}", m), 6, i)
        }
        LineSerial => {
            let (m, i) = ransac_line_serial(b, thr, n);
            found(format!("{:?}", m), 6, i)
        }
    }
}

/// A buffer whose reads fail from a chosen one on, or exactly once.
pub struct ParSource {
    v: VectorBuffer,
    left: AtomicU64,
    pub fired: AtomicBool,
    /// every later read fails as well
    sticky: bool,
}

impl ParSource {
    pub fn arm(&self, k: u64) {
        self.left.store(k, SeqCst);
    }
    pub fn reset(&self) {
        self.arm(u64::MAX);
        self.fired.store(false, SeqCst);
    }
    pub fn inner(&mut self) -> &mut VectorBuffer {
        &mut self.v
    }
    pub fn fired(&self) -> bool {
        self.fired.load(SeqCst)
    }
    fn tick(&self) {
        let l = self.left.load(SeqCst);
        if l == u64::MAX {
            return;
        }
        if l == 0 {
            if !self.sticky {
                self.left.store(u64::MAX, SeqCst);
            }
            self.fired.store(true, SeqCst);
            ev!("    read fails");
            dsim::inject_panic();
        }
        self.left.store(l - 1, SeqCst);
    }
}

impl<'a> BorrowedBuffer<'a> for ParSource {
    fn len(&self) -> usize {
        self.v.len()
    }
    fn point_layout(&self) -> &PointLayout {
        self.v.point_layout()
    }
    fn get_point(&self, index: usize, data: &mut [u8]) {
        self.tick();
        self.v.get_point(index, data)
    }
    fn get_point_range(&self, range: Range<usize>, data: &mut [u8]) {
        self.tick();
        self.v.get_point_range(range, data)
    }
    unsafe fn get_attribute_unchecked(&self, m: &PointAttributeMember, index: usize, data: &mut [u8]) {
        self.tick();
        self.v.get_attribute_unchecked(m, index, data)
    }
}

pub enum Src {
    Whole(Buf),
    Part(Buf, Range<usize>),
    Fail(ParSource),
}

pub struct Cloud {
    pub s: Schema,
    pub raw: Vec<u8>,
    pub pos: Vec<V3>,
    pub src: Src,
}

fn on_buf(b: &Buf, w: Which, thr: f64, n: usize) -> Found {
    match b {
        Buf::V(x) => run_on(x, w, thr, n),
        Buf::H(x) => run_on(x, w, thr, n),
        Buf::E(x) => run_on(x, w, thr, n),
        Buf::M(x) => run_on(x, w, thr, n),
    }
}

fn on_slice(b: &Buf, r: Range<usize>, w: Which, thr: f64, n: usize) -> Found {
    match b {
        Buf::V(x) => run_on(&x.slice(r), w, thr, n),
        Buf::H(x) => run_on(&x.slice(r), w, thr, n),
        Buf::E(x) => run_on(&x.slice(r), w, thr, n),
        Buf::M(x) => run_on(&x.slice(r), w, thr, n),
    }
}

/// Run an expression on the buffer or slice that holds a cloud.
#[macro_export]
macro_rules! with_cloud {
    ($c:expr, $b:ident => $e:expr) => {{
        use $crate::ops::Buf;
        use $crate::ransac::Src;
        match &$c.src {
            Src::Whole(Buf::V($b)) => $e,
            Src::Whole(Buf::H($b)) => $e,
            Src::Whole(Buf::E($b)) => $e,
            Src::Whole(Buf::M($b)) => $e,
            Src::Part(Buf::V(b), r) => {
                let $b = &b.slice(r.clone());
                $e
            }
            Src::Part(Buf::H(b), r) => {
                let $b = &b.slice(r.clone());
                $e
            }
            Src::Part(Buf::E(b), r) => {
                let $b = &b.slice(r.clone());
                $e
            }
            Src::Part(Buf::M(b), r) => {
                let $b = &b.slice(r.clone());
                $e
            }
            Src::Fail($b) => $e,
        }
    }};
}

impl Cloud {
    pub fn call(&self, w: Which, thr: f64, n: usize) -> Found {
        match &self.src {
            Src::Whole(b) => on_buf(b, w, thr, n),
            Src::Part(b, r) => on_slice(b, r.clone(), w, thr, n),
            Src::Fail(f) => run_on(f, w, thr, n),
        }
    }
    pub fn unchanged(&self) {
        let m = self.s.split(&self.raw);
        match &self.src {
            Src::Whole(b) | Src::Part(b, _) => match b {
                Buf::V(x) => verify_points(x, &self.s, &m),
                Buf::H(x) => verify_points(x, &self.s, &m),
                Buf::E(x) => verify_points(x, &self.s, &m),
                Buf::M(x) => verify_points(x, &self.s, &m),
            },
            Src::Fail(f) => verify_points(&f.v, &self.s, &m),
        }
    }
}

pub fn f(scale: f64) -> f64 {
    ((dsim::bits() >> 11) as f64 / (1u64 << 53) as f64 - 0.5) * scale
}

/// Positions with some structure.
pub fn positions(n: usize) -> Vec<V3> {
    let mode = dsim::work(7);
    let scale = [10.0, 10.0, 1000.0, 0.01][dsim::work(4)];
    let shift = [0.0, 0.0, 1.0, 1000.0][dsim::work(4)] * scale;
    let inl = if n == 0 { 0 } else { 1 + dsim::work(n) };
    let (u, v) = ([f(2.0), f(2.0), f(2.0)], [f(2.0), f(2.0), f(2.0)]);
    let mut p: Vec<V3> = (0..n)
        .map(|i| match mode {
            // uniform
            0 => [f(scale), f(scale), f(scale)],
            // a plane and outliers
            1 | 2 if i < inl => {
                let (a, b) = (f(scale), f(scale));
                [a, b, a * u[0] + b * u[1]]
            }
            // a line and outliers
            3 | 4 if i < inl => {
                let a = f(scale);
                [v[0] * a, v[1] * a, v[2] * a]
            }
            // small grid with many coincidences
            5 => [
                dsim::work(3) as f64 * scale,
                dsim::work(3) as f64 * scale,
                dsim::work(2) as f64 * scale,
            ],
            // one place
            6 if i < inl => [scale, scale, -scale],
            _ => [f(scale * 3.0), f(scale * 3.0), f(scale * 3.0)],
        })
        .collect();
    for x in p.iter_mut() {
        x[0] += shift;
        x[2] -= shift;
    }
    if n > 0 && dsim::work(12) == 11 {
        let i = dsim::work(n);
        p[i][dsim::work(3)] = [f64::NAN, f64::INFINITY, 1e300][dsim::work(3)];
    }
    // order must not matter
    for i in (1..n).rev() {
        p.swap(i, dsim::work(i + 1));
    }
    p
}

pub fn schema_with_position() -> Schema {
    let mut attrs = vec![POSITION_3D];
    if dsim::work(2) == 1 {
        for a in rand_attrs(if dsim::work(10) == 9 { 16 } else { 4 }, true) {
            if a.name() != POSITION_3D.name() {
                attrs.push(a);
            }
        }
    }
    if dsim::work(16) == 15 {
        attrs.push(PointAttributeDefinition::custom(std::borrow::Cow::Borrowed("blob"), PointAttributeDataType::ByteArray(100 + dsim::work(300) as u64)));
    }
    let k = dsim::work(attrs.len());
    attrs.swap(0, k);
    Schema::of(layout_from(&attrs), None)
}

pub fn set_position(s: &Schema, p: &mut [u8], v: V3) {
    let a = s.attrs.iter().find(|a| a.def.name() == POSITION_3D.name()).unwrap();
    for c in 0..3 {
        match a.dt {
            PointAttributeDataType::Vec3f64 => p[a.off + 8 * c..a.off + 8 * c + 8].copy_from_slice(&v[c].to_ne_bytes()),
            PointAttributeDataType::Vec3f32 => p[a.off + 4 * c..a.off + 4 * c + 4].copy_from_slice(&(v[c] as f32).to_ne_bytes()),
            PointAttributeDataType::Vec3i32 => p[a.off + 4 * c..a.off + 4 * c + 4].copy_from_slice(&(v[c] as i32).to_ne_bytes()),
            _ => unreachable!(),
        }
    }
}

pub fn cloud(pos: Vec<V3>, can_fail: bool) -> Cloud {
    cloud_of(schema_with_position(), pos, can_fail)
}
pub fn cloud_from(pos: Vec<V3>, can_fail: bool) -> Cloud {
    cloud(pos, can_fail)
}

pub fn cloud_of(s: Schema, pos: Vec<V3>, can_fail: bool) -> Cloud {
    let n = pos.len();
    let (before, after) = (dsim::work(4), dsim::work(4));
    let kind = dsim::work(if can_fail { 3 } else { 2 });
    let part = kind == 1;
    let total = if part { before + n + after } else { n };
    let start = if part { before } else { 0 };
    let mut raw = s.points(total);
    for i in 0..total {
        let v = if i >= start && i < start + n { pos[i - start] } else { [f(50.0), f(50.0), f(50.0)] };
        set_position(&s, &mut raw[i * s.stride..(i + 1) * s.stride], v);
    }
    let src = if kind == 2 {
        let mut v = VectorBuffer::new_from_layout(s.layout.clone());
        unsafe { v.push_points(&raw) };
        Src::Fail(ParSource {
            v,
            left: AtomicU64::new(u64::MAX),
            fired: AtomicBool::new(false),
            sticky: dsim::fault(2) == 1,
        })
    } else {
        let b = make(dsim::work(4), &s, &raw);
        ev!("{} points in a {}{}", n, b.kind(), if part { " slice" } else { "" });
        if part {
            Src::Part(b, start..start + n)
        } else {
            Src::Whole(b)
        }
    };
    Cloud { s, raw, pos, src }
}

/// Size of the numbers that enter a distance computation.
fn magnitude(pos: &[V3]) -> f64 {
    let mut m = 1e-9f64;
    for p in pos {
        for c in p {
            if c.is_finite() {
                m = m.max(c.abs());
            }
        }
    }
    m
}

fn plane_dist(q: &[f64], p: V3) -> f64 {
    (q[0] * p[0] + q[1] * p[1] + q[2] * p[2] + q[3]).abs() / (q[0] * q[0] + q[1] * q[1] + q[2] * q[2]).sqrt()
}
fn line_dist(q: &[f64], p: V3) -> f64 {
    let (a, b) = ([q[0], q[1], q[2]], [q[3], q[4], q[5]]);
    norm(cross(sub(b, a), sub(a, p))) / norm(sub(b, a))
}

fn finite(v: V3) -> bool {
    v.iter().all(|c| c.is_finite())
}
fn eq3(a: V3, b: V3) -> bool {
    (0..3).all(|c| a[c].to_bits() == b[c].to_bits() || a[c] == b[c])
}

fn plane_of(a: V3, b: V3, c: V3) -> [f64; 4] {
    let n = cross(sub(b, a), sub(c, a));
    [n[0], n[1], n[2], -dot(n, a)]
}

/// Do two coordinate forms describe the same plane?
fn same_plane(p: &[f64], q: &[f64], mag: f64) -> bool {
    let (np, nq) = (norm([p[0], p[1], p[2]]), norm([q[0], q[1], q[2]]));
    if !(np > 0.0 && nq > 0.0 && np.is_finite() && nq.is_finite()) {
        return np == nq || (np.is_nan() && nq.is_nan()) || np == 0.0 || nq == 0.0;
    }
    let dir = dot([p[0], p[1], p[2]], [q[0], q[1], q[2]]).signum();
    (0..3).all(|c| (p[c] / np - dir * q[c] / nq).abs() < 1e-6) && (p[3] / np - dir * q[3] / nq).abs() < 1e-6 * (1.0 + mag)
}

/// C09: the result is a model of distinct points with exactly its inliers.
pub fn check_found(c: &Cloud, w: Which, thr: f64, r: &Found) {
    let n = c.pos.len();
    let mag = magnitude(&c.pos);
    ensure!(r.ranking == r.idx.len(), "ranking", "ranking {} but {} inliers", r.ranking, r.idx.len());
    ensure!(r.idx.windows(2).all(|x| x[0] < x[1]), "order", "inlier indices are not strictly ascending: {:?}", r.idx);
    ensure!(r.idx.iter().all(|i| *i < n), "index", "inlier index out of range: {:?} of {}", r.idx, n);
    // the model is spanned by distinct points
    let mut spanned = false;
    if w.plane() {
        // three points on it suffice, unless there are few enough to try all triples
        let degenerate = !(norm([r.par[0], r.par[1], r.par[2]]) > 0.0);
        if n > 24 {
            spanned = c.pos.iter().filter(|p| plane_dist(&r.par, **p) <= 1e-6 * (1.0 + mag)).count() >= 3;
        }
        if !spanned {
            'o: for i in 0..n {
                for j in i + 1..n {
                    for k in j + 1..n {
                        let q = plane_of(c.pos[i], c.pos[j], c.pos[k]);
                        // a nearly degenerate triple has no reliable normal
                        let (a, b) = (sub(c.pos[j], c.pos[i]), sub(c.pos[k], c.pos[i]));
                        let weak = !(norm([q[0], q[1], q[2]]) > 1e-6 * norm(a) * norm(b))
                            || !(norm(a) > 1e-9 * mag && norm(b) > 1e-9 * mag);
                        // and only three points on a line span a degenerate plane
                        if weak || (!degenerate && same_plane(&r.par, &q, mag)) {
                            spanned = true;
                            break 'o;
                        }
                    }
                }
            }
        }
    } else {
        let (a, b) = ([r.par[0], r.par[1], r.par[2]], [r.par[3], r.par[4], r.par[5]]);
        let ia: Vec<usize> = (0..n).filter(|i| eq3(c.pos[*i], a)).collect();
        let ib: Vec<usize> = (0..n).filter(|i| eq3(c.pos[*i], b)).collect();
        spanned = ia.iter().any(|i| ib.iter().any(|j| i != j)) || !finite(a) || !finite(b);
    }
    ensure!(spanned, "model", "{:?} returned a model {:?} that no distinct points of the buffer span", w, r.par);
    // exactly the inliers
    let degenerate = if w.plane() {
        !(norm([r.par[0], r.par[1], r.par[2]]) > 0.0)
    } else {
        !(norm(sub([r.par[3], r.par[4], r.par[5]], [r.par[0], r.par[1], r.par[2]])) > 0.0)
    };
    if degenerate {
        ensure!(r.idx.is_empty(), "degenerate", "a degenerate model has inliers {:?}", r.idx);
        count("c09.degenerate");
        return;
    }
    for i in 0..n {
        let d = if w.plane() { plane_dist(&r.par, c.pos[i]) } else { line_dist(&r.par, c.pos[i]) };
        // rounding of the distance itself
        let eps = 1e-9 * (mag + d.abs()).max(thr.abs());
        let listed = r.idx.binary_search(&i).is_ok();
        if !(d - thr).is_finite() || (d - thr).abs() <= eps {
            // an infinite or undefined distance is never below the threshold
            if !d.is_finite() {
                ensure!(!listed, "inlier", "point {} at undefined distance {} is listed as inlier", i, d);
            }
            continue;
        }
        ensure!(
            listed == (d < thr),
            "inlier",
            "{:?}: point {} has distance {} (threshold {}) but is {}listed as inlier",
            w,
            i,
            d,
            thr,
            if listed { "" } else { "not " }
        );
    }
}

pub fn setup_pool() -> usize {
    let k = 1 + dsim::work(5);
    std::env::set_var("RAYON_NUM_THREADS", k.to_string());
    ev!("pool of {} threads", k);
    k
}

fn threshold(mag: f64) -> f64 {
    match dsim::work(10) {
        0 => 0.0,
        1 => -1.0,
        2 => f64::INFINITY,
        3 => 1e-12 * mag,
        4 => 1e-6 * mag,
        5 => mag,
        6 => 1e9 * mag,
        7 => f64::NAN,
        _ => mag * (1.0 + f(1.9)) / 10.0,
    }
}

/// How the segmentation is reached: directly, from a pool of its own, from inside a worker.
fn via<T: Send>(how: usize, op: impl FnOnce() -> T + Send) -> T {
    match how {
        0 | 1 => op(),
        2 => {
            let pool = rayon::ThreadPoolBuilder::new().num_threads(1 + dsim::work(4)).build().unwrap();
            pool.install(op)
        }
        _ => rayon::join(op, || 0).0,
    }
}

pub fn c09() {
    choose_scale();
    setup_pool();
    let calls = 1 + dsim::work(4);
    for call in 0..calls {
        let n = 2 + count_points().min(300);
        let w = Which::rand();
        let n = n.max(w.min());
        let c = cloud(positions(n), false);
        let thr = threshold(magnitude(&c.pos));
        let it = 1 + dsim::work([4, 12, 60][dsim::work(3)]);
        ev!("call {}: {:?} on {} points, threshold {}, {} iterations", call, w, n, thr, it);
        let how = dsim::work(6);
        let r = dsim::must("segmentation", || via(how, || c.call(w, thr, it)));
        check_found(&c, w, thr, &r);
        c.unchanged();
        ev!("  -> ranking {} {:?}", r.ranking, &r.idx[..r.idx.len().min(8)]);
        count(if w.par() { "c09.parallel" } else { "c09.serial" });
        if r.ranking > 0 {
            nontrivial();
        }
        sig(r.ranking as u64);
        sig(r.par[0].to_bits());
    }
}

// ------------------------------------------------------------------ C10

fn kl(q: f64, p: f64) -> f64 {
    let t = |a: f64, b: f64| if a <= 0.0 { 0.0 } else { a * (a / b).ln() };
    t(q, p) + t(1.0 - q, 1.0 - p)
}

/// ln of the largest probability that fair draws would look this odd; below this it is a violation
const CERTAIN: f64 = 38.0;

/// All hypotheses over the points: how many inliers each has; None if some distance is too close
/// to the threshold or some hypothesis is degenerate.
fn all_ranks(pos: &[V3], plane: bool, thr: f64) -> Option<Vec<(Vec<usize>, usize)>> {
    let n = pos.len();
    let mag = magnitude(pos);
    let mut out = vec![];
    let mut one = |ids: Vec<usize>, q: &[f64]| -> Option<()> {
        let mut k = 0;
        for p in pos {
            let d = if plane { plane_dist(q, *p) } else { line_dist(q, *p) };
            if !d.is_finite() || (d - thr).abs() < 1e-7 * mag {
                return None;
            }
            if d < thr {
                k += 1;
            }
        }
        out.push((ids, k));
        Some(())
    };
    for i in 0..n {
        for j in i + 1..n {
            if !plane {
                let (a, b) = (pos[i], pos[j]);
                if norm(sub(a, b)) < 1e-5 * mag {
                    return None;
                }
                one(vec![i, j], &[a[0], a[1], a[2], b[0], b[1], b[2]])?;
                continue;
            }
            for k in j + 1..n {
                let q = plane_of(pos[i], pos[j], pos[k]);
                let (a, b) = (sub(pos[j], pos[i]), sub(pos[k], pos[i]));
                if !(norm([q[0], q[1], q[2]]) > 1e-4 * norm(a) * norm(b)) || norm(a) < 1e-5 * mag || norm(b) < 1e-5 * mag {
                    return None;
                }
                one(vec![i, j, k], &q)?;
            }
        }
    }
    Some(out)
}

/// Positions in general position, except that some of them share a plane or line within the threshold.
fn general(n: usize, plane: bool) -> (Vec<V3>, f64) {
    let m = dsim::work(n + 1);
    let mut p: Vec<V3> = (0..n)
        .map(|i| {
            let (a, b, e) = (f(10.0), f(10.0), f(0.02));
            if i < m {
                if plane {
                    [a, b, 0.3 * a - 0.7 * b + e]
                } else {
                    [a, 0.4 * a + e, -a + f(0.02)]
                }
            } else {
                [f(10.0), f(10.0), f(10.0)]
            }
        })
        .collect();
    for i in (1..n).rev() {
        p.swap(i, dsim::work(i + 1));
    }
    (p, 0.03 + f(0.02).abs())
}

/// A buffer that remembers which thread read which point, to see the hypotheses that were tried.
struct Watched {
    v: VectorBuffer,
    log: std::cell::UnsafeCell<Vec<(std::thread::ThreadId, usize)>>,
}
// one thread runs at a time, and the log is only touched without preemption
unsafe impl Sync for Watched {}

impl Watched {
    fn note(&self, index: usize) {
        dsim::sched::no_preempt(|| unsafe { (*self.log.get()).push((std::thread::current().id(), index)) });
    }
    fn take(&self) -> Vec<(std::thread::ThreadId, usize)> {
        dsim::sched::no_preempt(|| unsafe { std::mem::take(&mut *self.log.get()) })
    }
}

impl<'a> BorrowedBuffer<'a> for Watched {
    fn len(&self) -> usize {
        self.v.len()
    }
    fn point_layout(&self) -> &PointLayout {
        self.v.point_layout()
    }
    fn get_point(&self, index: usize, data: &mut [u8]) {
        self.note(index);
        self.v.get_point(index, data)
    }
    fn get_point_range(&self, range: Range<usize>, data: &mut [u8]) {
        for i in range.clone() {
            self.note(i);
        }
        self.v.get_point_range(range, data)
    }
    unsafe fn get_attribute_unchecked(&self, m: &PointAttributeMember, index: usize, data: &mut [u8]) {
        self.note(index);
        self.v.get_attribute_unchecked(m, index, data)
    }
}

/// The hypotheses behind a sequence of reads: per thread, each one draws its points and then reads
/// all points in order. None if the reads look different (then they do not tell what was tried).
fn tried(log: &[(std::thread::ThreadId, usize)], n: usize, k: usize) -> Option<Vec<Vec<usize>>> {
    let mut threads: Vec<(std::thread::ThreadId, Vec<usize>)> = vec![];
    for (t, i) in log {
        match threads.iter_mut().find(|x| x.0 == *t) {
            Some(x) => x.1.push(*i),
            None => threads.push((*t, vec![*i])),
        }
    }
    let mut out = vec![];
    for (_, reads) in threads {
        if reads.len() % (n + k) != 0 {
            return None;
        }
        for h in reads.chunks(n + k) {
            let mut ids = h[..k].to_vec();
            ids.sort();
            if ids.windows(2).any(|x| x[0] == x[1]) || !h[k..].iter().copied().eq(0..n) {
                return None;
            }
            out.push(ids);
        }
    }
    Some(out)
}

fn watched(pos: &[V3]) -> Watched {
    let s = schema_with_position();
    let mut raw = s.points(pos.len());
    for i in 0..pos.len() {
        set_position(&s, &mut raw[i * s.stride..(i + 1) * s.stride], pos[i]);
    }
    let mut v = VectorBuffer::new_from_layout(s.layout.clone());
    unsafe { v.push_points(&raw) };
    Watched { v, log: Default::default() }
}

fn number_of_tries(w: Which, it: usize, tried: usize, ranking: usize, n: usize) {
    // once every point is an inlier, further tries make no difference
    ensure!(
        tried >= it || ranking == n,
        "too-few-tries",
        "{:?} with {} iterations tried {} hypotheses and returned ranking {} of {}",
        w,
        it,
        tried,
        ranking,
        n
    );
}

/// Few iterations under many schedules: the result is as good as the best hypothesis that was tried.
fn c10_watched() {
    let serial = dsim::work(5) == 4;
    let w = if serial { [PlaneSerial, LineSerial][dsim::work(2)] } else { Which::rand_par() };
    let n = w.min() + 1 + dsim::work(4);
    let (pos, thr) = general(n, w.plane());
    let Some(ranks) = all_ranks(&pos, w.plane(), thr) else {
        dsim::discard();
    };
    let lo = ranks.iter().map(|r| r.1).min().unwrap();
    let hi = ranks.iter().map(|r| r.1).max().unwrap();
    if lo == hi {
        dsim::discard();
    }
    let b = watched(&pos);
    let (calls, most) = if dsim::work(6) == 5 { (1, 2000) } else { (20 + dsim::work(60), 2 + dsim::work(9)) };
    ev!("{:?}: {} points, {} calls, rankings from {} to {}", w, n, calls, lo, hi);
    let mut known = 0;
    for _ in 0..calls {
        let it = 1 + dsim::work(most);
        b.take();
        let r = dsim::must("segmentation", || run_on(&b, w, thr, it));
        let log = b.take();
        let Some(t) = dsim::sched::no_preempt(|| tried(&log, n, w.min())) else {
            continue;
        };
        known += 1;
        number_of_tries(w, it, t.len(), r.ranking, n);
        let best = t.iter().filter_map(|ids| ranks.iter().find(|r| r.0 == *ids)).max_by_key(|r| r.1);
        let Some(best) = best else {
            continue;
        };
        sig(best.1 as u64 * 64 + r.ranking as u64);
        ensure!(
            r.ranking >= best.1,
            "not-the-best",
            "{:?} with {} iterations returned a model of ranking {} although it had tried the points {:?}, whose model has ranking {}",
            w,
            it,
            r.ranking,
            best.0,
            best.1
        );
    }
    if known > 0 {
        dsim::count_n("c10.calls_with_known_hypotheses", known);
        nontrivial();
    }
}

/// Is `hits` of `tries` compatible with independent tries of probability `p`?
fn fair(what: &str, w: Which, n: usize, hits: usize, tries: usize, p: f64) {
    if tries == 0 || p <= 0.0 || p >= 1.0 {
        return;
    }
    ensure!(
        tries as f64 * kl(hits as f64 / tries as f64, p) < CERTAIN + 6.0,
        "not-uniform",
        "{:?} over {} points: {} in {} of {} draws; the fair rate is {:.4}",
        w,
        n,
        what,
        hits,
        tries,
        p
    );
}

/// Many points: hypotheses come from all of them, evenly and independently of each other.
fn c10_many_points() {
    let w = if dsim::work(2) == 1 { [PlaneSerial, LineSerial][dsim::work(2)] } else { Which::rand_par() };
    let k = w.min();
    let n = [40, 100, 200, 255, 256, 257, 300, 600, 1030][dsim::work(9)] + dsim::work(9);
    let pos: Vec<V3> = (0..n).map(|_| [f(10.0), f(10.0), f(10.0)]).collect();
    let thr = 0.01;
    let b = watched(&pos);
    let calls = 2 + dsim::work(12);
    let it = 10 + dsim::work(60);
    ev!("{:?}: {} points, {} calls with {} iterations", w, n, calls, it);
    let mut all: Vec<Vec<usize>> = vec![];
    for _ in 0..calls {
        b.take();
        let r = dsim::must("segmentation", || run_on(&b, w, thr, it));
        let log = b.take();
        let Some(t) = dsim::sched::no_preempt(|| tried(&log, n, k)) else {
            return;
        };
        number_of_tries(w, it, t.len(), r.ranking, n);
        all.extend(t);
    }
    let h = all.len();
    dsim::count_n("c10.draws_from_many_points", (h * k) as u64);
    // a part of the buffer, a residue class
    for part in 0..8 {
        let r = part * n / 8..(part + 1) * n / 8;
        let hits = all.iter().filter(|ids| ids.iter().any(|i| r.contains(i))).count();
        let mut miss = 1.0;
        for j in 0..k {
            miss *= (n - r.len() - j) as f64 / (n - j) as f64;
        }
        fair(&format!("some point of {:?}", r), w, n, hits, h, 1.0 - miss);
    }
    for m in 2..6 {
        for c in 0..m {
            let size = (n + m - 1 - c) / m;
            let hits = all.iter().filter(|ids| ids.iter().any(|i| i % m == c)).count();
            let mut miss = 1.0;
            for j in 0..k {
                miss *= (n - size - j) as f64 / (n - j) as f64;
            }
            fair(&format!("some index {} modulo {}", c, m), w, n, hits, h, 1.0 - miss);
        }
    }
    // points close to each other
    if k == 2 {
        for d in [2, 1 + n / 8] {
            let near: usize = (1..d).map(|e| n - e).sum();
            let hits = all.iter().filter(|ids| ids[1] - ids[0] < d).count();
            fair(&format!("two points less than {} apart", d), w, n, hits, h, near as f64 / (n * (n - 1) / 2) as f64);
        }
    }
    // two hypotheses in a row share a point as rarely as independent ones
    let mut apart = 1.0;
    for j in 0..k {
        apart *= (n - k - j) as f64 / (n - j) as f64;
    }
    let pairs: Vec<&[Vec<usize>]> = all.chunks_exact(2).collect();
    let hits = pairs.iter().filter(|p| p[0].iter().any(|i| p[1].contains(i))).count();
    fair("two hypotheses in a row with a common point", w, n, hits, pairs.len(), 1.0 - apart);
    sig(all.iter().flatten().fold(0, |a, i| mixh(a ^ *i as u64)));
    nontrivial();
}

pub fn c10() {
    setup_pool();
    match dsim::work(8) {
        0..=3 => (),
        4..=6 => return c10_watched(),
        _ => return c10_many_points(),
    }
    let w = if dsim::work(3) == 0 {
        [PlaneSerial, LineSerial][dsim::work(2)]
    } else {
        Which::rand_par()
    };
    let mode = dsim::work(3);
    let n = w.min() + if mode == 2 { 1 + dsim::work(5) } else { dsim::work(4) };
    let (pos, thr) = general(n, w.plane());
    let Some(ranks) = all_ranks(&pos, w.plane(), thr) else {
        dsim::discard();
    };
    let best = ranks.iter().map(|r| r.1).max().unwrap();
    let hits = ranks.iter().filter(|r| r.1 == best).count();
    let p = hits as f64 / ranks.len() as f64;
    let c = cloud(pos, false);
    ev!("{:?}: {} points, {} hypotheses, {} of them with the best ranking {}", w, n, ranks.len(), hits, best);
    sig(best as u64);
    sig(ranks.len() as u64);
    match mode {
        0 => {
            // so many iterations that the best model cannot be missed
            let it = if p == 1.0 { 1 } else { (-CERTAIN / (1.0 - p).ln()).ceil() as usize + 1 };
            let calls = 1 + dsim::work(3);
            for _ in 0..calls {
                let r = dsim::must("segmentation", || c.call(w, thr, it));
                check_found(&c, w, thr, &r);
                ensure!(
                    r.ranking >= best,
                    "missed-best",
                    "{:?} with {} iterations over {} equally likely hypotheses returned ranking {}; {} of them have {}",
                    w,
                    it,
                    ranks.len(),
                    r.ranking,
                    hits,
                    best
                );
            }
            count("c10.exhaustive_calls");
            nontrivial();
        }
        1 => {
            // few iterations, many times: the best is found as often as n fair tries find it
            let k = 1 + dsim::work(8);
            let pk = 1.0 - (1.0 - p).powi(k as i32);
            let m = 250 + dsim::work(350);
            let mut ok = 0;
            for i in 0..m {
                let r = dsim::must("segmentation", || c.call(w, thr, k));
                if i == 0 {
                    check_found(&c, w, thr, &r);
                }
                if r.ranking >= best {
                    ok += 1;
                }
            }
            let q = ok as f64 / m as f64;
            ev!("{} of {} calls with {} iterations found the best (expected rate {:.4})", ok, m, k, pk);
            if q < pk {
                ensure!(
                    m as f64 * kl(q, pk.min(1.0 - 1e-15)) < CERTAIN,
                    "too-few-tries",
                    "{:?} with {} iterations found the best model in {} of {} calls; independent uniform tries find it at a rate of {:.4}",
                    w,
                    k,
                    ok,
                    m,
                    pk
                );
            }
            sig(ok as u64);
            count("c10.rate_tests");
            if p < 1.0 {
                nontrivial();
            }
        }
        _ => {
            // one iteration: which points were drawn
            let serial = matches!(w, PlaneSerial | LineSerial);
            let m = if dsim::work(if serial { 2 } else { 8 }) == 1 { 3000 } else { 300 + dsim::work(300) };
            let mag = magnitude(&c.pos);
            let mut seen = vec![0u64; ranks.len()];
            let mut per_point = vec![0u64; n];
            let mut first = vec![0u64; n];
            for _ in 0..m {
                let r = dsim::must("segmentation", || c.call(w, thr, 1));
                let mut hit = usize::MAX;
                for (h, (ids, _)) in ranks.iter().enumerate() {
                    let same = if w.plane() {
                        same_plane(&r.par, &plane_of(c.pos[ids[0]], c.pos[ids[1]], c.pos[ids[2]]), mag)
                    } else {
                        let a = [r.par[0], r.par[1], r.par[2]];
                        let b = [r.par[3], r.par[4], r.par[5]];
                        (eq3(a, c.pos[ids[0]]) && eq3(b, c.pos[ids[1]])) || (eq3(a, c.pos[ids[1]]) && eq3(b, c.pos[ids[0]]))
                    };
                    if same {
                        if hit != usize::MAX {
                            dsim::discard();
                        }
                        hit = h;
                    }
                }
                ensure!(hit != usize::MAX, "model", "{:?} returned a model {:?} that no distinct points of the buffer span", w, r.par);
                seen[hit] += 1;
                for i in &ranks[hit].0 {
                    per_point[*i] += 1;
                }
                if !w.plane() {
                    let a = [r.par[0], r.par[1], r.par[2]];
                    first[(0..n).find(|i| eq3(c.pos[*i], a)).unwrap()] += 1;
                }
            }
            let limit = CERTAIN + (2 * (ranks.len() + n)) as f64;
            for (h, s) in seen.iter().enumerate() {
                let u = 1.0 / ranks.len() as f64;
                if ranks.len() > 1 {
                    ensure!(
                        m as f64 * kl(*s as f64 / m as f64, u) < limit,
                        "not-uniform",
                        "{:?} drew the points {:?} in {} of {} tries; {} choices should be equally likely",
                        w,
                        ranks[h].0,
                        s,
                        m,
                        ranks.len()
                    );
                }
            }
            for (i, s) in per_point.iter().enumerate() {
                let u = w.min() as f64 / n as f64;
                if u < 1.0 {
                    ensure!(
                        m as f64 * kl(*s as f64 / m as f64, u) < limit,
                        "not-uniform",
                        "{:?} drew point {} of {} in {} of {} tries; a fair rate is {:.3}",
                        w,
                        i,
                        n,
                        s,
                        m,
                        u
                    );
                }
            }
            for s in &seen {
                sig(*s);
            }
            count("c10.uniformity_tests");
            nontrivial();
        }
    }
    c.unchanged();
}

// ------------------------------------------------------------------ C11

/// Outcome of a call that may have met a failure.
fn judge(c: &Cloud, w: Which, thr: f64, r: Result<Found, Stopped>, must_fail: Option<&str>) {
    match (r, must_fail) {
        (Ok(_), Some(why)) => violate!("swallowed", "{:?} returned a result although {}", w, why),
        (Ok(r), None) => check_found(c, w, thr, &r),
        (Err(_), Some(_)) => count("c11.failure_reached_caller"),
        (Err(_), None) => violate!("spurious", "{:?} failed without a reason: {}", w, dsim::last_panic()),
    }
}

pub fn c11() {
    choose_scale();
    let pool = setup_pool();
    let threads = dsim::work(3);
    // other segmentations at the same time
    let jobs: Vec<(Cloud, Which, f64, usize)> = (0..threads)
        .map(|_| {
            let w = Which::rand_par();
            let c = cloud(positions(w.min() + dsim::work(20)), false);
            let thr = magnitude(&c.pos) / 20.0;
            (c, w, thr, 1 + dsim::work(12))
        })
        .collect();
    let rounds = 1 + dsim::work(3);
    let mut first_pool_use = true;
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for (c, w, thr, it) in &jobs {
            hs.push(sc.spawn(move || catch(|| c.call(*w, *thr, *it))));
        }
        for round in 0..rounds {
            let w = if dsim::work(5) == 4 { Which::rand() } else { Which::rand_par() };
            let bad = dsim::work(8);
            let n = if bad == 7 { dsim::work(w.min()) } else { w.min() + dsim::work(30) };
            let it = if bad == 6 { 0 } else { 1 + dsim::work([3, 20, 60][dsim::work(3)]) };
            let mut c = cloud(positions(n), true);
            let thr = magnitude(&c.pos) / 20.0;
            if let Src::Fail(fs) = &mut c.src {
                // anywhere from the first read to beyond the last
                let total = (it * (n + 3)).max(1);
                let k = match dsim::fault(4) {
                    0 => u64::MAX,
                    1 => dsim::fault(6) as u64,
                    2 => (total - 1 - dsim::fault(total.min(6))) as u64,
                    _ => dsim::fault(total + 4) as u64,
                };
                *fs.left.get_mut() = k;
                ev!("round {}: read {} fails", round, k);
            }
            let how = dsim::work(6);
            // the source of randomness fails while the workers start up
            let entropy = if threads == 0 { dsim::fault(6) } else { 0 };
            match entropy {
                4 => dsim::sched::fail_entropy(1 + dsim::fault(3) as u64, 4),
                5 => dsim::sched::fail_entropy(1 + dsim::fault(3) as u64, 5),
                _ => (),
            }
            ev!("round {}: {:?} on {} points, {} iterations, via {}", round, w, n, it, how);
            let r = catch(|| via(how, || c.call(w, thr, it)));
            let no_entropy = entropy == 5;
            dsim::sched::fail_entropy(0, 0);
            let fired = matches!(&c.src, Src::Fail(f) if f.fired.load(SeqCst));
            if fired {
                if let Err(Stopped::Panic) = r {
                    // a failure of its own kind is as good, as long as it arrives
                    count("c11.other_payload");
                }
            }
            let why = if n < w.min() {
                Some("the buffer has too few points")
            } else if it == 0 {
                // without any hypothesis there is no model; anything but a made-up one will do
                None
            } else if fired {
                Some("a read failed in a worker")
            } else {
                None
            };
            if it == 0 && n >= w.min() {
                if let Ok(r) = r {
                    violate!("made-up", "zero iterations returned a model {:?}", r.par);
                }
                count("c11.zero_iterations");
            } else if no_entropy && why.is_none() && r.is_err() {
                count("c11.no_entropy_reached_caller");
            } else {
                judge(&c, w, thr, r, why);
            }
            c.unchanged();
            if why.is_some() {
                nontrivial();
                sig(round as u64 * 16 + pool as u64);
            }
            if first_pool_use {
                first_pool_use = false;
            }
        }
        for (h, (c, w, thr, _)) in hs.into_iter().zip(&jobs) {
            match h.join() {
                Ok(r) => judge(c, *w, *thr, r, None),
                Err(_) => violate!("spurious", "a concurrent segmentation's thread failed: {}", dsim::last_panic()),
            }
            c.unchanged();
        }
    });
    // afterwards everything works
    let w = Which::rand_par();
    let c = cloud(positions(w.min() + dsim::work(12)), false);
    let thr = magnitude(&c.pos) / 20.0;
    let r = catch(|| c.call(w, thr, 1 + dsim::work(8)));
    judge(&c, w, thr, r, None);
}
