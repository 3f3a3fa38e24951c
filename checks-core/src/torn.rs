//! C02: a failed buffer operation never leaves a torn buffer.

use crate::common::*;
use crate::faulty::Faulty;
use crate::ops::*;
use crate::{with_buf, with_prim, with_type};
use dsim::{count, ensure, ev, nontrivial, sig, violate};
use pasture_core::containers::*;
use pasture_core::layout::*;
use std::cell::Cell;

/// Counts calls of a callback and fails the k-th one.
pub struct Fuse(Cell<u64>);
impl Fuse {
    pub fn new(k: u64) -> Fuse {
        Fuse(Cell::new(k))
    }
    pub fn never() -> Fuse {
        Fuse(Cell::new(u64::MAX))
    }
    pub fn tick(&self) {
        let k = self.0.get();
        if k == 0 {
            self.0.set(u64::MAX);
            dsim::inject_panic();
        }
        if k != u64::MAX {
            self.0.set(k - 1);
        }
    }
}

/// The buffer after an operation that did not finish: every attribute of every point is the old
/// value, the new value, or (for points that did not exist before) zero.
pub fn partial<'a: 'b, 'b, B: BorrowedBuffer<'a> + 'a>(b: &'b B, s: &Schema, old: &[Pt], new: &[Pt], what: &str) -> Vec<Pt> {
    let (lo, hi) = (old.len().min(new.len()), old.len().max(new.len()));
    let n = b.len();
    ensure!(
        n >= lo && n <= hi,
        format!("torn/{}/length", what).as_str(),
        "after a failed {} the buffer has {} points (before: {}, complete: {})",
        what,
        n,
        old.len(),
        new.len()
    );
    let got = snapshot(b, s);
    for (i, p) in got.iter().enumerate() {
        for k in 0..s.attrs.len() {
            let v = s.attr_of(k, p);
            let ok = (i < old.len() && v == s.attr_of(k, &old[i]))
                || (i < new.len() && v == s.attr_of(k, &new[i]))
                || (i >= old.len() && v.iter().all(|x| *x == 0));
            if !ok {
                violate!(
                    &format!("torn/{}/value", what),
                    "after a failed {} attribute {} of point {} is {:x?}: neither old {:x?} nor new {:x?}",
                    what,
                    s.attrs[k].def,
                    i,
                    v,
                    old.get(i).map(|p| s.attr_of(k, p)),
                    new.get(i).map(|p| s.attr_of(k, p))
                );
            }
        }
    }
    got
}

fn oom(what: &str) {
    let n = 1 + dsim::work(if dsim::work(2) == 0 { 2 } else { 24 }) as u64;
    ev!("fault: allocation {} during {} fails", n, what);
    dsim::alloc::arm_oom(n, 1);
}

/// Run `f` under whatever faults are armed, then settle the model.
fn attempt(b: &mut Buf, s: &Schema, m: &mut Vec<Pt>, new: Vec<Pt>, what: &str, f: impl FnOnce(&mut Buf)) -> bool {
    let r = dsim::catch(|| f(b));
    if dsim::alloc::disarm_oom() {
        count("fault.alloc");
    }
    if r.is_ok() {
        *m = new;
        with_buf!(&*b, x => verify_points(x, s, m));
        return true;
    }
    ev!("{} failed", what);
    count("probe.failed_op");
    let got = with_buf!(&*b, x => partial(x, s, m, &new, what));
    *m = got;
    with_buf!(&*b, x => verify_all(x, s, m));
    false
}

fn extended(s: &Schema, m: &[Pt], raw: &[u8]) -> Vec<Pt> {
    let mut r = m.to_vec();
    r.extend(s.split(raw));
    r
}

fn other_layout(s: &Schema) -> Schema {
    for _ in 0..20 {
        let o = if dsim::work(2) == 0 && s.attrs.len() > 1 {
            // the same attributes in another order, or fewer of them
            let mut d: Vec<_> = s.attrs.iter().map(|a| a.def.clone()).collect();
            if dsim::work(2) == 0 {
                d.pop();
            } else {
                d.swap(0, s.attrs.len() - 1);
            }
            Schema::of(layout_from(&d), None)
        } else {
            rand_schema()
        };
        if o.layout != s.layout {
            return o;
        }
    }
    Schema::of(layout_from(&[]), None)
}

fn faulty_op(b: &mut Buf, s: &Schema, m: &mut Vec<Pt>, others: &[(Buf, Vec<Pt>)]) {
    let n = m.len();
    match dsim::work(12) {
        0 if b.owning() && s.stride > 0 => {
            let raw = s.points(1 + count_points());
            let new = extended(s, m, &raw);
            oom("push_points");
            attempt(b, s, m, new, "push_points", |b| match b {
                Buf::V(x) => unsafe { x.push_points(&raw) },
                Buf::H(x) => unsafe { x.push_points(&raw) },
                _ => {}
            });
        }
        1 if b.owning() => {
            let k = if dsim::work(4) == 0 { dsim::work(n + 1) } else { n + 1 + count_points() * 4 };
            let mut new = m.clone();
            new.resize(k, s.zero());
            oom("resize");
            attempt(b, s, m, new, "resize", |b| match b {
                Buf::V(x) => x.resize(k),
                Buf::H(x) => x.resize(k),
                _ => {}
            });
        }
        2 | 3 if b.owning() => {
            // an allocation fails while another buffer is appended
            if others.is_empty() {
                return;
            }
            let (o, om) = &others[dsim::work(others.len())];
            let mut new = m.clone();
            new.extend_from_slice(om);
            let special = dsim::work(2) == 0;
            oom("append");
            fn app<B: for<'x> OwningBuffer<'x>>(b: &mut B, o: &Buf, special: bool) {
                match (o, special) {
                    (Buf::V(x), true) => b.append_interleaved(x),
                    (Buf::H(x), true) => b.append_columnar(x),
                    (Buf::E(x), true) => b.append_interleaved(x),
                    (o, _) => with_buf!(o, x => b.append(x)),
                }
            }
            attempt(b, s, m, new, "append", |b| match b {
                Buf::V(x) => app(x, o, special),
                Buf::H(x) => app(x, o, special),
                _ => {}
            });
            with_buf!(o, x => verify_points(x, s, om));
        }
        4 | 5 if b.owning() => {
            // the source buffer fails while it is appended
            let k = if s.stride == 0 { 0 } else { 1 + dsim::work(6) };
            let raw = s.points(k);
            let src = Faulty::new(s, &raw, dsim::work(2) == 0);
            let new = extended(s, m, &raw);
            let how = dsim::work(3);
            let at = dsim::work(if how == 0 { k + 1 } else { s.attrs.len() + 1 }) as u64;
            ev!("append (way {}) {} points from a source that fails at access {}", how, k, at);
            src.arm(at);
            fn app<B: for<'x> OwningBuffer<'x>>(b: &mut B, o: &Faulty, how: usize) {
                match how {
                    0 => b.append(o),
                    1 => b.append_interleaved(o),
                    _ => b.append_columnar(o),
                }
            }
            attempt(b, s, m, new, "append", |b| match b {
                Buf::V(x) => app(x, &src, how),
                Buf::H(x) => app(x, &src, how),
                _ => {}
            });
            verify_points(&src.v, s, &s.split(&raw));
        }
        6 if b.owning() => {
            // refused: another layout
            let o = other_layout(s);
            let k = if o.stride == 0 { 0 } else { dsim::work(4) };
            let raw = o.points(k);
            let src = Faulty::new(&o, &raw, false);
            let how = dsim::work(5);
            ev!("append {} points of another layout (way {})", k, how);
            count("op.rejected");
            let old = m.clone();
            let done = attempt(b, s, m, old.clone(), "append of another layout", |b| {
                macro_rules! app {
                    ($x:expr) => {
                        match how {
                            0 => $x.append(&src.v),
                            1 => $x.append(&src.h),
                            2 => $x.append_interleaved(&src.v),
                            3 => $x.append_columnar(&src.h),
                            _ => $x.append(&src),
                        }
                    };
                }
                match b {
                    Buf::V(x) => app!(x),
                    Buf::H(x) => app!(x),
                    _ => {}
                }
            });
            ensure!(!done, "not-rejected/append", "points of another layout were appended");
            ensure!(*m == old, "torn/append/refused", "a refused append changed the buffer");
        }
        7 if !s.attrs.is_empty() => {
            // the transformation fails
            let k = dsim::work(s.attrs.len());
            if !is_prim(s.attrs[k].dt) {
                return;
            }
            let at = dsim::work(n + 1);
            let seed = dsim::bits();
            let mut new = m.clone();
            for (i, p) in new.iter_mut().enumerate() {
                let v = new_value(s, k, seed, i, s.attr_of(k, p));
                s.set_attr(k, p, &v);
            }
            let r = if dsim::work(3) == 0 { Some(sub_range(n)) } else { None };
            if let Some(r) = &r {
                for i in 0..n {
                    new[i] = m[i].clone();
                    if r.contains(&i) {
                        let v = new_value(s, k, seed, i - r.start, s.attr_of(k, &m[i]));
                        s.set_attr(k, &mut new[i], &v);
                    }
                }
            }
            let fuse = Fuse::new(at as u64);
            ev!("transform_attribute {} (slice {:?}), call {} fails", s.attrs[k].def, r, at);
            let old = m.clone();
            let done = with_prim!(
                s.attrs[k].dt,
                T,
                {
                    let f = |i: usize, t: T| {
                        fuse.tick();
                        to_t::<T>(&new_value(s, k, seed, i, &of_t(&t)))
                    };
                    attempt(b, s, m, new.clone(), "transform_attribute", |b| match r.clone() {
                        None => with_buf!(b, x => x.transform_attribute::<T, _>(&s.attrs[k].def, f)),
                        Some(r) => with_buf!(b, x => x.slice_mut(r).transform_attribute::<T, _>(&s.attrs[k].def, f)),
                    })
                },
                true
            );
            if !done {
                let changed = (0..n).filter(|i| m[*i] != old[*i]).count();
                ensure!(changed <= at, "torn/transform_attribute/value", "{} points were changed by {} calls", changed, at);
            }
        }
        8 if s.ty.is_some() && s.stride > 0 => {
            // the comparator fails
            let key = dsim::work(s.stride);
            let at = dsim::work(3 * n + 2) as u64;
            let fuse = Fuse::new(at);
            ev!("sort_by, comparison {} fails", at);
            let mut want = m.clone();
            want.sort_by(|x, y| x[key].cmp(&y[key]));
            let before = m.clone();
            with_type!(s.ty.unwrap(), T, {
                let cmp = |x: &T, y: &T| {
                    fuse.tick();
                    bytemuck::bytes_of(x)[key].cmp(&bytemuck::bytes_of(y)[key])
                };
                let r = dsim::catch(|| match b {
                    Buf::V(x) => x.view_mut::<T>().sort_by(cmp),
                    Buf::E(x) => x.view_mut::<T>().sort_by(cmp),
                    _ => dsim::inject_panic(),
                });
                let got = with_buf!(&*b, x => snapshot(x, s));
                if r.is_ok() {
                    ensure!(got == want, "content/sort_by", "sorting gives another order");
                } else {
                    count("probe.failed_op");
                    let (mut a, mut c) = (got.clone(), before.clone());
                    a.sort();
                    c.sort();
                    ensure!(a == c, "torn/sort_by", "points were lost or duplicated by a failed sort");
                }
                *m = got;
            });
            with_buf!(&*b, x => verify_all(x, s, m));
        }
        9 => {
            // copies and filters fail half-way; the source must not notice
            let Buf::H(h) = b else { return };
            let seed = dsim::bits();
            let at = dsim::work(2 * s.attrs.len() * n + 2) as u64;
            let alloc = dsim::work(2) == 0;
            let fuse = if alloc { Fuse::never() } else { Fuse::new(at) };
            let keep = |i: usize| {
                fuse.tick();
                mixh(seed ^ i as u64) % 3 != 0
            };
            let want: Vec<Pt> = m
                .iter()
                .enumerate()
                .filter(|(i, _)| mixh(seed ^ *i as u64) % 3 != 0)
                .map(|(_, p)| p.clone())
                .collect();
            match dsim::work(4) {
                0 => {
                    if alloc {
                        oom("filter");
                    }
                    ev!("filter into a new buffer, call {} fails", at);
                    if dsim::work(2) == 0 {
                        let r = dsim::catch(|| h.filter::<VectorBuffer, _>(keep));
                        dsim::alloc::disarm_oom().then(|| count("fault.alloc"));
                        if let Ok(y) = r {
                            verify_points(&y, s, &want);
                        }
                    } else {
                        let r = dsim::catch(|| h.filter::<HashMapBuffer, _>(keep));
                        dsim::alloc::disarm_oom().then(|| count("fault.alloc"));
                        if let Ok(y) = r {
                            verify_points(&y, s, &want);
                        }
                    }
                }
                1 => {
                    oom("clone");
                    let r = dsim::catch(|| h.clone());
                    dsim::alloc::disarm_oom().then(|| count("fault.alloc"));
                    if let Ok(y) = r {
                        verify_points(&y, s, m);
                    }
                }
                _ => {
                    let raw = s.points(if s.stride == 0 { 0 } else { want.len() + dsim::work(3) });
                    let mut t = make(dsim::work(4), s, &raw);
                    let mut tm = s.split(&raw);
                    let mut new = tm.clone();
                    new[..want.len()].clone_from_slice(&want);
                    let hint = if dsim::work(2) == 0 { Some(want.len()) } else { None };
                    ev!("filter_into {}, call {} fails", t.kind(), at);
                    attempt(&mut t, s, &mut tm, new, "filter_into", |t| match t {
                        Buf::V(x) => h.filter_into(x, keep, hint),
                        Buf::H(x) => h.filter_into(x, keep, hint),
                        Buf::E(x) => h.filter_into(x, keep, hint),
                        Buf::M(x) => h.filter_into(x, keep, hint),
                    });
                    for _ in 0..dsim::work(3) {
                        crate::buffers::step(&mut t, s, &mut tm, &[]);
                        with_buf!(&t, x => verify_points(x, s, &tm));
                    }
                }
            }
            verify_all(&*h, s, m);
        }
        10 => {
            // out-of-range and unknown arguments
            let how = dsim::work(6);
            let old = m.clone();
            let mut new = m.clone();
            ev!("rejected argument {}", how);
            count("op.rejected");
            let beyond = n + dsim::work(3);
            match how {
                0 => {
                    let p = s.points(1);
                    if s.stride == 0 {
                        return;
                    }
                    attempt(b, s, m, old.clone(), "set_point beyond the end", |b| {
                        with_buf!(b, x => unsafe { x.set_point(beyond, &p) })
                    });
                }
                1 => {
                    if s.stride == 0 {
                        return;
                    }
                    let st = dsim::work(n + 1);
                    let p = s.points(beyond + 1 - st);
                    let q = s.split(&p);
                    for i in st..n {
                        new[i] = q[i - st].clone();
                    }
                    let done = attempt(b, s, m, new, "set_point_range beyond the end", |b| {
                        with_buf!(b, x => unsafe { x.set_point_range(st..beyond + 1, &p) })
                    });
                    ensure!(!done, "not-rejected/set_point_range", "a range beyond the end was accepted");
                    return;
                }
                2 => {
                    if s.attrs.is_empty() {
                        return;
                    }
                    let k = dsim::work(s.attrs.len());
                    let v = s.value(k, dsim::bits());
                    attempt(b, s, m, old.clone(), "set_attribute beyond the end", |b| {
                        with_buf!(b, x => unsafe { x.set_attribute(&s.attrs[k].def, beyond, &v) })
                    });
                }
                3 => {
                    let a = PointAttributeDefinition::custom("NoSuchAttribute".into(), DT::U32);
                    let done = attempt(b, s, m, old.clone(), "set_attribute of an unknown attribute", |b| {
                        with_buf!(b, x => unsafe { x.set_attribute(&a, 0, &[1, 2, 3, 4]) })
                    });
                    ensure!(!done, "not-rejected/set_attribute", "an unknown attribute was accepted");
                }
                4 => {
                    let i = if n > 0 { dsim::work(n) } else { 0 };
                    let flip = dsim::work(2) == 0;
                    let done = attempt(b, s, m, old.clone(), "swap beyond the end", |b| {
                        with_buf!(b, x => if flip { x.swap(beyond, i) } else { x.swap(i, beyond) })
                    });
                    ensure!(!done, "not-rejected/swap", "swap({}, {}) of {} points was accepted", i, beyond, n);
                }
                _ => {
                    if !b.owning() || s.stride < 2 {
                        return;
                    }
                    let mut p = s.points(2);
                    p.truncate(s.stride + 1 + dsim::work(s.stride - 1));
                    let done = attempt(b, s, m, old.clone(), "push_points of half a point", |b| match b {
                        Buf::V(x) => unsafe { x.push_points(&p) },
                        Buf::H(x) => unsafe { x.push_points(&p) },
                        _ => {}
                    });
                    ensure!(!done, "not-rejected/push_points", "half a point was accepted");
                }
            }
            ensure!(*m == old, "torn/refused", "a refused operation changed the buffer");
        }
        _ if b.owning() => {
            // more points than can be addressed
            if s.stride < 2 {
                return;
            }
            let k = usize::MAX / s.stride + 1 + dsim::work(1000);
            let old = m.clone();
            ev!("resize {}", k);
            count("op.rejected");
            let done = attempt(b, s, m, old.clone(), "resize beyond the address space", |b| match b {
                Buf::V(x) => x.resize(k),
                Buf::H(x) if s.attrs.iter().any(|a| a.size > 1) => x.resize(k),
                _ => dsim::inject_panic(),
            });
            ensure!(!done, "not-rejected/resize", "resize({}) was accepted", k);
            ensure!(*m == old, "torn/resize", "a refused resize changed the buffer");
        }
        _ => {}
    }
}

fn collect_fault() {
    let ty = dsim::work(NTYPES);
    let s = static_schema(ty);
    let n = count_points();
    let raw = s.points(n);
    let want = s.split(&raw);
    let alloc = dsim::work(2) == 0;
    let fuse = if alloc { Fuse::never() } else { Fuse::new(dsim::work(n + 1) as u64) };
    ev!("collect {} points with a fault", n);
    with_type!(ty, T, {
        let pts: Vec<T> = raw.chunks_exact(s.stride).map(|c| bytemuck::pod_read_unaligned::<T>(c)).collect();
        let it = crate::collect::Claimed {
            it: pts.iter().map(|p| {
                fuse.tick();
                *p
            }),
            left: n,
            claim: crate::collect::rand_claim(),
        };
        let v = dsim::work(2) == 0;
        if alloc {
            oom("collect");
        }
        let r = dsim::catch(|| if v { Buf::V(it.collect()) } else { Buf::H(it.collect()) });
        dsim::alloc::disarm_oom().then(|| count("fault.alloc"));
        match r {
            Ok(b) => with_buf!(&b, x => verify_points(x, &s, &want)),
            Err(_) => count("probe.failed_op"),
        }
    });
}

pub fn c02() {
    choose_scale();
    if dsim::work(16) == 0 {
        collect_fault();
    }
    let s = rand_schema();
    describe(&s);
    let mut bufs: Vec<(Buf, Vec<Pt>)> = vec![];
    for _ in 0..1 + dsim::work(3) {
        let n = if s.stride == 0 { 0 } else { count_points() };
        let raw = s.points(n);
        let b = make(dsim::work(4), &s, &raw);
        ev!("new {} with {} points", b.kind(), n);
        bufs.push((b, s.split(&raw)));
    }
    let mut ops = 0;
    while dsim::more(10) && ops < max_ops() {
        let i = dsim::work(bufs.len());
        let (mut b, mut m) = bufs.swap_remove(i);
        ev!("[{} with {} points]", b.kind(), m.len());
        if dsim::work(3) == 0 {
            crate::buffers::step(&mut b, &s, &mut m, &bufs);
        } else {
            faulty_op(&mut b, &s, &mut m, &bufs);
            nontrivial();
        }
        with_buf!(&b, x => {
            verify_points(x, &s, &m);
            verify_path(x, &s, &m, dsim::work(NPATHS));
        });
        sig(m.len() as u64 * 131 + ops);
        bufs.push((b, m));
        ops += 1;
    }
    for (b, m) in &bufs {
        crate::buffers::check_everything(b, &s, m);
        for p in m {
            sig(dsim::rng::fnv(p));
        }
    }
}
