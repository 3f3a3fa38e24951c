//! C03: a slice reads and writes exactly its own range.

use crate::buffers::check_everything;
use crate::common::*;
use crate::ops::*;
use crate::{with_buf, with_prim, with_type};
use dsim::{catch, count, ensure, ev, must_reject, nontrivial, sig};
use pasture_core::containers::*;
use std::ops::Range;

/// An index past the end of something of length `n`.
pub fn beyond(n: usize) -> usize {
    n + match dsim::work(6) {
        0..=2 => dsim::work(4),
        3 => n,
        4 => 1 << 20,
        _ => usize::MAX / 2 - n,
    }
}

/// A non-empty range that leaves `0..n`.
pub fn range_beyond(n: usize) -> Range<usize> {
    let end = n + 1 + dsim::work(3);
    let start = dsim::work(end);
    start..end
}

/// Reads outside the slice must be rejected.
fn reject_reads<'a: 'b, 'b, B: BorrowedBuffer<'a> + 'a>(b: &'b B, s: &Schema) {
    let n = b.len();
    count("op.out_of_slice_read");
    let i = beyond(n).min(n + 40);
    let r = range_beyond(n);
    let na = s.attrs.len();
    match dsim::work(6) {
        0 => {
            ev!("rejected: get_point {} of {}", i, n);
            let mut t = vec![0; s.stride];
            must_reject("get_point outside the slice", || b.get_point(i, &mut t));
        }
        1 => {
            ev!("rejected: get_point_range {:?} of {}", r, n);
            let mut t = vec![0; s.stride * r.len()];
            must_reject("get_point_range outside the slice", || b.get_point_range(r.clone(), &mut t));
        }
        2 if na > 0 => {
            let a = &s.attrs[dsim::work(na)];
            ev!("rejected: get_attribute {} of {}", i, n);
            let mut t = vec![0; a.size];
            must_reject("get_attribute outside the slice", || b.get_attribute(&a.def, i, &mut t));
        }
        3 if na > 0 => {
            let a = &s.attrs[dsim::work(na)];
            ev!("rejected: get_attribute_range {:?} of {}", r, n);
            let mut t = vec![0; a.size * r.len()];
            must_reject("get_attribute_range outside the slice", || {
                b.get_attribute_range(&a.def, r.clone(), &mut t)
            });
        }
        4 if na > 0 => {
            let a = &s.attrs[dsim::work(na)];
            ev!("rejected: view_attribute({}).at {} of {}", a.def, i, n);
            with_prim!(
                a.dt,
                T,
                {
                    let v = b.view_attribute::<T>(&a.def);
                    must_reject("view_attribute.at outside the slice", || {
                        v.at(i);
                    });
                },
                ()
            );
        }
        _ => {
            if let Some(ty) = s.ty {
                ev!("rejected: view.at {} of {}", i, n);
                with_type!(ty, T, {
                    let v = b.view::<T>();
                    must_reject("view.at outside the slice", || {
                        v.at(i);
                    });
                });
            } else if let Some(x) = b.as_interleaved() {
                ev!("rejected: get_point_ref {} of {}", i, n);
                must_reject("get_point_ref outside the slice", || x.get_point_ref(i).len());
                must_reject("get_point_range_ref outside the slice", || x.get_point_range_ref(r.clone()).len());
            } else if let (Some(x), true) = (b.as_columnar(), na > 0) {
                let a = &s.attrs[dsim::work(na)];
                ev!("rejected: get_attribute_ref {} of {}", i, n);
                must_reject("get_attribute_ref outside the slice", || x.get_attribute_ref(&a.def, i).len());
                must_reject("get_attribute_range_ref outside the slice", || {
                    x.get_attribute_range_ref(&a.def, r.clone()).len()
                });
            }
        }
    }
}

/// Writes outside the slice must be rejected and change nothing.
fn reject_writes<'a: 'b, 'b, B: BorrowedMutBuffer<'a> + 'a>(b: &'b mut B, s: &Schema) {
    let n = b.len();
    count("op.out_of_slice_write");
    let i = beyond(n).min(n + 40);
    let na = s.attrs.len();
    match dsim::work(6) {
        0 => {
            let p = s.points(1);
            ev!("rejected: set_point {} of {}", i, n);
            must_reject("set_point outside the slice", || unsafe { b.set_point(i, &p) });
        }
        1 => {
            // a range that is entirely or partly outside
            let r = if dsim::work(2) == 0 { n..n + 1 + dsim::work(3) } else { range_beyond(n) };
            let before = snapshot(b, s);
            let p = s.points(r.len());
            ev!("rejected: set_point_range {:?} of {}", r, n);
            must_reject("set_point_range outside the slice", || unsafe { b.set_point_range(r.clone(), &p) });
            ensure!(snapshot(b, s) == before, "effect-of-rejected/set_point_range", "a rejected set_point_range({:?}) changed the slice", r);
        }
        2 if na > 0 => {
            let k = dsim::work(na);
            let v = s.value(k, dsim::bits());
            ev!("rejected: set_attribute {} of {}", i, n);
            must_reject("set_attribute outside the slice", || unsafe { b.set_attribute(&s.attrs[k].def, i, &v) });
        }
        3 if na > 0 => {
            let k = dsim::work(na);
            let r = if dsim::work(2) == 0 { n..n + 1 + dsim::work(3) } else { range_beyond(n) };
            let mut d = vec![];
            for _ in r.clone() {
                d.extend_from_slice(&s.value(k, dsim::bits()));
            }
            let before = snapshot(b, s);
            ev!("rejected: set_attribute_range {:?} of {}", r, n);
            must_reject("set_attribute_range outside the slice", || unsafe {
                b.set_attribute_range(&s.attrs[k].def, r.clone(), &d)
            });
            ensure!(snapshot(b, s) == before, "effect-of-rejected/set_attribute_range", "a rejected set_attribute_range({:?}) changed the slice", r);
        }
        4 => {
            let (x, y) = if n > 0 && dsim::work(2) == 0 { (dsim::work(n), i) } else { (i, n) };
            ev!("rejected: swap {} {} of {}", x, y, n);
            must_reject("swap outside the slice", || b.swap(x, y));
        }
        _ if na > 0 => {
            let k = dsim::work(na);
            let v = s.value(k, dsim::bits());
            ev!("rejected: view_attribute_mut({}).set_at {} of {}", s.attrs[k].def, i, n);
            with_prim!(
                s.attrs[k].dt,
                T,
                {
                    let mut w = b.view_attribute_mut::<T>(&s.attrs[k].def);
                    must_reject("view_attribute_mut.set_at outside the slice", || w.set_at(i, to_t::<T>(&v)));
                },
                ()
            );
        }
        _ => {}
    }
}

fn reject_refs_inter<'a: 'b, 'b, B: InterleavedBufferMut<'a> + 'a>(b: &'b mut B) {
    let n = b.len();
    let i = beyond(n).min(n + 40);
    let r = range_beyond(n);
    ev!("rejected: get_point_mut {} and {:?} of {}", i, r, n);
    must_reject("get_point_mut outside the slice", || b.get_point_mut(i).len());
    must_reject("get_point_range_mut outside the slice", || b.get_point_range_mut(r.clone()).len());
    must_reject("get_point_ref outside the slice", || b.get_point_ref(i).len());
    must_reject("get_point_range_ref outside the slice", || b.get_point_range_ref(r.clone()).len());
}

fn reject_refs_col<'a: 'b, 'b, B: ColumnarBufferMut<'a> + 'a>(b: &'b mut B, s: &Schema) {
    if s.attrs.is_empty() {
        return;
    }
    let n = b.len();
    let i = beyond(n).min(n + 40);
    let r = range_beyond(n);
    let d = &s.attrs[dsim::work(s.attrs.len())].def;
    ev!("rejected: get_attribute_mut {} and {:?} of {}", i, r, n);
    must_reject("get_attribute_mut outside the slice", || b.get_attribute_mut(d, i).len());
    must_reject("get_attribute_range_mut outside the slice", || b.get_attribute_range_mut(d, r.clone()).len());
    must_reject("get_attribute_ref outside the slice", || b.get_attribute_ref(d, i).len());
    must_reject("get_attribute_range_ref outside the slice", || b.get_attribute_range_ref(d, r.clone()).len());
}

fn ro<'a: 'b, 'b, B: BorrowedBuffer<'a> + 'a>(b: &'b B, s: &Schema, m: &[Pt]) {
    count("op.read_slice");
    ev!("reading a slice of {} points", m.len());
    sig(m.len() as u64);
    match dsim::work(4) {
        0 => verify_all(b, s, m),
        _ => {
            verify_points(b, s, m);
            verify_path(b, s, m, dsim::work(NPATHS));
        }
    }
    if let Some(ty) = s.ty {
        with_type!(ty, T, verify_typed::<_, T>(b, s, m));
    }
    if dsim::work(2) == 0 {
        reject_reads(b, s);
    }
}

fn rw<'a: 'b, 'b, B: BorrowedMutBuffer<'a> + 'a>(b: &'b mut B, s: &Schema, m: &mut [Pt]) {
    count("op.write_slice");
    for _ in 0..1 + dsim::work(4) {
        ev!("[slice of {} points]", m.len());
        if dsim::work(4) == 3 {
            reject_writes(b, s);
        } else {
            mutate(b, s, m, dsim::work(NMUT));
        }
        sig(m.len() as u64);
    }
    verify_points(b, s, m);
}

/// A slice whose range is not inside its parent: creating or using it must be rejected.
macro_rules! reject_subslice {
    ($x:expr, $s:expr) => {
        if $x.len() > 0 && dsim::work(6) == 0 {
            // a range that ends before it starts holds nothing
            let e = dsim::work($x.len());
            let r = e + 1 + dsim::work($x.len() - e)..e;
            count("op.reversed_subslice");
            ev!("slice {:?} of {}", r, $x.len());
            let mut t = vec![0; $s.stride];
            let k = dsim::work(3);
            must_reject("reading a slice whose range is reversed", || {
                let y = $x.slice(r.clone());
                ensure!(y.len() == 0 && y.is_empty(), "reversed-slice", "the slice {:?} has length {}", r, y.len());
                y.get_point(k, &mut t)
            });
        }
        if dsim::work(3) == 0 {
            let n = $x.len();
            let r = range_beyond(n);
            let k = r.end - 1 - r.start;
            count("op.out_of_slice_subslice");
            ev!("rejected: slicing {:?} of {} and reading its last point", r, n);
            let mut t = vec![0; $s.stride];
            must_reject("access through a sub-slice outside the slice", || {
                $x.slice(r.clone()).get_point(k, &mut t)
            });
        }
    };
}

macro_rules! read_chain {
    ($x:expr, $s:expr, $m:expr) => {{
        let r1 = sub_range($m.len());
        ev!("slice {:?}", r1);
        let m1 = &$m[r1.clone()];
        let s1 = $x.slice(r1);
        ro(&s1, $s, m1);
        reject_subslice!(s1, $s);
        if dsim::work(3) > 0 {
            let r2 = sub_range(m1.len());
            ev!("slice {:?} of it", r2);
            let m2 = &m1[r2.clone()];
            let s2 = s1.slice(r2);
            ro(&s2, $s, m2);
            reject_subslice!(s2, $s);
            if dsim::work(2) > 0 {
                let r3 = sub_range(m2.len());
                ev!("slice {:?} of that", r3);
                let m3 = &m2[r3.clone()];
                let s3 = s2.slice(r3);
                ro(&s3, $s, m3);
                reject_subslice!(s3, $s);
            }
        }
    }};
}

macro_rules! write_chain {
    ($x:expr, $s:expr, $m:expr, $make:expr, $y:ident, $m2:ident => $extra:expr) => {{
        let r1 = sub_range($m.len());
        ev!("slice_mut {:?}", r1);
        let m1 = &mut $m[r1.clone()];
        let mut s1 = $make($x, r1);
        rw(&mut s1, $s, m1);
        {
            let $y = &mut s1;
            let $m2 = &mut *m1;
            $extra;
        }
        if dsim::work(2) == 0 {
            // an immutable slice of the mutable one
            read_chain!(s1, $s, m1);
        }
        if dsim::work(3) > 0 {
            let r2 = sub_range(m1.len());
            ev!("slice_mut {:?} of it", r2);
            let m2 = &mut m1[r2.clone()];
            let mut s2 = s1.slice_mut(r2);
            rw(&mut s2, $s, m2);
            {
                let $y = &mut s2;
                let $m2 = &mut *m2;
                $extra;
            }
            if dsim::work(3) == 0 {
                let n = s2.len();
                let r = range_beyond(n);
                let k = r.end - 1 - r.start;
                ev!("rejected: mutable slice {:?} of {} and writing its last point", r, n);
                let t = $s.points(1);
                let before = m2.to_vec();
                must_reject("writing through a sub-slice outside the slice", || unsafe {
                    s2.slice_mut(r.clone()).set_point(k, &t)
                });
                let _ = before;
            } else if dsim::work(2) > 0 {
                let r3 = sub_range(m2.len());
                ev!("slice_mut {:?} of that", r3);
                let m3 = &mut m2[r3.clone()];
                let mut s3 = s2.slice_mut(r3);
                rw(&mut s3, $s, m3);
                {
                    let $y = &mut s3;
                    let $m2 = &mut *m3;
                    $extra;
                }
                ro(&s3, $s, m3);
            }
        }
    }};
}

macro_rules! inter_extra {
    ($y:expr, $s:expr, $m:expr) => {{
        mutate_inter($y, $s, $m);
        if dsim::work(3) == 0 {
            reject_refs_inter($y);
        }
    }};
}
macro_rules! inter_extra_unaligned {
    ($y:expr, $s:expr, $m:expr) => {{
        if dsim::work(3) == 0 {
            reject_refs_inter($y);
        }
    }};
}
macro_rules! col_extra {
    ($y:expr, $s:expr, $m:expr) => {{
        mutate_col($y, $s, $m);
        if dsim::work(3) == 0 {
            reject_refs_col($y, $s);
        }
    }};
}

fn read_round(b: &Buf, s: &Schema, m: &[Pt]) {
    let generic = dsim::work(2) == 0;
    count("op.slice");
    match (b, generic) {
        (Buf::V(x), false) => read_chain!(x, s, m),
        (Buf::E(x), false) => read_chain!(x, s, m),
        (Buf::M(x), false) => read_chain!(x, s, m),
        (Buf::H(x), false) => {
            let r = sub_range(m.len());
            ev!("slice {:?}", r);
            let s1 = x.slice(r.clone());
            ro(&s1, s, &m[r.clone()]);
            for k in 0..s.attrs.len() {
                with_prim!(s.attrs[k].dt, T, verify_attr_ref::<_, T>(&s1, s, &m[r.clone()], k), ());
            }
        }
        (_, true) => with_buf!(b, x => {
            let r = sub_range(m.len());
            ev!("BufferSlice {:?}", r);
            let s0 = BufferSlice::new(x, r.clone());
            ro(&s0, s, &m[r.clone()]);
            read_chain!(s0, s, m[r.clone()]);
        }),
    }
}

fn write_round(b: &mut Buf, s: &Schema, m: &mut Vec<Pt>) {
    let generic = dsim::work(2) == 0;
    count("op.slice_mut");
    match (b, generic) {
        (Buf::V(x), false) => write_chain!(x, s, m, |x: _, r| VectorBuffer::slice_mut(x, r), y, mm => inter_extra!(y, s, mm)),
        (Buf::E(x), false) => {
            write_chain!(x, s, m, |x: _, r| ExternalMemoryBuffer::slice_mut(x, r), y, mm => inter_extra!(y, s, mm))
        }
        (Buf::M(x), false) => {
            write_chain!(x, s, m, |x: _, r| ExternalMemoryBuffer::slice_mut(x, r), y, mm => inter_extra_unaligned!(y, s, mm))
        }
        (Buf::H(x), false) => {
            let r = sub_range(m.len());
            ev!("slice_mut {:?}", r);
            let mut s1 = x.slice_mut(r.clone());
            let m1 = &mut m[r];
            rw(&mut s1, s, m1);
            col_extra!(&mut s1, s, m1);
            ro(&s1, s, m1);
        }
        (Buf::V(x), true) => write_chain!(x, s, m, BufferSliceMut::new, y, mm => inter_extra!(y, s, mm)),
        (Buf::E(x), true) => write_chain!(x, s, m, BufferSliceMut::new, y, mm => inter_extra!(y, s, mm)),
        (Buf::M(x), true) => write_chain!(x, s, m, BufferSliceMut::new, y, mm => inter_extra_unaligned!(y, s, mm)),
        (Buf::H(x), true) => write_chain!(x, s, m, BufferSliceMut::new, y, mm => col_extra!(y, s, mm)),
    }
}

pub fn c03() {
    choose_scale();
    let s = rand_schema();
    describe(&s);
    if s.stride == 0 {
        dsim::discard();
    }
    let n = count_points();
    let raw = s.points(n);
    let mut b = make(dsim::work(4), &s, &raw);
    let mut m = s.split(&raw);
    ev!("new {} with {} points", b.kind(), n);
    let mut rounds = 0;
    while rounds < max_ops() / 6 + 1 && (rounds == 0 || dsim::more(4)) {
        if dsim::work(2) == 0 {
            read_round(&b, &s, &m);
        } else {
            write_round(&mut b, &s, &mut m);
        }
        with_buf!(&b, x => verify_points(x, &s, &m));
        rounds += 1;
    }
    check_everything(&b, &s, &m);
    for p in &m {
        sig(dsim::rng::fnv(p));
    }
    let _ = catch(|| ());
    if n > 0 {
        nontrivial();
    }
}
