//! C05: layout conversion is exact per point and independent of how it is split up.

use crate::common::*;
use crate::ops::*;
use crate::{with_buf, with_prim};
use dsim::{count, ensure, ev, must, must_reject, nontrivial, sig, violate};
use pasture_core::containers::*;
use pasture_core::layout::conversion::*;
use pasture_core::layout::*;
use std::cell::Cell;
use std::ops::Range;

thread_local! {
    static FUSE: Cell<u64> = const { Cell::new(u64::MAX) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

fn tick() {
    CALLS.with(|c| c.set(c.get() + 1));
    FUSE.with(|f| {
        let k = f.get();
        if k == 0 {
            f.set(u64::MAX);
            dsim::inject_panic();
        }
        if k != u64::MAX {
            f.set(k - 1);
        }
    })
}

#[derive(Clone, Debug)]
struct Map {
    src: usize,
    dst: usize,
    /// seed of the transformation and whether it works on the source value
    f: Option<(u64, bool)>,
}

fn transformed(dt: DT, seed: u64, v: &[u8]) -> Vec<u8> {
    let mut h = seed;
    for b in v {
        h = mixh(h ^ *b as u64);
    }
    gen_value(dt, v.len(), h)
}

fn conv_point(s: &Schema, t: &Schema, maps: &[Map], p: &Pt, old: &Pt) -> Pt {
    let mut r = old.clone();
    for m in maps {
        let (a, b) = (&s.attrs[m.src], &t.attrs[m.dst]);
        let mut v = s.attr_of(m.src, p).to_vec();
        if let Some((seed, true)) = m.f {
            v = transformed(a.dt, seed, &v);
        }
        let mut v = ref_convert(a.dt, b.dt, &v);
        if let Some((seed, false)) = m.f {
            v = transformed(b.dt, seed, &v);
        }
        t.set_attr(m.dst, &mut r, &v);
    }
    r
}

fn fits(a: DT, b: DT) -> bool {
    a == b || convertible(a, b)
}

fn target_schema(s: &Schema, complete: bool) -> Schema {
    let mut defs: Vec<PointAttributeDefinition> = vec![];
    for a in &s.attrs {
        if dsim::work(3) == 0 {
            continue;
        }
        let mut d = a.def.clone();
        if is_prim(a.dt) && dsim::work(2) == 0 {
            let to = *dsim::pick(&ALL_PRIMS);
            if convertible(a.dt, to) {
                d = d.with_custom_datatype(to);
            }
        }
        defs.push(d);
    }
    if !complete {
        for _ in 0..dsim::work(3) {
            let a = rand_attr(false);
            if !defs.iter().any(|d| d.name() == a.name()) && !s.attrs.iter().any(|x| x.def.name() == a.name()) {
                defs.push(a);
            }
        }
    }
    for i in (1..defs.len()).rev() {
        defs.swap(i, dsim::work(i + 1));
    }
    if defs.is_empty() {
        defs.push(s.attrs[0].def.clone());
    }
    Schema::of(layout_from(&defs), None)
}

fn add_mapping(c: &mut BufferLayoutConverter, s: &Schema, t: &Schema, maps: &mut Vec<Map>) {
    let (i, j) = (dsim::work(s.attrs.len()), dsim::work(t.attrs.len()));
    let (a, b) = (&s.attrs[i], &t.attrs[j]);
    if !fits(a.dt, b.dt) {
        return;
    }
    let f = match dsim::work(3) {
        0 => None,
        1 if is_prim(a.dt) => Some((dsim::bits(), true)),
        _ if is_prim(b.dt) => Some((dsim::bits(), false)),
        _ => None,
    };
    ev!("map {} -> {} (transformation {:?})", a.def, b.def, f.map(|x| x.1));
    match f {
        None => c.set_custom_mapping(&a.def, &b.def),
        Some((seed, on_src)) => {
            let dt = if on_src { a.dt } else { b.dt };
            with_prim!(
                dt,
                T,
                c.set_custom_mapping_with_transformation::<T, _>(
                    &a.def,
                    &b.def,
                    move |v| {
                        tick();
                        to_t::<T>(&transformed(dt, seed, &of_t(&v)))
                    },
                    on_src
                ),
                ()
            )
        }
    }
    count("op.set_custom_mapping");
    maps.retain(|m| m.dst != j);
    maps.push(Map { src: i, dst: j, f });
}

fn convert_range(
    c: &BufferLayoutConverter,
    src: &Buf,
    so: Option<Range<usize>>,
    sr: Range<usize>,
    tgt: &mut Buf,
    to: Option<Range<usize>>,
    tr: Range<usize>,
    whole: bool,
) {
    with_buf!(src, x => with_buf!(tgt, y => match (so, to) {
        (None, None) if whole => c.convert_into(x, y),
        (None, None) => c.convert_into_range(x, sr, y, tr),
        (Some(r), None) => c.convert_into_range(&x.slice(r), sr, y, tr),
        (None, Some(q)) => c.convert_into_range(x, sr, &mut y.slice_mut(q), tr),
        (Some(r), Some(q)) if whole => c.convert_into(&x.slice(r), &mut y.slice_mut(q)),
        (Some(r), Some(q)) => c.convert_into_range(&x.slice(r), sr, &mut y.slice_mut(q), tr),
    }))
}

/// a random window of at least `len` elements around `at..at+len` in `0..n`
fn window(n: usize, r: &Range<usize>) -> (Option<Range<usize>>, Range<usize>) {
    if dsim::work(3) != 0 {
        return (None, r.clone());
    }
    let a = dsim::work(r.start + 1);
    let b = r.end + dsim::work(n - r.end + 1);
    (Some(a..b), r.start - a..r.end - a)
}

fn round(c: &BufferLayoutConverter, s: &Schema, t: &Schema, maps: &[Map]) {
    let n = count_points();
    let raw = s.points(n);
    let src = make(dsim::work(4), s, &raw);
    let sm = s.split(&raw);
    let check_src = |src: &Buf| with_buf!(src, x => verify_points(x, s, &sm));

    if dsim::work(4) == 0 {
        // into a new buffer
        count("op.convert");
        let want: Vec<Pt> = sm.iter().map(|p| conv_point(s, t, maps, p, &t.zero())).collect();
        ev!("convert {} points of a {}", n, src.kind());
        let fail = if dsim::work(3) == 0 && !maps.is_empty() { Some(dsim::work(n * maps.len() + 1) as u64) } else { None };
        FUSE.with(|f| f.set(fail.unwrap_or(u64::MAX)));
        let go = || -> Buf {
            if dsim::work(2) == 0 {
                Buf::V(with_buf!(&src, x => c.convert::<VectorBuffer, _>(x)))
            } else {
                Buf::H(with_buf!(&src, x => c.convert::<HashMapBuffer, _>(x)))
            }
        };
        match dsim::catch(&go) {
            Ok(b) => with_buf!(&b, x => verify_all(x, t, &want)),
            Err(dsim::Stopped::Injected) => {
                FUSE.with(|f| f.set(u64::MAX));
                let b = must("convert", go);
                with_buf!(&b, x => verify_points(x, t, &want));
            }
            Err(_) => violate!("unexpected-panic/convert", "{}", dsim::last_panic()),
        }
        FUSE.with(|f| f.set(u64::MAX));
        check_src(&src);
        return;
    }

    // into an existing buffer, in pieces
    let extra = dsim::work(5);
    let shift = dsim::work(extra + 1);
    let same_size = dsim::work(3) == 0;
    let (nt, shift) = if same_size { (n, 0) } else { (n + extra, shift) };
    let traw = t.points(nt);
    let mut tgt = make(dsim::work(4), t, &traw);
    let mut tm = t.split(&traw);
    let mut pieces: Vec<Range<usize>> = vec![];
    let mut at = 0;
    while at < n {
        let k = 1 + dsim::work((n - at).min(if n > 1000 { n / 2 } else if dsim::work(2) == 0 { 3 } else { 64 }));
        pieces.push(at..at + k);
        at += k;
    }
    if dsim::work(4) == 0 {
        pieces = vec![0..n];
    }
    if dsim::work(4) == 0 {
        for i in (1..pieces.len()).rev() {
            pieces.swap(i, dsim::work(i + 1));
        }
    }
    if dsim::work(6) == 0 {
        pieces.push(n..n);
    }
    ev!("convert {} points of a {} into a {} of {} in {} pieces", n, src.kind(), tgt.kind(), nt, pieces.len());
    let ntr = maps.iter().filter(|m| m.f.is_some()).count() as u64;
    for p in pieces {
        let tr = p.start + shift..p.end + shift;
        let (so, sr) = window(n, &p);
        let (to, trw) = window(nt, &tr);
        let whole = p.len() == n
            && n == nt
            && match (&so, &to) {
                (None, None) => true,
                (Some(a), Some(b)) => a.len() == b.len() && a.len() == p.len(),
                _ => false,
            };
        count("op.convert_into_range");
        let fail = if dsim::work(4) == 0 && ntr > 0 {
            Some(dsim::work(p.len() * ntr as usize + 1) as u64)
        } else {
            None
        };
        let alloc = fail.is_none() && dsim::work(8) == 0;
        ev!(
            "points {:?} (source slice {:?}) to {:?} (target slice {:?}) fault {:?} {}",
            p,
            so,
            tr,
            to,
            fail,
            alloc
        );
        FUSE.with(|f| f.set(fail.unwrap_or(u64::MAX)));
        CALLS.with(|c| c.set(0));
        if alloc {
            dsim::alloc::arm_oom(1 + dsim::work(4) as u64, 1);
        }
        let r = dsim::catch(|| convert_range(c, &src, so.clone(), sr.clone(), &mut tgt, to.clone(), trw.clone(), whole));
        let oom = dsim::alloc::disarm_oom();
        FUSE.with(|f| f.set(u64::MAX));
        if oom {
            count("fault.alloc");
        }
        match r {
            Ok(()) => {
                let calls = CALLS.with(|c| c.get());
                ensure!(
                    calls == ntr * p.len() as u64,
                    "content/transformation",
                    "{} transformations of {} points made {} calls",
                    ntr,
                    p.len(),
                    calls
                );
            }
            Err(e) => {
                ensure!(
                    e == dsim::Stopped::Injected || oom,
                    "unexpected-panic/convert_into_range",
                    "{}",
                    dsim::last_panic()
                );
                count("probe.failed_op");
                // interrupted: nothing but the mapped attributes of the target range may have changed
                check_src(&src);
                with_buf!(&tgt, x => {
                    ensure!(x.len() == nt, "length", "a failed conversion changed the length");
                    let got = snapshot(x, t);
                    for i in 0..nt {
                        for k in 0..t.attrs.len() {
                            if tr.contains(&i) && maps.iter().any(|m| m.dst == k) {
                                continue;
                            }
                            ensure!(
                                t.attr_of(k, &got[i]) == t.attr_of(k, &tm[i]),
                                "content/outside",
                                "a failed conversion of {:?} changed {} of point {}",
                                tr, t.attrs[k].def, i
                            );
                        }
                    }
                });
                if dsim::work(8) == 0 {
                    // do not repeat it
                    with_buf!(&tgt, x => tm = snapshot(x, t));
                    continue;
                }
                must("repeated convert_into_range", || {
                    convert_range(c, &src, so.clone(), sr.clone(), &mut tgt, to.clone(), trw.clone(), whole)
                });
            }
        }
        for (k, i) in p.clone().zip(tr) {
            tm[i] = conv_point(s, t, maps, &sm[k], &tm[i]);
        }
        if dsim::work(4) == 0 {
            with_buf!(&tgt, x => verify_points(x, t, &tm));
        }
    }
    with_buf!(&tgt, x => verify_all(x, t, &tm));
    check_src(&src);

    // refused ranges
    if dsim::work(4) == 0 {
        count("op.rejected");
        let (a, b) = match dsim::work(4) {
            0 => (0..n + 1, 0..n + 1),
            1 => (0..n, 0..n + 1),
            2 => (n..n + 1, 0..1),
            _ => (0..n, nt + 1 - n.min(nt)..nt + 1),
        };
        if a.end <= n && b.end <= nt && a.len() == b.len() || (a.is_empty() && b.is_empty() && b.end <= nt) {
            return;
        }
        ev!("refused: {:?} to {:?}", a, b);
        must_reject("convert_into_range with bad ranges", || {
            convert_range(c, &src, None, a, &mut tgt, None, b, false)
        });
        with_buf!(&tgt, x => verify_points(x, t, &tm));
    }
    sig(n as u64);
    for p in &tm {
        sig(dsim::rng::fnv(p));
    }
}

fn raw_converter(s: &Schema, t: &Schema) {
    count("op.raw_point_converter");
    let mut maps: Vec<Map> = vec![];
    for (j, b) in t.attrs.iter().enumerate() {
        if let Some(i) = s.attrs.iter().position(|a| a.def.name() == b.def.name()) {
            if !fits(s.attrs[i].dt, b.dt) {
                return;
            }
            maps.push(Map { src: i, dst: j, f: None });
        }
    }
    let c = RawPointConverter::from_to(&s.layout, &t.layout);
    for _ in 0..1 + dsim::work(3) {
        let p = s.points(1);
        let mut q = t.points(1);
        let want = conv_point(s, t, &maps, &s.norm(&p), &t.norm(&q));
        unsafe { c.convert(&p, &mut q) };
        ensure!(
            t.same(&q, &want),
            "content/raw_point_converter",
            "RawPointConverter from {} to {} gives {:x?}, expected {:x?}",
            s.layout,
            t.layout,
            t.norm(&q),
            want
        );
    }
}

pub fn c05() {
    choose_scale();
    let s = rand_schema();
    if s.attrs.is_empty() {
        return;
    }
    let complete = dsim::work(2) == 0;
    let same = dsim::work(8) == 0;
    let t = if same { Schema::of(s.layout.clone(), s.ty) } else { target_schema(&s, complete) };
    describe(&s);
    describe(&t);
    let mut maps: Vec<Map> = vec![];
    for (j, b) in t.attrs.iter().enumerate() {
        if let Some(i) = s.attrs.iter().position(|a| a.def.name() == b.def.name()) {
            if !fits(s.attrs[i].dt, b.dt) {
                return;
            }
            maps.push(Map { src: i, dst: j, f: None });
        }
    }
    let total = maps.len() == t.attrs.len();
    let mut c = if total && dsim::work(2) == 0 {
        BufferLayoutConverter::for_layouts(&s.layout, &t.layout)
    } else {
        if !total && dsim::work(4) == 0 {
            count("op.rejected");
            must_reject("for_layouts with a missing attribute", || BufferLayoutConverter::for_layouts(&s.layout, &t.layout));
        }
        BufferLayoutConverter::for_layouts_with_default(&s.layout, &t.layout)
    };
    raw_converter(&s, &t);
    let most = if huge() { 1 } else { 3 };
    for _ in 0..1 + dsim::work(most) {
        for _ in 0..dsim::work(4) {
            add_mapping(&mut c, &s, &t, &mut maps);
        }
        for _ in 0..1 + dsim::work(2) {
            round(&c, &s, &t, &maps);
        }
    }
    // buffers of other layouts are refused
    if dsim::work(6) == 0 {
        let o = rand_schema();
        let k = dsim::work(3);
        if o.layout != s.layout && o.stride > 0 {
            let raw = o.points(k);
            let src = make(dsim::work(4), &o, &raw);
            let traw = t.points(k);
            let mut tgt = make(dsim::work(4), &t, &traw);
            count("op.rejected");
            must_reject("convert_into from another layout", || convert_range(&c, &src, None, 0..k, &mut tgt, None, 0..k, true));
            with_buf!(&tgt, x => verify_points(x, &t, &t.split(&traw)));
        }
        if o.layout != t.layout && o.stride > 0 {
            let raw = s.points(k);
            let src = make(dsim::work(4), &s, &raw);
            let traw = o.points(k);
            let mut tgt = make(dsim::work(4), &o, &traw);
            count("op.rejected");
            must_reject("convert_into another layout", || convert_range(&c, &src, None, 0..k, &mut tgt, None, 0..k, true));
            with_buf!(&tgt, x => verify_points(x, &o, &o.split(&traw)));
        }
    }
    nontrivial();
}
