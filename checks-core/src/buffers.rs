//! C01: a point buffer always equals the list of points its users wrote.

use crate::common::*;
use crate::ops::*;
use crate::{with_buf, with_prim, with_type};
use dsim::{count, ensure, ev, nontrivial, sig};
use pasture_core::containers::*;
use pasture_core::layout::*;

fn typed_refs(b: &Buf, s: &Schema, m: &[Pt]) {
    if let Some(ty) = s.ty {
        with_type!(ty, T, with_buf!(b, x => verify_typed::<_, T>(x, s, m)));
        match b {
            Buf::V(x) => with_type!(ty, T, verify_typed_ref::<_, T>(x, s, m)),
            Buf::E(x) => with_type!(ty, T, verify_typed_ref::<_, T>(x, s, m)),
            _ => {}
        }
    }
    if let Buf::H(x) = b {
        for k in 0..s.attrs.len() {
            with_prim!(s.attrs[k].dt, T, verify_attr_ref::<_, T>(x, s, m, k), ());
        }
    }
}

pub fn check_everything(b: &Buf, s: &Schema, m: &[Pt]) {
    with_buf!(b, x => verify_all(x, s, m));
    typed_refs(b, s, m);
}

fn copies(b: &mut Buf, s: &Schema, m: &mut Vec<Pt>) {
    match b {
        Buf::V(x) => {
            count("op.clone");
            let mut c = x.clone();
            ensure!(c == *x, "equality", "a clone differs from its original");
            if !m.is_empty() && s.stride > 0 && !s.attrs.is_empty() {
                let i = dsim::work(m.len());
                let mut p = m[i].clone();
                let o = s.attrs[dsim::work(s.attrs.len())].off;
                p[o] ^= 1;
                unsafe { c.set_point(i, &p) };
                ensure!(c != *x, "equality", "buffers with different points compare equal");
            }
            if let Some(ty) = s.ty {
                with_type!(ty, T, {
                    ensure!(x.view::<T>() == x.view::<T>(), "equality", "a view differs from itself");
                    let raw = s.flat(m);
                    let y = ExternalMemoryBuffer::new(raw, s.layout.clone());
                    ensure!(x.view::<T>() == y.view::<T>(), "equality", "views of equal points differ");
                    if c != *x {
                        ensure!(c.view::<T>() != y.view::<T>(), "equality", "views of different points are equal");
                        let mut x2 = x.clone();
                        let mut x3 = x.clone();
                        ensure!(x2.view_mut::<T>() == x3.view_mut::<T>(), "equality", "mutable views differ");
                        ensure!(x2.view_mut::<T>() != c.view_mut::<T>(), "equality", "mutable views of different points are equal");
                        if x2.len() > 0 {
                            x3.resize(m.len() - 1);
                            ensure!(x.view::<T>() != x3.view::<T>(), "equality", "views of different lengths are equal");
                            ensure!(x3.view::<T>() != x.view::<T>(), "equality", "views of different lengths are equal");
                        }
                    }
                });
            }
            if dsim::work(2) == 0 {
                *x = x.clone();
            }
        }
        Buf::H(x) => {
            count("op.clone");
            let mut c = x.clone();
            ensure!(c == *x, "equality", "a clone differs from its original");
            // same points through another history
            let mut d = HashMapBuffer::new_from_layout(s.layout.clone());
            d.resize(m.len());
            for (i, p) in m.iter().enumerate() {
                unsafe { d.set_point(i, p) };
            }
            ensure!(d == *x, "equality", "buffers with equal points compare different");
            if !m.is_empty() && !s.attrs.is_empty() {
                let i = dsim::work(m.len());
                let k = dsim::work(s.attrs.len());
                let mut v = s.attr_of(k, &m[i]).to_vec();
                v[0] ^= 1;
                unsafe { c.set_attribute(&s.attrs[k].def, i, &v) };
                ensure!(c != *x, "equality", "buffers with different points compare equal");
                let q = s.attrs[k].clone();
                if matches!(q.dt, DT::U8 | DT::I32 | DT::U16 | DT::U64) {
                    with_prim!(
                        q.dt,
                        T,
                        {
                            ensure!(
                                x.view_attribute::<T>(&q.def) == d.view_attribute::<T>(&q.def),
                                "equality",
                                "attribute views of equal values differ"
                            );
                            ensure!(
                                x.view_attribute::<T>(&q.def) != c.view_attribute::<T>(&q.def),
                                "equality",
                                "attribute views of different values are equal"
                            );
                        },
                        ()
                    );
                }
            }
            if dsim::work(2) == 0 {
                *x = x.clone();
            }
        }
        _ => {}
    }
}

/// Views compare equal exactly if they show the same attribute with the same values.
fn equalities(b: &mut Buf, s: &Schema, m: &[Pt]) {
    let ks: Vec<usize> = (0..s.attrs.len()).filter(|k| matches!(s.attrs[*k].dt, DT::U8 | DT::I32 | DT::U16 | DT::U64)).collect();
    if ks.is_empty() {
        return;
    }
    count("op.compare_views");
    let k = *dsim::pick(&ks);
    let mut m2 = m.to_vec();
    match dsim::work(4) {
        0 if !m2.is_empty() => {
            m2.pop();
        }
        1 if !m2.is_empty() => {
            let i = dsim::work(m2.len());
            let mut v = s.attr_of(k, &m2[i]).to_vec();
            v[dsim::work(s.attrs[k].size)] ^= 1 << dsim::work(8);
            s.set_attr(k, &mut m2[i], &v);
        }
        _ => (),
    }
    let raw = s.flat(&m2);
    let mut other = make(dsim::work(4), s, &raw);
    // perhaps another attribute of the same type, perhaps with the same values
    let same: Vec<usize> = ks.iter().cloned().filter(|j| s.attrs[*j].dt == s.attrs[k].dt).collect();
    let j = if dsim::work(3) == 0 { *dsim::pick(&same) } else { k };
    if j != k && dsim::work(2) == 0 {
        for p in m2.iter_mut() {
            let v = s.attr_of(k, p).to_vec();
            s.set_attr(j, p, &v);
        }
        let raw = s.flat(&m2);
        other = make(dsim::work(4), s, &raw);
    }
    let want = j == k && m.len() == m2.len() && m.iter().zip(&m2).all(|(a, c)| s.attr_of(k, a) == s.attr_of(j, c));
    let (dk, dj) = (s.attrs[k].def.clone(), s.attrs[j].def.clone());
    ev!("compare {} of {} with {} of {}: {}", dk, b.kind(), dj, other.kind(), want);
    macro_rules! cmp {
        ($t:ident) => {
            with_buf!(b, x => with_buf!(&mut other, y => {
                ensure!((x.view_attribute::<$t>(&dk) == y.view_attribute::<$t>(&dj)) == want, "equality", "attribute views: equal must be {}", want);
                let (c, d) = (dk.with_custom_datatype(DT::F64), dj.with_custom_datatype(DT::F64));
                if s.attrs[k].dt != DT::U64 {
                    let e = x.view_attribute_with_conversion::<f64>(&c).unwrap() == y.view_attribute_with_conversion::<f64>(&d).unwrap();
                    ensure!(e == want, "equality", "converting attribute views: equal must be {}", want);
                }
                ensure!((x.view_attribute_mut::<$t>(&dk) == y.view_attribute_mut::<$t>(&dj)) == want, "equality", "mutable attribute views: equal must be {}", want);
            }))
        };
    }
    match s.attrs[k].dt {
        DT::U8 => cmp!(u8),
        DT::U16 => cmp!(u16),
        DT::I32 => cmp!(i32),
        _ => cmp!(u64),
    }
}

fn collected(b: &mut Buf, s: &Schema, m: &mut Vec<Pt>) {
    let Some(ty) = s.ty else { return };
    if !b.owning() {
        return;
    }
    count("op.from_iter");
    let n = count_points();
    let raw = s.points(n);
    ev!("collect {} points", n);
    with_type!(ty, T, {
        let it = raw.chunks_exact(s.stride).map(|c| bytemuck::pod_read_unaligned::<T>(c));
        match b {
            Buf::V(x) => *x = it.collect(),
            Buf::H(x) => *x = it.collect(),
            _ => {}
        }
    });
    *m = s.split(&raw);
}

fn pushed_columns(b: &mut Buf, s: &Schema, m: &mut Vec<Pt>) {
    let Buf::H(x) = b else { return };
    if !s.attrs.iter().all(|a| is_prim(a.dt)) || s.attrs.is_empty() {
        return;
    }
    count("op.begin_push_attributes");
    let n = if m.len() > max_points() { 0 } else { count_points() };
    let raw = s.points(n);
    let pts = s.split(&raw);
    ev!("push {} points column by column", n);
    let mut order: Vec<usize> = (0..s.attrs.len()).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, dsim::work(i + 1));
    }
    let mut pusher = x.begin_push_attributes();
    for k in order {
        with_prim!(
            s.attrs[k].dt,
            T,
            {
                let col: Vec<T> = pts.iter().map(|p| to_t::<T>(s.attr_of(k, p))).collect();
                pusher.push_attribute_range::<T>(&s.attrs[k].def, &col);
            },
            ()
        );
    }
    pusher.done();
    m.extend(pts);
}

fn filtered(b: &mut Buf, s: &Schema, m: &mut Vec<Pt>) {
    let Buf::H(x) = b else { return };
    count("op.filter");
    let seed = dsim::bits();
    let keep = |i: usize| mixh(seed ^ i as u64) % 3 != 0;
    let want: Vec<Pt> = m.iter().enumerate().filter(|(i, _)| keep(*i)).map(|(_, p)| p.clone()).collect();
    ev!("filter to {} of {}", want.len(), m.len());
    if dsim::work(2) == 0 {
        let y: VectorBuffer = x.filter(keep);
        verify_points(&y, s, &want);
    } else {
        let y: HashMapBuffer = x.filter(keep);
        verify_points(&y, s, &want);
        *x = y;
        *m = want;
    }
}

/// One operation of a fault-free history.
pub fn step(b: &mut Buf, s: &Schema, m: &mut Vec<Pt>, others: &[(Buf, Vec<Pt>)]) {
    match if huge() && dsim::work(2) == 0 { 0 } else { dsim::work(20) } {
        0..=6 => match b {
            Buf::V(x) => grow(x, s, m, others),
            Buf::H(x) => grow(x, s, m, others),
            _ => with_buf!(b, x => mutate(x, s, m, dsim::work(NMUT))),
        },
        7..=13 => with_buf!(b, x => mutate(x, s, m, dsim::work(NMUT))),
        14 | 15 => match b {
            Buf::V(x) => mutate_inter(x, s, m),
            Buf::E(x) => mutate_inter(x, s, m),
            Buf::H(x) => mutate_col(x, s, m),
            Buf::M(x) => mutate(x, s, m, 7),
        },
        16 if dsim::work(2) == 0 => equalities(b, s, m),
        16 => copies(b, s, m),
        17 => collected(b, s, m),
        18 => pushed_columns(b, s, m),
        _ => filtered(b, s, m),
    }
}

/// Points without attributes: there is nothing to store but their number.
fn no_attributes() {
    let l = PointLayout::default();
    count("op.no_attributes");
    macro_rules! go {
        ($B:ident) => {{
            let mut x = if dsim::work(2) == 0 { $B::new_from_layout(l.clone()) } else { $B::with_capacity(dsim::work(9), l.clone()) };
            let mut n = 0;
            for _ in 0..1 + dsim::work(6) {
                match dsim::work(4) {
                    0 | 1 => {
                        n = dsim::work(20);
                        ev!("resize to {}", n);
                        x.resize(n);
                    }
                    2 => {
                        n = 0;
                        ev!("clear");
                        x.clear();
                    }
                    _ => x = x.clone(),
                }
                ensure!(x.len() == n, "length", "len() is {}, {} points were written", x.len(), n);
                ensure!(x.is_empty() == (n == 0), "length", "is_empty() is {} with {} points", x.is_empty(), n);
                ensure!(x.point_layout() == &l, "layout", "the layout changed");
                let mut t = vec![];
                x.get_point_range(0..n, &mut t);
                sig(n as u64);
            }
        }};
    }
    if dsim::work(2) == 0 {
        go!(VectorBuffer)
    } else {
        go!(HashMapBuffer)
    }
    nontrivial();
}

pub fn c01() {
    if dsim::work(60) == 59 {
        return no_attributes();
    }
    choose_scale();
    let s = rand_schema();
    describe(&s);
    let nb = if huge() { 3 } else { 1 + dsim::work(3) };
    let mut bufs: Vec<(Buf, Vec<Pt>)> = vec![];
    for _ in 0..nb {
        let n = if s.stride == 0 { 0 } else { count_points() };
        let raw = s.points(n);
        let b = make(dsim::work(4), &s, &raw);
        ev!("new {} with {} points", b.kind(), n);
        bufs.push((b, s.split(&raw)));
    }
    let mut ops = 0;
    while dsim::more(14) && ops < max_ops() {
        let i = dsim::work(bufs.len());
        let (mut b, mut m) = bufs.swap_remove(i);
        ev!("[{} with {} points]", b.kind(), m.len());
        step(&mut b, &s, &mut m, &bufs);
        with_buf!(&b, x => {
            verify_points(x, &s, &m);
            verify_path(x, &s, &m, dsim::work(NPATHS));
        });
        sig(m.len() as u64 * 131 + ops);
        bufs.push((b, m));
        ops += 1;
    }
    for (b, m) in &bufs {
        check_everything(b, &s, m);
        for p in m {
            sig(dsim::rng::fnv(p));
        }
    }
    if ops > 0 {
        nontrivial();
    }
}
