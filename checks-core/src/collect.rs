//! C06: filtering and collecting keep exactly the selected points, in order.

use crate::common::*;
use crate::ops::*;
use crate::{with_buf, with_type};
use dsim::{count, ensure, ev, must_reject, nontrivial, sig};
use pasture_core::containers::*;
use pasture_core::layout::*;

/// What an iterator claims about its own length.
#[derive(Clone, Copy, Debug)]
pub enum Claim {
    Exact,
    Nothing,
    LowerOnly,
    UpperTooLarge(usize),
    Loose(usize),
    // false claims
    TooMuch(usize),
    TooLittle(usize),
}

pub struct Claimed<I> {
    pub it: I,
    pub left: usize,
    pub claim: Claim,
}
impl<I: Iterator> Iterator for Claimed<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        let r = self.it.next();
        if r.is_some() {
            self.left -= 1;
        }
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.claim {
            Claim::Exact => (self.left, Some(self.left)),
            Claim::Nothing => (0, None),
            Claim::LowerOnly => (self.left, None),
            Claim::UpperTooLarge(k) => (0, Some(self.left + k)),
            Claim::Loose(k) => (self.left.saturating_sub(k), Some(self.left + k)),
            Claim::TooMuch(k) => (self.left + k, if k % 2 == 0 { None } else { Some(self.left + k) }),
            Claim::TooLittle(k) => (0, Some(self.left.saturating_sub(k))),
        }
    }
}

pub fn rand_claim() -> Claim {
    match dsim::work(8) {
        6 => Claim::TooMuch(1 + dsim::work(20)),
        7 => Claim::TooLittle(1 + dsim::work(20)),
        0 => Claim::Exact,
        1 => Claim::Nothing,
        2 => Claim::LowerOnly,
        3 => Claim::UpperTooLarge(1 + dsim::work(20)),
        4 => Claim::UpperTooLarge(1000),
        _ => Claim::Loose(1 + dsim::work(20)),
    }
}

pub fn target(kind: usize, s: &Schema, raw: &[u8]) -> Buf {
    make(kind, s, raw)
}

fn predicate() -> impl Fn(usize) -> bool {
    let seed = dsim::bits();
    let mode = dsim::work(5);
    let m = 2 + dsim::work(5) as u64;
    move |i: usize| match mode {
        0 => true,
        1 => false,
        2 => mixh(seed ^ i as u64) % m == 0,
        3 => mixh(seed ^ i as u64) % m != 0,
        _ => (i as u64 + seed) % m == 0,
    }
}

fn filter_round(h: &HashMapBuffer, s: &Schema, m: &[Pt]) {
    let p = predicate();
    let want: Vec<Pt> = m.iter().enumerate().filter(|(i, _)| p(*i)).map(|(_, x)| x.clone()).collect();
    let k = want.len();
    match dsim::work(4) {
        0 => {
            count("op.filter");
            ev!("filter {} of {} into a VectorBuffer", k, m.len());
            let y: VectorBuffer = h.filter(&p);
            verify_all(&y, s, &want);
            use_after(Buf::V(y), s, want);
        }
        1 => {
            count("op.filter");
            ev!("filter {} of {} into a HashMapBuffer", k, m.len());
            let y: HashMapBuffer = h.filter(&p);
            verify_all(&y, s, &want);
            use_after(Buf::H(y), s, want);
        }
        _ => {
            // into an existing buffer of another size
            let extra = dsim::work(4);
            let size = if dsim::work(4) == 3 && k > 0 { dsim::work(k) } else { k + extra };
            let raw = s.points(size);
            let kind = dsim::work(4);
            let mut t = target(kind, s, &raw);
            let mut tm = s.split(&raw);
            let hint = if dsim::work(2) == 0 { Some(k) } else { None };
            ev!(
                "filter_into {} of {} into {} of {} points, hint {:?}",
                k,
                m.len(),
                t.kind(),
                size,
                hint
            );
            count("op.filter_into");
            let mut go = || match &mut t {
                Buf::V(x) => h.filter_into(x, &p, hint),
                Buf::H(x) => h.filter_into(x, &p, hint),
                Buf::E(x) => h.filter_into(x, &p, hint),
                Buf::M(x) => h.filter_into(x, &p, hint),
            };
            if k > size {
                must_reject("filter_into a buffer that is too small", go);
                count("op.rejected");
            } else {
                go();
                tm[..k].clone_from_slice(&want);
            }
            with_buf!(&t, x => verify_all(x, s, &tm));
            use_after(t, s, tm);
        }
    }
    verify_points(h, s, m);
}

/// The result must behave like any other buffer.
fn use_after(mut b: Buf, s: &Schema, mut m: Vec<Pt>) {
    for _ in 0..dsim::work(4) {
        crate::buffers::step(&mut b, s, &mut m, &[]);
        with_buf!(&b, x => verify_points(x, s, &m));
    }
    for p in &m {
        sig(dsim::rng::fnv(p));
    }
}

fn collect_round() {
    let ty = dsim::work(NTYPES);
    let s = static_schema(ty);
    let n = count_points();
    let raw = s.points(n);
    let want = s.split(&raw);
    let claim = rand_claim();
    let how = dsim::work(6);
    let keep = predicate();
    count("op.from_iter");
    ev!("collect {} points of type {} ({:?}, way {})", n, ty, claim, how);
    with_type!(ty, T, {
        let pts: Vec<T> = raw.chunks_exact(s.stride).map(|c| bytemuck::pod_read_unaligned::<T>(c)).collect();
        let it = Claimed {
            it: pts.iter().copied(),
            left: n,
            claim,
        };
        fn both<T: PointType, I: Iterator<Item = T>>(i: I, v: bool) -> Buf {
            if v {
                Buf::V(i.collect())
            } else {
                Buf::H(i.collect())
            }
        }
        let v = dsim::work(2) == 0;
        let (b, want) = match how {
            0 | 1 => (both::<T, _>(it, v), want),
            2 => {
                let w = want.into_iter().enumerate().filter(|(i, _)| keep(*i)).map(|(_, p)| p).collect();
                (both::<T, _>(it.enumerate().filter(|(i, _)| keep(*i)).map(|(_, p)| p), v), w)
            }
            3 => {
                let k = dsim::work(n + 3);
                let w = want.into_iter().take_while({
                    let mut q = 0;
                    move |_| {
                        q += 1;
                        q <= k
                    }
                });
                let w = w.collect();
                let mut q = 0;
                (
                    both::<T, _>(
                        it.take_while(move |_| {
                            q += 1;
                            q <= k
                        }),
                        v,
                    ),
                    w,
                )
            }
            4 => {
                let w: Vec<Pt> = want.iter().flat_map(|p| [p.clone(), p.clone()]).collect();
                (both::<T, _>(it.flat_map(|p| [p, p]), v), w)
            }
            _ => {
                let mut w = want.clone();
                w.extend(want);
                (both::<T, _>(it.chain(pts.iter().copied()), v), w)
            }
        };
        with_buf!(&b, x => verify_all(x, &s, &want));
        use_after(b, &s, want);
    });
}

pub fn c06() {
    choose_scale();
    if dsim::work(3) == 0 {
        for _ in 0..1 + dsim::work(3) {
            collect_round();
        }
        nontrivial();
        return;
    }
    let s = rand_schema();
    describe(&s);
    let n = if s.stride == 0 { 0 } else { count_points() };
    let raw = s.points(n);
    let m = s.split(&raw);
    let Buf::H(h) = make(1, &s, &raw) else { return };
    for _ in 0..1 + dsim::work(3) {
        filter_round(&h, &s, &m);
    }
    // a target of another layout is refused and left alone
    if dsim::work(4) == 0 {
        let o = rand_schema();
        if o.layout != s.layout && o.stride > 0 {
            let raw = o.points(n + 1);
            let mut t = make(dsim::work(2), &o, &raw);
            let tm = o.split(&raw);
            count("op.rejected");
            must_reject("filter_into a buffer of another layout", || {
                with_buf!(&mut t, x => h.filter_into(x, |_| true, None))
            });
            with_buf!(&t, x => verify_points(x, &o, &tm));
        }
    }
    ensure!(h.len() == n, "length", "filtering changed the source");
    if n > 0 {
        nontrivial();
    }
}
