//! C04: iterators yield every point exactly once, in order, however they are driven.

use crate::common::*;
use crate::ops::*;
use crate::{with_buf, with_prim, with_type};
use dsim::{count, ensure, ev, nontrivial, sig, violate};
use pasture_core::containers::*;
use std::collections::HashSet;

/// An iterator whose items are looked at as bytes; forwards to the real methods.
trait Drv {
    fn next(&mut self) -> Option<Vec<u8>>;
    fn nth(&mut self, k: usize) -> Option<Vec<u8>>;
    fn hint(&self) -> (usize, Option<usize>);
    fn take(&mut self, k: usize) -> Vec<Vec<u8>>;
    fn skip_next(&mut self, k: usize) -> Option<Vec<u8>>;
    fn step(&mut self, k: usize, max: usize) -> Vec<Vec<u8>>;
    fn finish(self: Box<Self>, how: usize) -> Rest;
}

enum Rest {
    Count(usize),
    Last(Option<Vec<u8>>),
    All(Vec<Vec<u8>>),
}

struct W<I, F>(I, F);

impl<I: Iterator, F: FnMut(I::Item) -> Vec<u8>> Drv for W<I, F> {
    fn next(&mut self) -> Option<Vec<u8>> {
        self.0.next().map(&mut self.1)
    }
    fn nth(&mut self, k: usize) -> Option<Vec<u8>> {
        self.0.nth(k).map(&mut self.1)
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn take(&mut self, k: usize) -> Vec<Vec<u8>> {
        let f = &mut self.1;
        self.0.by_ref().take(k).map(|x| f(x)).collect()
    }
    fn skip_next(&mut self, k: usize) -> Option<Vec<u8>> {
        self.0.by_ref().skip(k).next().map(&mut self.1)
    }
    fn step(&mut self, k: usize, max: usize) -> Vec<Vec<u8>> {
        let f = &mut self.1;
        self.0.by_ref().step_by(k).take(max).map(|x| f(x)).collect()
    }
    fn finish(self: Box<Self>, how: usize) -> Rest {
        let W(i, mut f) = *self;
        match how {
            0 => Rest::Count(i.count()),
            1 => Rest::Last(i.last().map(f)),
            2 => Rest::All(i.fold(vec![], |mut v, x| {
                v.push(f(x));
                v
            })),
            3 => {
                let mut v = vec![];
                i.for_each(|x| v.push(f(x)));
                Rest::All(v)
            }
            _ => Rest::All(i.map(f).collect()),
        }
    }
}

struct Run<'x> {
    name: &'static str,
    it: Box<dyn Drv + 'x>,
    want: Vec<Vec<u8>>,
    pos: usize,
}

fn wrong(name: &str, op: &str, pos: usize, n: usize, want: Option<&Vec<u8>>, got: Option<&Vec<u8>>) -> ! {
    violate!(
        &format!("iterator/{}/{}", name, op),
        "{}: {} at position {} of {}: expected {:02x?}, got {:02x?}",
        name,
        op,
        pos,
        n,
        want,
        got
    )
}

impl<'x> Run<'x> {
    fn one(&mut self, op: &str, k: usize, got: Option<Vec<u8>>) {
        let n = self.want.len();
        let at = self.pos.saturating_add(k);
        let want = if at < n { Some(&self.want[at]) } else { None };
        if got.as_ref() != want {
            wrong(self.name, op, self.pos, n, want, got.as_ref());
        }
        self.pos = at.saturating_add(1).min(n);
    }
    fn many(&mut self, op: &str, got: Vec<Vec<u8>>, stride: usize, max: usize) {
        let n = self.want.len();
        let want: Vec<_> = self.want[self.pos..].iter().step_by(stride).take(max).cloned().collect();
        if got != want {
            let i = (0..got.len().max(want.len())).find(|i| got.get(*i) != want.get(*i)).unwrap();
            wrong(self.name, op, self.pos + i * stride, n, want.get(i), got.get(i));
        }
    }
    fn hint(&self) {
        let (lo, hi) = self.it.hint();
        let rem = self.want.len() - self.pos;
        ensure!(
            lo <= rem && hi.map_or(true, |h| h >= rem),
            "iterator/size_hint",
            "{}: size_hint is ({}, {:?}) with {} values left",
            self.name,
            lo,
            hi,
            rem
        );
    }
    fn step(&mut self) {
        let rem = self.want.len() - self.pos;
        match dsim::work(10) {
            0..=3 => {
                ev!("{}.next()", self.name);
                let g = self.it.next();
                self.one("next", 0, g);
                count("op.next");
            }
            4..=6 => {
                let k = pick_k(rem);
                ev!("{}.nth({})", self.name, k);
                let g = self.it.nth(k);
                self.one("nth", k, g);
                count("op.nth");
            }
            7 => {
                let k = dsim::work(rem + 2);
                ev!("{}.take({})", self.name, k);
                let g = self.it.take(k);
                self.many("take", g, 1, k);
                self.pos += k.min(rem);
                count("op.take");
            }
            8 => {
                let k = pick_k(rem).min(usize::MAX - 1);
                ev!("{}.skip({}).next()", self.name, k);
                let g = self.it.skip_next(k);
                self.one("skip", k, g);
                count("op.skip");
            }
            _ => {
                let k = 1 + dsim::work(4);
                let max = dsim::work(4);
                ev!("{}.step_by({}).take({})", self.name, k, max);
                let g = self.it.step(k, max);
                self.many("step_by", g, k, max);
                if max > 0 {
                    // step_by takes one value, then nth(k-1) for every further one; it may only look
                    // at values, never return them twice
                    let used = self.want[self.pos..].iter().step_by(k).take(max).count();
                    if used == max {
                        self.pos += (used - 1) * k + 1;
                    } else {
                        self.pos = self.want.len();
                    }
                }
                count("op.step_by");
            }
        }
        self.hint();
    }
    fn end(mut self) {
        let n = self.want.len();
        let rem: Vec<_> = self.want[self.pos..].to_vec();
        match dsim::work(7) {
            k @ 0..=4 => {
                count("op.finish");
                ev!("{} consumed in way {}", self.name, k);
                match self.it.finish(k) {
                    Rest::Count(c) => ensure!(
                        c == rem.len(),
                        &format!("iterator/{}/count", self.name),
                        "{}: count() is {} with {} values left",
                        self.name,
                        c,
                        rem.len()
                    ),
                    Rest::Last(g) => {
                        if g.as_ref() != rem.last() {
                            wrong(self.name, "last", self.pos, n, rem.last(), g.as_ref());
                        }
                    }
                    Rest::All(g) => {
                        if g != rem {
                            let i = (0..g.len().max(rem.len())).find(|i| g.get(*i) != rem.get(*i)).unwrap();
                            wrong(self.name, "collect", self.pos + i, n, rem.get(i), g.get(i));
                        }
                    }
                }
            }
            5 => {
                count("op.exhaust");
                ev!("{} run to its end and beyond", self.name);
                while self.pos < n {
                    let g = self.it.next();
                    self.one("next", 0, g);
                }
                for _ in 0..1 + dsim::work(3) {
                    if dsim::work(2) == 0 {
                        let g = self.it.next();
                        self.one("next after the end", 0, g);
                    } else {
                        let k = pick_k(0);
                        let g = self.it.nth(k);
                        self.one("nth after the end", k, g);
                    }
                    self.hint();
                }
            }
            _ => {}
        }
    }
}

fn pick_k(rem: usize) -> usize {
    match dsim::work(12) {
        0..=4 => dsim::work(rem + 1),
        5 => rem.saturating_sub(1),
        6 | 7 => rem,
        8 => rem + 1,
        9 => rem + dsim::work(50),
        10 => usize::MAX - dsim::work(3),
        _ => (1 << 40) + dsim::work(1000),
    }
}

fn points<'a: 'b, 'b, B: BorrowedBuffer<'a> + 'a>(b: &'b B, s: &Schema, m: &[Pt], r: &mut Vec<Run<'b>>) {
    if let Some(ty) = s.ty {
        with_type!(ty, T, {
            r.push(Run {
                name: "view.into_iter",
                it: Box::new(W(b.view::<T>().into_iter(), |t: T| bytemuck::bytes_of(&t).to_vec())),
                want: m.to_vec(),
                pos: 0,
            });
        });
    }
    if s.attrs.is_empty() {
        return;
    }
    for _ in 0..2 {
        let k = dsim::work(s.attrs.len());
        let a = &s.attrs[k];
        let col: Vec<Vec<u8>> = m.iter().map(|p| s.attr_of(k, p).to_vec()).collect();
        with_prim!(
            a.dt,
            T,
            {
                r.push(Run {
                    name: "view_attribute.into_iter",
                    it: Box::new(W(b.view_attribute::<T>(&a.def).into_iter(), |t: T| of_t(&t))),
                    want: col.clone(),
                    pos: 0,
                });
            },
            ()
        );
        let to = *dsim::pick(&ALL_PRIMS);
        if to == a.dt || convertible(a.dt, to) {
            let want: Vec<_> = col.iter().map(|v| ref_convert(a.dt, to, v)).collect();
            with_prim!(
                to,
                T,
                {
                    let def = a.def.with_custom_datatype(to);
                    if let Ok(v) = b.view_attribute_with_conversion::<T>(&def) {
                        r.push(Run {
                            name: "view_attribute_with_conversion.into_iter",
                            it: Box::new(W(v.into_iter(), |t: T| of_t(&t))),
                            want,
                            pos: 0,
                        });
                    }
                },
                ()
            );
        }
    }
}

/// Drive a set of iterators over the same buffer in an arbitrary interleaving.
fn drive(mut r: Vec<Run>) {
    if r.is_empty() {
        return;
    }
    while dsim::more(12) {
        let i = dsim::work(r.len());
        r[i].step();
        sig(r[i].pos as u64 + 1000 * i as u64);
    }
    while let Some(x) = r.pop() {
        x.end();
    }
}

macro_rules! with_refs {
    ($x:expr, $s:expr, $m:expr) => {{
        let mut r = vec![];
        points($x, $s, $m, &mut r);
        if let Some(ty) = $s.ty {
            with_type!(ty, T, {
                let v = $x.view::<T>();
                r.push(Run {
                    name: "view.iter",
                    it: Box::new(W(v.iter(), |t: &T| bytemuck::bytes_of(t).to_vec())),
                    want: $m.to_vec(),
                    pos: 0,
                });
                drive(r);
            });
        } else {
            drive(r);
        }
    }};
}

macro_rules! with_col_refs {
    ($x:expr, $s:expr, $m:expr) => {{
        let mut r = vec![];
        points($x, $s, $m, &mut r);
        let k = dsim::work($s.attrs.len());
        let col: Vec<Vec<u8>> = $m.iter().map(|p| $s.attr_of(k, p).to_vec()).collect();
        with_prim!(
            $s.attrs[k].dt,
            T,
            {
                let v = $x.view_attribute::<T>(&$s.attrs[k].def);
                r.push(Run {
                    name: "view_attribute.iter",
                    it: Box::new(W(v.iter(), |t: &T| of_t(t))),
                    want: col,
                    pos: 0,
                });
                drive(r);
            },
            drive(r)
        );
    }};
}

fn plain<'a: 'b, 'b, B: BorrowedBuffer<'a> + 'a>(b: &'b B, s: &Schema, m: &[Pt]) {
    let mut r = vec![];
    points(b, s, m, &mut r);
    drive(r);
}

fn read_round(b: &Buf, s: &Schema, m: &[Pt]) {
    count("op.iterate");
    let r = sub_range(m.len());
    let p = &m[r.clone()];
    let slice = dsim::work(3) == 0;
    ev!("iterators over {}", if slice { format!("slice {:?}", r) } else { "the buffer".to_string() });
    match (b, slice) {
        (Buf::V(x), false) => with_refs!(x, s, m),
        (Buf::E(x), false) => with_refs!(x, s, m),
        (Buf::M(x), false) => plain(x, s, m),
        (Buf::H(x), false) => with_col_refs!(x, s, m),
        (Buf::V(x), true) => {
            let y = x.slice(r);
            with_refs!(&y, s, p)
        }
        (Buf::E(x), true) => {
            let y = x.slice(r);
            with_refs!(&y, s, p)
        }
        (Buf::M(x), true) => {
            let y = x.slice(r);
            plain(&y, s, p)
        }
        (Buf::H(x), true) => {
            let y = x.slice(r);
            with_col_refs!(&y, s, p)
        }
    }
}

/// A mutable iterator: every reference it hands out is kept, then written through.
fn drive_mut<'x, T: bytemuck::Pod2>(it: impl Iterator<Item = &'x mut T>, name: &'static str, want: Vec<Vec<u8>>, fresh: impl Fn(usize) -> Vec<u8>) -> Vec<Option<Vec<u8>>>
where
    T: 'x,
{
    use std::cell::RefCell;
    let kept: RefCell<Vec<&'x mut T>> = RefCell::new(vec![]);
    let n = want.len();
    let mut order: Vec<usize> = vec![];
    {
        let want2 = want.clone();
        let mut run = Run {
            name,
            it: Box::new(W(it, |t: &'x mut T| {
                let b = t.get();
                kept.borrow_mut().push(t);
                b
            })),
            want: want2,
            pos: 0,
        };
        while dsim::more(10) {
            // only operations whose handed-out positions are known
            let rem = n - run.pos;
            if dsim::work(3) < 2 {
                ev!("{}.next()", name);
                let g = run.it.next();
                if rem > 0 {
                    order.push(run.pos);
                }
                run.one("next", 0, g);
            } else {
                let k = pick_k(rem);
                ev!("{}.nth({})", name, k);
                let g = run.it.nth(k);
                if k < rem {
                    order.push(run.pos + k);
                }
                run.one("nth", k, g);
            }
            run.hint();
        }
        if dsim::work(2) == 0 {
            while run.pos < n {
                order.push(run.pos);
                let g = run.it.next();
                run.one("next", 0, g);
            }
            let g = run.it.next();
            run.one("next after the end", 0, g);
        }
    }
    let mut kept = kept.into_inner();
    let addrs: HashSet<usize> = kept.iter().map(|t| &**t as *const T as usize).collect();
    ensure!(addrs.len() == kept.len(), "iterator/aliasing", "{} handed out the same value twice", name);
    ensure!(kept.len() == order.len(), "iterator/aliasing", "{} handed out {} values, expected {}", name, kept.len(), order.len());
    let mut written: Vec<Option<Vec<u8>>> = vec![None; n];
    for (q, t) in kept.iter_mut().enumerate() {
        let v = fresh(q);
        t.put(&v);
        written[order[q]] = Some(v);
    }
    // none of the later writes may have changed an earlier one
    for (q, t) in kept.iter().enumerate() {
        ensure!(Some(t.get()) == written[order[q]], "iterator/aliasing", "{}: value {} changed under a write to another", name, q);
    }
    count("op.iterate_mut");
    written
}

mod bytemuck_ext {
    pub trait Pod2 {
        fn get(&self) -> Vec<u8>;
        fn put(&mut self, v: &[u8]);
    }
    impl<T: pasture_core::layout::PointType> Pod2 for P<T> {
        fn get(&self) -> Vec<u8> {
            bytemuck::bytes_of(&self.0).to_vec()
        }
        fn put(&mut self, v: &[u8]) {
            self.0 = bytemuck::pod_read_unaligned::<T>(v);
        }
    }
    impl<T: pasture_core::layout::PrimitiveType> Pod2 for A<T> {
        fn get(&self) -> Vec<u8> {
            bytemuck::bytes_of(&self.0).to_vec()
        }
        fn put(&mut self, v: &[u8]) {
            self.0 = bytemuck::pod_read_unaligned::<T>(v);
        }
    }
    #[repr(transparent)]
    pub struct P<T>(pub T);
    #[repr(transparent)]
    pub struct A<T>(pub T);
    pub fn p<T>(t: &mut T) -> &mut P<T> {
        unsafe { &mut *(t as *mut T as *mut P<T>) }
    }
    pub fn a<T>(t: &mut T) -> &mut A<T> {
        unsafe { &mut *(t as *mut T as *mut A<T>) }
    }
}
use bytemuck_ext as bx;
mod bytemuck {
    pub use super::bytemuck_ext::Pod2;
    pub use ::bytemuck::*;
}

fn mut_inter<'a: 'b, 'b, B: InterleavedBufferMut<'a> + 'a>(b: &'b mut B, s: &Schema, m: &mut [Pt]) {
    let Some(ty) = s.ty else { return };
    let seed = dsim::bits();
    with_type!(ty, T, {
        let mut v = b.view_mut::<T>();
        let w = drive_mut(v.iter_mut().map_nth(bx::p::<T>), "view_mut.iter_mut", m.to_vec(), |q| {
            s.point(mixh(seed ^ q as u64))
        });
        for (i, x) in w.into_iter().enumerate() {
            if let Some(x) = x {
                m[i] = s.norm(&x);
            }
        }
        drive(vec![Run {
            name: "view_mut.iter",
            it: Box::new(W(v.iter(), |t: &T| bytemuck::bytes_of(t).to_vec())),
            want: m.to_vec(),
            pos: 0,
        }]);
    });
}

fn mut_col<'a: 'b, 'b, B: ColumnarBufferMut<'a> + 'a>(b: &'b mut B, s: &Schema, m: &mut [Pt]) {
    let k = dsim::work(s.attrs.len());
    let a = &s.attrs[k];
    let seed = dsim::bits();
    let col: Vec<Vec<u8>> = m.iter().map(|p| s.attr_of(k, p).to_vec()).collect();
    with_prim!(
        a.dt,
        T,
        {
            let mut v = b.view_attribute_mut::<T>(&a.def);
            let w = drive_mut(v.iter_mut().map_nth(bx::a::<T>), "view_attribute_mut.iter_mut", col, |q| {
                s.value(k, mixh(seed ^ q as u64))
            });
            for (i, x) in w.into_iter().enumerate() {
                if let Some(x) = x {
                    s.set_attr(k, &mut m[i], &x);
                }
            }
            let col: Vec<Vec<u8>> = m.iter().map(|p| s.attr_of(k, p).to_vec()).collect();
            let v = b.view_attribute_mut::<T>(&a.def);
            drive(vec![Run {
                name: "view_attribute_mut.iter",
                it: Box::new(W(v.iter(), |t: &T| of_t(t))),
                want: col,
                pos: 0,
            }]);
        },
        ()
    );
}

/// `map` that forwards `nth` and `size_hint`.
struct MapNth<I, F>(I, F);
impl<I: Iterator, O, F: Fn(I::Item) -> O> Iterator for MapNth<I, F> {
    type Item = O;
    fn next(&mut self) -> Option<O> {
        self.0.next().map(&self.1)
    }
    fn nth(&mut self, k: usize) -> Option<O> {
        self.0.nth(k).map(&self.1)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
trait MapNthExt: Iterator + Sized {
    fn map_nth<O, F: Fn(Self::Item) -> O>(self, f: F) -> MapNth<Self, F> {
        MapNth(self, f)
    }
}
impl<I: Iterator> MapNthExt for I {}

fn write_round(b: &mut Buf, s: &Schema, m: &mut Vec<Pt>) {
    let r = sub_range(m.len());
    let slice = dsim::work(3) == 0;
    ev!("mutable iterators over {}", if slice { format!("slice {:?}", r) } else { "the buffer".to_string() });
    match (b, slice) {
        (Buf::V(x), false) => mut_inter(x, s, m),
        (Buf::E(x), false) => mut_inter(x, s, m),
        (Buf::H(x), false) => mut_col(x, s, m),
        (Buf::V(x), true) => mut_inter(&mut x.slice_mut(r.clone()), s, &mut m[r]),
        (Buf::E(x), true) => mut_inter(&mut x.slice_mut(r.clone()), s, &mut m[r]),
        (Buf::H(x), true) => mut_col(&mut x.slice_mut(r.clone()), s, &mut m[r]),
        (Buf::M(_), _) => {}
    }
}

pub fn c04() {
    choose_scale_up();
    let s = rand_schema();
    describe(&s);
    if s.stride == 0 || s.attrs.is_empty() {
        dsim::discard();
    }
    let n = count_points();
    let raw = s.points(n);
    let mut b = make(dsim::work(4), &s, &raw);
    let mut m = s.split(&raw);
    ev!("new {} with {} points", b.kind(), n);
    let mut rounds = 0;
    while rounds < max_ops() / 6 + 1 && (rounds == 0 || dsim::more(3)) {
        if dsim::work(2) == 0 {
            read_round(&b, &s, &m);
        } else {
            write_round(&mut b, &s, &mut m);
        }
        with_buf!(&b, x => verify_points(x, &s, &m));
        rounds += 1;
    }
    if n > 0 {
        nontrivial();
    }
    sig(n as u64);
}
