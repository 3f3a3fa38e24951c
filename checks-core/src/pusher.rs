//! C07: column-wise bulk pushes commit whole points or nothing.

use crate::common::*;
use crate::ops::*;
use crate::with_prim;
use dsim::{count, ensure, ev, nontrivial, sig, violate};
use pasture_core::containers::*;
use pasture_core::layout::*;

fn prim_schema() -> Schema {
    if dsim::work(3) == 0 {
        static_schema(dsim::work(NTYPES))
    } else {
        let max = if dsim::work(6) == 5 { 16 } else { 5 };
        Schema::of(layout_from(&rand_attrs(max, true)), None)
    }
}

/// One session; returns the model afterwards.
fn session(h: &mut HashMapBuffer, s: &Schema, m: &mut Vec<Pt>) {
    let na = s.attrs.len();
    let n = if m.len() > max_points() { dsim::work(2) } else { count_points() };
    // the sequence of columns: usually every one once, in any order
    let mut cols: Vec<usize> = (0..na).collect();
    for i in (1..na).rev() {
        cols.swap(i, dsim::work(i + 1));
    }
    let mut odd = false;
    let kind = dsim::work(6);
    match kind {
        // a missing column
        0 => {
            for _ in 0..1 + dsim::work(na) {
                cols.pop();
            }
            odd = true;
        }
        // a repeated column
        1 => {
            let at = dsim::work(cols.len() + 1);
            let k = dsim::work(na);
            cols.insert(at, k);
            odd = true;
        }
        // a repeated and a missing column
        2 if na > 1 => {
            let a = dsim::work(na);
            let b = dsim::work(na);
            cols[a] = cols[b];
            odd = a != b;
        }
        _ => {}
    }
    // data of every push: the pushed values per attribute, in the order of the calls
    let mut pushed: Vec<Vec<Vec<Vec<u8>>>> = vec![vec![]; na];
    let abandon = dsim::work(8) == 0;
    let fault = dsim::work(4) == 0;
    let split_lens = dsim::work(6) == 0;
    let before = m.clone();
    ev!("session of {} points, columns {:?}, abandoned {}, fault {}", n, cols, abandon, fault);
    count("op.session");
    let mut first: Option<usize> = None;
    let mut refused = false;
    let mut bad_accepted = false;
    let r = dsim::catch(|| {
        let mut p = h.begin_push_attributes();
        let mut calls = 0;
        for &k in &cols {
            // now and then something that must be refused first
            if dsim::work(10) == 0 {
                let what = dsim::work(3);
                let a = &s.attrs[k];
                let res = match what {
                    0 => {
                        let other = if a.dt == DT::U8 { DT::I64 } else { DT::U8 };
                        dsim::catch(|| with_prim!(other, T, p.push_attribute_range::<T>(&a.def, &[to_t::<T>(&gen_value(other, other.size() as usize, 5))]), ()))
                    }
                    1 => {
                        let d = PointAttributeDefinition::custom("NoSuchAttribute".into(), DT::U32);
                        dsim::catch(|| p.push_attribute_range::<u32>(&d, &[1]))
                    }
                    _ => {
                        let other = if a.dt == DT::U8 { DT::I64 } else { DT::U8 };
                        let d = a.def.with_custom_datatype(other);
                        dsim::catch(|| with_prim!(other, T, p.push_attribute_range::<T>(&d, &[to_t::<T>(&gen_value(other, other.size() as usize, 5))]), ()))
                    }
                };
                count("op.rejected");
                ensure!(res.is_err(), "not-rejected/push_attribute_range", "a value of the wrong type or of an unknown attribute was accepted");
            }
            let len = match first {
                Some(f) if split_lens && dsim::work(2) == 0 => f + 1 + dsim::work(3),
                Some(f) if split_lens && f > 0 => dsim::work(f),
                _ => n,
            };
            let seed = dsim::bits();
            let vals: Vec<Vec<u8>> = (0..len).map(|i| s.value(k, mixh(seed).wrapping_add(i as u64))).collect();
            let res = with_prim!(
                s.attrs[k].dt,
                T,
                {
                    let data: Vec<T> = vals.iter().map(|v| to_t::<T>(v)).collect();
                    if fault && dsim::work(6) == 0 {
                        dsim::alloc::arm_oom(1 + dsim::work(2) as u64, 1);
                    }
                    let r = dsim::catch(|| p.push_attribute_range::<T>(&s.attrs[k].def, &data));
                    if dsim::alloc::disarm_oom() {
                        count("fault.alloc");
                    }
                    r
                },
                Ok(())
            );
            calls += 1;
            match res {
                Ok(()) => {
                    if first.is_none() {
                        first = Some(len);
                    }
                    if first != Some(len) {
                        bad_accepted = true;
                    }
                    pushed[k].push(vals);
                }
                Err(_) => {
                    refused = true;
                    if first.is_none() {
                        // a failed first push may or may not have fixed the number of points
                        first = Some(len);
                    }
                }
            }
            ensure!(!bad_accepted, "not-rejected/push_attribute_range", "push {} of {} values was accepted in a session of {}", calls, len, first.unwrap());
        }
        if abandon {
            ev!("abandoned");
            drop(p);
            return false;
        }
        if fault {
            dsim::alloc::arm_oom(1 + dsim::work(6) as u64, 1);
        }
        p.done();
        true
    });
    if dsim::alloc::disarm_oom() {
        count("fault.alloc");
    }
    match r {
        Ok(true) => {
            // the commit was accepted: complete points only
            let added = h.len() as i64 - m.len() as i64;
            if added == 0 {
                let anything = pushed.iter().flatten().any(|v| !v.is_empty());
                ensure!(!anything, "content/commit", "values were pushed and the commit was accepted, but it added nothing");
            } else {
                ensure!(added > 0, "length", "a commit removed points");
                let added = added as usize;
                // every attribute has values for exactly the added points
                let mut cands: Vec<Vec<Vec<Vec<u8>>>> = vec![];
                for k in 0..na {
                    let mut c: Vec<Vec<Vec<u8>>> = pushed[k].clone();
                    if pushed[k].len() > 1 {
                        c.push(pushed[k].concat());
                    }
                    c.retain(|v| v.len() == added);
                    ensure!(
                        !c.is_empty(),
                        "content/commit",
                        "{} points were committed, but {} values of {} were pushed",
                        added,
                        pushed[k].iter().map(|v| v.len()).sum::<usize>(),
                        s.attrs[k].def
                    );
                    cands.push(c);
                }
                let got = snapshot(&*h, s);
                for k in 0..na {
                    let col: Vec<Vec<u8>> = got[m.len()..].iter().map(|p| s.attr_of(k, p).to_vec()).collect();
                    if !cands[k].contains(&col) {
                        violate!(
                            "content/commit",
                            "column {} of the committed points is {:x?}, pushed was {:x?}",
                            s.attrs[k].def,
                            col,
                            cands[k]
                        );
                    }
                }
                m.extend_from_slice(&got[before.len()..]);
                count("probe.committed");
            }
        }
        Ok(false) => {}
        Err(e) => {
            let complete = !odd && !refused && !fault;
            ensure!(
                !complete,
                "unexpected-panic/push_attribute_range",
                "a complete push was refused ({:?}): {}",
                e,
                dsim::last_panic()
            );
            count("probe.refused");
        }
    }
    verify_points(&*h, s, m);
    ensure!(m[..before.len()] == before[..], "content/commit", "a push changed existing points");
    verify_all(&*h, s, m);
}

pub fn c07() {
    choose_scale();
    let s = prim_schema();
    if s.attrs.is_empty() || !s.attrs.iter().all(|a| is_prim(a.dt)) {
        return;
    }
    describe(&s);
    let raw = s.points(count_points());
    let mut m = s.split(&raw);
    let Buf::H(mut h) = make(1, &s, &raw) else { return };
    let mut k = 0;
    let most = if huge() { 2 } else { 12 };
    while k == 0 || (dsim::more(5) && k < most) {
        session(&mut h, &s, &mut m);
        if dsim::work(2) == 0 {
            let mut b = Buf::H(h);
            crate::buffers::step(&mut b, &s, &mut m, &[]);
            let Buf::H(x) = b else { return };
            h = x;
            verify_points(&h, &s, &m);
        }
        sig(m.len() as u64);
        k += 1;
    }
    for p in &m {
        sig(dsim::rng::fnv(p));
    }
    nontrivial();
}
