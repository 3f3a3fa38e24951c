//! C15: a flushed .pnts file holds exactly the points written.

use crate::common::*;
use crate::dev::*;
use crate::ops::*;
use crate::with_buf;
use dsim::{catch, count, discard, ensure, ev, nontrivial, sig, violate, Stopped};
use pasture_core::containers::*;
use pasture_core::layout::attributes::*;
use pasture_core::layout::*;
use pasture_core::nalgebra::Vector3;
use pasture_io::base::PointWriter;
use pasture_io::tiles3d::{attributes::COLOR_RGBA, PntsWriter};
use serde_json::Value;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// The semantics the writer supports: attribute, semantic name, stored type
pub fn semantics() -> Vec<(PointAttributeDefinition, &'static str, DT)> {
    vec![
        (POSITION_3D, "POSITION", DT::Vec3f32),
        (COLOR_RGB, "RGB", DT::Vec3u8),
        (COLOR_RGBA, "RGBA", DT::Vec4u8),
        (NORMAL, "NORMAL", DT::Vec3f32),
    ]
}

fn other_type(dt: DT) -> DT {
    let all: Vec<DT> = ALL_PRIMS.iter().copied().filter(|d| *d == dt || convertible(*d, dt)).collect();
    if dsim::work(2) == 0 {
        dt
    } else {
        all[dsim::work(all.len())]
    }
}

pub fn rand_pnts_attrs() -> Vec<PointAttributeDefinition> {
    let sem = semantics();
    let mut v = vec![sem[0].0.with_custom_datatype(other_type(sem[0].2))];
    for (a, _, dt) in &sem[1..] {
        if dsim::work(2) == 1 {
            v.push(a.with_custom_datatype(other_type(*dt)));
        }
    }
    for _ in 0..dsim::work(3) {
        let a = rand_attr(false);
        if !v.iter().any(|b| b.name() == a.name()) && !sem.iter().any(|(b, _, _)| b.name() == a.name()) {
            v.push(a);
        }
    }
    for i in (1..v.len()).rev() {
        v.swap(i, dsim::work(i + 1));
    }
    v
}

pub struct Parsed {
    pub json: HashMap<String, Value>,
    pub body: Vec<u8>,
    pub trailing: usize,
}

pub fn u32_at(b: &[u8], i: usize) -> usize {
    u32::from_le_bytes(b[i..i + 4].try_into().unwrap()) as usize
}

/// An independent reading of the .pnts container.
pub fn parse(img: &[u8]) -> Result<Parsed, String> {
    if img.len() < 28 {
        return Err(format!("only {} bytes", img.len()));
    }
    if &img[0..4] != b"pnts" || u32_at(img, 4) != 1 {
        return Err("magic or version".into());
    }
    let total = u32_at(img, 8);
    let (fj, fb, bj, bb) = (u32_at(img, 12), u32_at(img, 16), u32_at(img, 20), u32_at(img, 24));
    if total != 28 + fj + fb + bj + bb {
        return Err(format!("byte length {} but the sections sum up to {}", total, 28 + fj + fb + bj + bb));
    }
    if total > img.len() {
        return Err(format!("byte length {} but the file has {} bytes", total, img.len()));
    }
    for (what, p) in [("feature table body", 28 + fj), ("batch table", 28 + fj + fb), ("end", total)] {
        if p % 8 != 0 {
            return Err(format!("{} at {} is not on an 8-byte boundary", what, p));
        }
    }
    let obj = |b: &[u8], what: &str| -> Result<HashMap<String, Value>, String> {
        match serde_json::from_slice::<Value>(b) {
            Ok(Value::Object(m)) => Ok(m.into_iter().collect()),
            Ok(_) => Err(format!("{} is not an object", what)),
            Err(e) => Err(format!("{}: {}", what, e)),
        }
    };
    let json = obj(&img[28..28 + fj], "feature table")?;
    if bj > 0 {
        obj(&img[28 + fj + fb..28 + fj + fb + bj], "batch table")?;
    }
    Ok(Parsed {
        json,
        body: img[28 + fj..28 + fj + fb].to_vec(),
        trailing: img.len() - total,
    })
}

/// Compare a file with the points that were written.
pub fn check_file(img: &[u8], s: &Schema, m: &[Pt], rtc: Option<[f64; 3]>, allow_trailing: bool) -> Result<(), String> {
    let f = parse(img)?;
    if f.trailing > 0 && !allow_trailing {
        return Err(format!("{} bytes after the end", f.trailing));
    }
    let n = f.json.get("POINTS_LENGTH").and_then(|v| v.as_u64()).ok_or("no POINTS_LENGTH")?;
    if n != m.len() as u64 {
        return Err(format!("POINTS_LENGTH {} but {} points were written", n, m.len()));
    }
    match (f.json.get("RTC_CENTER"), rtc) {
        (None, None) => {}
        (Some(v), Some(r)) => {
            let got: Option<Vec<f64>> = v.as_array().map(|a| a.iter().filter_map(|x| x.as_f64()).collect());
            if got != Some(r.to_vec()) {
                return Err(format!("RTC_CENTER {} but {:?} was set", v, r));
            }
        }
        (a, b) => return Err(format!("RTC_CENTER {:?} but {:?} was set", a, b)),
    }
    let sem = semantics();
    let mut known = vec!["POINTS_LENGTH", "RTC_CENTER"];
    let mut used: Vec<(usize, usize)> = vec![];
    for (i, a) in s.attrs.iter().enumerate() {
        let Some((_, name, dt)) = sem.iter().find(|(d, _, _)| d.name() == a.def.name()) else { continue };
        known.push(name);
        let off = f
            .json
            .get(*name)
            .and_then(|v| v.get("byteOffset"))
            .and_then(|v| v.as_u64())
            .ok_or(format!("no {} array", name))? as usize;
        let size = dt.size() as usize;
        if off % if size == 12 { 4 } else { 1 } != 0 {
            return Err(format!("{} array at {}", name, off));
        }
        let len = size * m.len();
        if off + len > f.body.len() {
            return Err(format!("{} array leaves the feature table body", name));
        }
        if used.iter().any(|(x, y)| off < x + y && *x < off + len) {
            return Err(format!("{} array overlaps another one", name));
        }
        used.push((off, len));
        for (k, p) in m.iter().enumerate() {
            let want = ref_convert(a.dt, *dt, s.attr_of(i, p));
            let got = &f.body[off + k * size..off + (k + 1) * size];
            if got != &want[..] {
                return Err(format!("{} of point {} is {:02x?}, expected {:02x?}", name, k, got, want));
            }
        }
    }
    if let Some(k) = f.json.keys().find(|k| !known.contains(&k.as_str())) {
        return Err(format!("unexpected semantic {}", k));
    }
    Ok(())
}

pub fn rtc() -> [f64; 3] {
    let mut r = [0.0; 3];
    for x in r.iter_mut() {
        *x = (dsim::work(2_000_001) as f64 - 1_000_000.0) * [1.0, 0.25, 0.0][dsim::work(3)];
    }
    r
}

/// How a call on a writer may end.
pub fn call<T>(what: &str, dev: &Dev, before: u64, f: impl FnOnce() -> anyhow::Result<T>) -> Option<T> {
    match catch(f) {
        Ok(Ok(v)) => Some(v),
        Ok(Err(e)) => {
            ev!("{} failed: {}", what, e.root_cause());
            count("op.failed");
            ensure!(
                dev.hard() > before,
                &format!("error-without-fault/{}", what),
                "{} failed although the device reported no error: {:#}",
                what,
                e
            );
            None
        }
        Err(_) => violate!(&format!("unexpected-panic/{}", what), "{} panicked: {}", what, dsim::last_panic()),
    }
}

pub fn c15() {
    choose_scale();
    let s = Schema::of(layout_from(&rand_pnts_attrs()), None);
    describe(&s);
    let dev = Dev::new(vec![]);
    dev.choose_soft();
    let dest = Dest::choose(&dev);
    let mut w = match catch(|| PntsWriter::from_write_and_layout(dest, s.layout.clone())) {
        Ok(w) => w,
        Err(Stopped::Panic) => violate!("unexpected-panic/create", "creating the writer panicked: {}", dsim::last_panic()),
        Err(_) => discard(),
    };
    for _ in 0..dsim::fault(3) {
        arm_write(&dev, 3000);
    }
    let mut m: Vec<Pt> = vec![];
    let mut center: Option<[f64; 3]> = None;
    let mut flushed = false;
    let mut shrunk = false;
    let mut unsure = false;
    let mut reported = false;
    let mut ops = 0;
    let huge = dsim::work(300) == 299;
    while dsim::more(8) && ops < if huge { 6 } else { 40 } {
        ops += 1;
        match dsim::work(8) {
            0..=3 => {
                let n = if huge && m.is_empty() { [65_535, 65_537, 87_381, 87_383, 90_000, 131_073][dsim::work(6)] } else { count_points() };
                let raw = s.points(n);
                let b = make(dsim::work(4), &s, &raw);
                ev!("write {} points from a {}", n, b.kind());
                count("op.write");
                let before = dev.hard();
                let r = if dsim::work(5) == 4 && n > 0 {
                    let r = sub_range(n);
                    m.extend(s.split(&raw[r.start * s.stride..r.end * s.stride]));
                    ev!("  only {}..{} of them", r.start, r.end);
                    with_buf!(&b, x => { let sl = x.slice(r); call("write", &dev, before, || w.write(&sl)) })
                } else {
                    m.extend(s.split(&raw));
                    with_buf!(&b, x => call("write", &dev, before, || w.write(x)))
                };
                unsure |= r.is_none();
            }
            4 | 5 => {
                let before = dev.hard();
                count("op.flush");
                let r = call("flush", &dev, before, || w.flush());
                ev!("flush: {}", r.is_some());
                flushed = true;
                reported = r.is_none();
                if r.is_some() && !unsure {
                    check_image("flush", &dev.durable(), &s, &m, center, shrunk);
                }
            }
            6 => {
                let r = rtc();
                w.set_rtc_center(Vector3::new(r[0], r[1], r[2]));
                center = Some(r);
                shrunk |= flushed;
                ev!("centre {:?}", r);
            }
            _ => {
                if dsim::fault(2) == 1 {
                    dev.disarm();
                    ev!("device recovers");
                } else if dsim::fault(2) == 1 {
                    let l = dev.image_len() as u64;
                    arm_write(&dev, l + 3000);
                }
            }
        }
    }
    if dsim::fault(4) != 3 {
        dev.disarm();
    }
    let before = dev.hard();
    ev!("drop");
    match catch_unwind(AssertUnwindSafe(move || drop(w))) {
        Ok(()) => {
            // a failure that was reported before need not be reported again
            if !unsure && !(reported && dev.hard() > before) {
                check_image("drop", &dev.image(), &s, &m, center, shrunk)
            }
        }
        Err(_) => {
            count("op.failed");
            ensure!(
                dev.hard() > before,
                "unexpected-panic/drop",
                "dropping the writer panicked although the device reported no error: {}",
                dsim::last_panic()
            );
        }
    }
    if !m.is_empty() {
        nontrivial();
    }
    sig(m.len() as u64);
    sig(dev.ops());
    sig(dsim::rng::fnv(&dev.image()));
}

fn check_image(when: &str, img: &[u8], s: &Schema, m: &[Pt], c: Option<[f64; 3]>, trailing: bool) {
    count("probe.file");
    if let Err(e) = check_file(img, s, m, c, trailing) {
        violate!(
            &format!("wrong-file/{}", when),
            "after a successful {} the destination holds a wrong file: {} ({} points written, layout {})",
            when,
            e,
            m.len(),
            s.layout
        );
    }
}

pub fn arm_write(dev: &Dev, size: u64) {
    let k = match dsim::fault(6) {
        0 | 1 => Hard::WriteErr,
        2 => Hard::WriteZero,
        3 => Hard::FlushErr,
        4 => Hard::SeekErr,
        _ => Hard::Full(match dsim::fault(3) {
            0 => dsim::fault(64) as u64,
            1 => dsim::fault(600) as u64,
            _ => dsim::fault(size as usize) as u64,
        }),
    };
    dev.arm(k, some_ops(), some_times());
}
