//! C16: reading a .pnts file returns its points or an error.

use crate::common::*;
use crate::dev::*;
use crate::ops::*;
use crate::pnts_write::{rtc, semantics, u32_at};
use crate::with_buf;
use dsim::{catch, count, ensure, ev, nontrivial, sig, violate};
use pasture_core::containers::*;
use pasture_core::layout::*;
use pasture_io::base::{PointReader, SeekToPoint};
use pasture_io::tiles3d::{PntsReadPositionsMode, PntsReader};
use std::io::SeekFrom;

pub struct Array {
    pub sem: usize,
    pub off: usize,
    pub data: Vec<u8>,
}

pub struct File {
    pub n: usize,
    pub arrays: Vec<Array>,
    pub rtc: Option<[f64; 3]>,
    pub bytes: Vec<u8>,
    pub corrupt: bool,
}

fn pad(v: &mut Vec<u8>, to: usize, with: u8) {
    while v.len() % to != 0 {
        v.push(with)
    }
}

/// An independent encoder with all the freedom the format leaves.
pub fn encode() -> File {
    let sem = semantics();
    let n = if dsim::work(300) == 299 { [65_535, 65_537, 87_381, 87_383, 90_000, 131_073][dsim::work(6)] } else { count_points() };
    let mut order: Vec<usize> = (0..sem.len()).filter(|i| if *i == 0 { dsim::work(8) != 7 } else { dsim::work(2) == 1 }).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, dsim::work(i + 1));
    }
    let mut body = vec![];
    let mut arrays = vec![];
    let mut json: Vec<(String, String)> = vec![];
    let seed = dsim::bits();
    let align = [1, 4, 8][dsim::work(3)];
    for i in order {
        for _ in 0..dsim::work(2) * dsim::work(20) {
            body.push(0xEE);
        }
        pad(&mut body, align, 0xEE);
        let mut data = vec![];
        for k in 0..n {
            data.extend_from_slice(&gen_value(sem[i].2, sem[i].2.size() as usize, mixh(seed ^ (k as u64) << 3 ^ i as u64)));
        }
        json.push((sem[i].1.to_string(), format!("{{\"byteOffset\":{}}}", body.len())));
        arrays.push(Array { sem: i, off: body.len(), data: data.clone() });
        body.extend_from_slice(&data);
    }
    let mut center = None;
    if dsim::work(2) == 1 {
        let r = rtc();
        center = Some(r);
        json.push(("RTC_CENTER".into(), format!("[{},{},{}]", r[0], r[1], r[2])));
    }
    json.push(("POINTS_LENGTH".into(), format!("{}", n)));
    for (k, v) in [
        ("BATCH_LENGTH", "3"),
        ("BATCH_ID", "{\"byteOffset\":0,\"componentType\":\"UNSIGNED_BYTE\"}"),
        ("CONSTANT_RGBA", "[1,2,3,255]"),
        ("QUANTIZED_VOLUME_OFFSET", "[-250.0, 1e2,0]"),
        ("QUANTIZED_VOLUME_SCALE", "[ 1000.0 ,1000.0,1000.0]"),
        ("extras", "{\"a\":[1,{\"b\":null}],\"c\":\"}\"}"),
        ("POSITION_2", "{\"byteOffset\":1}"),
    ] {
        if dsim::work(6) == 5 {
            json.push((k.into(), v.into()));
        }
    }
    for i in (1..json.len()).rev() {
        json.swap(i, dsim::work(i + 1));
    }
    for _ in 0..dsim::work(2) * dsim::work(12) {
        body.push(0xDD);
    }
    let mut corrupt = false;
    if dsim::fault(5) == 4 {
        corrupt = true;
        // a damaged header entry
        let i = dsim::fault(json.len());
        let (k, v) = &json[i];
        let hostile = [
            "18446744073709551615",
            "18446744073709551616",
            "9223372036854775807",
            "1000000000000",
            "-1",
            "1.5",
            "\"7\"",
            "null",
            "{}",
            "[]",
            "[1,2]",
            "[1,2,3,4,5]",
            "[1,2,\"3\"]",
            "{\"byteOffset\":-1}",
            "{\"byteOffset\":18446744073709551615}",
            "{\"byteOffset\":9223372036854775807}",
            "{\"byteOffset\":4294967296}",
            "{\"byteOffset\":\"0\"}",
            "{\"byteOffset\":1}",
            "[300,2,3,4]",
            "true",
        ];
        let nv = hostile[dsim::fault(hostile.len())].to_string();
        ev!("header entry {} damaged: {} becomes {}", k, v, nv);
        count("fault.damaged_header_entry");
        if dsim::fault(8) == 7 {
            json.remove(i);
        } else {
            json[i].1 = nv;
        }
    }
    let sep = [",", ", ", ",\n  "][dsim::work(3)];
    let text = format!(
        "{{{}}}",
        json.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(sep)
    );
    let mut f = vec![0u8; 28];
    f.extend_from_slice(text.as_bytes());
    if dsim::work(4) != 3 {
        pad(&mut f, 8, b' ');
    }
    let fj = f.len() - 28;
    f.extend_from_slice(&body);
    if dsim::work(4) != 3 {
        pad(&mut f, 8, 0);
    }
    let fb = f.len() - 28 - fj;
    let (mut bj, mut bb) = (0, 0);
    if dsim::work(2) == 1 {
        let l = f.len();
        f.extend_from_slice(b"{\"id\":{\"byteOffset\":0,\"componentType\":\"BYTE\",\"type\":\"SCALAR\"}}");
        pad(&mut f, 8, b' ');
        bj = f.len() - l;
        bb = 8 * dsim::work(4);
        f.resize(f.len() + bb, 0xCC);
    }
    f[0..4].copy_from_slice(b"pnts");
    for (i, v) in [(4, 1), (8, f.len()), (12, fj), (16, fb), (20, bj), (24, bb)] {
        f[i..i + 4].copy_from_slice(&(v as u32).to_le_bytes());
    }
    ev!("file: {} points, header {}, {} bytes", n, text, f.len());
    if dsim::fault(5) == 4 {
        corrupt = true;
        match dsim::fault(4) {
            0 => {
                let l = if dsim::fault(2) == 0 { dsim::fault(f.len()) } else { f.len() - 1 - dsim::fault(f.len().min(40)) };
                ev!("file truncated to {} bytes", l);
                count("fault.truncated");
                f.truncate(l);
            }
            1 => {
                let i = 4 + 4 * dsim::fault(6);
                let v = [0, 1, 27, 0x7fff_ffff, 0xffff_ffff, u32_at(&f, i).wrapping_add(1 + dsim::fault(16)), u32_at(&f, i).wrapping_sub(1 + dsim::fault(16))][dsim::fault(7)] as u32;
                ev!("header field at {} becomes {}", i, v);
                count("fault.damaged_header");
                f[i..i + 4].copy_from_slice(&v.to_le_bytes());
            }
            _ => {
                for _ in 0..1 + dsim::fault(3) {
                    let i = if dsim::fault(2) == 0 { dsim::fault(28 + fj) } else { dsim::fault(f.len()) };
                    let b = 1u8 << dsim::fault(8);
                    ev!("byte {} flipped by {}", i, b);
                    count("fault.flipped_bit");
                    f[i] ^= b;
                }
            }
        }
    }
    File { n, arrays, rtc: center, bytes: f, corrupt }
}

/// What a damaged file says, if it still says something: points, arrays that fit, centre.
fn reparse(f: &mut File) -> bool {
    let b = &f.bytes;
    if b.len() < 28 || &b[0..4] != b"pnts" {
        return false;
    }
    let (fj, fb) = (u32_at(b, 12), u32_at(b, 16));
    if 28 + fj > b.len() {
        return false;
    }
    let Ok(serde_json::Value::Object(o)) = serde_json::from_slice::<serde_json::Value>(&b[28..28 + fj]) else { return false };
    let Some(n) = o.get("POINTS_LENGTH").and_then(|v| v.as_u64()) else { return false };
    f.n = n as usize;
    let body = &b[28 + fj..b.len().min(28 + fj + fb)];
    let declared = fb as u128;
    f.arrays.clear();
    for (i, (_, name, dt)) in semantics().iter().enumerate() {
        let Some(v) = o.get(*name) else { continue };
        let Some(off) = v.get("byteOffset").and_then(|v| v.as_u64()) else { return false };
        let (off, size) = (off as u128, dt.size() as u128 * n as u128);
        if off + size > declared {
            return false;
        }
        // what is left of it in a truncated file
        let (off, end) = (off as usize, (off + size) as usize);
        let data = if off < body.len() { body[off..end.min(body.len())].to_vec() } else { vec![] };
        f.arrays.push(Array { sem: i, off, data });
    }
    f.rtc = match o.get("RTC_CENTER") {
        None => None,
        Some(v) => {
            let Some(a) = v.as_array() else { return false };
            let x: Vec<f64> = a.iter().filter_map(|x| x.as_f64()).collect();
            if x.len() != 3 || a.len() != 3 {
                return false;
            }
            Some([x[0], x[1], x[2]])
        }
    };
    true
}

/// What the caller wants: a layout with some of the file's attributes, in some types, and others.
fn rand_target(f: &File, convertible_only: bool) -> Schema {
    let sem = semantics();
    let mut v: Vec<PointAttributeDefinition> = vec![];
    for (i, (d, _, dt)) in sem.iter().enumerate() {
        let in_file = f.arrays.iter().any(|a| a.sem == i);
        if dsim::work(if in_file { 4 } else { 8 }) == 0 && !v.is_empty() {
            continue;
        }
        let mut t = *dt;
        if dsim::work(2) == 1 {
            let all: Vec<DT> = ALL_PRIMS.iter().copied().filter(|x| convertible(*x, *dt) || (*x != *dt && !convertible_only)).collect();
            if !all.is_empty() {
                t = all[dsim::work(all.len())];
            }
        }
        v.push(d.with_custom_datatype(t));
    }
    for _ in 0..dsim::work(3) {
        let a = rand_attr(false);
        if !v.iter().any(|b| b.name() == a.name()) && !sem.iter().any(|(b, _, _)| b.name() == a.name()) {
            v.push(a);
        }
    }
    for i in (1..v.len()).rev() {
        v.swap(i, dsim::work(i + 1));
    }
    Schema::of(layout_from(&v), None)
}

/// The value attribute `i` of the target must have for point `k`; None: cannot be converted.
fn want(f: &File, s: &Schema, i: usize, k: usize, absolute: bool) -> Option<Option<Vec<u8>>> {
    let sem = semantics();
    let a = &s.attrs[i];
    let Some(arr) = f.arrays.iter().find(|x| sem[x.sem].0.name() == a.def.name()) else { return Some(None) };
    let dt = sem[arr.sem].2;
    if dt != a.dt && !convertible(dt, a.dt) {
        return None;
    }
    let size = dt.size() as usize;
    if k >= f.n {
        return Some(None);
    }
    if (k + 1) * size > arr.data.len() {
        return None;
    }
    let raw = &arr.data[k * size..(k + 1) * size];
    if arr.sem == 0 && absolute {
        if let Some(c) = f.rtc {
            let p: Vec<f64> = raw.chunks(4).map(|b| f32::from_le_bytes(b.try_into().unwrap()) as f64).collect();
            return match a.dt {
                DT::Vec3f32 => Some(Some((0..3).flat_map(|j| ((p[j] + c[j]) as f32).to_ne_bytes()).collect())),
                DT::Vec3f64 => Some(Some((0..3).flat_map(|j| (p[j] + c[j]).to_ne_bytes()).collect())),
                _ => None,
            };
        }
    }
    Some(Some(ref_convert(dt, a.dt, raw)))
}

fn eq(dt: DT, a: &[u8], b: &[u8]) -> bool {
    if a == b {
        return true;
    }
    // NaN payloads are not promised to survive arithmetic
    match split_dt(dt) {
        Some((DT::F32, _)) => a.chunks(4).zip(b.chunks(4)).all(|(x, y)| {
            x == y || (f32::from_ne_bytes(x.try_into().unwrap()).is_nan() && f32::from_ne_bytes(y.try_into().unwrap()).is_nan())
        }),
        Some((DT::F64, _)) => a.chunks(8).zip(b.chunks(8)).all(|(x, y)| {
            x == y || (f64::from_ne_bytes(x.try_into().unwrap()).is_nan() && f64::from_ne_bytes(y.try_into().unwrap()).is_nan())
        }),
        _ => false,
    }
}

pub enum Got<T> {
    Ok(T),
    Err,
}

pub fn attempt<T>(what: &str, dev: &Dev, may_fail: bool, f: impl FnOnce() -> anyhow::Result<T>) -> Got<T> {
    let before = dev.hard();
    match catch(f) {
        Ok(Ok(v)) => Got::Ok(v),
        Ok(Err(e)) => {
            ev!("{} failed: {}", what, e.root_cause());
            count("op.failed");
            ensure!(
                may_fail || dev.hard() > before,
                &format!("error-without-fault/{}", what),
                "{} failed although the source is intact and reported no error: {:#}",
                what,
                e
            );
            Got::Err
        }
        Err(_) => violate!(&format!("unexpected-panic/{}", what), "{} panicked: {}", what, dsim::last_panic()),
    }
}

pub fn arm_read(dev: &Dev) {
    let k = match dsim::fault(5) {
        0 | 1 => Hard::ReadErr,
        2 | 3 => Hard::ReadZero,
        _ => Hard::SeekErr,
    };
    dev.arm(k, some_ops(), some_times());
}

pub fn c16() {
    choose_scale();
    let mut f = encode();
    let mut usable = true;
    if f.corrupt {
        usable = reparse(&mut f);
        ev!("the damaged file is {}", if usable { "still readable" } else { "unusable" });
        dsim::alloc::arm_oom(1, 48 << 20);
    }
    let dev = Dev::new(f.bytes.clone());
    dev.choose_soft();
    if dsim::fault(3) == 2 {
        arm_read(&dev);
    }
    let src = Src::choose(&dev);
    let open = attempt("open", &dev, f.corrupt, || PntsReader::from_read(src));
    let mut r = match open {
        Got::Ok(r) => r,
        Got::Err => {
            sig(f.bytes.len() as u64);
            sig(dev.ops());
            return;
        }
    };
    if usable {
        ensure!(
            r.get_metadata().number_of_points() == Some(f.n),
            "metadata",
            "the file holds {} points, the reader says {:?}",
            f.n,
            r.get_metadata().number_of_points()
        );
        let l = r.get_default_point_layout().clone();
        let sem = semantics();
        ensure!(
            l.attributes().count() == f.arrays.len()
                && f.arrays.iter().all(|a| l.has_attribute(&sem[a.sem].0.with_custom_datatype(sem[a.sem].2))),
            "metadata",
            "default layout {} does not match the file's arrays",
            l
        );
    }
    let mut pos = 0usize;
    let mut absolute = true;
    let mut ops = 0;
    let mut read_some = false;
    let huge = !f.corrupt && f.n > 50_000;
    let most = if huge { f.n } else { f.n.min(2000) };
    while dsim::more(10) && ops < if huge { 5 } else { 40 } {
        ops += 1;
        match dsim::work(10) {
            0..=4 => {
                let s = rand_target(&f, dsim::work(8) != 7 || !usable);
                let cnt = match dsim::work(4) {
                    0 => dsim::work(4),
                    1 => most.saturating_sub(pos.min(most)),
                    2 => dsim::work(most + 3),
                    _ => count_points(),
                };
                let len = cnt + if dsim::work(2) == 1 { dsim::work(5) } else { 0 };
                let raw = s.points(len);
                let old = s.split(&raw);
                let mut b = make(dsim::work(4), &s, &raw);
                ev!("read {} at {} into a {} of {} points", cnt, pos, b.kind(), len);
                describe(&s);
                count("op.read_into");
                let k = cnt.min(f.n.saturating_sub(pos));
                let possible = !usable || (0..s.attrs.len()).all(|i| want(&f, &s, i, pos, absolute).is_some() && (k == 0 || want(&f, &s, i, pos + k - 1, absolute).is_some()));
                let may_fail = f.corrupt || !possible || k == 0;
                let mut run = || with_buf!(&mut b, x => r.read_into(x, cnt));
                let got = if possible {
                    attempt("read_into", &dev, may_fail, run)
                } else {
                    // refused, by an error or by the converter's panic
                    match catch(&mut run) {
                        Ok(Ok(n)) => Got::Ok(n),
                        _ => Got::Err,
                    }
                };
                let mut now = with_buf!(&b, x => snapshot(x, &s));
                ensure!(now.len() == len, "length", "reading changed the buffer's length from {} to {}", len, now.len());
                match got {
                    Got::Ok(n) => {
                        ensure!(usable, "read-of-unusable-file", "{} points were read although the file's arrays do not fit into it", n);
                        ensure!(possible || n == 0, "impossible-read", "{} points were read into a layout they cannot be converted to: {}", n, s.layout);
                        ensure!(n == k, "count", "{} points reported, {} of {} are left and {} were requested", n, f.n - pos, f.n, cnt);
                        for (j, p) in now.iter_mut().enumerate() {
                            for i in 0..s.attrs.len() {
                                let w = if j < n { want(&f, &s, i, pos + j, absolute).unwrap() } else { None };
                                match w {
                                    Some(w) => ensure!(
                                        eq(s.attrs[i].dt, s.attr_of(i, p), &w),
                                        "wrong-point",
                                        "{} of point {} (read at {}) is {:02x?}, expected {:02x?} (rtc {:?}, absolute {})",
                                        s.attrs[i].def.name(),
                                        j,
                                        pos,
                                        s.attr_of(i, p),
                                        w,
                                        f.rtc,
                                        absolute
                                    ),
                                    None => ensure!(
                                        s.attr_of(i, p) == s.attr_of(i, &old[j]),
                                        "untouched",
                                        "{} of point {} changed although only {} points were read and the file may not have it",
                                        s.attrs[i].def.name(),
                                        j,
                                        n
                                    ),
                                }
                            }
                        }
                        pos += n;
                        read_some |= n > 0;
                        count("probe.points_compared");
                    }
                    Got::Err => {
                        for j in k..len {
                            ensure!(s.same(&now[j], &old[j]), "untouched", "point {} changed in a failed read of {}", j, k);
                        }
                    }
                }
            }
            5 => {
                let cnt = dsim::work(f.n.min(1500) + 3);
                let k = cnt.min(f.n.saturating_sub(pos));
                let to_h = dsim::work(2) == 1;
                ev!("read {} at {} into a new buffer", cnt, pos);
                count("op.read");
                let got = if to_h {
                    attempt("read", &dev, f.corrupt || k == 0, || r.read::<HashMapBuffer>(cnt)).map(Buf::H)
                } else {
                    attempt("read", &dev, f.corrupt || k == 0, || r.read::<VectorBuffer>(cnt)).map(Buf::V)
                };
                if let Got::Ok(b) = got {
                    ensure!(usable, "read-of-unusable-file", "points were read although the file's arrays do not fit into it");
                    let s = Schema::of(r.get_default_point_layout().clone(), None);
                    let n = with_buf!(&b, x => x.len());
                    ensure!(n == k, "count", "{} points read, {} of {} are left and {} were requested", n, f.n - pos, f.n, cnt);
                    let now = with_buf!(&b, x => snapshot(x, &s));
                    for (j, p) in now.iter().enumerate() {
                        for i in 0..s.attrs.len() {
                            let w = want(&f, &s, i, pos + j, absolute).unwrap_or_else(|| violate!("impossible-read", "point {} was read from a file too short for it", pos + j)).unwrap_or_default();
                            ensure!(eq(s.attrs[i].dt, s.attr_of(i, p), &w), "wrong-point", "{} of point {} (read at {}) is {:02x?}, expected {:02x?}", s.attrs[i].def.name(), j, pos, s.attr_of(i, p), w);
                        }
                    }
                    pos += n;
                    read_some |= n > 0;
                }
            }
            6 | 7 => {
                let wild = dsim::work(5) == 4;
                let big = [i64::MAX, i64::MIN, i64::MAX - 1, -1, i64::MIN + 1, 1 << 40][dsim::work(6)];
                let n = f.n.min(2000);
                let small = dsim::work(2 * n + 5) as i64 - n as i64 - 2;
                let d = if wild { big } else { small };
                let (to, t) = match dsim::work(3) {
                    0 => (SeekFrom::Start(d as u64), d as u64 as i128),
                    1 => (SeekFrom::End(d), f.n as i128 + d as i128),
                    _ => (SeekFrom::Current(d), pos as i128 + d as i128),
                };
                ev!("seek {:?} from {}", to, pos);
                count("op.seek");
                match attempt("seek_point", &dev, t < 0 || f.corrupt, || r.seek_point(to)) {
                    Got::Ok(p) => {
                        if usable {
                            ensure!(t >= 0, "seek", "seeking {:?} from {} was accepted and went to {}", to, pos, p);
                            let w = t.min(f.n as i128) as usize;
                            ensure!(p == w, "seek", "seeking {:?} from {} of {} points went to {} instead of {}", to, pos, f.n, p, w);
                        }
                        pos = p;
                    }
                    Got::Err => {}
                }
            }
            8 => match dsim::work(3) {
                0 => {
                    absolute = !absolute;
                    ev!("absolute positions: {}", absolute);
                    r.set_read_positions_mode(if absolute { PntsReadPositionsMode::Absolute } else { PntsReadPositionsMode::RelativeToCenter });
                }
                1 => {
                    if let Got::Ok(p) = attempt("point_index", &dev, !usable || f.n > i64::MAX as usize, || r.point_index()) {
                        ensure!(p == pos || !usable, "point_index", "point_index is {}, expected {}", p, pos);
                    }
                }
                _ => {
                    if let Got::Ok(n) = attempt("point_count", &dev, !usable || f.n > i64::MAX as usize, || r.point_count()) {
                        ensure!(n == f.n || !usable, "point_count", "point_count is {}, expected {}", n, f.n);
                    }
                    if let Got::Ok(p) = attempt("point_index", &dev, !usable || f.n > i64::MAX as usize, || r.point_index()) {
                        ensure!(p == pos || !usable, "point_index", "point_index is {} after point_count, expected {}", p, pos);
                    }
                }
            },
            _ => {
                if dsim::fault(2) == 1 {
                    dev.disarm();
                    ev!("device recovers");
                } else {
                    arm_read(&dev);
                }
            }
        }
    }
    if read_some {
        nontrivial();
    }
    sig(f.bytes.len() as u64);
    sig(pos as u64);
    sig(dev.ops());
    sig(dsim::rng::fnv(&f.bytes));
}

impl<T> Got<T> {
    pub fn map<U>(self, f: impl FnOnce(T) -> U) -> Got<U> {
        match self {
            Got::Ok(v) => Got::Ok(f(v)),
            Got::Err => Got::Err,
        }
    }
}
