//! C17 and C18: delimited text.

use crate::common::*;
use crate::dev::*;
use crate::ops::*;
use crate::pnts_read::{attempt, Got};
use crate::with_buf;
use dsim::{catch, count, ensure, ev, nontrivial, sig, violate};
use pasture_core::containers::*;
use pasture_core::layout::attributes::*;
use pasture_core::layout::*;
use pasture_io::ascii::{AsciiReader, AsciiWriter};
use pasture_io::base::{PointReader, PointWriter};

/// literal, attribute, component
fn columns() -> Vec<(char, PointAttributeDefinition, usize)> {
    vec![
        ('x', POSITION_3D, 0),
        ('y', POSITION_3D, 1),
        ('z', POSITION_3D, 2),
        ('i', INTENSITY, 0),
        ('r', RETURN_NUMBER, 0),
        ('n', NUMBER_OF_RETURNS, 0),
        ('c', CLASSIFICATION, 0),
        ('t', GPS_TIME, 0),
        ('u', USER_DATA, 0),
        ('p', POINT_SOURCE_ID, 0),
        ('R', COLOR_RGB, 0),
        ('G', COLOR_RGB, 1),
        ('B', COLOR_RGB, 2),
        ('e', EDGE_OF_FLIGHT_LINE, 0),
        ('d', SCAN_DIRECTION_FLAG, 0),
        ('a', SCAN_ANGLE_RANK, 0),
        ('I', NIR, 0),
    ]
}

fn rand_format() -> Vec<Option<(char, PointAttributeDefinition, usize)>> {
    let mut c: Vec<Option<_>> = columns().into_iter().map(Some).collect();
    for i in (1..c.len()).rev() {
        c.swap(i, dsim::work(i + 1));
    }
    let k = match dsim::work(3) {
        0 => 1 + dsim::work(3),
        1 => 1 + dsim::work(8),
        _ => c.len(),
    };
    c.truncate(k);
    if dsim::work(4) == 3 {
        for _ in 0..1 + dsim::work(2) {
            c.insert(dsim::work(c.len() + 1), None);
        }
    }
    c
}

fn text_of(f: &[Option<(char, PointAttributeDefinition, usize)>]) -> String {
    f.iter().map(|c| c.as_ref().map(|x| x.0).unwrap_or('s')).collect()
}

const DELIMS: [&str; 9] = [", ", ",", " ", ";", "\t", "||", " | ", "→", "%{}"];

fn component(dt: DT, b: &[u8], k: usize) -> (DT, Vec<u8>) {
    let (s, _) = split_dt(dt).unwrap();
    let n = s.size() as usize;
    (s, b[k * n..(k + 1) * n].to_vec())
}

fn int(s: DT, b: &[u8]) -> i128 {
    match s {
        DT::U8 => b[0] as i128,
        DT::I8 => b[0] as i8 as i128,
        DT::U16 => u16::from_ne_bytes(b.try_into().unwrap()) as i128,
        _ => unreachable!(),
    }
}

/// Does the text of one column show this value?
fn shows(col: &str, def: &PointAttributeDefinition, s: DT, b: &[u8], precision: usize) -> bool {
    if s == DT::F64 {
        let v = f64::from_ne_bytes(b.try_into().unwrap());
        let Ok(got) = col.parse::<f64>() else { return false };
        let want: f64 = format!("{:.*}", precision, v).parse().unwrap();
        let digits = col.split('.').nth(1).map(|x| x.len()).unwrap_or(0);
        return (got == want || (got.is_nan() && want.is_nan())) && digits <= precision.max(1);
    }
    let mut want = int(s, b);
    if def.name() == EDGE_OF_FLIGHT_LINE.name() || def.name() == SCAN_DIRECTION_FLAG.name() {
        want = (want > 0) as i128;
    }
    col == want.to_string()
}

fn check_text(text: &[u8], s: &Schema, m: &[Pt], f: &[Option<(char, PointAttributeDefinition, usize)>], delim: &str, precision: usize) -> Result<(), String> {
    let t = std::str::from_utf8(text).map_err(|e| e.to_string())?;
    if !t.is_empty() && !t.ends_with('\n') {
        return Err("the last line is not ended".into());
    }
    let lines: Vec<&str> = t.split_terminator('\n').collect();
    if lines.len() != m.len() {
        return Err(format!("{} lines for {} points", lines.len(), m.len()));
    }
    for (k, (l, p)) in lines.iter().zip(m).enumerate() {
        let cols: Vec<&str> = l.split(delim).collect();
        if cols.len() != f.len() {
            return Err(format!("line {} has {} columns instead of {}: {:?}", k, cols.len(), f.len(), l));
        }
        for (c, spec) in cols.iter().zip(f) {
            let Some((ch, def, comp)) = spec else {
                if !c.is_empty() {
                    return Err(format!("line {} has {:?} in a skipped column", k, c));
                }
                continue;
            };
            let i = s.attrs.iter().position(|a| a.def.name() == def.name()).unwrap();
            let (st, b) = component(s.attrs[i].dt, s.attr_of(i, p), *comp);
            if !shows(c, def, st, &b, precision) {
                return Err(format!("column '{}' of line {} is {:?} but {} of the point is {:02x?} (precision {})", ch, k, c, def.name(), b, precision));
            }
        }
    }
    Ok(())
}

fn source_attrs(f: &[Option<(char, PointAttributeDefinition, usize)>]) -> Vec<PointAttributeDefinition> {
    let mut v: Vec<PointAttributeDefinition> = vec![];
    for c in f.iter().flatten() {
        if !v.iter().any(|a| a.name() == c.1.name()) {
            v.push(c.1.clone());
        }
    }
    for _ in 0..dsim::work(4) {
        let a = rand_attr(false);
        if !v.iter().any(|b| b.name() == a.name()) && !columns().iter().any(|(_, b, _)| b.name() == a.name()) {
            v.push(a);
        }
    }
    for i in (1..v.len()).rev() {
        v.swap(i, dsim::work(i + 1));
    }
    v
}

enum Step {
    Write(Buf, usize, Option<std::ops::Range<usize>>),
    Flush,
    Recover,
    Bad(Buf),
}

pub fn c17() {
    choose_scale();
    let f = rand_format();
    let attrs = source_attrs(&f);
    let s = Schema::of(layout_from(&if attrs.is_empty() { vec![INTENSITY] } else { attrs }), None);
    describe(&s);
    let format = text_of(&f);
    // what the writer uses; its setters are not part of the public interface
    let (delim, precision) = (", ", 5);
    ev!("format {:?}", format);
    // the session
    let mut steps = vec![];
    let mut m: Vec<Pt> = vec![];
    let huge = dsim::work(300) == 299 && f.len() <= 2;
    while dsim::more(6) && steps.len() < 20 {
        match dsim::work(8) {
            0..=4 => {
                let n = if huge { [49_999, 50_000, 50_001][dsim::work(3)] } else { count_points() };
                let raw = s.points(n);
                let b = make(dsim::work(4), &s, &raw);
                let r = if dsim::work(5) == 4 { Some(sub_range(n)) } else { None };
                let t = r.clone().unwrap_or(0..n);
                m.extend(s.split(&raw[t.start * s.stride..t.end * s.stride]));
                ev!("step {}: write {:?} of {} points from a {}", steps.len(), t, n, b.kind());
                steps.push(Step::Write(b, n, r));
                if huge {
                    break;
                }
            }
            5 | 6 => steps.push(Step::Flush),
            _ => {
                if dsim::fault(2) == 1 {
                    steps.push(Step::Recover)
                } else if let Some(c) = f.iter().flatten().next() {
                    // a buffer that lacks an attribute
                    let a: Vec<PointAttributeDefinition> = s.attrs.iter().map(|a| a.def.clone()).filter(|a| a.name() != c.1.name()).collect();
                    let o = Schema::of(if a.is_empty() { layout_from(&[POINT_ID]) } else { layout_from(&a) }, None);
                    let raw = o.points(1 + dsim::work(3));
                    ev!("step {}: write points without {}", steps.len(), c.1.name());
                    steps.push(Step::Bad(make(dsim::work(4), &o, &raw)));
                }
            }
        }
    }
    steps.push(Step::Flush);
    // once on an undisturbed device
    let calm = Dev::new(vec![]);
    let r = session(&calm, Dest::Raw(calm.clone()), &steps, &format);
    ensure!(r, "error-without-fault/write", "writing failed on an undisturbed device");
    let text = calm.durable();
    count("probe.text");
    if let Err(e) = check_text(&text, &s, &m, &f, delim, precision) {
        violate!("wrong-text", "{} (format {:?}, delimiter {:?})", e, format, delim);
    }
    // and on a disturbed one
    let dev = Dev::new(vec![]);
    dev.choose_soft();
    for _ in 0..dsim::fault(3) {
        arm(&dev, text.len() as u64 + 1);
    }
    let dest = if huge { Dest::Buf(std::io::BufWriter::new(dev.clone())) } else { Dest::choose(&dev) };
    let ok = session(&dev, dest, &steps, &format);
    let got = dev.image();
    ensure!(
        text.starts_with(&got),
        "not-a-prefix",
        "what was emitted is not a prefix of the text: it differs at byte {}",
        got.iter().zip(&text).position(|(a, b)| a != b).unwrap_or(text.len())
    );
    if ok {
        ensure!(dev.durable() == text, "incomplete", "every call succeeded but only {} of {} bytes were stored and flushed", dev.durable().len(), text.len());
        count("probe.text");
    }
    if !m.is_empty() {
        nontrivial();
    }
    sig(m.len() as u64);
    sig(dev.ops());
    sig(dsim::rng::fnv(&text));
}

fn arm(dev: &Dev, size: u64) {
    let k = match dsim::fault(5) {
        0 | 1 => Hard::WriteErr,
        2 => Hard::WriteZero,
        3 => Hard::FlushErr,
        _ => Hard::Full(dsim::fault(size as usize) as u64),
    };
    dev.arm(k, some_ops(), some_times());
}

/// Run the session; true if everything was reported as written and flushed.
fn session(dev: &Dev, dest: Dest, steps: &[Step], format: &str) -> bool {
    let mut w = match attempt("create", dev, false, || AsciiWriter::from_write(dest, format)) {
        Got::Ok(w) => w,
        Got::Err => return false,
    };
    let mut flushed = false;
    for (i, st) in steps.iter().enumerate() {
        match st {
            Step::Write(b, _, r) => {
                count("op.write");
                flushed = false;
                let r = match r {
                    Some(r) => with_buf!(b, x => { let sl = x.slice(r.clone()); attempt("write", dev, false, || w.write(&sl)) }),
                    None => with_buf!(b, x => attempt("write", dev, false, || w.write(x))),
                };
                if let Got::Err = r {
                    ev!("step {} failed", i);
                    return false;
                }
            }
            Step::Flush => {
                count("op.flush");
                flushed = matches!(attempt("flush", dev, false, || w.flush()), Got::Ok(_));
                ev!("step {}: flush {}", i, flushed);
            }
            Step::Recover => dev.disarm(),
            Step::Bad(b) => {
                count("op.rejected");
                let r = catch(|| with_buf!(b, x => w.write(x)));
                ensure!(!matches!(r, Ok(Ok(_))), "not-rejected/write", "writing points without an attribute of the format succeeded");
            }
        }
    }
    flushed
}

// ------------------------------------------------------------------ reading

struct Line {
    /// per column of the format: the value's bytes
    vals: Vec<Vec<u8>>,
    bad: bool,
}

fn number(s: DT, def: &PointAttributeDefinition) -> (String, Vec<u8>) {
    let flag = def.name() == EDGE_OF_FLIGHT_LINE.name() || def.name() == SCAN_DIRECTION_FLAG.name();
    if s == DT::F64 {
        let b = gen_value(DT::F64, 8, dsim::bits());
        let v = f64::from_ne_bytes(b.try_into().unwrap());
        let t = match dsim::work(5) {
            0 => format!("{}", v),
            1 => format!("{:e}", v),
            2 => format!("{:.3}", if v.abs() < 1e15 { v } else { 1.5 }),
            3 => format!("{}", dsim::work(2000) as i64 - 1000),
            _ => format!("{}.{}", dsim::work(1000), dsim::work(100000)),
        };
        let v: f64 = t.parse().unwrap();
        return (t, v.to_ne_bytes().to_vec());
    }
    let (lo, hi): (i64, i64) = match s {
        _ if flag => (0, 1),
        DT::U8 => (0, 255),
        DT::I8 => (-128, 127),
        _ => (0, 65535),
    };
    let v = match dsim::work(4) {
        0 => lo,
        1 => hi,
        _ => lo + dsim::work((hi - lo + 1) as usize) as i64,
    };
    let t = match dsim::work(8) {
        7 if v >= 0 => format!("0{}", v),
        _ => format!("{}", v),
    };
    let b = match s {
        DT::U8 => (v as u8).to_ne_bytes().to_vec(),
        DT::I8 => (v as i8).to_ne_bytes().to_vec(),
        _ => (v as u16).to_ne_bytes().to_vec(),
    };
    (t, b)
}

pub fn c18() {
    choose_scale();
    let f = rand_format();
    let format = text_of(&f);
    let delim = *dsim::pick(&DELIMS);
    let n = count_points();
    let mut text: Vec<u8> = vec![];
    let mut lines: Vec<Line> = vec![];
    let spoil = if dsim::fault(4) == 3 && n > 0 { Some(dsim::fault(n)) } else { None };
    let crlf = dsim::work(4) == 3;
    for k in 0..n {
        let mut cols: Vec<String> = vec![];
        let mut vals = vec![];
        for c in &f {
            match c {
                None => {
                    cols.push(["", "abc", "-", "1.5"][dsim::work(4)].to_string());
                    vals.push(vec![]);
                }
                Some((_, def, _)) => {
                    let (s, _) = split_dt(def.datatype()).unwrap();
                    let (t, b) = number(s, def);
                    cols.push(t);
                    vals.push(b);
                }
            }
        }
        if dsim::work(10) == 9 {
            for _ in 0..1 + dsim::work(2) {
                cols.push("extra".into());
            }
        }
        let mut bad = false;
        if spoil == Some(k) {
            count("fault.malformed_line");
            bad = true;
            match dsim::fault(4) {
                0 => cols.truncate(f.len() - 1),
                1 => {
                    text.extend_from_slice(&[0xC3, 0x28]);
                }
                _ => {
                    let j = dsim::fault(f.len());
                    match &f[j] {
                        None => bad = false,
                        Some((_, def, _)) => {
                            let flag = def.name() == EDGE_OF_FLIGHT_LINE.name() || def.name() == SCAN_DIRECTION_FLAG.name();
                            cols[j] = if def.datatype() == DT::Vec3f64 || def.datatype() == DT::F64 {
                                ["abc", "1.2.3", "0x10", "", "--1"][dsim::fault(5)].into()
                            } else if flag {
                                ["2", "true", "", "-1", "255"][dsim::fault(5)].into()
                            } else {
                                ["abc", "65536", "", "-129", "1.5", "0x1"][dsim::fault(6)].into()
                            };
                        }
                    }
                }
            }
            if cols.is_empty() {
                cols.push(String::new());
            }
            ev!("line {} malformed: {:?} ({})", k, cols, bad);
        }
        text.extend_from_slice(cols.join(delim).as_bytes());
        if k + 1 < n || dsim::work(2) == 0 {
            text.extend_from_slice(if crlf { b"\r\n" } else { b"\n" });
        } else if cols.join(delim).is_empty() && !bad {
            // an empty unfinished line is no line
            text.extend_from_slice(b"\n");
        } else if cols.join(delim).is_empty() {
            text.push(b'\n');
        }
        lines.push(Line { vals, bad });
    }
    ev!("format {:?} delimiter {:?}, {} lines, {} bytes, text {:?}", format, delim, n, text.len(), String::from_utf8_lossy(&text[..text.len().min(300)]));
    let dev = Dev::new(text.clone());
    dev.choose_soft();
    if dsim::fault(4) == 3 {
        dev.arm(Hard::ReadErr, some_ops(), some_times());
    }
    let src = Src::choose(&dev);
    let mut r = match attempt("open", &dev, false, || AsciiReader::from_read(src, &format, delim)) {
        Got::Ok(r) => r,
        Got::Err => return,
    };
    // the layout is a function of the format
    let again = AsciiReader::from_read(Src::choose(&dev), &format, delim).unwrap();
    ensure!(
        again.get_default_point_layout() == r.get_default_point_layout(),
        "hash-seed",
        "two readers of format {:?} have different default layouts: {} and {}",
        format,
        r.get_default_point_layout(),
        again.get_default_point_layout()
    );
    for c in f.iter().flatten() {
        ensure!(r.get_default_point_layout().has_attribute(&c.1), "metadata", "the default layout lacks {}", c.1);
    }
    let mut pos = 0;
    let mut ops = 0;
    while dsim::more(8) && ops < 30 {
        ops += 1;
        let cnt = match dsim::work(4) {
            0 => dsim::work(4),
            1 => n - pos,
            2 => n - pos + dsim::work(4),
            _ => count_points(),
        };
        let k = cnt.min(n - pos);
        let bad = lines[pos..pos + k].iter().any(|l| l.bad);
        let own = dsim::work(3) == 2;
        let (s, got, now, old) = if own {
            ev!("read {} at {}", cnt, pos);
            count("op.read");
            let s = Schema::of(r.get_default_point_layout().clone(), None);
            match attempt("read", &dev, bad, || r.read::<VectorBuffer>(cnt)) {
                Got::Ok(b) => {
                    let now = snapshot(&b, &s);
                    let l = b.len();
                    (s, Got::Ok(l), now, vec![])
                }
                Got::Err => (s, Got::Err, vec![], vec![]),
            }
        } else {
            let mut a: Vec<PointAttributeDefinition> = vec![];
            for d in source_attrs(&f) {
                if dsim::work(6) == 5 && !a.is_empty() {
                    continue;
                }
                let mut d = d;
                if dsim::work(4) == 3 && columns().iter().any(|(_, b, _)| b.name() == d.name()) {
                    let all: Vec<DT> = ALL_PRIMS.iter().copied().filter(|x| convertible(*x, d.datatype())).collect();
                    d = d.with_custom_datatype(all[dsim::work(all.len())]);
                }
                a.push(d);
            }
            if a.is_empty() {
                a.push(POINT_ID);
            }
            let s = Schema::of(layout_from(&a), None);
            let len = cnt + dsim::work(2) * dsim::work(4);
            let raw = s.points(len);
            let old = s.split(&raw);
            let mut b = make(dsim::work(4), &s, &raw);
            ev!("read {} at {} into a {} of {}", cnt, pos, b.kind(), len);
            describe(&s);
            count("op.read_into");
            let g = with_buf!(&mut b, x => attempt("read_into", &dev, bad, || r.read_into(x, cnt)));
            let now = with_buf!(&b, x => snapshot(x, &s));
            ensure!(now.len() == len, "length", "reading changed the buffer's length from {} to {}", len, now.len());
            (s, g, now, old)
        };
        match got {
            Got::Ok(x) => {
                ensure!(!bad, "malformed-accepted", "{} lines were read although one of them is malformed", x);
                ensure!(x == k, "count", "{} points reported, {} of {} lines are left and {} were requested", x, n - pos, n, cnt);
                for (j, p) in now.iter().enumerate() {
                    if j >= x {
                        ensure!(s.same(p, &old[j]), "untouched", "point {} changed although only {} points were read", j, x);
                        continue;
                    }
                    for (ci, c) in f.iter().enumerate() {
                        let Some((ch, def, comp)) = c else { continue };
                        let Some(i) = s.attrs.iter().position(|a| a.def.name() == def.name()) else { continue };
                        let (st, _) = split_dt(def.datatype()).unwrap();
                        let (tt, got) = component(s.attrs[i].dt, s.attr_of(i, p), *comp);
                        let want = ref_convert(st, tt, &lines[pos + j].vals[ci]);
                        let nan = st == DT::F64 && f64::from_ne_bytes(lines[pos + j].vals[ci].clone().try_into().unwrap()).is_nan();
                        ensure!(
                            got == want || nan,
                            "wrong-point",
                            "column '{}' of line {} gives {:02x?} for {} ({}), expected {:02x?}",
                            ch,
                            pos + j,
                            got,
                            def.name(),
                            tt,
                            want
                        );
                    }
                }
                pos += x;
                if x > 0 {
                    nontrivial();
                }
                count("probe.points_compared");
            }
            Got::Err => {
                for j in k..old.len() {
                    ensure!(s.same(&now[j], &old[j]), "untouched", "point {} changed in a failed read of {}", j, k);
                }
                break;
            }
        }
    }
    sig(pos as u64);
    sig(dev.ops());
    sig(dsim::rng::fnv(&text));
}
