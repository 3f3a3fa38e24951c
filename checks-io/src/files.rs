//! C28: point files on disk, through the entry points that take paths.

use crate::common::*;
use crate::dev::*;
use crate::lasf::{default_layout_of, fit_all};
use crate::ops::*;
use crate::pnts_read::arm_read;
use crate::pnts_write::{arm_write, rand_pnts_attrs};
use crate::with_buf;
use dsim::{catch, count, discard, ensure, ev, nontrivial, sig, violate};
use pasture_core::containers::*;
use pasture_core::layout::*;
use pasture_io::base::*;
use pasture_io::las::{LASReader, LASWriter};
use pasture_io::tiles3d::{PntsReader, PntsWriter};
use std::collections::HashMap;
use std::io::{Cursor, Read, Seek, SeekFrom, Write};
use std::sync::{Arc, Mutex};

const O_CREAT: i32 = 0o100;
const O_EXCL: i32 = 0o200;
const O_TRUNC: i32 = 0o1000;
const O_APPEND: i32 = 0o2000;

struct Disk {
    files: HashMap<String, Dev>,
    handles: Vec<(Dev, u64, i32)>,
    refuse: Vec<i32>,
    opened: u64,
    failed: u64,
}

#[derive(Clone)]
struct SimFs(Arc<Mutex<Disk>>);

fn errno(e: std::io::Error) -> i32 {
    match e.kind() {
        std::io::ErrorKind::Interrupted => 4,
        std::io::ErrorKind::StorageFull => 28,
        std::io::ErrorKind::InvalidInput => 22,
        _ => 5,
    }
}

impl SimFs {
    fn with<T>(&self, f: impl FnOnce(&mut Disk) -> T) -> T {
        dsim::sched::no_preempt(|| f(&mut self.0.lock().unwrap()))
    }
    fn on<T>(&self, h: u32, f: impl FnOnce(&mut Dev) -> std::io::Result<T>) -> Result<T, i32> {
        let (mut d, p, _) = self.with(|k| k.handles[h as usize].clone());
        d.set_pos(p);
        let r = f(&mut d);
        let p = d.pos();
        self.with(|k| k.handles[h as usize].1 = p);
        r.map_err(errno)
    }
}

impl dsim::fs::Backend for SimFs {
    fn open(&mut self, path: &str, flags: i32) -> Result<u32, i32> {
        self.with(|k| {
            k.opened += 1;
            if let Some(e) = k.refuse.pop() {
                k.failed += 1;
                count("fault.open_refused");
                return Err(e);
            }
            let known = k.files.contains_key(path);
            if !known && flags & O_CREAT == 0 {
                return Err(2);
            }
            if known && flags & O_EXCL != 0 && flags & O_CREAT != 0 {
                return Err(17);
            }
            let d = k.files.entry(path.to_string()).or_insert_with(|| Dev::new(vec![])).clone();
            if flags & O_TRUNC != 0 {
                d.truncate();
            }
            k.handles.push((d, 0, flags));
            Ok(k.handles.len() as u32 - 1)
        })
    }
    fn size(&mut self, f: u32) -> u64 {
        self.with(|k| k.handles[f as usize].0.image_len() as u64)
    }
    fn size_of_path(&mut self, path: &str) -> Result<u64, i32> {
        self.with(|k| k.files.get(path).map(|d| d.image_len() as u64).ok_or(2))
    }
    fn set_size(&mut self, f: u32, n: u64) -> Result<(), i32> {
        self.with(|k| k.handles[f as usize].0.set_size(n as usize));
        Ok(())
    }
    fn sync(&mut self, f: u32) -> Result<(), i32> {
        self.on(f, |d| d.flush())
    }
    fn unlink(&mut self, path: &str) -> Result<(), i32> {
        self.with(|k| k.files.remove(path).map(|_| ()).ok_or(2))
    }
    fn rename(&mut self, from: &str, to: &str) -> Result<(), i32> {
        self.with(|k| {
            let d = k.files.remove(from).ok_or(2)?;
            k.files.insert(to.to_string(), d);
            Ok(())
        })
    }
    fn read(&mut self, f: u32, buf: &mut [u8]) -> Result<usize, i32> {
        if self.with(|k| k.handles[f as usize].2) & 3 == 1 {
            return Err(9);
        }
        self.on(f, |d| d.read(buf))
    }
    fn write(&mut self, f: u32, buf: &[u8]) -> Result<usize, i32> {
        let (d, _, flags) = self.with(|k| k.handles[f as usize].clone());
        if flags & 3 == 0 {
            return Err(9);
        }
        if flags & O_APPEND != 0 {
            self.with(|k| k.handles[f as usize].1 = d.image_len() as u64);
        }
        self.on(f, |d| d.write(buf))
    }
    fn seek(&mut self, f: u32, o: i64, whence: i32) -> Result<u64, i32> {
        self.on(f, |d| {
            d.seek(match whence {
                0 => SeekFrom::Start(o as u64),
                1 => SeekFrom::Current(o),
                _ => SeekFrom::End(o),
            })
        })
    }
    fn close(&mut self, _: u32) {}
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Las,
    Laz,
    Pnts,
}

/// Read a file that is complete and on a device that never fails.
fn plain_read(kind: Kind, img: &[u8]) -> Option<HashMapBuffer> {
    let c = Cursor::new(img.to_vec());
    match catch(|| -> anyhow::Result<HashMapBuffer> {
        if kind == Kind::Pnts {
            let mut r = PntsReader::from_read(c)?;
            let n = r.get_metadata().number_of_points().unwrap();
            r.read::<HashMapBuffer>(n)
        } else {
            let mut r = LASReader::from_read(c, kind == Kind::Laz, false)?;
            let n = r.remaining_points();
            r.read::<HashMapBuffer>(n)
        }
    }) {
        Ok(Ok(b)) => Some(b),
        _ => None,
    }
}

/// The same into a buffer of some layout.
fn plain_read_into(kind: Kind, img: &[u8], s: &Schema, n: usize) -> Option<Vec<Pt>> {
    let c = Cursor::new(img.to_vec());
    let mut b = VectorBuffer::new_from_layout(s.layout.clone());
    b.resize(n);
    match catch(|| -> anyhow::Result<usize> {
        if kind == Kind::Pnts {
            PntsReader::from_read(c)?.read_into(&mut b, n)
        } else {
            LASReader::from_read(c, kind == Kind::Laz, false)?.read_into(&mut b, n)
        }
    }) {
        Ok(Ok(k)) if k == n => Some(snapshot(&b, s)),
        _ => None,
    }
}

/// What a writer that never meets a failure produces.
fn plain_write(kind: Kind, layout: &PointLayout, batches: &[Buf]) -> Option<Vec<u8>> {
    let dev = Dev::new(vec![]);
    let d = dev.clone();
    match catch(move || -> anyhow::Result<()> {
        if kind == Kind::Pnts {
            let mut w = PntsWriter::from_write_and_layout(d, layout.clone());
            for b in batches {
                with_buf!(b, x => w.write(x))?;
            }
            w.flush()
        } else {
            let mut w = LASWriter::from_writer_and_point_layout(d, layout, kind == Kind::Laz)?;
            for b in batches {
                with_buf!(b, x => w.write(x))?;
            }
            w.flush()
        }
    }) {
        Ok(Ok(())) => Some(dev.image()),
        _ => None,
    }
}

/// A call that must succeed unless the disk failed, and report it if it did.
fn call<T>(what: &str, dev: &Dev, fs: &SimFs, may_fail: bool, f: impl FnOnce() -> anyhow::Result<T>) -> Option<T> {
    let before = dev.hard() + fs.with(|k| k.failed);
    match catch(f) {
        Ok(Ok(v)) => Some(v),
        Ok(Err(e)) => {
            ev!("{} failed: {}", what, e.root_cause());
            count("op.failed");
            ensure!(
                may_fail || dev.hard() + fs.with(|k| k.failed) > before,
                &format!("error-without-fault/{}", what),
                "{} failed although the disk reported no error: {:#}",
                what,
                e
            );
            None
        }
        Err(_) => violate!(&format!("unexpected-panic/{}", what), "{} panicked: {}", what, dsim::last_panic()),
    }
}

fn same(a: &[Pt], b: &[Pt], s: &Schema) -> Option<usize> {
    (0..a.len().min(b.len())).find(|i| !s.same(&a[*i], &b[*i]))
}

pub fn c28() {
    choose_scale();
    let kind = [Kind::Las, Kind::Las, Kind::Pnts, Kind::Pnts, Kind::Laz][dsim::work(5)];
    let ext = match kind {
        Kind::Las => ["las", "LAS", "Las"][dsim::work(3)],
        Kind::Laz => ["laz", "LAZ"][dsim::work(2)],
        Kind::Pnts => ["pnts", "PNTS"][dsim::work(2)],
    };
    let path = format!("{}{}.{}", dsim::fs::PREFIX, ["a", "b c", "x.las.pnts"][dsim::work(3)], ext);
    let fs = SimFs(Arc::new(Mutex::new(Disk { files: HashMap::new(), handles: vec![], refuse: vec![], opened: 0, failed: 0 })));
    dsim::fs::mount(Box::new(fs.clone()));

    // paths that name no point file
    if dsim::work(8) == 7 {
        let bad = [".txt", "", ".lasx", ".", ".las.bak"][dsim::work(5)];
        let p = format!("{}a{}", dsim::fs::PREFIX, bad);
        let s = Schema::of(layout_from(&rand_pnts_attrs()), None);
        let raw = s.points(2);
        let b = make(0, &s, &raw);
        ev!("write to {}", p);
        match catch(|| with_buf!(&b, x => write_all(x, &p))) {
            Ok(Err(_)) => {}
            Ok(Ok(())) => violate!("wrong-format", "writing to {} succeeded", p),
            Err(_) => violate!("unexpected-panic/write_all", "write_all panicked: {}", dsim::last_panic()),
        }
        match catch(|| read_all::<VectorBuffer, _>(&p)) {
            Ok(Err(_)) => {}
            Ok(Ok(_)) => violate!("wrong-format", "reading from {} succeeded", p),
            Err(_) => violate!("unexpected-panic/read_all", "read_all panicked: {}", dsim::last_panic()),
        }
        ensure!(fs.with(|k| k.files.is_empty()), "wrong-format", "a file was created for {}", p);
        count("probe.bad_path");
        return;
    }

    let s = if kind == Kind::Pnts {
        Schema::of(layout_from(&rand_pnts_attrs()), None)
    } else {
        Schema::of(default_layout_of(dsim::work(if kind == Kind::Laz { 4 } else { 11 }) as u8), None)
    };
    describe(&s);
    let nb = 1 + if dsim::work(3) == 2 { dsim::work(4) } else { 0 };
    let mut batches = vec![];
    let mut total = 0;
    for _ in 0..nb {
        let n = count_points();
        let mut raw = s.points(n);
        if kind != Kind::Pnts {
            fit_all(&s, &mut raw);
        }
        total += n;
        batches.push(make(dsim::work(4), &s, &raw));
    }
    let Some(image) = plain_write(kind, &s.layout, &batches) else { discard() };
    let Some(want) = plain_read(kind, &image) else { discard() };
    if want.len() != total {
        discard(); // the format writers have checks of their own
    }
    let fs_schema = Schema::of(want.point_layout().clone(), None);
    let want = snapshot(&want, &fs_schema);

    // the disk
    let dev = Dev::new(if dsim::work(3) == 2 { (0..dsim::work(3000)).map(|_| dsim::bits() as u8).collect() } else { vec![] });
    dev.choose_soft();
    if dsim::fault(3) == 2 {
        for _ in 0..1 + dsim::fault(2) {
            arm_write(&dev, image.len() as u64 + 600);
        }
    }
    let refuse = |fs: &SimFs| {
        if dsim::fault(12) == 11 {
            let e = [2, 13, 24, 28, 5][dsim::fault(5)];
            ev!("opening will fail with {}", e);
            fs.with(|k| k.refuse.push(e));
        }
    };
    let crash = dsim::fault(3) == 2 && kind != Kind::Laz;
    if crash {
        let k = if dsim::fault(2) == 0 { dsim::fault(8) } else { dsim::fault(200) };
        dev.crash_after(k as u64);
    }
    fs.with(|k| k.files.insert(path.clone(), dev.clone()));
    refuse(&fs);

    let flushes = dsim::work(2) == 0 && kind != Kind::Laz; // LAZ files take no points after a flush
    let ok = if nb == 1 && dsim::work(3) > 0 {
        ev!("write_all {} points to {}", total, path);
        count("op.write_all");
        with_buf!(&batches[0], x => call("write_all", &dev, &fs, false, || write_all(x, &path))).is_some()
    } else {
        ev!("write {} batches of together {} points to {}", nb, total, path);
        count("op.write_batches");
        call("write_batches", &dev, &fs, false, || {
            let mut w = GenericPointWriter::open_file(&path, &s.layout)?;
            for b in &batches {
                with_buf!(b, x => w.write(x))?;
                if flushes {
                    w.flush()?;
                }
            }
            w.flush()
        })
        .is_some()
    };
    dev.disarm();
    fs.with(|k| k.refuse.clear());
    ev!("written: {}, {} bytes", ok, dev.image_len());

    if let (true, Some(left)) = (crash, dev.crash_image()) {
        // the process died at that moment
        count("fault.crash");
        let d = Dev::new(left.clone());
        let p = format!("{}crashed.{}", dsim::fs::PREFIX, ext);
        fs.with(|k| k.files.insert(p.clone(), d));
        ev!("crash: {} bytes are left", left.len());
        match catch(|| read_all::<VectorBuffer, _>(&p)) {
            Ok(Ok(b)) => {
                ensure!(b.len() <= total, "crash/invented", "{} points were read after a crash, {} were written", b.len(), total);
                if b.len() > 0 {
                    count("probe.points_after_crash");
                    ensure!(
                        b.point_layout() == &fs_schema.layout,
                        "crash/layout",
                        "after a crash the points have the layout {} instead of {}",
                        b.point_layout(),
                        fs_schema.layout
                    );
                    let got = snapshot(&b, &fs_schema);
                    if let Some(i) = same(&got, &want, &fs_schema) {
                        violate!("crash/wrong-point", "point {} of {} read after a crash is not the one that was written", i, got.len());
                    }
                    nontrivial();
                }
            }
            Ok(Err(_)) => count("op.refused_after_crash"),
            Err(_) => violate!("unexpected-panic/crash", "reading what a crash left panicked: {}", dsim::last_panic()),
        }
    }
    if !ok {
        sig(dev.ops());
        // a second attempt on the recovered disk
        if dsim::work(2) == 0 && nb == 1 {
            ev!("write again");
            if with_buf!(&batches[0], x => call("write_all", &dev, &fs, false, || write_all(x, &path))).is_none() {
                return;
            }
        } else {
            return;
        }
    }
    // the file that is there now, it could have been renamed
    let Some(dev) = fs.with(|k| k.files.get(&path).cloned()) else { violate!("wrong-file", "there is no file") };
    let written = dev.image();
    ensure!(written.len() == image.len(), "wrong-file", "the file has {} bytes instead of {}", written.len(), image.len());
    match plain_read(kind, &written) {
        Some(b) if b.point_layout() == &fs_schema.layout && b.len() == total => {
            let got = snapshot(&b, &fs_schema);
            if let Some(i) = same(&got, &want, &fs_schema) {
                violate!("wrong-file", "point {} in the file is not the one that was written", i);
            }
        }
        Some(b) => violate!("wrong-file", "the file has {} points of {} instead of {} of {}", b.len(), b.point_layout(), total, fs_schema.layout),
        None => violate!("wrong-file", "the file can't be read"),
    }
    if total > 0 {
        nontrivial();
    }

    // reading
    for _ in 0..1 + dsim::work(3) {
        if dsim::fault(3) == 2 {
            arm_read(&dev);
        }
        refuse(&fs);
        match dsim::work(4) {
            0 | 1 => {
                ev!("read_all");
                count("op.read_all");
                let got = if dsim::work(2) == 0 {
                    call("read_all", &dev, &fs, false, || read_all::<VectorBuffer, _>(&path)).map(|b| (b.point_layout().clone(), snapshot(&b, &fs_schema)))
                } else {
                    call("read_all", &dev, &fs, false, || read_all::<HashMapBuffer, _>(&path)).map(|b| (b.point_layout().clone(), snapshot(&b, &fs_schema)))
                };
                if let Some((l, got)) = got {
                    ensure!(l == fs_schema.layout, "read/layout", "layout {} instead of {}", l, fs_schema.layout);
                    ensure!(got.len() == total, "read/count", "{} points instead of {}", got.len(), total);
                    if let Some(i) = same(&got, &want, &fs_schema) {
                        violate!("read/wrong-point", "point {} is not the one in the file", i);
                    }
                }
            }
            2 => {
                let t = if dsim::work(2) == 0 { fs_schema.clone() } else { s.clone() };
                let have = count_points();
                let raw = t.points(have);
                let old = t.split(&raw);
                let mut b = make(dsim::work(2), &t, &raw);
                let Some(new) = plain_read_into(kind, &written, &t, total) else {
                    dev.disarm();
                    continue;
                };
                ev!("read_all_into a {} of {}", b.kind(), have);
                count("op.read_all_into");
                let (r, now) = match &mut b {
                    Buf::V(x) => {
                        let r = call("read_all_into", &dev, &fs, false, || append(x, &path));
                        (r, snapshot(x, &t))
                    }
                    Buf::H(x) => {
                        let r = call("read_all_into", &dev, &fs, false, || append(x, &path));
                        (r, snapshot(x, &t))
                    }
                    _ => unreachable!(),
                };
                if let Some(i) = same(&now, &old, &t) {
                    violate!("append/overwritten", "point {} of the {} points in the buffer changed", i, have);
                }
                match r {
                    None => ensure!(now.len() == have, "append/torn", "the buffer has {} points after a failure, {} before", now.len(), have),
                    Some(k) => {
                        ensure!(k == total, "append/count", "{} points reported instead of {}", k, total);
                        ensure!(now.len() == have + total, "append/count", "the buffer has {} points instead of {} + {}", now.len(), have, total);
                        if let Some(i) = same(&now[have..], &new, &t) {
                            violate!("append/wrong-point", "appended point {} is not the one in the file", i);
                        }
                    }
                }
            }
            _ => {
                ev!("read in chunks");
                count("op.read_chunks");
                let at = dsim::work(total + 1);
                let step = 1 + dsim::work(total + 1);
                let got = call("read_chunks", &dev, &fs, false, || {
                    let mut r = GenericPointReader::open_file(&path)?;
                    ensure!(r.point_count() == Some(total), "read/count", "{:?} points announced instead of {}", r.point_count(), total);
                    r.seek_point(SeekFrom::Start(at as u64))?;
                    let mut all = vec![];
                    while all.len() + at < total {
                        let b = r.read::<VectorBuffer>(step)?;
                        ensure!(b.len() == step.min(total - at - all.len()), "read/count", "{} points in a chunk of {} at {}", b.len(), step, at + all.len());
                        all.extend(snapshot(&b, &fs_schema));
                    }
                    Ok(all)
                });
                if let Some(got) = got {
                    if let Some(i) = same(&got, &want[at..], &fs_schema) {
                        violate!("read/wrong-point", "point {} is not the one in the file", at + i);
                    }
                }
            }
        }
        dev.disarm();
        fs.with(|k| k.refuse.clear());
        ensure!(dev.image() == written, "read/file-changed", "reading changed the file");
    }
    sig(dev.ops());
    sig(dsim::rng::fnv(&written));
}

/// The signature of `read_all_into` borrows the buffer for as long as its type says.
fn append<'a, B: OwningBuffer<'a> + 'a>(b: &mut B, path: &str) -> anyhow::Result<usize> {
    let b: &'a mut B = unsafe { &mut *(b as *mut B) };
    read_all_into(b, path)
}
