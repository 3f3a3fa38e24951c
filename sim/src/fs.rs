//! File system seam: files below `/simfs/` are served by a backend instead of the kernel.

use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub const PREFIX: &str = "/simfs/";

/// Files of the backend have a descriptor of /dev/null, so that it can be inspected as usual.
const FDS: usize = 256;
static FILE: [AtomicUsize; FDS] = [const { AtomicUsize::new(0) }; FDS];

fn file_of(fd: i32) -> Option<u32> {
    match FILE.get(fd as usize).map(|f| f.load(Relaxed)) {
        None | Some(0) => None,
        Some(f) => Some(f as u32 - 1),
    }
}

/// Errors are errno values.
pub trait Backend: Send {
    /// `flags` as for open(2)
    fn open(&mut self, path: &str, flags: i32) -> Result<u32, i32>;
    fn size(&mut self, file: u32) -> u64;
    fn size_of_path(&mut self, path: &str) -> Result<u64, i32>;
    fn set_size(&mut self, file: u32, size: u64) -> Result<(), i32>;
    fn sync(&mut self, file: u32) -> Result<(), i32>;
    fn unlink(&mut self, path: &str) -> Result<(), i32>;
    fn rename(&mut self, from: &str, to: &str) -> Result<(), i32>;
    fn read(&mut self, file: u32, buf: &mut [u8]) -> Result<usize, i32>;
    fn write(&mut self, file: u32, buf: &[u8]) -> Result<usize, i32>;
    fn seek(&mut self, file: u32, offset: i64, whence: i32) -> Result<u64, i32>;
    fn close(&mut self, file: u32);
}

static mut BACKEND: Option<Box<dyn Backend>> = None;

/// Serve `/simfs/` from here. Only one thread of a run may use files.
pub fn mount(b: Box<dyn Backend>) {
    unsafe {
        *std::ptr::addr_of_mut!(BACKEND) = Some(b);
    }
}

fn backend() -> Option<&'static mut Box<dyn Backend>> {
    unsafe { (*std::ptr::addr_of_mut!(BACKEND)).as_mut() }
}

fn real(cache: &AtomicUsize, name: &'static [u8]) -> usize {
    let mut p = cache.load(Relaxed);
    if p == 0 {
        p = unsafe { libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const _) as usize };
        cache.store(p, Relaxed);
    }
    p
}

unsafe fn done<T: TryInto<i64>>(r: Result<T, i32>) -> i64 {
    match r {
        Ok(v) => v.try_into().unwrap_or(i64::MAX),
        Err(e) => {
            *libc::__errno_location() = e;
            -1
        }
    }
}

unsafe fn open_any(name: &'static [u8], cache: &AtomicUsize, path: *const libc::c_char, flags: i32, mode: libc::mode_t) -> i32 {
    if let Some(b) = backend() {
        if let Ok(p) = std::ffi::CStr::from_ptr(path).to_str() {
            if p.starts_with(PREFIX) {
                let r = b.open(p, flags);
                let Ok(file) = r else { return done(r) as i32 };
                let f: unsafe extern "C" fn(*const libc::c_char, i32, libc::mode_t) -> i32 = std::mem::transmute(real(cache, name));
                let fd = f(c"/dev/null".as_ptr(), libc::O_RDWR | libc::O_CLOEXEC, 0);
                if fd < 0 || fd as usize >= FDS {
                    return done::<u32>(Err(libc::EMFILE)) as i32;
                }
                FILE[fd as usize].store(file as usize + 1, Relaxed);
                return fd;
            }
        }
    }
    let f: unsafe extern "C" fn(*const libc::c_char, i32, libc::mode_t) -> i32 = std::mem::transmute(real(cache, name));
    f(path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: i32, mode: libc::mode_t) -> i32 {
    static C: AtomicUsize = AtomicUsize::new(0);
    open_any(b"open64\0", &C, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    static C: AtomicUsize = AtomicUsize::new(0);
    if let Some(file) = file_of(fd) {
        return done(backend().unwrap().read(file, std::slice::from_raw_parts_mut(buf, n))) as isize;
    }
    let f: unsafe extern "C" fn(i32, *mut u8, usize) -> isize = std::mem::transmute(real(&C, b"read\0"));
    f(fd, buf, n)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    static C: AtomicUsize = AtomicUsize::new(0);
    if let Some(file) = file_of(fd) {
        return done(backend().unwrap().write(file, std::slice::from_raw_parts(buf, n))) as isize;
    }
    let f: unsafe extern "C" fn(i32, *const u8, usize) -> isize = std::mem::transmute(real(&C, b"write\0"));
    f(fd, buf, n)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const libc::iovec, n: i32) -> isize {
    static C: AtomicUsize = AtomicUsize::new(0);
    if file_of(fd).is_some() {
        for i in 0..n as usize {
            let v = &*v.add(i);
            if v.iov_len > 0 {
                return write(fd, v.iov_base as *const u8, v.iov_len);
            }
        }
        return 0;
    }
    let f: unsafe extern "C" fn(i32, *const libc::iovec, i32) -> isize = std::mem::transmute(real(&C, b"writev\0"));
    f(fd, v, n)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
    static C: AtomicUsize = AtomicUsize::new(0);
    if let Some(file) = file_of(fd) {
        return done(backend().unwrap().seek(file, off, whence));
    }
    let f: unsafe extern "C" fn(i32, i64, i32) -> i64 = std::mem::transmute(real(&C, b"lseek64\0"));
    f(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    static C: AtomicUsize = AtomicUsize::new(0);
    if let Some(file) = file_of(fd) {
        FILE[fd as usize].store(0, Relaxed);
        if let Some(b) = backend() {
            b.close(file);
        }
    }
    let f: unsafe extern "C" fn(i32) -> i32 = std::mem::transmute(real(&C, b"close\0"));
    f(fd)
}

unsafe fn sim_path(path: *const libc::c_char) -> Option<&'static str> {
    if backend().is_none() || path.is_null() {
        return None;
    }
    let p: &'static str = std::ffi::CStr::from_ptr(path).to_str().ok()?;
    p.starts_with(PREFIX).then_some(p)
}

unsafe fn fill_statx(r: Result<u64, i32>, out: *mut libc::statx) -> i32 {
    match r {
        Err(e) => done::<u32>(Err(e)) as i32,
        Ok(n) => {
            std::ptr::write_bytes(out, 0, 1);
            (*out).stx_mask = 0x7ff;
            (*out).stx_mode = (libc::S_IFREG | 0o644) as u16;
            (*out).stx_nlink = 1;
            (*out).stx_blksize = 4096;
            (*out).stx_size = n;
            0
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn statx(dir: i32, path: *const libc::c_char, flags: i32, mask: u32, out: *mut libc::statx) -> i32 {
    if let Some(p) = sim_path(path) {
        return fill_statx(backend().unwrap().size_of_path(p), out);
    }
    if dir >= 0 && (path.is_null() || *path == 0) {
        if let Some(f) = file_of(dir) {
            return fill_statx(Ok(backend().unwrap().size(f)), out);
        }
    }
    crate::sched::syscall(libc::SYS_statx, dir as u64, path as u64, flags as u64, mask as u64, out as u64, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, n: i64) -> i32 {
    static C: AtomicUsize = AtomicUsize::new(0);
    if let Some(f) = file_of(fd) {
        return done(backend().unwrap().set_size(f, n as u64).map(|_| 0)) as i32;
    }
    let f: unsafe extern "C" fn(i32, i64) -> i32 = std::mem::transmute(real(&C, b"ftruncate64\0"));
    f(fd, n)
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    static C: AtomicUsize = AtomicUsize::new(0);
    if let Some(f) = file_of(fd) {
        return done(backend().unwrap().sync(f).map(|_| 0)) as i32;
    }
    let f: unsafe extern "C" fn(i32) -> i32 = std::mem::transmute(real(&C, b"fsync\0"));
    f(fd)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 {
    static C: AtomicUsize = AtomicUsize::new(0);
    if let Some(f) = file_of(fd) {
        return done(backend().unwrap().sync(f).map(|_| 0)) as i32;
    }
    let f: unsafe extern "C" fn(i32) -> i32 = std::mem::transmute(real(&C, b"fdatasync\0"));
    f(fd)
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const libc::c_char) -> i32 {
    static C: AtomicUsize = AtomicUsize::new(0);
    if let Some(p) = sim_path(path) {
        return done(backend().unwrap().unlink(p).map(|_| 0)) as i32;
    }
    let f: unsafe extern "C" fn(*const libc::c_char) -> i32 = std::mem::transmute(real(&C, b"unlink\0"));
    f(path)
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const libc::c_char, b: *const libc::c_char) -> i32 {
    static C: AtomicUsize = AtomicUsize::new(0);
    match (sim_path(a), sim_path(b)) {
        (Some(a), Some(b)) => done(backend().unwrap().rename(a, b).map(|_| 0)) as i32,
        (None, None) => {
            let f: unsafe extern "C" fn(*const libc::c_char, *const libc::c_char) -> i32 = std::mem::transmute(real(&C, b"rename\0"));
            f(a, b)
        }
        _ => done::<u32>(Err(libc::EXDEV)) as i32,
    }
}
