#![allow(invalid_runtime_symbol_definitions)]
//! Interposition of libc I/O calls inside the tools (loaded with LD_PRELOAD): every call on a file
//! below the scratch directory of the run, on standard input and on standard output is counted,
//! logged and can be hit by the fault planned for its number. Hash map seeds come from the case.
//!
//! Environment: KSIM_DIR scratch directory, KSIM_LOG log file, KSIM_FAULTS "io:kind:arg;...",
//! KSIM_SEED seed, KSIM_BUDGET largest number of calls.

use std::cell::UnsafeCell;
use std::os::raw::{c_char, c_int, c_long, c_uint, c_void};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering};

unsafe fn sys(n: usize, a: [usize; 6]) -> isize {
    let r: isize;
    unsafe {
        std::arch::asm!(
            "syscall",
            inlateout("rax") n as isize => r,
            in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
            in("r10") a[3], in("r8") a[4], in("r9") a[5],
            lateout("rcx") _, lateout("r11") _,
            options(nostack)
        );
    }
    r
}

unsafe extern "C" {
    fn __errno_location() -> *mut c_int;
    fn getenv(name: *const c_char) -> *const c_char;
}

fn errno(e: i32) -> isize {
    unsafe { *__errno_location() = e };
    -1
}

fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 { errno(-r as i32) } else { r }
}

const EINTR: i32 = 4;
const EIO: i32 = 5;
const ENOSPC: i32 = 28;

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Read = 1,
    Seek = 2,
    Stat = 3,
    Open = 4,
    Write = 5,
}

#[derive(Clone, Copy, PartialEq)]
enum Decision {
    Ok,
    Short(usize),
    Fail(i32),
}

struct Config {
    dir: &'static [u8],
    faults: Vec<(u32, &'static [u8], u64)>,
    log: i32,
    seed: u64,
    budget: u32,
}

struct Global(UnsafeCell<Option<Config>>);
unsafe impl Sync for Global {}
static CONFIG: Global = Global(UnsafeCell::new(None));
static READY: AtomicBool = AtomicBool::new(false);
static COUNT: AtomicU32 = AtomicU32::new(0);
static RND: AtomicU64 = AtomicU64::new(0);
/// 0: not tracked, else 1 + number of the file in the order of opening.
static FDS: [AtomicU32; 1024] = [const { AtomicU32::new(0) }; 1024];
static OPENED: AtomicU32 = AtomicU32::new(2);

unsafe fn var(name: &std::ffi::CStr) -> &'static [u8] {
    unsafe {
        let p = getenv(name.as_ptr());
        if p.is_null() { b"" } else { std::ffi::CStr::from_ptr(p).to_bytes() }
    }
}

fn number(b: &[u8]) -> u64 {
    b.iter().fold(0u64, |a, c| a.wrapping_mul(10).wrapping_add((*c as u64).wrapping_sub(48)))
}

extern "C" fn init() {
    unsafe {
        let dir = var(c"KSIM_DIR");
        if dir.is_empty() {
            return;
        }
        let mut faults = Vec::new();
        for f in var(c"KSIM_FAULTS").split(|c| *c == b';') {
            let p: Vec<&[u8]> = f.split(|c| *c == b':').collect();
            if p.len() == 3 {
                faults.push((number(p[0]) as u32, p[1], number(p[2])));
            }
        }
        let path = var(c"KSIM_LOG");
        let mut log = -1;
        if !path.is_empty() {
            let mut z = path.to_vec();
            z.push(0);
            // O_WRONLY | O_CREAT | O_TRUNC | O_APPEND | O_CLOEXEC
            let fd = sys(2, [z.as_ptr() as usize, 0o2003101, 0o600, 0, 0, 0]);
            if fd >= 0 {
                // away from the numbers the program gets
                log = sys(72, [fd as usize, 1030, 900, 0, 0, 0]) as i32;
                sys(3, [fd as usize, 0, 0, 0, 0, 0]);
            }
        }
        let budget = match number(var(c"KSIM_BUDGET")) as u32 {
            0 => 1_000_000,
            n => n,
        };
        *CONFIG.0.get() = Some(Config { dir, faults, log, seed: number(var(c"KSIM_SEED")), budget });
        // alarm: what takes this long hangs
        sys(37, [20, 0, 0, 0, 0, 0]);
        // setrlimit RLIMIT_AS
        let limit: [u64; 2] = [2 << 30, 2 << 30];
        sys(160, [9, limit.as_ptr() as usize, 0, 0, 0, 0]);
        FDS[0].store(1, Ordering::SeqCst);
        FDS[1].store(2, Ordering::SeqCst);
        READY.store(true, Ordering::SeqCst);
    }
}

#[used]
#[unsafe(link_section = ".init_array")]
static INIT: extern "C" fn() = init;

fn config() -> Option<&'static Config> {
    if !READY.load(Ordering::SeqCst) {
        return None;
    }
    unsafe { (*CONFIG.0.get()).as_ref() }
}

fn tracked(fd: c_int) -> Option<u32> {
    if !READY.load(Ordering::SeqCst) || !(0..1024).contains(&fd) {
        return None;
    }
    match FDS[fd as usize].load(Ordering::SeqCst) {
        0 => None,
        n => Some(n - 1),
    }
}

fn point(kind: Kind, file: u32, len: usize) -> Decision {
    let Some(c) = config() else { return Decision::Ok };
    let io = COUNT.fetch_add(1, Ordering::SeqCst);
    if io >= c.budget {
        unsafe { sys(231, [97, 0, 0, 0, 0, 0]) };
    }
    let mut d = Decision::Ok;
    let mut name: &[u8] = b"-";
    for (at, k, arg) in &c.faults {
        if *at != io {
            continue;
        }
        let data = matches!(kind, Kind::Read | Kind::Write);
        d = match *k {
            b"short" if data && len > 1 => Decision::Short(((*arg as usize) % (len - 1)).max(1)),
            b"shortfrac" if data && len > 1 => Decision::Short(
                ((len as u128 * (*arg as u128 % 1000) / 1000) as usize).clamp(1, len - 1),
            ),
            b"eintr" if data || kind == Kind::Open => Decision::Fail(EINTR),
            b"err" => Decision::Fail(EIO),
            b"nospace" if kind == Kind::Write || kind == Kind::Open && file == u32::MAX => {
                Decision::Fail(ENOSPC)
            }
            b"kill" => {
                name = b"kill";
                Decision::Ok
            }
            _ => Decision::Ok,
        };
        if d != Decision::Ok {
            name = k;
        }
    }
    if c.log >= 0 {
        let mut line: Vec<u8> = Vec::with_capacity(64);
        let kn: &[u8] = match kind {
            Kind::Read => b"Read",
            Kind::Seek => b"Seek",
            Kind::Stat => b"Size",
            Kind::Open => b"Open",
            Kind::Write => b"Write",
        };
        line.extend_from_slice(kn);
        for v in [io as u64, if file == u32::MAX { 999 } else { file as u64 }, len as u64] {
            line.push(b' ');
            line.extend_from_slice(v.to_string().as_bytes());
        }
        line.push(b' ');
        line.extend_from_slice(name);
        line.push(b'\n');
        unsafe { sys(1, [c.log as usize, line.as_ptr() as usize, line.len(), 0, 0, 0]) };
    }
    if name == b"kill" {
        unsafe { sys(231, [137, 0, 0, 0, 0, 0]) };
    }
    d
}

unsafe fn below(path: *const c_char) -> bool {
    match config() {
        Some(c) => unsafe { std::ffi::CStr::from_ptr(path) }.to_bytes().starts_with(c.dir),
        None => false,
    }
}

unsafe fn do_open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    unsafe {
        let raw = || sys(257, [-100isize as usize, path as usize, flags as usize, mode as usize, 0, 0]);
        if !below(path) {
            // nothing is written elsewhere
            let p = std::ffi::CStr::from_ptr(path).to_bytes();
            if config().is_some() && flags & 3 != 0 && !p.starts_with(b"/dev/") {
                return errno(13) as c_int;
            }
            return ret(raw()) as c_int;
        }
        let kind = if flags & 3 != 0 { u32::MAX } else { u32::MAX - 1 };
        if let Decision::Fail(e) = point(Kind::Open, kind, 0) {
            return errno(e) as c_int;
        }
        let fd = raw();
        if (0..1024).contains(&fd) {
            FDS[fd as usize].store(1 + OPENED.fetch_add(1, Ordering::SeqCst), Ordering::SeqCst);
        }
        ret(fd) as c_int
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    unsafe { do_open(path, flags, mode) }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    unsafe { do_open(path, flags, mode) }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if (2..1024).contains(&fd) {
        FDS[fd as usize].store(0, Ordering::SeqCst);
    }
    unsafe { ret(sys(3, [fd as usize, 0, 0, 0, 0, 0])) as c_int }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    let mut n = n;
    if let Some(f) = tracked(fd) {
        match point(Kind::Read, f, n) {
            Decision::Ok => {}
            Decision::Short(s) => n = s,
            Decision::Fail(e) => return errno(e),
        }
    }
    unsafe { ret(sys(0, [fd as usize, buf as usize, n, 0, 0, 0])) }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    let mut n = n;
    if let Some(f) = tracked(fd) {
        match point(Kind::Write, f, n) {
            Decision::Ok => {}
            Decision::Short(s) => n = s,
            Decision::Fail(e) => return errno(e),
        }
    }
    unsafe { ret(sys(1, [fd as usize, buf as usize, n, 0, 0, 0])) }
}

#[repr(C)]
pub struct IoVec {
    base: *mut c_void,
    len: usize,
}

unsafe fn vectored(write: bool, fd: c_int, iov: *const IoVec, count: c_int) -> isize {
    unsafe {
        if let Some(f) = tracked(fd) {
            let v = std::slice::from_raw_parts(iov, count.max(0) as usize);
            let total: usize = v.iter().map(|x| x.len).sum();
            match point(if write { Kind::Write } else { Kind::Read }, f, total) {
                Decision::Ok => {}
                Decision::Fail(e) => return errno(e),
                Decision::Short(s) => {
                    let nr = if write { 1 } else { 0 };
                    return match v.iter().find(|x| x.len > 0) {
                        Some(x) => ret(sys(nr, [fd as usize, x.base as usize, s.min(x.len), 0, 0, 0])),
                        None => 0,
                    };
                }
            }
        }
        let nr = if write { 20 } else { 19 };
        ret(sys(nr, [fd as usize, iov as usize, count as usize, 0, 0, 0]))
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const IoVec, count: c_int) -> isize {
    unsafe { vectored(true, fd, iov, count) }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const IoVec, count: c_int) -> isize {
    unsafe { vectored(false, fd, iov, count) }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: usize, off: i64) -> isize {
    let mut n = n;
    if let Some(f) = tracked(fd) {
        match point(Kind::Read, f, n) {
            Decision::Ok => {}
            Decision::Short(s) => n = s,
            Decision::Fail(e) => return errno(e),
        }
    }
    unsafe { ret(sys(17, [fd as usize, buf as usize, n, off as usize, 0, 0])) }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    let mut n = n;
    if let Some(f) = tracked(fd) {
        match point(Kind::Write, f, n) {
            Decision::Ok => {}
            Decision::Short(s) => n = s,
            Decision::Fail(e) => return errno(e),
        }
    }
    unsafe { ret(sys(18, [fd as usize, buf as usize, n, off as usize, 0, 0])) }
}

/// Not offered: std falls back to read and write.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn copy_file_range(
    _: c_int, _: *mut i64, _: c_int, _: *mut i64, _: usize, _: c_uint,
) -> isize {
    errno(38)
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn sendfile64(_: c_int, _: c_int, _: *mut i64, _: usize) -> isize {
    errno(38)
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn splice(
    _: c_int, _: *mut i64, _: c_int, _: *mut i64, _: usize, _: c_uint,
) -> isize {
    errno(38)
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    if let Some(f) = tracked(fd) {
        if let Decision::Fail(e) = point(Kind::Seek, f, 0) {
            return errno(e) as i64;
        }
    }
    unsafe { ret(sys(8, [fd as usize, off as usize, whence as usize, 0, 0, 0])) as i64 }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn lseek(fd: c_int, off: i64, whence: c_int) -> i64 {
    unsafe { lseek64(fd, off, whence) }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn statx(
    dir: c_int, path: *const c_char, flags: c_int, mask: c_uint, out: *mut c_void,
) -> c_int {
    unsafe {
        let named = !path.is_null() && *path != 0;
        let file = if named {
            below(path).then_some(u32::MAX - 1)
        } else {
            tracked(dir)
        };
        if let Some(f) = file {
            if let Decision::Fail(e) = point(Kind::Stat, f, 0) {
                return errno(e) as c_int;
            }
        }
        ret(sys(332, [dir as usize, path as usize, flags as usize, mask as usize, out as usize, 0])) as c_int
    }
}

unsafe fn stat_fd(fd: c_int, out: *mut c_void) -> c_int {
    if let Some(f) = tracked(fd) {
        if let Decision::Fail(e) = point(Kind::Stat, f, 0) {
            return errno(e) as c_int;
        }
    }
    unsafe { ret(sys(5, [fd as usize, out as usize, 0, 0, 0, 0])) as c_int }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn fstat64(fd: c_int, out: *mut c_void) -> c_int {
    unsafe { stat_fd(fd, out) }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn fstat(fd: c_int, out: *mut c_void) -> c_int {
    unsafe { stat_fd(fd, out) }
}

unsafe fn stat_path(path: *const c_char, out: *mut c_void) -> c_int {
    unsafe {
        if below(path) {
            if let Decision::Fail(e) = point(Kind::Stat, u32::MAX - 1, 0) {
                return errno(e) as c_int;
            }
        }
        ret(sys(4, [path as usize, out as usize, 0, 0, 0, 0])) as c_int
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn stat64(path: *const c_char, out: *mut c_void) -> c_int {
    unsafe { stat_path(path, out) }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn stat(path: *const c_char, out: *mut c_void) -> c_int {
    unsafe { stat_path(path, out) }
}

/// std asks the kernel directly: syscall(SYS_getrandom, ...) or getrandom().
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: usize, flags: c_uint) -> isize {
    let Some(c) = config() else {
        return unsafe { ret(sys(318, [buf as usize, n, flags as usize, 0, 0, 0])) };
    };
    for i in 0..n {
        let k = RND.fetch_add(1, Ordering::SeqCst);
        let mut z = c.seed ^ k.wrapping_mul(0x9e37_79b9_7f4a_7c15);
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        unsafe { *(buf as *mut u8).add(i) = (z ^ (z >> 31)) as u8 };
    }
    let _: c_long = 0;
    n as isize
}
