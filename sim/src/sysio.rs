//! Interposition of libc symbols, so that the operating system backed streams of the code under
//! test (std::fs::File) run on the simulated disk, blocking synchronisation is decided by the
//! simulated scheduler, and hash map seeds come from the case's seed.
//! Outside simulated threads every call is passed through to the kernel.

use std::collections::BTreeMap;
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_long, c_uint, c_void};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};

use crate::env::{self, Decision, IN_SIM, IoKind};

pub const PREFIX: &str = "/simfs/";

#[inline]
pub unsafe fn raw_syscall(n: usize, a: [usize; 6]) -> isize {
    let r: isize;
    unsafe {
        std::arch::asm!(
            "syscall",
            inlateout("rax") n as isize => r,
            in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
            in("r10") a[3], in("r8") a[4], in("r9") a[5],
            lateout("rcx") _, lateout("r11") _,
            options(nostack)
        );
    }
    r
}

unsafe extern "C" {
    fn __errno_location() -> *mut c_int;
}

fn set_errno(e: i32) {
    unsafe { *__errno_location() = e }
}

fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

#[derive(Clone, Copy)]
struct Fd {
    file: usize,
    pos: u64,
    append: bool,
}

static FDS: Mutex<BTreeMap<c_int, Fd>> = Mutex::new(BTreeMap::new());
static RND: AtomicU64 = AtomicU64::new(0);

const EINTR: i32 = 4;
const EIO: i32 = 5;
const ENOENT: i32 = 2;
const ENOSPC: i32 = 28;
const EINVAL: i32 = 22;

fn in_sim() -> bool {
    IN_SIM.with(|c| c.get())
}

fn fd_get(fd: c_int) -> Option<Fd> {
    if !in_sim() {
        return None;
    }
    FDS.lock().ok()?.get(&fd).copied()
}

pub fn reset() {
    let fds: Vec<c_int> = match FDS.lock() {
        Ok(mut g) => {
            let v = g.keys().copied().collect();
            g.clear();
            v
        }
        Err(_) => Vec::new(),
    };
    for fd in fds {
        unsafe { raw_syscall(3, [fd as usize, 0, 0, 0, 0, 0]) };
    }
    RND.store(0, Ordering::SeqCst);
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if in_sim() {
        let p = unsafe { CStr::from_ptr(path) }.to_string_lossy().to_string();
        if let Some(name) = p.strip_prefix(PREFIX) {
            let create = flags & 0o100 != 0;
            let trunc = flags & 0o1000 != 0;
            let mut id = env::file_id(name);
            match env::sys_point(IoKind::Open, id.unwrap_or(usize::MAX >> 1), 0, 0) {
                Decision::Err => {
                    set_errno(EIO);
                    return -1;
                }
                Decision::Eintr => {
                    set_errno(EINTR);
                    return -1;
                }
                _ => {}
            }
            if id.is_none() && create {
                id = Some(env::add_file(name, crate::data::Data::new(0)));
            }
            let file = match id {
                Some(f) => f,
                None => {
                    set_errno(ENOENT);
                    return -1;
                }
            };
            if trunc {
                env::with(|e| e.files[file].data = crate::data::Data::new(0));
            }
            let fd =
                unsafe { raw_syscall(2, [c"/dev/null".as_ptr() as usize, 0o2000000, 0, 0, 0, 0]) };
            if fd < 0 {
                return ret(fd) as c_int;
            }
            if let Ok(mut g) = FDS.lock() {
                g.insert(
                    fd as c_int,
                    Fd {
                        file,
                        pos: 0,
                        append: flags & 0o2000 != 0,
                    },
                );
            }
            return fd as c_int;
        }
    }
    ret(unsafe {
        raw_syscall(
            257,
            [-100isize as usize, path as usize, flags as usize, mode as usize, 0, 0],
        )
    }) as c_int
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if in_sim() {
        if let Ok(mut g) = FDS.lock() {
            g.remove(&fd);
        }
    }
    ret(unsafe { raw_syscall(3, [fd as usize, 0, 0, 0, 0, 0]) }) as c_int
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, count: usize) -> isize {
    if let Some(f) = fd_get(fd) {
        let size = env::file_size(f.file);
        let mut n = if f.pos >= size {
            0
        } else {
            (count as u64).min(size - f.pos) as usize
        };
        match env::sys_point(IoKind::Read, f.file, f.pos, n) {
            Decision::Err | Decision::NoSpace => {
                set_errno(EIO);
                return -1;
            }
            Decision::Eintr => {
                set_errno(EINTR);
                return -1;
            }
            Decision::Short(k) => n = n.min(k),
            Decision::Ok => {}
        }
        let b = unsafe { std::slice::from_raw_parts_mut(buf as *mut u8, n) };
        env::with(|e| e.files[f.file].data.read(f.pos, b));
        if let Ok(mut g) = FDS.lock() {
            if let Some(x) = g.get_mut(&fd) {
                x.pos += n as u64;
            }
        }
        return n as isize;
    }
    ret(unsafe { raw_syscall(0, [fd as usize, buf as usize, count, 0, 0, 0]) })
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, count: usize) -> isize {
    if let Some(f) = fd_get(fd) {
        let mut n = count;
        match env::sys_point(IoKind::Write, f.file, f.pos, n) {
            Decision::Err => {
                set_errno(EIO);
                return -1;
            }
            Decision::NoSpace => {
                set_errno(ENOSPC);
                return -1;
            }
            Decision::Eintr => {
                set_errno(EINTR);
                return -1;
            }
            Decision::Short(k) => n = n.min(k),
            Decision::Ok => {}
        }
        let b = unsafe { std::slice::from_raw_parts(buf as *const u8, n) };
        let pos = env::with(|e| {
            let d = &mut e.files[f.file].data;
            let pos = if f.append { d.size } else { f.pos };
            d.write(pos, b);
            pos
        });
        if let Ok(mut g) = FDS.lock() {
            if let Some(x) = g.get_mut(&fd) {
                x.pos = pos + n as u64;
            }
        }
        return n as isize;
    }
    ret(unsafe { raw_syscall(1, [fd as usize, buf as usize, count, 0, 0, 0]) })
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    if let Some(f) = fd_get(fd) {
        if let Decision::Err = env::sys_point(IoKind::Seek, f.file, 0, 0) {
            set_errno(EIO);
            return -1;
        }
        let base: i128 = match whence {
            0 => off as i128,
            1 => f.pos as i128 + off as i128,
            2 => env::file_size(f.file) as i128 + off as i128,
            _ => -1,
        };
        if base < 0 || base > i64::MAX as i128 {
            set_errno(EINVAL);
            return -1;
        }
        if let Ok(mut g) = FDS.lock() {
            if let Some(x) = g.get_mut(&fd) {
                x.pos = base as u64;
            }
        }
        return base as i64;
    }
    ret(unsafe { raw_syscall(8, [fd as usize, off as usize, whence as usize, 0, 0, 0]) }) as i64
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn lseek(fd: c_int, off: i64, whence: c_int) -> i64 {
    unsafe { lseek64(fd, off, whence) }
}

fn fill_statx(buf: *mut u8, size: u64) {
    // struct statx: 256 bytes; stx_mask u32 @0, stx_blksize @4, stx_mode u16 @28, stx_size u64 @40
    unsafe {
        std::ptr::write_bytes(buf, 0, 256);
        (buf as *mut u32).write_unaligned(0x7ff);
        (buf.add(4) as *mut u32).write_unaligned(4096);
        (buf.add(16) as *mut u32).write_unaligned(1);
        (buf.add(28) as *mut u16).write_unaligned(0o100644);
        (buf.add(40) as *mut u64).write_unaligned(size);
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn statx(
    dirfd: c_int,
    path: *const c_char,
    flags: c_int,
    mask: c_uint,
    buf: *mut c_void,
) -> c_int {
    if in_sim() && !buf.is_null() {
        let p = if path.is_null() {
            String::new()
        } else {
            unsafe { CStr::from_ptr(path) }.to_string_lossy().to_string()
        };
        let target: Option<Option<usize>> = if p.is_empty() {
            fd_get(dirfd).map(|f| Some(f.file))
        } else {
            p.strip_prefix(PREFIX).map(env::file_id)
        };
        if let Some(t) = target {
            if let Decision::Err = env::sys_point(IoKind::Size, t.unwrap_or(usize::MAX >> 1), 0, 0) {
                set_errno(EIO);
                return -1;
            }
            return match t {
                Some(id) => {
                    fill_statx(buf as *mut u8, env::file_size(id));
                    0
                }
                None => {
                    set_errno(ENOENT);
                    -1
                }
            };
        }
    }
    ret(unsafe {
        raw_syscall(
            332,
            [dirfd as usize, path as usize, flags as usize, mask as usize, buf as usize, 0],
        )
    }) as c_int
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn fstat64(fd: c_int, buf: *mut c_void) -> c_int {
    if let Some(f) = fd_get(fd) {
        if let Decision::Err = env::sys_point(IoKind::Size, f.file, 0, 0) {
            set_errno(EIO);
            return -1;
        }
        // struct stat x86_64: st_mode u32 @24, st_size i64 @48; 144 bytes
        unsafe {
            std::ptr::write_bytes(buf as *mut u8, 0, 144);
            ((buf as *mut u8).add(24) as *mut u32).write_unaligned(0o100644);
            ((buf as *mut u8).add(48) as *mut u64).write_unaligned(env::file_size(f.file));
        }
        return 0;
    }
    ret(unsafe { raw_syscall(5, [fd as usize, buf as usize, 0, 0, 0, 0]) }) as c_int
}

/// Hash map seeds: a function of the case's seed inside simulated threads, fixed elsewhere.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, _flags: c_uint) -> isize {
    let seed = if in_sim() {
        env::RANDOM_SEED.load(Ordering::SeqCst)
    } else {
        0x5eed
    };
    let k = RND.fetch_add(1, Ordering::SeqCst);
    let mut r = crate::rng::Rng::new(seed ^ (k << 32));
    let b = unsafe { std::slice::from_raw_parts_mut(buf as *mut u8, len) };
    r.fill(b);
    len as isize
}

/// libc's syscall(2) wrapper: std's futex operations come through here.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn syscall(
    n: c_long,
    a: usize,
    b: usize,
    c: usize,
    d: usize,
    e: usize,
    f: usize,
) -> c_long {
    if n == 202 && crate::sched::is_sim_actor() {
        let cmd = b & 0x7f;
        match cmd {
            // FUTEX_WAIT, FUTEX_WAIT_BITSET
            0 | 9 => {
                let cur = unsafe { (*(a as *const std::sync::atomic::AtomicU32)).load(Ordering::SeqCst) };
                if cur != c as u32 {
                    set_errno(11);
                    return -1;
                }
                crate::sched::sim_futex_wait(a);
                return 0;
            }
            // FUTEX_WAKE, FUTEX_WAKE_BITSET
            1 | 10 => {
                return crate::sched::sim_futex_wake(a, c) as c_long;
            }
            _ => {}
        }
    }
    if n == 318 {
        return unsafe { getrandom(a as *mut c_void, b, c as c_uint) as c_long };
    }
    ret(unsafe { raw_syscall(n as usize, [a, b, c, d, e, f]) }) as c_long
}
