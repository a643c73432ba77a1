//! Stand-ins for the output calls of libc: they record what the code under
//! test does and inject faults, on threads that asked for it
use std::cell::Cell;
use std::ffi::c_void;
use std::ptr;

extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn __errno_location() -> *mut i32;
}

pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const ENOSPC: i32 = 28;
pub const EFBIG: i32 = 27;
pub const EDQUOT: i32 = 122;

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    None,
    /// every write accepts at most that many bytes
    Short(usize),
    /// every n-th write is interrupted before anything was written
    Eintr(u64),
    /// both, varying
    Mixed(u64),
    /// from the k-th write on everything fails
    FailFrom(u64, i32),
    /// only the k-th write fails
    FailOnce(u64, i32),
    /// the file may not become longer, the last write is cut
    Limit(u64, i32),
    /// the process dies in the k-th write, of which so many bytes are done
    Kill(u64, usize),
    /// every write takes so many milliseconds
    Slow(u64),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Event {
    /// descriptor, position before, bytes accepted
    Write(i32, i64, usize),
    Error(i32),
    Seek(i32, i64, i32),
    Truncate(i32, i64),
    PWrite(i32, i64, usize),
    Rename,
}

pub struct Plan {
    pub fault: Fault,
    pub record: bool,
    pub calls: u64,
    pub accepted: u64,
    pub errors: u64,
    pub interrupted: u64,
    pub shortened: u64,
    pub events: Vec<Event>,
}

thread_local! {
    static PLAN: Cell<*mut Plan> = const { Cell::new(ptr::null_mut()) };
}

/// Runs f with the plan active on this thread
pub fn with<T>(fault: Fault, record: bool, f: impl FnOnce() -> T) -> (T, Plan) {
    let mut p = Box::new(Plan {
        fault,
        record,
        calls: 0,
        accepted: 0,
        errors: 0,
        interrupted: 0,
        shortened: 0,
        events: vec![],
    });
    PLAN.with(|c| c.set(&mut *p));
    let r = f();
    PLAN.with(|c| c.set(ptr::null_mut()));
    (r, *p)
}

fn plan() -> Option<&'static mut Plan> {
    let p = PLAN.try_with(|c| c.get()).unwrap_or(ptr::null_mut());
    if p.is_null() {
        None
    } else {
        Some(unsafe { &mut *p })
    }
}

unsafe fn fail(p: &mut Plan, e: i32) -> isize {
    if e == EINTR {
        p.interrupted += 1;
    } else {
        p.errors += 1;
    }
    if p.record {
        PLAN.with(|c| c.set(ptr::null_mut()));
        p.events.push(Event::Error(e));
        PLAN.with(|c| c.set(p));
    }
    *__errno_location() = e;
    -1
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const c_void, n: usize) -> isize {
    let p = match plan() {
        Some(p) if fd > 2 => p,
        _ => return syscall(1, fd as i64, buf, n) as isize,
    };
    p.calls += 1;
    let mut n2 = n;
    match p.fault {
        Fault::None => {}
        Fault::Short(m) => n2 = n.min(m.max(1)),
        Fault::Eintr(k) => {
            if p.calls % k == 0 {
                return fail(p, EINTR);
            }
        }
        Fault::Mixed(s) => {
            let mut x = (p.calls ^ s).wrapping_mul(0x9E3779B97F4A7C15);
            x ^= x >> 29;
            x = x.wrapping_mul(0xBF58476D1CE4E5B9);
            x ^= x >> 32;
            match x % 4 {
                0 => return fail(p, EINTR),
                1 => n2 = n.min(1 + (x >> 8) as usize % 7),
                _ => {}
            }
        }
        Fault::FailFrom(k, e) => {
            if p.calls > k {
                return fail(p, e);
            }
        }
        Fault::FailOnce(k, e) => {
            if p.calls == k + 1 {
                return fail(p, e);
            }
        }
        Fault::Limit(l, e) => {
            let left = l.saturating_sub(p.accepted);
            if left == 0 && n > 0 {
                return fail(p, e);
            }
            n2 = n.min(left as usize);
        }
        Fault::Kill(k, m) => {
            if p.calls == k + 1 {
                syscall(1, fd as i64, buf, n.min(m));
                let me = syscall(39);
                syscall(62, me, 9i64);
            }
        }
        Fault::Slow(ms) => std::thread::sleep(std::time::Duration::from_millis(ms)),
    }
    if n2 < n {
        p.shortened += 1;
    }
    let pos = if p.record {
        syscall(8, fd as i64, 0i64, 1i64)
    } else {
        0
    };
    let r = syscall(1, fd as i64, buf, n2) as isize;
    if r > 0 {
        p.accepted += r as u64;
    }
    if p.record {
        let e = Event::Write(fd, pos, r.max(0) as usize);
        p.events.push(e);
    }
    r
}

#[repr(C)]
pub struct IoVec {
    base: *const c_void,
    len: usize,
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const IoVec, n: i32) -> isize {
    if plan().is_none() || fd <= 2 {
        return syscall(20, fd as i64, iov, n as i64) as isize;
    }
    // the first non-empty part only: a legal partial write
    for i in 0..n as isize {
        let v = &*iov.offset(i);
        if v.len > 0 {
            return write(fd, v.base, v.len);
        }
    }
    0
}

unsafe fn note(e: Event) {
    if let Some(p) = plan() {
        if p.record {
            p.events.push(e);
        }
    }
}

unsafe fn pw(fd: i32, buf: *const c_void, n: usize, off: i64) -> isize {
    if fd > 2 {
        note(Event::PWrite(fd, off, n));
    }
    syscall(18, fd as i64, buf, n, off) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, buf: *const c_void, n: usize, off: i64) -> isize {
    pw(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: i32, buf: *const c_void, n: usize, off: i64) -> isize {
    pw(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, off: i64, how: i32) -> i64 {
    note(Event::Seek(fd, off, how));
    syscall(8, fd as i64, off, how as i64)
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: i32, off: i64, how: i32) -> i64 {
    lseek64(fd, off, how)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, len: i64) -> i32 {
    note(Event::Truncate(fd, len));
    syscall(77, fd as i64, len) as i32
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: i32, len: i64) -> i32 {
    ftruncate64(fd, len)
}
