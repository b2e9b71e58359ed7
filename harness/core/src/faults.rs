//! Faults of the file system: `read` and `write` of this process go through the functions below,
//! which let a chosen call fail, be interrupted or transfer less than asked for.
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    /// The call fails with this error-number (only once).
    Once(i32),
    /// This call and all later ones fail.
    From(i32),
    /// At most so many bytes are transferred per call.
    Short(usize),
}

const READ: usize = 0;
const WRITE: usize = 1;
#[derive(Clone, Copy, PartialEq)]
pub enum Op {
    Read = READ as isize,
    Write = WRITE as isize,
}

/// index of the call, which fails; -1: none
static AT: [AtomicI64; 2] = [AtomicI64::new(-1), AtomicI64::new(-1)];
/// error-number; negative: from now on; 0: short
static KIND: [AtomicI64; 2] = [AtomicI64::new(0), AtomicI64::new(0)];
static CALLS: [AtomicI64; 2] = [AtomicI64::new(0), AtomicI64::new(0)];
static FIRED: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];

/// None: call normally; Some(Err): fail; Some(Ok(n)): at most n bytes
fn decide(op: usize, fd: libc::c_int) -> Option<Result<usize, i32>> {
    if fd <= 2 {
        return None;
    }
    let i = CALLS[op].fetch_add(1, SeqCst);
    let at = AT[op].load(SeqCst);
    if at < 0 {
        return None;
    }
    let kind = KIND[op].load(SeqCst);
    if kind <= -1_000_000 {
        // short
        FIRED[op].fetch_add(1, SeqCst);
        return Some(Ok((-1_000_000 - kind + 1) as usize));
    }
    let fires = if kind < 0 { i >= at } else { i == at };
    if fires {
        FIRED[op].fetch_add(1, SeqCst);
        return Some(Err(kind.abs() as i32));
    }
    None
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: libc::c_int, buf: *const libc::c_void, n: libc::size_t) -> libc::ssize_t {
    match decide(WRITE, fd) {
        Some(Err(e)) => {
            *libc::__errno_location() = e;
            -1
        }
        Some(Ok(k)) => libc::syscall(libc::SYS_write, fd, buf, n.min(k)) as libc::ssize_t,
        None => libc::syscall(libc::SYS_write, fd, buf, n) as libc::ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: libc::c_int, buf: *mut libc::c_void, n: libc::size_t) -> libc::ssize_t {
    match decide(READ, fd) {
        Some(Err(e)) => {
            *libc::__errno_location() = e;
            -1
        }
        Some(Ok(k)) => libc::syscall(libc::SYS_read, fd, buf, n.min(k)) as libc::ssize_t,
        None => libc::syscall(libc::SYS_read, fd, buf, n) as libc::ssize_t,
    }
}

struct Reset(usize);
impl Drop for Reset {
    fn drop(&mut self) {
        AT[self.0].store(-1, SeqCst);
    }
}

/// Runs f with the fault and returns also how often it has happened.
pub fn with<T>(op: Op, at: usize, fault: Fault, f: impl FnOnce() -> T) -> (T, u64) {
    let op = op as usize;
    let kind = match fault {
        Fault::Once(e) => e as i64,
        Fault::From(e) => -(e as i64),
        Fault::Short(n) => -1_000_000 - (n as i64 - 1),
    };
    KIND[op].store(kind, SeqCst);
    CALLS[op].store(0, SeqCst);
    FIRED[op].store(0, SeqCst);
    AT[op].store(at as i64, SeqCst);
    let _reset = Reset(op);
    let t = f();
    (t, FIRED[op].load(SeqCst))
}

/// Runs f and returns also the number of its calls.
pub fn count<T>(op: Op, f: impl FnOnce() -> T) -> (T, usize) {
    let op = op as usize;
    CALLS[op].store(0, SeqCst);
    let t = f();
    (t, CALLS[op].load(SeqCst) as usize)
}

pub const ERRORS: [i32; 4] = [libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EPIPE];
