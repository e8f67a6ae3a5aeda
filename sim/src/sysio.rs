//! The process boundary: system calls that library code might make are
//! intercepted here (symbol interposition inside this one binary), counted, and
//! answered by the simulator while a fault mode is on.

use crate::alloc::in_lib;
use std::cell::Cell;
use std::ffi::{c_char, c_int, c_long, c_void};
use std::sync::atomic::{AtomicUsize, Ordering};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    /// pass through
    Off,
    /// pretend every write succeeds
    Sink,
    /// EPIPE
    Broken,
    /// ENOSPC
    Full,
    /// EBADF, as after a close
    Closed,
    /// first EINTR, then one byte at a time
    Ragged,
}

thread_local! {
    static MODE: Cell<Mode> = const { Cell::new(Mode::Off) };
    static WRITES: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static OPENS: Cell<u64> = const { Cell::new(0) };
    static CLOCKS: Cell<u64> = const { Cell::new(0) };
    static ENVS: Cell<u64> = const { Cell::new(0) };
    static OTHERS: Cell<u64> = const { Cell::new(0) };
    static LAST: Cell<&'static str> = const { Cell::new("") };
    static MARKED: Cell<bool> = const { Cell::new(false) };
    static FIRED: Cell<u64> = const { Cell::new(0) };
    static SKEW: Cell<i64> = const { Cell::new(0) };
    static TICK: Cell<u64> = const { Cell::new(0) };
}

extern "C" {
    fn syscall(num: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
}

const SYS_WRITE: c_long = 1;
const SYS_WRITEV: c_long = 20;
const SYS_OPENAT: c_long = 257;
const SYS_CLOCK_GETTIME: c_long = 228;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Counts {
    pub writes: u64,
    pub bytes: u64,
    pub opens: u64,
    pub clocks: u64,
    pub envs: u64,
    pub others: u64,
    pub fired: u64,
}

pub fn set(mode: Mode, skew: i64) {
    MODE.with(|c| c.set(mode));
    SKEW.with(|c| c.set(skew));
    TICK.with(|c| c.set(0));
}

pub fn counts() -> Counts {
    Counts {
        writes: WRITES.with(|c| c.get()),
        bytes: BYTES.with(|c| c.get()),
        opens: OPENS.with(|c| c.get()),
        clocks: CLOCKS.with(|c| c.get()),
        envs: ENVS.with(|c| c.get()),
        others: OTHERS.with(|c| c.get()),
        fired: FIRED.with(|c| c.get()),
    }
}

/// The call that was last counted among the others.
pub fn last() -> &'static str {
    LAST.with(|c| c.get())
}

/// What the simulator panics with to see whether its panic hook is still in place.
pub struct Marker;

pub fn mark() {
    MARKED.with(|c| c.set(true));
}

pub fn hook_in_place() -> bool {
    MARKED.with(|c| c.set(false));
    let _ = std::panic::catch_unwind(|| std::panic::panic_any(Marker));
    MARKED.with(|c| c.get())
}

/// What library code left in standard output's buffer counts as its own writing.
pub fn flush_as_library() {
    use std::io::Write;
    let _s = crate::alloc::Scope::lib();
    let _ = std::io::stdout().flush();
}

fn bump(k: &'static std::thread::LocalKey<Cell<u64>>, n: u64) {
    k.with(|c| c.set(c.get() + n));
}

fn fail(errno: c_int) -> isize {
    bump(&FIRED, 1);
    unsafe { *__errno_location() = errno };
    -1
}

fn answer(len: usize) -> Option<isize> {
    if !in_lib() {
        return None;
    }
    bump(&WRITES, 1);
    bump(&BYTES, len as u64);
    match MODE.with(|c| c.get()) {
        Mode::Off => None,
        Mode::Sink => Some(len as isize),
        Mode::Broken => Some(fail(32)),
        Mode::Full => Some(fail(28)),
        Mode::Closed => Some(fail(9)),
        Mode::Ragged => {
            let t = TICK.with(|c| c.replace(c.get() + 1));
            if t % 2 == 0 {
                Some(fail(4))
            } else {
                bump(&FIRED, 1);
                Some(len.min(1) as isize)
            }
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    match answer(n) {
        Some(r) => r,
        None => syscall(SYS_WRITE, fd as c_long, buf, n) as isize,
    }
}

#[repr(C)]
pub struct IoVec {
    base: *const c_void,
    len: usize,
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const IoVec, cnt: c_int) -> isize {
    let mut n = 0;
    for i in 0..cnt as usize {
        n += (*iov.add(i)).len;
    }
    match answer(n) {
        Some(r) => r,
        None => syscall(SYS_WRITEV, fd as c_long, iov, cnt as c_long) as isize,
    }
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if in_lib() {
        bump(&OPENS, 1);
        if MODE.with(|c| c.get()) != Mode::Off {
            return fail(2) as c_int;
        }
    }
    syscall(SYS_OPENAT, -100 as c_long, path, flags as c_long, mode as c_long) as c_int
}

extern "C" {
    static environ: *const *const c_char;
}

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *const c_char {
    if in_lib() {
        bump(&ENVS, 1);
    }
    let name = std::ffi::CStr::from_ptr(name).to_bytes();
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let s = std::ffi::CStr::from_ptr(*e).to_bytes();
        if s.len() > name.len() && s[name.len()] == b'=' && s.starts_with(name) {
            return (*e).add(name.len() + 1);
        }
        e = e.add(1);
    }
    std::ptr::null()
}

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

/// Processor time of this process in ms.
pub fn cpu_ms() -> u64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    unsafe { syscall(SYS_CLOCK_GETTIME, 2 as c_long, &mut t as *mut Timespec) };
    t.sec as u64 * 1000 + t.nsec as u64 / 1_000_000
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut Timespec) -> c_int {
    let r = syscall(SYS_CLOCK_GETTIME, clk as c_long, ts) as c_int;
    if in_lib() && r == 0 {
        bump(&CLOCKS, 1);
        if SKEW.with(|c| c.get()) != 0 {
            // jumps and runs backwards
            let t = TICK.with(|c| c.replace(c.get() + 1)) as i64;
            (*ts).sec = 1_000_000_000 + SKEW.with(|c| c.get()) - 7 * t;
            (*ts).nsec = (t * 7919) % 1_000_000_000;
        }
    }
    r
}

extern "C" {
    fn dlsym(handle: *mut c_void, name: *const c_char) -> *mut c_void;
}

const NEXT: *mut c_void = -1isize as *mut c_void;

/// Calls a computing library has no business with: counted and refused when
/// the library makes them, passed on otherwise.
macro_rules! refuse {
    ($($name:ident($($a:ident: $t:ty),*) -> $r:ty = $answer:expr;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> $r {
            if in_lib() {
                bump(&OTHERS, 1);
                LAST.with(|c| c.set(stringify!($name)));
                return $answer;
            }
            static REAL: AtomicUsize = AtomicUsize::new(0);
            let mut f = REAL.load(Ordering::Relaxed);
            if f == 0 {
                f = dlsym(NEXT, concat!(stringify!($name), "\0").as_ptr() as *const c_char) as usize;
                REAL.store(f, Ordering::Relaxed);
            }
            let f: unsafe extern "C" fn($($t),*) -> $r = std::mem::transmute(f);
            f($($a),*)
        }
    )*};
}

type P = *mut c_void;

refuse! {
    read(fd: c_int, buf: P, n: usize) -> isize = fail(9);
    close(fd: c_int) -> c_int = fail(9) as c_int;
    dup2(a: c_int, b: c_int) -> c_int = fail(9) as c_int;
    pipe2(a: P, b: c_int) -> c_int = fail(24) as c_int;
    socket(a: c_int, b: c_int, c: c_int) -> c_int = fail(13) as c_int;
    socketpair(a: c_int, b: c_int, c: c_int, d: P) -> c_int = fail(13) as c_int;
    unlink(a: P) -> c_int = fail(13) as c_int;
    rmdir(a: P) -> c_int = fail(13) as c_int;
    mkdir(a: P, b: c_int) -> c_int = fail(13) as c_int;
    rename(a: P, b: P) -> c_int = fail(13) as c_int;
    chmod(a: P, b: c_int) -> c_int = fail(13) as c_int;
    chdir(a: P) -> c_int = fail(13) as c_int;
    symlink(a: P, b: P) -> c_int = fail(13) as c_int;
    statx(a: c_int, b: P, c: c_int, d: u32, e: P) -> c_int = fail(2) as c_int;
    stat64(a: P, b: P) -> c_int = fail(2) as c_int;
    lstat64(a: P, b: P) -> c_int = fail(2) as c_int;
    opendir(a: P) -> P = { fail(2); std::ptr::null_mut() };
    getcwd(a: P, b: usize) -> P = { fail(2); std::ptr::null_mut() };
    isatty(fd: c_int) -> c_int = { fail(25); 0 };
    setenv(a: P, b: P, c: c_int) -> c_int = fail(12) as c_int;
    unsetenv(a: P) -> c_int = fail(22) as c_int;
    fork() -> c_int = fail(11) as c_int;
    execvp(a: P, b: P) -> c_int = fail(2) as c_int;
    posix_spawnp(a: P, b: P, c: P, d: P, e: P, f: P) -> c_int = 11;
    kill(a: c_int, b: c_int) -> c_int = fail(1) as c_int;
    raise(a: c_int) -> c_int = fail(1) as c_int;
    sigaction(a: c_int, b: P, c: P) -> c_int = fail(22) as c_int;
    signal(a: c_int, b: P) -> P = { fail(22); NEXT };
    pthread_create(a: P, b: P, c: P, d: P) -> c_int = 11;
    nanosleep(a: P, b: P) -> c_int = 0;
    clock_nanosleep(a: c_int, b: c_int, c: P, d: P) -> c_int = 0;
    sched_yield() -> c_int = 0;
    getpid() -> c_int = 1;
}
