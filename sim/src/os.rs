//! The seam: libc symbols the Rust standard library and the dependencies call, defined here.
//! On a simulated thread they act on the simulated machine, elsewhere on the kernel.
use crate::sched::{How, Sched};
use crate::world::{Meta, World, FD0};
use libc::{c_char, c_int, c_long, c_uint, c_void, mode_t, off64_t, size_t, ssize_t};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::ffi::CStr;
use std::sync::{Arc, Mutex, OnceLock};

pub struct Shared {
    pub w: Mutex<World>,
    pub sched: OnceLock<Sched>,
    /// threads the code under test started: handle, number
    pub threads: Mutex<Vec<(libc::pthread_t, usize)>>,
}

thread_local! {
    static CTX: Cell<*const Shared> = const { Cell::new(std::ptr::null()) };
    static TID: Cell<usize> = const { Cell::new(0) };
    static IN: Cell<u32> = const { Cell::new(0) };
    static STDERR: Cell<bool> = const { Cell::new(false) };
    static FINE: Cell<bool> = const { Cell::new(false) };
    static METER: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<*const Cell<i64>> = const { Cell::new(std::ptr::null()) };
}

/// Calls a run may make before it counts as running away: without progress, and at all
pub const IDLE_BUDGET: u64 = 3_000_000;
pub const CALL_BUDGET: u64 = 60_000_000;

pub fn enter(s: &Arc<Shared>, tid: usize) {
    TID.with(|t| t.set(tid));
    CTX.with(|c| c.set(Arc::as_ptr(s)));
}
pub fn leave() {
    CTX.with(|c| c.set(std::ptr::null()));
}
/// let writes to stderr through (forked children)
pub fn pass_stderr(v: bool) {
    STDERR.with(|c| c.set(v));
}
pub fn stderr_passes() -> bool {
    STDERR.with(|c| c.get())
}
pub fn active() -> bool {
    !CTX.with(|c| c.get()).is_null()
}

/// Run harness code on a simulated thread: system calls go to the kernel
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    IN.with(|i| i.set(i.get() + 1));
    let r = f();
    IN.with(|i| i.set(i.get() - 1));
    r
}

/// Access to the machine from harness code on a simulated thread
pub fn world<R>(f: impl FnOnce(&mut World) -> R) -> R {
    let c = CTX.with(|c| c.get());
    assert!(!c.is_null());
    outside(|| f(&mut unsafe { &*c }.w.lock().unwrap()))
}

fn ctx() -> Option<&'static Shared> {
    let c = CTX.with(|c| c.get());
    if c.is_null() || IN.with(|i| i.get()) > 0 {
        None
    } else {
        Some(unsafe { &*c })
    }
}

pub fn yield_now() {
    if let Some(s) = ctx() {
        if let Some(sch) = s.sched.get() {
            // waiting for the turn must not show
            let e = unsafe { *libc::__errno_location() };
            let _ = outside(|| sch.yield_point(TID.with(|t| t.get()), How::Call));
            set_errno(e);
        }
    }
}

/// From now on this simulated thread may be preempted wherever it allocates or frees memory
pub fn fine(v: bool) {
    FINE.with(|c| c.set(v));
}

/// Count what the code under test allocates and frees on this simulated thread
pub fn meter(v: bool) {
    if v && LIVE.with(|c| c.get()).is_null() {
        let at: &'static Cell<i64> = outside(|| Box::leak(Box::new(Cell::new(0))));
        LIVE.with(|c| c.set(at));
    }
    METER.with(|c| c.set(v));
}
pub fn live() -> i64 {
    unsafe { LIVE.with(|c| c.get()).as_ref() }.map_or(0, |c| c.get())
}
fn count(n: i64) {
    if METER.with(|c| c.get()) && ctx().is_some() {
        // one thread at a time runs
        let c = unsafe { &*LIVE.with(|c| c.get()) };
        c.set(c.get() + n);
    }
}

fn memory_point() {
    if FINE.with(|c| c.get()) {
        if let Some(s) = ctx() {
            if let Some(sch) = s.sched.get() {
                // waiting for the turn must not show
                let e = unsafe { *libc::__errno_location() };
                let _ = outside(|| sch.yield_point(TID.with(|t| t.get()), How::Memory));
                set_errno(e);
            }
        }
    }
}

/// The allocator of the process: the system's, with preemption points
pub struct Preempting;
unsafe impl GlobalAlloc for Preempting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        memory_point();
        count(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        memory_point();
        count(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        memory_point();
        count(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        memory_point();
        count(-(l.size() as i64));
        System.dealloc(p, l)
    }
}

fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}

/// park this thread for ever; the controller reports the run
fn never_ends() -> ! {
    crate::exec::report_runaway();
    loop {
        std::thread::park();
    }
}

/// would block: let another simulated thread run, then look again
fn blocked(sch: &Sched) {
    outside(|| {
        if !sch.yield_point(TID.with(|t| t.get()), How::Blocked) {
            never_ends();
        }
    });
}

/// waits for at most some time; nobody else to wait for: until then
unsafe fn timed(s: &'static Shared, sch: &Sched, absolute: bool, real: bool, t: &libc::timespec) -> c_long {
    let t = t.tv_sec.saturating_mul(1_000_000_000).saturating_add(t.tv_nsec);
    let tid = TID.with(|t| t.get());
    let over = outside(|| {
        let alone = sch.alone(tid);
        let mut w = s.w.lock().unwrap();
        let now = if real { w.now } else { w.monotonic() };
        let end = if absolute { t } else { now.saturating_add(t) };
        let to = if alone { end } else { end.min(now + 100_000) };
        if to > now {
            w.pass((to - now) as u64);
        }
        drop(w);
        let _ = sch.yield_point(tid, How::Sleeping);
        alone
    });
    if over {
        set_errno(libc::ETIMEDOUT);
        return -1;
    }
    0
}

struct Child {
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
    sh: Arc<Shared>,
    tid: usize,
    live: *const Cell<i64>,
    meter: bool,
    report: Option<std::sync::mpsc::Sender<crate::exec::Msg>>,
}
extern "C" fn child(p: *mut c_void) -> *mut c_void {
    let c = unsafe { Box::from_raw(p as *mut Child) };
    crate::exec::set_reporter(c.report.clone());
    let sch = c.sh.sched.get().unwrap();
    sch.start(c.tid);
    LIVE.with(|l| l.set(c.live));
    METER.with(|m| m.set(c.meter));
    FINE.with(|f| f.set(true));
    enter(&c.sh, c.tid);
    let r = (c.f)(c.arg);
    leave();
    sch.exit(c.tid);
    r
}
type Create = unsafe extern "C" fn(*mut libc::pthread_t, *const c_void, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int;
type Join = unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int;
unsafe fn real(name: &'static std::ffi::CStr) -> *mut c_void {
    outside(|| libc::dlsym(libc::RTLD_NEXT, name.as_ptr()))
}
/// a thread the code under test starts is a simulated one
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, a: *const c_void, f: extern "C" fn(*mut c_void) -> *mut c_void, arg: *mut c_void) -> c_int {
    let create: Create = std::mem::transmute(real(c"pthread_create"));
    let s = match ctx() {
        Some(s) => s,
        None => return create(t, a, f, arg),
    };
    outside(|| {
        let sch = s.sched.get_or_init(|| {
            let seed = s.w.lock().unwrap().env.hash_seed ^ 0x7ead;
            Sched::new(1, crate::sched::Schedule::Random { seed, pm: 200, fine: 300 })
        });
        FINE.with(|f| f.set(true));
        s.w.lock().unwrap().fire("thread started by the library");
        let tid = match sch.add() {
            Some(t) => t,
            None => return libc::EAGAIN,
        };
        Arc::increment_strong_count(s as *const Shared);
        let c = Box::new(Child {
            f,
            arg,
            sh: Arc::from_raw(s as *const Shared),
            tid,
            live: LIVE.with(|l| l.get()),
            meter: METER.with(|m| m.get()),
            report: crate::exec::reporter(),
        });
        let r = create(t, a, child, Box::into_raw(c) as *mut c_void);
        if r != 0 {
            sch.forget(tid);
        } else {
            let mut v = s.threads.lock().unwrap();
            v.retain(|x| x.1 != tid && x.0 != *t);
            v.push((*t, tid));
        }
        r
    })
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, out: *mut *mut c_void) -> c_int {
    if let Some(s) = ctx() {
        if let Some(sch) = s.sched.get() {
            let tid = outside(|| s.threads.lock().unwrap().iter().find(|x| x.0 == t).map(|x| x.1));
            while tid.is_some_and(|t| outside(|| sch.alive(t))) {
                blocked(sch);
            }
        }
    }
    let join: Join = std::mem::transmute(real(c"pthread_join"));
    join(t, out)
}
/// how many processors there are is a matter of the seed
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, n: size_t, set: *mut libc::cpu_set_t) -> c_int {
    match ctx() {
        Some(s) => {
            let k = outside(|| s.w.lock().unwrap().env.hash_seed % 8 + 1);
            std::ptr::write_bytes(set as *mut u8, 0, n);
            *(set as *mut u8) = ((1u32 << k) - 1) as u8;
            0
        }
        None => {
            let r = raw(libc::SYS_sched_getaffinity, pid as usize, n, set as usize, 0, 0, 0);
            if r < 0 {
                return -1;
            }
            std::ptr::write_bytes((set as *mut u8).add(r as usize), 0, n - r as usize);
            0
        }
    }
}

/// storage call on the machine
fn call(s: &'static Shared, f: impl FnOnce(&mut World) -> Result<i64, i32>) -> i64 {
    yield_now();
    let r = outside(|| {
        let mut w = s.w.lock().unwrap();
        let r = f(&mut w);
        if matches!(r, Ok(n) if n > 0) {
            w.progress += 1;
        }
        if !w.runaway && (w.calls > IDLE_BUDGET + 4 * w.progress || w.calls > CALL_BUDGET) {
            w.runaway = true;
        }
        if w.runaway {
            drop(w);
            never_ends();
        }
        r
    });
    match r {
        Ok(v) => v,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

// ---- raw system calls ------------------------------------------------------------------

#[inline(always)]
unsafe fn raw6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    core::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
#[inline(always)]
fn raw(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r = unsafe { raw6(n, a, b, c, d, e, f) };
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

unsafe fn path<'a>(p: *const c_char) -> std::borrow::Cow<'a, str> {
    CStr::from_ptr(p).to_string_lossy()
}

fn sim_fd(fd: c_int) -> bool {
    fd >= FD0
}

/// a path given relative to an open directory
fn at_path(s: &'static Shared, d: c_int, q: String) -> String {
    if q.starts_with('/') || !sim_fd(d) {
        return q;
    }
    outside(|| match s.w.lock().unwrap().dir_path(d) {
        Ok(p) => format!("{}/{}", p, q),
        Err(_) => "/nowhere/at all".into(),
    })
}

// ---- files -------------------------------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    match ctx() {
        Some(s) => {
            let q = outside(|| path(p).into_owned());
            call(s, |w| w.open(&q, flags)) as c_int
        }
        None => raw(libc::SYS_open, p as usize, flags as usize, mode as usize, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open64(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    match ctx() {
        Some(s) => {
            let q = at_path(s, d, outside(|| path(p).into_owned()));
            call(s, |w| w.open(&q, flags)) as c_int
        }
        None => raw(libc::SYS_openat, d as usize, p as usize, flags as usize, mode as usize, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    match ctx() {
        Some(s) => {
            if !sim_fd(fd) {
                if fd == 2 && STDERR.with(|c| c.get()) {
                    return raw(libc::SYS_write, fd as usize, buf as usize, n, 0, 0, 0) as ssize_t;
                }
                return printed(s, n); // stdout / stderr of the code under test
            }
            let b = std::slice::from_raw_parts(buf as *const u8, n);
            call(s, |w| w.write(fd, b, None)) as ssize_t
        }
        None => raw(libc::SYS_write, fd as usize, buf as usize, n, 0, 0, 0) as ssize_t,
    }
}
/// what the code under test prints goes nowhere, or cannot be printed
fn printed(s: &'static Shared, n: usize) -> ssize_t {
    let e = outside(|| {
        let mut w = s.w.lock().unwrap();
        if w.env.console != 0 {
            w.fire("standard output fails");
        }
        w.env.console
    });
    if e != 0 {
        set_errno(e);
        return -1;
    }
    n as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    match ctx() {
        Some(s) => {
            let v = std::slice::from_raw_parts(iov, cnt as usize);
            let mut b = outside(Vec::new);
            for i in v {
                b.extend_from_slice(std::slice::from_raw_parts(i.iov_base as *const u8, i.iov_len));
            }
            if !sim_fd(fd) {
                if fd == 2 && STDERR.with(|c| c.get()) {
                    return raw(libc::SYS_writev, fd as usize, iov as usize, cnt as usize, 0, 0, 0) as ssize_t;
                }
                return printed(s, b.len());
            }
            call(s, |w| w.write(fd, &b, None)) as ssize_t
        }
        None => raw(libc::SYS_writev, fd as usize, iov as usize, cnt as usize, 0, 0, 0) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    match ctx() {
        Some(s) => {
            let b = std::slice::from_raw_parts(buf as *const u8, n);
            call(s, |w| w.write(fd, b, Some(off as u64))) as ssize_t
        }
        None => raw(libc::SYS_pwrite64, fd as usize, buf as usize, n, off as usize, 0, 0) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    match ctx() {
        Some(s) if sim_fd(fd) => {
            let b = std::slice::from_raw_parts_mut(buf as *mut u8, n);
            call(s, |w| w.read(fd, b, None)) as ssize_t
        }
        _ => raw(libc::SYS_read, fd as usize, buf as usize, n, 0, 0, 0) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    match ctx() {
        Some(_) if sim_fd(fd) => {
            let v = std::slice::from_raw_parts(iov, cnt as usize);
            for i in v {
                if i.iov_len > 0 {
                    return read(fd, i.iov_base, i.iov_len);
                }
            }
            0
        }
        _ => raw(libc::SYS_readv, fd as usize, iov as usize, cnt as usize, 0, 0, 0) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    match ctx() {
        Some(s) if sim_fd(fd) => {
            let b = std::slice::from_raw_parts_mut(buf as *mut u8, n);
            call(s, |w| w.read(fd, b, Some(off as u64))) as ssize_t
        }
        _ => raw(libc::SYS_pread64, fd as usize, buf as usize, n, off as usize, 0, 0) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    match ctx() {
        Some(s) if sim_fd(fd) => call(s, |w| w.lseek(fd, off, whence)),
        _ => raw(libc::SYS_lseek, fd as usize, off as usize, whence as usize, 0, 0, 0),
    }
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    match ctx() {
        Some(s) if sim_fd(fd) => call(s, |w| w.close(fd)) as c_int,
        _ => raw(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    match ctx() {
        Some(s) if sim_fd(fd) => call(s, |w| w.fsync(fd)) as c_int,
        _ => raw(libc::SYS_fsync, fd as usize, 0, 0, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    match ctx() {
        Some(s) if sim_fd(fd) => call(s, |w| w.fsync(fd)) as c_int,
        _ => raw(libc::SYS_fdatasync, fd as usize, 0, 0, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    match ctx() {
        Some(s) if sim_fd(fd) => call(s, |w| w.truncate(fd, len as u64)) as c_int,
        _ => raw(libc::SYS_ftruncate, fd as usize, len as usize, 0, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn posix_fallocate64(fd: c_int, off: off64_t, len: off64_t) -> c_int {
    if ctx().is_some() && sim_fd(fd) {
        return libc::EOPNOTSUPP;
    }
    let r = raw6(libc::SYS_fallocate, fd as usize, 0, off as usize, len as usize, 0, 0);
    if r < 0 {
        -r as c_int
    } else {
        0
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    match ctx() {
        Some(s) if sim_fd(fd) => match cmd {
            libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => call(s, |w| w.dup(fd)) as c_int,
            libc::F_GETFD => libc::FD_CLOEXEC,
            _ => 0,
        },
        _ => raw(libc::SYS_fcntl, fd as usize, cmd as usize, arg, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: usize, arg: usize) -> c_int {
    match ctx() {
        Some(s) if sim_fd(fd) => {
            if req == libc::FIONBIO as usize {
                let on = *(arg as *const c_int) != 0;
                return call(s, |w| w.set_sock(fd, Some(on), None)) as c_int;
            }
            0
        }
        _ => raw(libc::SYS_ioctl, fd as usize, req, arg, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: mode_t) -> c_int {
    match ctx() {
        Some(s) => {
            let q = outside(|| path(p).into_owned());
            call(s, |w| w.mkdir(&q)) as c_int
        }
        None => raw(libc::SYS_mkdir, p as usize, mode as usize, 0, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn chdir(p: *const c_char) -> c_int {
    match ctx() {
        Some(s) => {
            let q = outside(|| path(p).into_owned());
            call(s, |w| w.chdir(&q)) as c_int
        }
        None => raw(libc::SYS_chdir, p as usize, 0, 0, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    match ctx() {
        Some(s) => {
            let (a, b) = outside(|| (path(a).into_owned(), path(b).into_owned()));
            call(s, |w| w.rename(&a, &b)) as c_int
        }
        None => raw(libc::SYS_rename, a as usize, b as usize, 0, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, flags: c_int) -> c_int {
    match ctx() {
        Some(s) => {
            let (a, b) = outside(|| (path(a).into_owned(), path(b).into_owned()));
            call(s, |w| w.link(&a, &b)) as c_int
        }
        None => raw(libc::SYS_linkat, d1 as usize, a as usize, d2 as usize, b as usize, flags as usize, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    linkat(libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    match ctx() {
        Some(s) => {
            let q = outside(|| path(p).into_owned());
            call(s, |w| w.unlink(&q)) as c_int
        }
        None => raw(libc::SYS_unlink, p as usize, 0, 0, 0, 0, 0) as c_int,
    }
}

fn mode_of(m: &Meta) -> u32 {
    match (m.dir, m.ro) {
        (true, false) => libc::S_IFDIR | 0o755,
        (true, true) => libc::S_IFDIR | 0o555,
        (false, false) => libc::S_IFREG | 0o644,
        (false, true) => libc::S_IFREG | 0o444,
    }
}
unsafe fn fill_stat(st: *mut libc::stat64, r: Meta) {
    std::ptr::write_bytes(st, 0, 1);
    (*st).st_mode = mode_of(&r);
    (*st).st_size = r.len as i64;
    (*st).st_ino = r.node as u64 + 1;
    (*st).st_mtime = r.time / 1_000_000_000;
    (*st).st_mtime_nsec = r.time % 1_000_000_000;
    (*st).st_nlink = 1;
    (*st).st_blksize = 4096;
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    match ctx() {
        Some(s) => {
            let q = outside(|| path(p).into_owned());
            let mut out = Meta::default();
            let r = call(s, |w| w.stat(&q).map(|v| { out = v; 0 }));
            if r == 0 {
                fill_stat(st, out);
            }
            r as c_int
        }
        None => raw(libc::SYS_stat, p as usize, st as usize, 0, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    match ctx() {
        Some(_) => stat64(p, st),
        None => raw(libc::SYS_lstat, p as usize, st as usize, 0, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    match ctx() {
        Some(s) if sim_fd(fd) => {
            let mut out = Meta::default();
            let r = call(s, |w| w.fstat(fd).map(|v| { out = v; 0 }));
            if r == 0 {
                fill_stat(st, out);
            }
            r as c_int
        }
        _ => raw(libc::SYS_fstat, fd as usize, st as usize, 0, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn statx(fd: c_int, p: *const c_char, flags: c_int, mask: c_uint, out: *mut libc::statx) -> c_int {
    let s = match ctx() {
        Some(s) => s,
        None => return raw(libc::SYS_statx, fd as usize, p as usize, flags as usize, mask as usize, out as usize, 0) as c_int,
    };
    let q = outside(|| if p.is_null() { String::new() } else { path(p).into_owned() });
    let q = if q.is_empty() { q } else { at_path(s, fd, q) };
    let mut v = Meta::default();
    let r = if q.is_empty() && flags & libc::AT_EMPTY_PATH != 0 {
        call(s, |w| w.fstat(fd).map(|x| { v = x; 0 }))
    } else {
        call(s, |w| w.stat(&q).map(|x| { v = x; 0 }))
    };
    if r == 0 {
        std::ptr::write_bytes(out, 0, 1);
        (*out).stx_mask = mask & 0x7ff;
        (*out).stx_mode = mode_of(&v) as u16;
        (*out).stx_size = v.len;
        (*out).stx_ino = v.node as u64 + 1;
        (*out).stx_mtime.tv_sec = v.time / 1_000_000_000;
        (*out).stx_mtime.tv_nsec = (v.time % 1_000_000_000) as u32;
        (*out).stx_nlink = 1;
        (*out).stx_blksize = 4096;
    }
    r as c_int
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, mode: c_int) -> c_int {
    match ctx() {
        Some(s) => {
            let q = outside(|| path(p).into_owned());
            call(s, |w| w.stat(&q).and_then(|m| if m.ro && mode & libc::W_OK != 0 { Err(libc::EACCES) } else { Ok(0) })) as c_int
        }
        None => raw(libc::SYS_access, p as usize, mode as usize, 0, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, b: usize, c: c_int, d: usize, e: size_t, f: c_uint) -> ssize_t {
    if ctx().is_some() {
        set_errno(libc::EINVAL);
        return -1;
    }
    raw(libc::SYS_copy_file_range, a as usize, b, c as usize, d, e, f as usize) as ssize_t
}

// ---- network -----------------------------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn socket(d: c_int, t: c_int, p: c_int) -> c_int {
    match ctx() {
        Some(s) => call(s, |w| w.socket()) as c_int,
        None => raw(libc::SYS_socket, d as usize, t as usize, p as usize, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, a: *const libc::sockaddr, l: libc::socklen_t) -> c_int {
    match ctx() {
        Some(s) if sim_fd(fd) => {
            let addr = outside(|| {
                if (*a).sa_family as i32 == libc::AF_INET {
                    let x = &*(a as *const libc::sockaddr_in);
                    let ip = x.sin_addr.s_addr.to_ne_bytes();
                    format!("{}.{}.{}.{}:{}", ip[0], ip[1], ip[2], ip[3], u16::from_be(x.sin_port))
                } else if (*a).sa_family as i32 == libc::AF_INET6 {
                    let x = &*(a as *const libc::sockaddr_in6);
                    let ip = std::net::Ipv6Addr::from(x.sin6_addr.s6_addr);
                    format!("[{}]:{}", ip, u16::from_be(x.sin6_port))
                } else {
                    "other".into()
                }
            });
            call(s, |w| w.connect(fd, addr)) as c_int
        }
        _ => raw(libc::SYS_connect, fd as usize, a as usize, l as usize, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut libc::pollfd, n: libc::nfds_t, timeout: c_int) -> c_int {
    match ctx() {
        // only used by std to wait for an interrupted connect
        Some(s) if n >= 1 && sim_fd((*fds).fd) => {
            let f = (*fds).fd;
            let reading = (*fds).events & libc::POLLOUT == 0 && (*fds).events & libc::POLLIN != 0;
            let ok = call(s, |w| Ok(w.is_connected(f) as i64)) == 1;
            if !ok {
                call(s, |w| {
                    w.tick();
                    w.connect(f, "poll".into())
                });
                (*fds).revents = libc::POLLOUT;
                return 1;
            }
            let limit = if timeout < 0 { None } else { Some(timeout as u64 * 1_000_000) };
            let r = call(s, |w| w.poll(f, reading, limit)) as c_int;
            (*fds).revents = if r != 1 {
                0
            } else if reading {
                libc::POLLIN
            } else {
                libc::POLLOUT
            };
            r
        }
        _ => raw(libc::SYS_poll, fds as usize, n as usize, timeout as usize, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, lvl: c_int, name: c_int, val: *mut c_void, len: *mut libc::socklen_t) -> c_int {
    match ctx() {
        Some(_) if sim_fd(fd) => {
            std::ptr::write_bytes(val as *mut u8, 0, *len as usize);
            0
        }
        _ => raw(libc::SYS_getsockopt, fd as usize, lvl as usize, name as usize, val as usize, len as usize, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, lvl: c_int, name: c_int, val: *const c_void, len: libc::socklen_t) -> c_int {
    match ctx() {
        Some(s) if sim_fd(fd) => {
            if lvl == libc::SOL_SOCKET && name == libc::SO_RCVTIMEO && len as usize >= std::mem::size_of::<libc::timeval>() {
                let t = &*(val as *const libc::timeval);
                let ns = t.tv_sec as u64 * 1_000_000_000 + t.tv_usec as u64 * 1_000;
                return call(s, |w| w.set_sock(fd, None, Some(ns))) as c_int;
            }
            0
        }
        _ => raw(libc::SYS_setsockopt, fd as usize, lvl as usize, name as usize, val as usize, len as usize, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, buf: *const c_void, n: size_t, flags: c_int) -> ssize_t {
    match ctx() {
        Some(s) if sim_fd(fd) => {
            let b = std::slice::from_raw_parts(buf as *const u8, n);
            call(s, |w| { w.tick(); w.send(fd, b) }) as ssize_t
        }
        _ => raw(libc::SYS_sendto, fd as usize, buf as usize, n, flags as usize, 0, 0) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, buf: *mut c_void, n: size_t, flags: c_int) -> ssize_t {
    match ctx() {
        Some(s) if sim_fd(fd) => {
            let b = std::slice::from_raw_parts_mut(buf as *mut u8, n);
            call(s, |w| { w.tick(); w.recv(fd, b, flags & libc::MSG_PEEK != 0) }) as ssize_t
        }
        _ => raw(libc::SYS_recvfrom, fd as usize, buf as usize, n, flags as usize, 0, 0) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    match ctx() {
        Some(s) if sim_fd(fd) => call(s, |w| w.shutdown(fd, how)) as c_int,
        _ => raw(libc::SYS_shutdown, fd as usize, how as usize, 0, 0, 0, 0) as c_int,
    }
}

/// the machine's network interfaces
struct IfList {
    rows: Vec<libc::ifaddrs>,
    names: Vec<std::ffi::CString>,
    addrs: Vec<libc::sockaddr_storage>,
    mask: libc::sockaddr_storage,
}
thread_local! {
    static IFS: Cell<*mut IfList> = const { Cell::new(std::ptr::null_mut()) };
}
#[repr(C)]
struct HostRow {
    row: libc::addrinfo,
    addr: libc::sockaddr_storage,
}
/// names of machines: what the environment says
#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(node: *const c_char, service: *const c_char, hints: *const libc::addrinfo, out: *mut *mut libc::addrinfo) -> c_int {
    let s = match ctx() {
        Some(s) => s,
        None => return libc::EAI_FAIL,
    };
    let mut ips = vec![];
    if node.is_null() {
        return libc::EAI_NONAME;
    }
    call(s, |w| {
        ips = w.resolve(&std::ffi::CStr::from_ptr(node).to_string_lossy());
        Ok(0)
    });
    outside(|| {
        let port: u16 = if service.is_null() { 0 } else { std::ffi::CStr::from_ptr(service).to_str().ok().and_then(|x| x.parse().ok()).unwrap_or(0) };
        let (family, kind) = if hints.is_null() { (libc::AF_UNSPEC, 0) } else { ((*hints).ai_family, (*hints).ai_socktype) };
        let mut next: *mut libc::addrinfo = std::ptr::null_mut();
        for ip in ips.iter().rev() {
            let mut h = Box::new(HostRow { row: std::mem::zeroed(), addr: std::mem::zeroed() });
            match ip {
                std::net::IpAddr::V4(x) => {
                    let p = &mut *(&mut h.addr as *mut _ as *mut libc::sockaddr_in);
                    p.sin_family = libc::AF_INET as u16;
                    p.sin_port = port.to_be();
                    p.sin_addr.s_addr = u32::from_ne_bytes(x.octets());
                    h.row.ai_family = libc::AF_INET;
                    h.row.ai_addrlen = std::mem::size_of::<libc::sockaddr_in>() as u32;
                }
                std::net::IpAddr::V6(x) => {
                    let p = &mut *(&mut h.addr as *mut _ as *mut libc::sockaddr_in6);
                    p.sin6_family = libc::AF_INET6 as u16;
                    p.sin6_port = port.to_be();
                    p.sin6_addr.s6_addr = x.octets();
                    h.row.ai_family = libc::AF_INET6;
                    h.row.ai_addrlen = std::mem::size_of::<libc::sockaddr_in6>() as u32;
                }
            }
            if family != libc::AF_UNSPEC && family != h.row.ai_family {
                continue;
            }
            h.row.ai_socktype = if kind == 0 { libc::SOCK_STREAM } else { kind };
            h.row.ai_next = next;
            let h = Box::into_raw(h);
            (*h).row.ai_addr = &mut (*h).addr as *mut _ as *mut libc::sockaddr;
            next = h as *mut libc::addrinfo;
        }
        if next.is_null() {
            return libc::EAI_NONAME;
        }
        *out = next;
        0
    })
}
#[no_mangle]
pub unsafe extern "C" fn freeaddrinfo(list: *mut libc::addrinfo) {
    outside(|| {
        let mut p = list;
        while !p.is_null() {
            let next = (*p).ai_next;
            drop(Box::from_raw(p as *mut HostRow));
            p = next;
        }
    })
}
#[no_mangle]
pub unsafe extern "C" fn getifaddrs(out: *mut *mut libc::ifaddrs) -> c_int {
    let s = match ctx() {
        Some(s) => s,
        None => {
            set_errno(libc::ENOSYS);
            return -1;
        }
    };
    let r = call(s, |w| {
        w.tick();
        w.list_ifaces()
    });
    if r < 0 {
        return -1;
    }
    outside(|| {
        let rows = s.w.lock().unwrap().env.ifaces.clone();
        let mut l = Box::new(IfList { rows: vec![], names: vec![], addrs: vec![], mask: std::mem::zeroed() });
        l.mask.ss_family = libc::AF_INET as u16;
        for i in &rows {
            let mut a: libc::sockaddr_storage = std::mem::zeroed();
            match i.ip.as_ref().and_then(|x| x.parse::<std::net::IpAddr>().ok()) {
                Some(std::net::IpAddr::V4(x)) => {
                    let p = &mut *(&mut a as *mut _ as *mut libc::sockaddr_in);
                    p.sin_family = libc::AF_INET as u16;
                    p.sin_addr.s_addr = u32::from_ne_bytes(x.octets());
                }
                Some(std::net::IpAddr::V6(x)) => {
                    let p = &mut *(&mut a as *mut _ as *mut libc::sockaddr_in6);
                    p.sin6_family = libc::AF_INET6 as u16;
                    p.sin6_addr.s6_addr = x.octets();
                }
                None => {
                    let p = &mut *(&mut a as *mut _ as *mut libc::sockaddr_ll);
                    p.sll_family = libc::AF_PACKET as u16;
                    p.sll_addr = [2, 0, 0, 0, 0, 1, 0, 0];
                    p.sll_halen = 6;
                }
            }
            l.addrs.push(a);
            l.names.push(std::ffi::CString::new(i.n.replace('\0', "")).unwrap());
            l.rows.push(std::mem::zeroed());
        }
        let n = rows.len();
        for k in 0..n {
            let next = if k + 1 < n { &mut l.rows[k + 1] as *mut _ } else { std::ptr::null_mut() };
            let name = l.names[k].as_ptr() as *mut c_char;
            let addr = if rows[k].bare { std::ptr::null_mut() } else { &mut l.addrs[k] as *mut _ as *mut libc::sockaddr };
            let mask = if rows[k].ip.is_some() { &mut l.mask as *mut _ as *mut libc::sockaddr } else { std::ptr::null_mut() };
            let row = &mut l.rows[k];
            row.ifa_next = next;
            row.ifa_name = name;
            row.ifa_addr = addr;
            row.ifa_netmask = mask;
            row.ifa_flags = (libc::IFF_UP | libc::IFF_RUNNING | if rows[k].n == "lo" { libc::IFF_LOOPBACK } else { 0 }) as c_uint;
        }
        *out = if n > 0 { &mut l.rows[0] as *mut _ } else { std::ptr::null_mut() };
        IFS.with(|c| {
            let old = c.replace(Box::into_raw(l));
            if !old.is_null() {
                drop(Box::from_raw(old));
            }
        });
    });
    0
}
#[no_mangle]
pub unsafe extern "C" fn freeifaddrs(_: *mut libc::ifaddrs) {
    outside(|| {
        IFS.with(|c| {
            let old = c.replace(std::ptr::null_mut());
            if !old.is_null() {
                drop(Box::from_raw(old));
            }
        })
    })
}
#[no_mangle]
pub unsafe extern "C" fn if_nametoindex(_: *const c_char) -> c_uint {
    1
}

// ---- randomness, time, blocking --------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    match ctx() {
        Some(s) => {
            if n > 0 {
                let b = std::slice::from_raw_parts_mut(buf as *mut u8, n);
                outside(|| s.w.lock().unwrap().random(b));
            }
            n as ssize_t
        }
        None => raw(libc::SYS_getrandom, buf as usize, n, flags as usize, 0, 0, 0) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    match ctx() {
        Some(s) => {
            let real = matches!(clk, libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE);
            let t = outside(|| {
                let mut w = s.w.lock().unwrap();
                if real {
                    w.clock()
                } else {
                    w.monotonic()
                }
            });
            (*ts).tv_sec = t / 1_000_000_000;
            (*ts).tv_nsec = t % 1_000_000_000;
            0
        }
        None => raw(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    match ctx() {
        Some(s) => {
            let d = (*req).tv_sec * 1_000_000_000 + (*req).tv_nsec;
            outside(|| s.w.lock().unwrap().pass(d.max(0) as u64));
            yield_now();
            0
        }
        None => raw(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: libc::clockid_t, flags: c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    match ctx() {
        Some(s) if flags & libc::TIMER_ABSTIME != 0 => {
            let end = (*req).tv_sec * 1_000_000_000 + (*req).tv_nsec;
            outside(|| {
                let mut w = s.w.lock().unwrap();
                let now = if clk == libc::CLOCK_REALTIME { w.now } else { w.monotonic() };
                w.pass((end - now).max(0) as u64);
            });
            yield_now();
            0
        }
        Some(_) => nanosleep(req, rem),
        None => {
            let r = raw6(libc::SYS_clock_nanosleep, clk as usize, flags as usize, req as usize, rem as usize, 0, 0);
            -r as c_int
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    match ctx() {
        Some(s) => {
            if let Some(sch) = s.sched.get() {
                blocked(sch);
            }
            0
        }
        None => raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if let Some(s) = ctx() {
        if n == libc::SYS_futex {
            let op = b as i32 & 0x7f;
            if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
                if let Some(sch) = s.sched.get() {
                    if d != 0 {
                        return timed(s, sch, op == libc::FUTEX_WAIT_BITSET, b as i32 & libc::FUTEX_CLOCK_REALTIME != 0, &*(d as *const libc::timespec));
                    }
                    blocked(sch);
                    return 0;
                }
            }
        }
        if n == libc::SYS_getrandom {
            return getrandom(a as *mut c_void, b, c as c_uint) as c_long;
        }
    }
    raw(n, a, b, c, d, e, f)
}

// ---- calls the code under test does not make today ------------------------------------
// they never reach the real file system from a simulated thread

macro_rules! refused {
    ($($name:ident($($a:ident),*) = $nr:ident;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: usize),*) -> c_int {
            if ctx().is_some() {
                set_errno(libc::EPERM);
                return -1;
            }
            let v = [$($a),*, 0, 0, 0, 0, 0];
            raw(libc::$nr, v[0], v[1], v[2], v[3], v[4], v[5]) as c_int
        }
    )*};
}
refused! {
    symlink(a, b) = SYS_symlink;
    symlinkat(a, b, c) = SYS_symlinkat;
    mknod(a, b, c) = SYS_mknod;
    chown(a, b, c) = SYS_chown;
    lchown(a, b, c) = SYS_lchown;
    fchown(a, b, c) = SYS_fchown;
    chroot(a) = SYS_chroot;
    bind(a, b, c) = SYS_bind;
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    match ctx() {
        Some(s) => {
            let q = outside(|| path(p).into_owned());
            call(s, |w| w.rmdir(&q)) as c_int
        }
        None => raw(libc::SYS_rmdir, p as usize, 0, 0, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, flags: c_int) -> c_int {
    match ctx() {
        Some(s) => {
            let q = at_path(s, d, outside(|| path(p).into_owned()));
            if flags & libc::AT_REMOVEDIR != 0 {
                call(s, |w| w.rmdir(&q)) as c_int
            } else {
                call(s, |w| w.unlink(&q)) as c_int
            }
        }
        None => raw(libc::SYS_unlinkat, d as usize, p as usize, flags as usize, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, mode: mode_t) -> c_int {
    match ctx() {
        Some(s) => {
            let q = outside(|| path(p).into_owned());
            call(s, |w| w.chmod(&q, mode)) as c_int
        }
        None => raw(libc::SYS_chmod, p as usize, mode as usize, 0, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: c_int, t: *const libc::timespec) -> c_int {
    match ctx() {
        Some(_) if sim_fd(fd) => 0,
        _ => raw(libc::SYS_utimensat, fd as usize, 0, t as usize, 0, 0, 0) as c_int,
    }
}
/// a malloc'd copy of a simulated path
unsafe fn c_copy(q: &str, to: *mut c_char) -> *mut c_char {
    let to = if to.is_null() { libc::malloc(q.len() + 1) as *mut c_char } else { to };
    std::ptr::copy_nonoverlapping(q.as_ptr(), to as *mut u8, q.len());
    *to.add(q.len()) = 0;
    to
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, to: *mut c_char) -> *mut c_char {
    match ctx() {
        Some(s) => {
            let q = outside(|| path(p).into_owned());
            let mut full = outside(String::new);
            let r = call(s, |w| {
                full = w.abs(&q);
                w.stat(&q).map(|_| 0)
            });
            let out = if r < 0 { std::ptr::null_mut() } else { c_copy(&full, to) };
            outside(|| drop((q, full)));
            out
        }
        // only this program's own paths: /proc is there
        None => {
            let fd = raw(libc::SYS_open, p as usize, (libc::O_PATH | libc::O_CLOEXEC) as usize, 0, 0, 0, 0);
            if fd < 0 {
                return std::ptr::null_mut();
            }
            let link = format!("/proc/self/fd/{}\0", fd);
            let mut buf = [0u8; 4096];
            let n = raw(libc::SYS_readlink, link.as_ptr() as usize, buf.as_mut_ptr() as usize, 4095, 0, 0, 0);
            raw(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0);
            if n < 0 {
                return std::ptr::null_mut();
            }
            c_copy(&String::from_utf8_lossy(&buf[..n as usize]), to)
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    match ctx() {
        Some(s) => {
            let q = outside(|| path(p).into_owned());
            call(s, |w| w.stat(&q).and(Err(libc::EINVAL))) as ssize_t
        }
        None => raw(libc::SYS_readlink, p as usize, buf as usize, n, 0, 0, 0) as ssize_t,
    }
}

/// an open directory, read on simulated threads only
pub struct Dir {
    fd: c_int,
    all: Option<Vec<(String, Meta)>>,
    at: usize,
    row: libc::dirent64,
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut Dir {
    if ctx().is_none() {
        set_errno(libc::ENOSYS);
        return std::ptr::null_mut();
    }
    let fd = open64(p, libc::O_RDONLY | libc::O_DIRECTORY | libc::O_CLOEXEC, 0);
    if fd < 0 {
        return std::ptr::null_mut();
    }
    fdopendir(fd)
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut Dir {
    outside(|| Box::into_raw(Box::new(Dir { fd, all: None, at: 0, row: std::mem::zeroed() })))
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut Dir) -> *mut libc::dirent64 {
    let d = &mut *d;
    let s = match ctx() {
        Some(s) => s,
        None => return std::ptr::null_mut(),
    };
    if d.all.is_none() {
        let mut v = vec![];
        let fd = d.fd;
        if call(s, |w| w.list(fd).map(|x| { v = x; 0 })) < 0 {
            return std::ptr::null_mut();
        }
        d.all = Some(v);
    }
    let v = d.all.as_ref().unwrap();
    if d.at >= v.len() {
        return std::ptr::null_mut();
    }
    let (name, m) = &v[d.at];
    d.at += 1;
    d.row.d_ino = m.node as u64 + 1;
    d.row.d_off = d.at as i64;
    d.row.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
    d.row.d_type = if m.dir { libc::DT_DIR } else { libc::DT_REG };
    let n = name.len().min(255);
    std::ptr::copy_nonoverlapping(name.as_ptr(), d.row.d_name.as_mut_ptr() as *mut u8, n);
    d.row.d_name[n] = 0;
    &mut d.row
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut Dir) -> c_int {
    (*d).fd
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut Dir) -> c_int {
    let fd = (*d).fd;
    outside(|| drop(Box::from_raw(d)));
    close(fd)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, st: *mut libc::stat64, flags: c_int) -> c_int {
    match ctx() {
        Some(s) => {
            let q = at_path(s, d, outside(|| path(p).into_owned()));
            let mut out = Meta::default();
            let r = call(s, |w| w.stat(&q).map(|v| { out = v; 0 }));
            if r == 0 {
                fill_stat(st, out);
            }
            r as c_int
        }
        None => raw(libc::SYS_newfstatat, d as usize, p as usize, st as usize, flags as usize, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: usize) -> c_int {
    if let Some(s) = ctx() {
        return call(s, |w| w.fchmod(fd, mode as u32)) as c_int;
    }
    raw(libc::SYS_fchmod, fd as usize, mode, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if ctx().is_some() {
        return 0;
    }
    raw(libc::SYS_flock, fd as usize, op as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    if let Some(s) = ctx() {
        let c = outside(|| s.w.lock().unwrap().cwd.clone());
        if n < c.len() + 1 {
            set_errno(libc::ERANGE);
            return std::ptr::null_mut();
        }
        std::ptr::copy_nonoverlapping(c.as_ptr(), buf as *mut u8, c.len());
        *buf.add(c.len()) = 0;
        return buf;
    }
    let r = raw(libc::SYS_getcwd, buf as usize, n, 0, 0, 0, 0);
    if r < 0 {
        std::ptr::null_mut()
    } else {
        buf
    }
}
