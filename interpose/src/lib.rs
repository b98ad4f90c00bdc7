//! File operations of the running program, seen and steered from inside: the libc entry points used by std are
//! defined here, so they take precedence over libc's for the whole program.  Only paths below a root are concerned;
//! without a hook every call goes straight to the kernel.
#![allow(invalid_runtime_symbol_definitions, unknown_lints)]
use libc::{c_char, c_int, c_void, mode_t, off64_t, size_t, ssize_t};
use std::cell::Cell;
use std::collections::HashMap;
use std::ffi::CStr;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Mutex;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Open,
    Create,
    Read,
    Write,
    Sync,
    Truncate,
    Close,
    Rename,
    Link,
    Unlink,
    Mkdir,
}

#[derive(Debug)]
pub struct Op<'a> {
    pub kind: Kind,
    pub path: &'a Path,
    /// Target of a rename or link.
    pub to: Option<&'a Path>,
    pub fd: c_int,
    /// Bytes asked for a read or write.
    pub len: usize,
    /// File position reads so far / writes so far on this descriptor.
    pub done: usize,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    Go,
    /// Do nothing, return this errno.
    Err(c_int),
    /// Read or write at most this many bytes.
    Short(usize),
}

struct State {
    root: PathBuf,
    fds: HashMap<c_int, (PathBuf, usize)>,
    hook: Box<dyn FnMut(&Op) -> Act + Send>,
}

static ACTIVE: AtomicBool = AtomicBool::new(false);
static STATE: Mutex<Option<State>> = Mutex::new(None);
thread_local! { static INSIDE: Cell<bool> = const { Cell::new(false) }; }

/// Runs `f` with `hook` deciding every file operation below `root`.
pub fn with_hook<R>(root: &Path, hook: impl FnMut(&Op) -> Act + Send + 'static, f: impl FnOnce() -> R) -> R {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            ACTIVE.store(false, SeqCst);
            let old = STATE.lock().unwrap_or_else(|e| e.into_inner()).take();
            drop(old);
        }
    }
    *STATE.lock().unwrap_or_else(|e| e.into_inner()) = Some(State { root: root.to_path_buf(), fds: HashMap::new(), hook: Box::new(hook) });
    let _reset = Reset;
    ACTIVE.store(true, SeqCst);
    f()
}

static PID: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(0);

/// From now on this process is told that its number is n; 0 for the real one.
pub fn set_pid(n: i32) {
    PID.store(n, SeqCst);
}

#[no_mangle]
pub extern "C" fn getpid() -> libc::pid_t {
    match PID.load(SeqCst) {
        0 => unsafe { libc::syscall(libc::SYS_getpid) as libc::pid_t },
        n => n,
    }
}

fn errno(e: c_int) -> c_int {
    unsafe { *libc::__errno_location() = e };
    -1
}

/// Asks the hook about an operation (no hook, or an operation of the hook itself: go).
fn ask(f: impl FnOnce(&mut State) -> Option<Act>) -> Act {
    if !ACTIVE.load(SeqCst) {
        return Act::Go;
    }
    if INSIDE.try_with(|i| i.replace(true)).unwrap_or(true) {
        return Act::Go;
    }
    let r = match STATE.lock() {
        Ok(mut g) => g.as_mut().and_then(f).unwrap_or(Act::Go),
        Err(_) => Act::Go,
    };
    let _ = INSIDE.try_with(|i| i.set(false));
    r
}

fn note(f: impl FnOnce(&mut State)) {
    if ACTIVE.load(SeqCst) && !INSIDE.try_with(|i| i.get()).unwrap_or(true) {
        if let Ok(mut g) = STATE.lock() {
            if let Some(s) = g.as_mut() {
                f(s)
            }
        }
    }
}

unsafe fn to_path(p: *const c_char) -> PathBuf {
    use std::os::unix::ffi::OsStrExt;
    PathBuf::from(std::ffi::OsStr::from_bytes(CStr::from_ptr(p).to_bytes()))
}

fn path_op(kind: Kind, path: &Path, to: Option<&Path>) -> Act {
    ask(|s| {
        if !path.starts_with(&s.root) && !to.map_or(false, |t| t.starts_with(&s.root)) {
            return None;
        }
        Some((s.hook)(&Op { kind, path, to, fd: -1, len: 0, done: 0 }))
    })
}

fn fd_op(kind: Kind, fd: c_int, len: usize) -> Act {
    ask(|s| {
        let (path, done) = s.fds.get(&fd)?.clone();
        Some((s.hook)(&Op { kind, path: &path, to: None, fd, len, done }))
    })
}

unsafe fn do_open(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let mut track = None;
    if ACTIVE.load(SeqCst) {
        let p = to_path(path);
        let create = flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT) != 0;
        if let Act::Err(e) = path_op(if create { Kind::Create } else { Kind::Open }, &p, None) {
            return errno(e);
        }
        track = Some(p);
    }
    let fd = libc::syscall(libc::SYS_openat, dir, path, flags | libc::O_LARGEFILE, mode as c_int) as c_int;
    if fd >= 0 {
        if let Some(p) = track {
            note(|s| {
                if p.starts_with(&s.root) {
                    s.fds.insert(fd, (p, 0));
                }
            });
        }
    }
    fd
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if ACTIVE.load(SeqCst) {
        fd_op(Kind::Close, fd, 0);
        note(|s| {
            s.fds.remove(&fd);
        });
    }
    libc::syscall(libc::SYS_close, fd) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    let mut n = n;
    match fd_op(Kind::Read, fd, n) {
        Act::Go => {}
        Act::Err(e) => return errno(e) as ssize_t,
        Act::Short(k) => n = n.min(k),
    }
    let r = libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t;
    if r > 0 {
        note(|s| {
            if let Some(x) = s.fds.get_mut(&fd) {
                x.1 += r as usize
            }
        });
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    let mut n = n;
    match fd_op(Kind::Write, fd, n) {
        Act::Go => {}
        Act::Err(e) => return errno(e) as ssize_t,
        Act::Short(k) => n = n.min(k),
    }
    let r = libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t;
    if r > 0 {
        note(|s| {
            if let Some(x) = s.fds.get_mut(&fd) {
                x.1 += r as usize
            }
        });
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    // one write of the first non-empty part is a correct short write
    for i in 0..cnt {
        let v = &*iov.add(i as usize);
        if v.iov_len > 0 {
            if !ACTIVE.load(SeqCst) {
                break;
            }
            return write(fd, v.iov_base, v.iov_len);
        }
    }
    libc::syscall(libc::SYS_writev, fd, iov, cnt) as ssize_t
}

macro_rules! fd_call {
    ($name:ident, $kind:expr, $sys:expr) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(fd: c_int) -> c_int {
            if let Act::Err(e) = fd_op($kind, fd, 0) {
                return errno(e);
            }
            libc::syscall($sys, fd) as c_int
        }
    };
}
fd_call!(fsync, Kind::Sync, libc::SYS_fsync);
fd_call!(fdatasync, Kind::Sync, libc::SYS_fdatasync);

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if let Act::Err(e) = fd_op(Kind::Truncate, fd, len as usize) {
        return errno(e);
    }
    libc::syscall(libc::SYS_ftruncate, fd, len) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn rename(from: *const c_char, to: *const c_char) -> c_int {
    if ACTIVE.load(SeqCst) {
        if let Act::Err(e) = path_op(Kind::Rename, &to_path(from), Some(&to_path(to))) {
            return errno(e);
        }
    }
    libc::syscall(libc::SYS_rename, from, to) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn link(from: *const c_char, to: *const c_char) -> c_int {
    if ACTIVE.load(SeqCst) {
        if let Act::Err(e) = path_op(Kind::Link, &to_path(from), Some(&to_path(to))) {
            return errno(e);
        }
    }
    libc::syscall(libc::SYS_link, from, to) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn linkat(fd: c_int, from: *const c_char, fd2: c_int, to: *const c_char, flags: c_int) -> c_int {
    if ACTIVE.load(SeqCst) {
        if let Act::Err(e) = path_op(Kind::Link, &to_path(from), Some(&to_path(to))) {
            return errno(e);
        }
    }
    libc::syscall(libc::SYS_linkat, fd, from, fd2, to, flags) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    if ACTIVE.load(SeqCst) {
        if let Act::Err(e) = path_op(Kind::Unlink, &to_path(path), None) {
            return errno(e);
        }
    }
    libc::syscall(libc::SYS_unlink, path) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    if ACTIVE.load(SeqCst) {
        if let Act::Err(e) = path_op(Kind::Mkdir, &to_path(path), None) {
            return errno(e);
        }
    }
    libc::syscall(libc::SYS_mkdir, path, mode as c_int) as c_int
}
