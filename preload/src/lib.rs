//! Loaded into the program under test: files whose name has "zz-closed" cannot be opened.
use libc::{c_char, c_int, mode_t};

unsafe fn closed(path: *const c_char) -> bool {
    std::ffi::CStr::from_ptr(path).to_bytes().windows(9).any(|w| w == b"zz-closed")
}

unsafe fn go(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if closed(path) {
        *libc::__errno_location() = libc::EACCES;
        return -1;
    }
    libc::syscall(libc::SYS_openat, dir, path, flags, mode as libc::c_uint) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    go(libc::AT_FDCWD, path, flags | libc::O_LARGEFILE, mode)
}

#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    go(dir, path, flags | libc::O_LARGEFILE, mode)
}
