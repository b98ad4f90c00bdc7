//! Runs something in a process of its own: the cache settings are read once per process.
use std::io::Read;
use std::os::fd::FromRawFd;
use std::path::Path;
use std::time::{Duration, Instant};
use vengine::serde_json::{self, Value};
use vengine::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CacheMode {
    Off,
    On,
}

/// The value f gives in a forked process whose cache directory is below `home`.
pub fn in_child(home: &Path, mode: CacheMode, f: impl FnOnce() -> Result<Value, Fail>) -> Result<Value, Fail> {
    let mut fds = [0i32; 2];
    assert_eq!(unsafe { libc::pipe(fds.as_mut_ptr()) }, 0);
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        unsafe {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        }
        std::env::set_var("HOME", home);
        std::env::set_var("XDG_CACHE_HOME", home.join("cache"));
        match mode {
            CacheMode::On => std::env::set_var("LOGREDUCE_CACHE", "1"),
            CacheMode::Off => std::env::remove_var("LOGREDUCE_CACHE"),
        }
        let v = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(Ok(v)) => serde_json::json!({ "ok": v }),
            Ok(Err(e)) => serde_json::json!({"key": e.key, "msg": e.msg}),
            Err(_) => serde_json::json!({"key": "panic", "msg": format!("panic: {}", last_panic())}),
        };
        let mut out = unsafe { std::fs::File::from_raw_fd(fds[1]) };
        let _ = std::io::Write::write_all(&mut out, v.to_string().as_bytes());
        unsafe { libc::_exit(0) }
    }
    unsafe { libc::close(fds[1]) };
    let start = Instant::now();
    let mut out = unsafe { std::fs::File::from_raw_fd(fds[0]) };
    let mut text = vec![];
    let mut buf = [0u8; 65536];
    loop {
        let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
        let r = unsafe { libc::poll(&mut p, 1, 1000) };
        if r > 0 {
            match out.read(&mut buf) {
                Ok(0) | Err(_) => break,
                Ok(n) => text.extend_from_slice(&buf[..n]),
            }
        } else if start.elapsed() > Duration::from_secs(60) {
            unsafe {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, std::ptr::null_mut(), 0);
            }
            return Err(Fail::new("hang", "no answer after 60 s"));
        }
    }
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    match serde_json::from_slice::<Value>(&text) {
        Ok(v) if v.get("ok").is_some() => Ok(v["ok"].clone()),
        Ok(v) => Err(Fail::new(v["key"].as_str().unwrap_or("?"), v["msg"].as_str().unwrap_or("?"))),
        Err(_) => Err(Fail::new("crash", format!("the process died (status {st})"))),
    }
}
