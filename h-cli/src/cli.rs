//! Runs the program.
use std::io::Read;
use std::os::fd::FromRawFd;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use vengine::*;

pub struct Out {
    /// The exit status, None if a signal ended it.
    pub code: Option<i32>,
    pub out: String,
    pub err: String,
}

impl Out {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    /// Reports a problem, and is not a crash.
    pub fn is_error(&self) -> bool {
        matches!(self.code, Some(c) if c != 0 && c != 101) && !self.err.contains("panicked at")
    }
    pub fn show(&self) -> String {
        let cut = |s: &str| s.chars().take(1200).collect::<String>();
        format!("status {:?}, output {:?}, errors {:?}", self.code, cut(&self.out), cut(&self.err))
    }
}

pub fn program() -> PathBuf {
    match std::env::var_os("LOGREDUCE_CLI") {
        Some(p) => p.into(),
        None => verif_dir().join(".target/cli/release/logreduce-cli"),
    }
}

/// The library that keeps some files closed to the program.
pub fn preload() -> Option<PathBuf> {
    let p = match std::env::var_os("VERIF_PRELOAD") {
        Some(p) => p.into(),
        None => verif_dir().join(".target/release/libpreload.so"),
    };
    p.exists().then_some(p)
}

fn command(dir: &Path, args: &[&str]) -> Command {
    let mut c = Command::new(program());
    c.args(args).current_dir(dir).env_clear().env("PATH", "/usr/bin:/bin").env("HOME", dir.join("../home")).env("XDG_CACHE_HOME", dir.join("../home/cache")).env("LANG", "C.UTF-8").stdin(Stdio::null());
    if let Some(p) = preload() {
        c.env("LD_PRELOAD", p);
    }
    c
}

fn wait(mut child: std::process::Child, mut out: impl FnMut() -> Vec<u8>) -> Result<(Option<i32>, Vec<u8>), Fail> {
    let mut e = child.stderr.take().unwrap();
    let errs = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = e.read_to_end(&mut v);
        v
    });
    let pid = child.id() as i32;
    let (tx, rx) = std::sync::mpsc::channel::<()>();
    let dog = std::thread::spawn(move || {
        let start = Instant::now();
        while start.elapsed() < Duration::from_secs(60) {
            if rx.recv_timeout(Duration::from_millis(500)) != Err(std::sync::mpsc::RecvTimeoutError::Timeout) {
                return false;
            }
        }
        unsafe { libc::kill(pid, libc::SIGKILL) };
        true
    });
    let _ = out();
    let st = child.wait().map_err(|e| Fail::new("wait", e.to_string()))?;
    let _ = tx.send(());
    if dog.join().unwrap() {
        return Err(Fail::new("hang", "the program does not end"));
    }
    Ok((st.code(), errs.join().unwrap()))
}

pub fn run(dir: &Path, args: &[&str]) -> Result<Out, Fail> {
    run_env(dir, args, &[])
}

pub fn run_env(dir: &Path, args: &[&str], env: &[(&str, &str)]) -> Result<Out, Fail> {
    let mut child = command(dir, args).envs(env.iter().copied()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap_or_else(|e| panic!("{:?}: {e}", program()));
    let mut o = child.stdout.take().unwrap();
    let mut out = vec![];
    let (code, err) = wait(child, || {
        let _ = o.read_to_end(&mut out);
        vec![]
    })?;
    Ok(Out { code, out: String::from_utf8_lossy(&out).into_owned(), err: String::from_utf8_lossy(&err).into_owned() })
}

/// With a terminal as its output.
pub fn run_tty(dir: &Path, args: &[&str]) -> Result<Out, Fail> {
    let (mut m, mut s) = (0i32, 0i32);
    let r = unsafe { libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null_mut(), std::ptr::null_mut()) };
    assert_eq!(r, 0, "openpty");
    unsafe {
        libc::fcntl(m, libc::F_SETFD, libc::FD_CLOEXEC);
        let mut t: libc::termios = std::mem::zeroed();
        libc::tcgetattr(s, &mut t);
        libc::cfmakeraw(&mut t);
        libc::tcsetattr(s, libc::TCSANOW, &t);
    }
    let slave = unsafe { Stdio::from_raw_fd(s) };
    let mut cmd = command(dir, args);
    let child = cmd.stdout(slave).stderr(Stdio::piped()).spawn().unwrap_or_else(|e| panic!("{:?}: {e}", program()));
    drop(cmd);
    let mut master = unsafe { std::fs::File::from_raw_fd(m) };
    let mut out = vec![];
    let (code, err) = wait(child, || {
        let mut buf = [0u8; 65536];
        // the end of the terminal is an error
        while let Ok(n) = master.read(&mut buf) {
            if n == 0 {
                break;
            }
            out.extend_from_slice(&buf[..n]);
        }
        vec![]
    })?;
    Ok(Out { code, out: String::from_utf8_lossy(&out).into_owned(), err: String::from_utf8_lossy(&err).into_owned() })
}

/// Every file below the directory and its bytes.
pub fn snapshot(dir: &Path) -> std::collections::BTreeMap<String, Vec<u8>> {
    let mut m = std::collections::BTreeMap::new();
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).unwrap() {
            let p = e.unwrap().path();
            let name = p.strip_prefix(dir).unwrap().display().to_string();
            if p.is_dir() && !p.is_symlink() {
                m.insert(name + "/", vec![]);
                todo.push(p);
            } else {
                m.insert(name, std::fs::read(&p).unwrap_or_default());
            }
        }
    }
    m
}
