//! Exhaustive exploration engine: see /verif/DESIGN.md.
//!
//! A check is a list of finite spaces `0..total`.  Every index is decoded and run on the real code in a forked
//! worker; a wrong answer, a panic, the death or the hang of the worker is a violation, which is confirmed in a
//! fresh process before it is reported.
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub use serde_json;

#[derive(Clone, Debug)]
pub struct Fail {
    /// Stable identification of what fails (matched with known findings).
    pub key: String,
    pub msg: String,
}

impl Fail {
    pub fn new(key: impl Into<String>, msg: impl Into<String>) -> Fail {
        Fail { key: key.into(), msg: msg.into() }
    }
}

pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $key:expr, $($arg:tt)*) => {
        if !($c) { return Err($crate::Fail::new($key, format!($($arg)*))); }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $key:expr, $($arg:tt)*) => {
        { let (a, b) = (&$a, &$b);
          if a != b { return Err($crate::Fail::new($key, format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b))); } }
    };
}

pub fn h<T: Hash>(t: T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

/// What one worker observed.
#[derive(Default)]
pub struct Ctx {
    pub evals: u64,
    pub transitions: u64,
    pub traces: u64,
    states: HashSet<u64>,
    nontrivial: HashSet<u64>,
    outcomes: HashSet<u64>,
    counters: std::collections::BTreeMap<String, u64>,
    pub scratch: PathBuf,
    pub worker: usize,
    /// Harness crates may keep per worker things here.
    pub any: Option<Box<dyn std::any::Any>>,
}

impl Ctx {
    /// One execution of the code under test.
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    pub fn evals(&mut self, n: u64) {
        self.evals += n;
    }
    /// Steps of the model/environment answers.
    pub fn step(&mut self, n: u64) {
        self.transitions += n;
    }
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    pub fn state<T: Hash>(&mut self, t: T) {
        self.states.insert(h(t));
    }
    pub fn nontrivial<T: Hash>(&mut self, t: T) {
        self.nontrivial.insert(h(t));
    }
    pub fn outcome<T: Hash>(&mut self, t: T) {
        self.outcomes.insert(h(t));
    }
    pub fn count(&mut self, name: &str, n: u64) {
        *self.counters.entry(name.to_string()).or_insert(0) += n;
    }
    /// An empty scratch directory of this worker.
    pub fn clean_scratch(&self) -> PathBuf {
        let p = self.scratch.join("w");
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).expect("scratch");
        p
    }
}

pub struct Space {
    pub name: String,
    pub total: u64,
    pub bound: String,
    pub timeout: Duration,
    pub block: u64,
    pub procs: usize,
    pub describe: Box<dyn Fn(u64) -> Value>,
    pub run: Box<dyn Fn(u64, &mut Ctx) -> Res>,
}

impl Space {
    pub fn new(
        name: &str,
        bound: impl Into<String>,
        total: u64,
        describe: impl Fn(u64) -> Value + 'static,
        run: impl Fn(u64, &mut Ctx) -> Res + 'static,
    ) -> Space {
        Space {
            name: name.to_string(),
            bound: bound.into(),
            total,
            timeout: Duration::from_secs(120),
            block: 0,
            procs: 8,
            describe: Box::new(describe),
            run: Box::new(run),
        }
    }
    pub fn procs(mut self, n: usize) -> Space {
        self.procs = n;
        self
    }
    pub fn timeout(mut self, s: u64) -> Space {
        self.timeout = Duration::from_secs(s);
        self
    }
}

pub struct Check {
    pub level: &'static str,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub spaces: Vec<Space>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

// ---- mixed radix helpers -------------------------------------------------

/// Decode an index in a mixed radix.
pub struct Dec(pub u64);
impl Dec {
    pub fn take(&mut self, n: u64) -> usize {
        let r = self.0 % n;
        self.0 /= n;
        r as usize
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.take(xs.len() as u64)]
    }
}

/// Number of sequences of length min..=max over k symbols.
pub fn seq_count(k: u64, min: u32, max: u32) -> u64 {
    (min..=max).map(|n| k.pow(n)).sum()
}

/// The i-th sequence of length min..=max over k symbols, shortest first.
pub fn seq_decode(mut i: u64, k: u64, min: u32, max: u32) -> Vec<usize> {
    for n in min..=max {
        let c = k.pow(n);
        if i < c {
            let mut v = vec![0usize; n as usize];
            for slot in v.iter_mut() {
                *slot = (i % k) as usize;
                i /= k;
            }
            return v;
        }
        i -= c;
    }
    panic!("index out of the space")
}

// ---- shared memory -------------------------------------------------------

#[repr(C)]
struct Shared {
    next: AtomicU64,
    stop: AtomicU64,
    cur: [AtomicU64; 64],
    beat: [AtomicU64; 64],
}

fn shared() -> &'static Shared {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        &*(p as *const Shared)
    }
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn last_panic() -> String {
    LAST_PANIC.lock().map(|s| s.clone()).unwrap_or_default()
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        if let Ok(mut s) = LAST_PANIC.lock() {
            *s = info.to_string();
        }
        if std::env::var_os("VERIF_VERBOSE").is_some() {
            eprintln!("{info}");
        }
    }));
}

/// Run f, turning a panic into a failure.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| Fail::new(format!("panic:{what}"), format!("{what} panicked: {}", last_panic())))
}

/// Run f in a forked child and return what it gives: what the child did leaves no trace in this process.
pub fn in_child(f: impl FnOnce() -> String) -> Result<String, Fail> {
    use std::os::fd::FromRawFd;
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0, "pipe");
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let r = match catch_unwind(AssertUnwindSafe(f)) {
                Ok(s) => format!("+{s}"),
                Err(_) => format!("-{}", last_panic()),
            };
            let _ = std::fs::File::from_raw_fd(fds[1]).write_all(r.as_bytes());
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut s = String::new();
        let read = std::io::Read::read_to_string(&mut std::fs::File::from_raw_fd(fds[0]), &mut s);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        match s.split_at(s.len().min(1)) {
            ("+", r) if read.is_ok() => Ok(r.to_string()),
            (_, r) => Err(Fail::new("panic", format!("the child died (status {st}) {r}"))),
        }
    }
}

fn run_case(sp: &Space, i: u64, ctx: &mut Ctx) -> Res {
    match catch_unwind(AssertUnwindSafe(|| (sp.run)(i, ctx))) {
        Ok(r) => r,
        Err(_) => Err(Fail::new("panic", format!("panic: {}", last_panic()))),
    }
}


fn set_limits() {
    unsafe {
        let gb = 6u64 << 30;
        let l = libc::rlimit { rlim_cur: gb, rlim_max: gb };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}

fn write_out(dir: &Path, w: usize, ctx: &Ctx, fails: &[(u64, Fail)]) {
    let dump = |n: &str, s: &HashSet<u64>| {
        let mut b = Vec::with_capacity(s.len() * 8);
        for x in s {
            b.extend_from_slice(&x.to_le_bytes());
        }
        std::fs::write(dir.join(format!("{n}.{w}")), b).unwrap();
    };
    dump("states", &ctx.states);
    dump("nontrivial", &ctx.nontrivial);
    dump("outcomes", &ctx.outcomes);
    let fails: Vec<Value> = fails.iter().map(|(i, f)| json!({"i": i, "key": f.key, "msg": f.msg})).collect();
    let v = json!({"evals": ctx.evals, "transitions": ctx.transitions, "traces": ctx.traces,
                   "counters": ctx.counters, "fails": fails});
    std::fs::write(dir.join(format!("out.{w}")), v.to_string()).unwrap();
}

fn worker(sp: &Space, sh: &Shared, w: usize, dir: &Path, block: u64, known: &HashSet<String>) -> ! {
    set_limits();
    let mut ctx = Ctx { scratch: dir.join(format!("scratch.{w}")), worker: w, ..Default::default() };
    std::fs::create_dir_all(&ctx.scratch).unwrap();
    let mut fails: Vec<(u64, Fail)> = Vec::new();
    let mut seen_known: HashSet<String> = HashSet::new();
    'outer: loop {
        if sh.stop.load(SeqCst) != 0 {
            break;
        }
        let start = sh.next.fetch_add(block, SeqCst);
        if start >= sp.total {
            break;
        }
        for i in start..(start + block).min(sp.total) {
            sh.cur[w].store(i + 1, SeqCst);
            sh.beat[w].fetch_add(1, SeqCst);
            if let Err(f) = run_case(sp, i, &mut ctx) {
                if known.contains(&f.key) {
                    if seen_known.insert(f.key.clone()) {
                        fails.push((i, f));
                    }
                } else {
                    fails.push((i, f));
                    sh.stop.store(1, SeqCst);
                    break 'outer;
                }
            }
        }
    }
    sh.cur[w].store(0, SeqCst);
    ctx.any = None;
    write_out(dir, w, &ctx, &fails);
    std::io::stdout().flush().ok();
    unsafe { libc::_exit(0) }
}

struct SpaceOut {
    ctx: Ctx,
    fails: Vec<(u64, Fail)>,
    complete: bool,
}

fn explore(sp: &Space, dir: &Path, known: &HashSet<String>) -> SpaceOut {
    let sh = shared();
    let procs = sp.procs.min(sp.total.max(1) as usize).max(1);
    let block = if sp.block > 0 { sp.block } else { (sp.total / (procs as u64 * 64)).clamp(1, 4096) };
    let mut pids: Vec<(libc::pid_t, usize)> = Vec::new();
    for w in 0..procs {
        std::io::stdout().flush().ok();
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            worker(sp, sh, w, dir, block, known);
        }
        assert!(pid > 0, "fork failed");
        pids.push((pid, w));
    }
    let mut out = SpaceOut { ctx: Ctx::default(), fails: vec![], complete: true };
    let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); procs];
    let mut alive = pids.clone();
    while !alive.is_empty() {
        let mut next = Vec::new();
        for (pid, w) in alive {
            let mut st = 0;
            let r = unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) };
            if r == pid {
                let ok = libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0;
                if !ok {
                    let i = sh.cur[w].load(SeqCst).saturating_sub(1);
                    let how = if libc::WIFSIGNALED(st) {
                        format!("signal {}", libc::WTERMSIG(st))
                    } else {
                        format!("status {}", libc::WEXITSTATUS(st))
                    };
                    out.fails.push((i, Fail::new("crash", format!("the process died ({how})"))));
                    sh.stop.store(1, SeqCst);
                }
                continue;
            }
            let b = sh.beat[w].load(SeqCst);
            if b != last[w].0 {
                last[w] = (b, Instant::now());
            } else if last[w].1.elapsed() > sp.timeout {
                let i = sh.cur[w].load(SeqCst).saturating_sub(1);
                out.fails.push((i, Fail::new("hang", format!("no answer after {:?}", sp.timeout))));
                sh.stop.store(1, SeqCst);
                unsafe {
                    libc::kill(pid, libc::SIGKILL);
                    libc::waitpid(pid, &mut st, 0);
                }
                continue;
            }
            next.push((pid, w));
        }
        alive = next;
        std::thread::sleep(Duration::from_millis(4));
    }
    for (_, w) in &pids {
        let Ok(s) = std::fs::read(dir.join(format!("out.{w}"))) else { continue };
        let v: Value = serde_json::from_slice(&s).expect("worker output");
        out.ctx.evals += v["evals"].as_u64().unwrap();
        out.ctx.transitions += v["transitions"].as_u64().unwrap();
        out.ctx.traces += v["traces"].as_u64().unwrap();
        for (k, n) in v["counters"].as_object().unwrap() {
            *out.ctx.counters.entry(k.clone()).or_insert(0) += n.as_u64().unwrap();
        }
        for f in v["fails"].as_array().unwrap() {
            out.fails.push((
                f["i"].as_u64().unwrap(),
                Fail::new(f["key"].as_str().unwrap(), f["msg"].as_str().unwrap()),
            ));
        }
        let load = |n: &str, s: &mut HashSet<u64>| {
            if let Ok(b) = std::fs::read(dir.join(format!("{n}.{w}"))) {
                for c in b.chunks_exact(8) {
                    s.insert(u64::from_le_bytes(c.try_into().unwrap()));
                }
            }
        };
        load("states", &mut out.ctx.states);
        load("nontrivial", &mut out.ctx.nontrivial);
        load("outcomes", &mut out.ctx.outcomes);
        for n in ["out", "states", "nontrivial", "outcomes"] {
            let _ = std::fs::remove_file(dir.join(format!("{n}.{w}")));
        }
    }
    out.fails.sort_by_key(|(i, _)| *i);
    out.complete = sh.next.load(SeqCst) >= sp.total && sh.stop.load(SeqCst) == 0;
    out
}

/// Run one case in fresh processes until it fails again, each time with other seeds of the standard hash maps.
fn confirm(sp: &Space, i: u64, dir: &Path) -> bool {
    let start = Instant::now();
    (0..300u64).take_while(|k| *k < 5 || start.elapsed() < Duration::from_secs(25)).any(|k| confirm_once(sp, i, dir, k))
}

fn confirm_once(sp: &Space, i: u64, dir: &Path, attempt: u64) -> bool {
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        set_limits();
        // the keys of a thread are random once and counted up from there
        for _ in 0..attempt * 7 {
            let _ = std::collections::hash_map::RandomState::new();
        }
        let mut ctx = Ctx { scratch: dir.join("scratch.confirm"), ..Default::default() };
        std::fs::create_dir_all(&ctx.scratch).unwrap();
        let r = run_case(sp, i, &mut ctx);
        unsafe { libc::_exit(if r.is_ok() { 0 } else { 3 }) }
    }
    let start = Instant::now();
    let mut st = 0;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) };
        if r == pid {
            return !(libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0);
        }
        if start.elapsed() > sp.timeout {
            unsafe {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut st, 0);
            }
            return true;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn scratch_root() -> PathBuf {
    // A memory backed file system keeps the many small directories fast.
    let shm = Path::new("/dev/shm");
    let base = if shm.is_dir() && std::fs::write(shm.join(format!("vt{}", std::process::id())), b"x").is_ok() {
        let _ = std::fs::remove_file(shm.join(format!("vt{}", std::process::id())));
        shm.to_path_buf()
    } else {
        std::env::temp_dir()
    };
    let d = base.join(format!("verif-{}", std::process::id()));
    std::fs::create_dir_all(&d).expect("scratch root");
    d
}

/// Keys of the known findings of a property: lines `known: property=C01 key=<key> <text>`.
fn known_findings(prop: &str) -> Vec<(String, String)> {
    let mut res = Vec::new();
    let text = std::fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix(&format!("known: property={prop} key=")) {
            let (k, d) = rest.split_once(' ').unwrap_or((rest, ""));
            res.push((k.to_string(), d.to_string()));
        }
    }
    res
}

pub fn run_main(checks: impl Fn(&str, Tier) -> Option<Check>) -> ! {
    let args: Vec<String> = std::env::args().collect();
    quiet_panics();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let prop = args.get(2).expect("property");
            let tier = if args.get(3).map(|s| s.as_str()) == Some("thorough") { Tier::Thorough } else { Tier::Quick };
            let check = checks(prop, tier).unwrap_or_else(|| {
                eprintln!("unknown property {prop}");
                std::process::exit(2)
            });
            let dir = scratch_root();
            let code = run_check(prop, tier, check, &dir);
            let _ = std::fs::remove_dir_all(&dir);
            code
        }
        Some("replay") => {
            let f = args.get(2).expect("replay file");
            let v: Value = serde_json::from_slice(&std::fs::read(f).expect("read")).expect("json");
            let tier = if v["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
            let check = checks(v["property"].as_str().unwrap(), tier).expect("property");
            let sp = check.spaces.iter().find(|s| s.name == v["space"].as_str().unwrap()).expect("space");
            let i = v["index"].as_u64().unwrap();
            println!("case: {}", (sp.describe)(i));
            let dir = scratch_root();
            let mut ctx = Ctx { scratch: dir.join("scratch.replay"), ..Default::default() };
            std::fs::create_dir_all(&ctx.scratch).unwrap();
            let r = run_case(sp, i, &mut ctx);
            let again = r.is_ok() && confirm(sp, i, &dir);
            let _ = std::fs::remove_dir_all(&dir);
            match r {
                Ok(()) if again => {
                    println!("fails with other hash seeds: {} {}", v["key"], v["message"]);
                    1
                }
                Ok(()) => {
                    println!("holds");
                    0
                }
                Err(f) => {
                    println!("fails [{}]: {}", f.key, f.msg);
                    1
                }
            }
        }
        _ => {
            eprintln!("usage: {} run Cxx quick|thorough | replay FILE", args[0]);
            2
        }
    };
    std::process::exit(code)
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}… ({} bytes)", &s[..e], s.len())
    }
}

fn run_check(prop: &str, tier: Tier, check: Check, dir: &Path) -> i32 {
    let start = Instant::now();
    let known = known_findings(prop);
    let known_keys: HashSet<String> = known.iter().map(|k| k.0.clone()).collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let mut tot = Ctx::default();
    let mut spaces = Vec::new();
    let mut samples = Vec::new();
    let mut violation: Option<(String, u64, Fail)> = None;
    let mut once: Vec<String> = Vec::new();
    let mut hit_known: HashSet<String> = HashSet::new();
    let mut exhaustive = true;
    for (n, sp) in check.spaces.iter().enumerate() {
        // while a space is being written: `h-x run Cxx quick "name of the space"`
        if sp.total == 0 || std::env::args().nth(4).map_or(false, |only| only != sp.name) {
            exhaustive &= sp.total == 0;
            continue;
        }
        let t = Instant::now();
        let mut out = explore(sp, dir, &known_keys);
        hit_known.extend(out.fails.iter().map(|x| x.1.key.clone()).filter(|k| known_keys.contains(k)));
        let new = |o: &SpaceOut| o.fails.iter().filter(|x| !known_keys.contains(&x.1.key)).cloned().collect::<Vec<_>>();
        let fails = new(&out);
        violation = fails.iter().take(4).find(|(i, _)| confirm(sp, *i, dir)).map(|(i, f)| (sp.name.clone(), *i, f.clone()));
        if let (None, Some((i, f))) = (&violation, fails.first()) {
            // Not seen again alone: explore everything once more.
            let what = format!("{prop} {} case {i} failed once ({}: {}) but not when repeated: {}", sp.name, f.key, clip(&f.msg, 2000), clip(&(sp.describe)(*i).to_string(), 2000));
            println!("NOTE: {what}");
            once.push(what);
            out = explore(sp, dir, &known_keys);
            violation = new(&out).first().map(|(i, f)| (sp.name.clone(), *i, f.clone()));
        }
        exhaustive &= out.complete;
        let c = out.ctx;
        // Samples: the middle and last cases of each space.
        for i in [sp.total / 3, sp.total - 1] {
            samples.push(json!({"space": sp.name, "index": i, "case": clip(&(sp.describe)(i).to_string(), 600)}));
        }
        spaces.push(json!({"name": sp.name, "bound": sp.bound, "cases": sp.total, "complete": out.complete,
            "evaluations": c.evals, "transitions": c.transitions, "states": c.states.len(),
            "distinct_nontrivial": c.nontrivial.len(), "distinct_outcomes": c.outcomes.len(),
            "counters": c.counters, "wall_s": t.elapsed().as_secs_f64()}));
        println!(
            "{prop} {}: {} cases, {} evaluations, {} states, {} transitions, {} nontrivial, {} outcomes, {:.1}s{} {:?}",
            sp.name, sp.total, c.evals, c.states.len(), c.transitions, c.nontrivial.len(), c.outcomes.len(),
            t.elapsed().as_secs_f64(), if out.complete { "" } else { " INCOMPLETE" }, c.counters
        );
        tot.evals += c.evals;
        tot.transitions += c.transitions;
        tot.traces += c.traces;
        for s in c.states {
            tot.states.insert(h((n, s)));
        }
        for s in c.nontrivial {
            tot.nontrivial.insert(h((n, s)));
        }
        for s in c.outcomes {
            tot.outcomes.insert(h((n, s)));
        }
        if violation.is_some() {
            exhaustive = false;
            break;
        }
    }
    let mut cov = json!({
        "samples": samples, "spaces": spaces, "exhaustive": exhaustive,
        "distinct_outcomes": tot.outcomes.len(),
    });
    let o = cov.as_object_mut().unwrap();
    if check.level == "model_checking" {
        o.insert("states".into(), json!(tot.states.len()));
        o.insert("transitions".into(), json!(tot.transitions));
        // Every evaluation runs the implementation next to the model, unless a harness counts its traces itself.
        if tot.traces > 0 && tot.traces != tot.evals {
            o.insert("executions".into(), json!(tot.evals));
        }
        o.insert("traces_validated_against_impl".into(), json!(if tot.traces > 0 { tot.traces } else { tot.evals }));
    } else {
        o.insert("evaluations".into(), json!(tot.evals));
        o.insert("distinct_nontrivial".into(), json!(tot.nontrivial.len()));
    }
    o.insert("rule".into(), json!(check.rule));
    let ev = json!({
        "property": prop, "tier": if tier == Tier::Quick { "quick" } else { "thorough" }, "seed": seed,
        "level": check.level, "coverage": cov, "assumptions": check.assumptions,
        "wall_s": start.elapsed().as_secs_f64(), "violations": violation.is_some() as u32,
        "failed_once_only": once,
        "known_findings": hit_known.iter().collect::<Vec<_>>(),
    });
    let edir = verif_dir().join("evidence");
    std::fs::create_dir_all(&edir).unwrap();
    std::fs::write(edir.join(format!("{prop}.json")), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
    for (k, d) in &known {
        if hit_known.contains(k) {
            println!("KNOWN-FINDING: property={prop} {k} {d}");
        }
    }
    if let Some((space, i, f)) = violation {
        let sp = check.spaces.iter().find(|s| s.name == space).unwrap();
        let case = (sp.describe)(i);
        let rdir = verif_dir().join("replays");
        std::fs::create_dir_all(&rdir).unwrap();
        let path = rdir.join(format!("{prop}-{}-{i}.json", space.replace(' ', "-")));
        let v = json!({"property": prop, "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
            "space": space, "index": i, "key": f.key, "message": f.msg, "case": case,
            "program": std::env::args().next()});
        std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap() + "\n").unwrap();
        println!("case {}", clip(&case.to_string(), 3000));
        println!("what [{}] {}", f.key, clip(&f.msg, 3000));
        println!("VIOLATION property={prop} replay={}", path.display());
        return 1;
    }
    println!("{prop}: held on everything explored ({:.1}s)", start.elapsed().as_secs_f64());
    0
}

