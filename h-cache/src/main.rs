//! C20, C21: the content cache on real files, with injected failures and crash images.
use interpose::{Act, Kind};
use logreduce_cache::Cache;
use std::collections::BTreeMap;
use std::io::Read;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use url::Url;
use vengine::serde_json::json;
use vengine::*;

fn u(s: &str) -> Url {
    Url::parse(s).unwrap()
}

/// The cache below `dir`.
fn cache(dir: &Path) -> Result<Cache, Fail> {
    std::env::set_var("XDG_CACHE_HOME", dir);
    std::env::set_var("HOME", dir);
    Cache::new().map_err(|e| Fail::new("new", format!("{e:#}")))
}

fn noise(n: usize, seed: u64) -> Vec<u8> {
    let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            (x >> 24) as u8
        })
        .collect()
}

const CONTENTS: usize = 9;
fn content(k: usize) -> Vec<u8> {
    match k {
        0 => vec![],
        1 => b"x".to_vec(),
        2 => b"first line\nsecond line\n".to_vec(),
        3 => b"the same line again and again\n".repeat(2000),
        4 => noise(40_000, 3),
        5 => noise(150_000, 5),
        6 => vec![0; 70_000],
        7 => vec![0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3],
        _ => "{\"a\": [1, 2]}\r\n\u{2026}\u{e9}\n".as_bytes().to_vec(),
    }
}

fn short(b: &[u8]) -> String {
    format!("{} bytes {:?}", b.len(), String::from_utf8_lossy(&b[..b.len().min(30)]))
}

/// A remote that delivers `data` in parts and fails or is interrupted where told.
struct Remote {
    data: Vec<u8>,
    pos: usize,
    part: usize,
    /// fail at the call of this number
    fail: Option<(usize, std::io::ErrorKind)>,
    calls: usize,
    /// nothing comes after the failure
    ends: bool,
}

impl Read for Remote {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let c = self.calls;
        self.calls += 1;
        if let Some((n, kind)) = self.fail {
            if c == n {
                if self.ends {
                    self.pos = self.data.len();
                }
                return Err(std::io::Error::new(kind, "remote failure"));
            }
        }
        let n = (self.data.len() - self.pos).min(buf.len()).min(self.part);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        // the rest of the buffer is the remote's to scribble on
        for b in buf[n..].iter_mut().take(4) {
            *b = b'?';
        }
        Ok(n)
    }
}

#[derive(PartialEq, Debug, Clone)]
enum Look {
    Absent,
    Error(String),
    Bytes(Vec<u8>),
}

fn look(c: &Cache, base: &Url, url: &Url) -> Look {
    match c.remote_get(base, url) {
        None => Look::Absent,
        Some(Err(e)) => Look::Error(format!("{e:#}")),
        Some(Ok(mut r)) => {
            let mut v = vec![];
            match r.read_to_end(&mut v) {
                Ok(_) => Look::Bytes(v),
                Err(e) => Look::Error(e.to_string()),
            }
        }
    }
}

/// What may be found: nothing, an error, or exactly this.
fn whole_or_nothing(l: &Look, data: &[u8], must: bool, what: &str) -> Res {
    match l {
        Look::Bytes(b) => ensure!(b == data, "altered", "{what}: the cache serves {} instead of {}", short(b), short(data)),
        Look::Absent | Look::Error(_) => ensure!(!must, "lost", "{what}: the cache has {l:?} of a completely read file"),
    }
    Ok(())
}

fn list_or_nothing(l: Option<Result<Vec<Url>, String>>, exp: &[Url], must: bool, what: &str) -> Res {
    match l {
        Some(Ok(v)) => ensure!(v == exp, "altered", "{what}: the cache serves {} urls instead of {}", v.len(), exp.len()),
        None | Some(Err(_)) => ensure!(!must, "lost", "{what}: the cache lost a listing"),
    }
    Ok(())
}

fn listing(c: &Cache, url: &Url) -> Option<Result<Vec<Url>, String>> {
    c.httpdir_get(url).map(|r| r.map_err(|e| format!("{e:#}")))
}

/// Reads a stream with buffers of `size`, as a consumer would; stops after `stop` reads.
/// Returns what was seen and whether the end was reached.
fn consume(r: &mut dyn Read, size: usize, zero: bool, stop: Option<usize>) -> (Vec<u8>, Option<String>, bool) {
    let mut out = vec![];
    let mut buf = vec![b'!'; size];
    let mut n = 0;
    loop {
        if stop == Some(n) {
            return (out, None, false);
        }
        n += 1;
        if zero {
            assert_eq!(r.read(&mut []).unwrap_or(0), 0);
        }
        match r.read(&mut buf) {
            Ok(0) => return (out, None, true),
            Ok(k) => out.extend_from_slice(&buf[..k]),
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
            Err(e) => return (out, Some(e.to_string()), false),
        }
    }
}

const BASE: &str = "http://localhost/base/";
const URL: &str = "http://localhost/base/some/file.txt";
const SIZES: [usize; 5] = [1, 7, 4096, 8192, 1_000_000];
const PARTS: [usize; 4] = [usize::MAX, 1, 1000, 32768];
const ENDS: u64 = 5;

fn c20_transfers(tier: Tier) -> Space {
    let steps = tier.pick(14, 40);
    let total = CONTENTS as u64 * 5 * 4 * 2 * ENDS * steps;
    let dec = move |i: u64| {
        let mut d = Dec(i);
        let k = d.take(CONTENTS as u64);
        let size = SIZES[d.take(5)];
        let part = PARTS[d.take(4)];
        let zero = d.take(2) == 1;
        let end = d.take(ENDS);
        let at = d.take(steps);
        (k, size, part, zero, end, at)
    };
    const NAMES: [&str; 5] = ["complete", "fails at this read", "abandoned before this read", "interrupted at this read", "fails, read goes on"];
    Space::new(
        "transfers",
        format!("9 contents x 5 consumer buffers x 4 remote part sizes x zero-length reads or not x complete / failing / abandoned / interrupted / failing and resumed at each of the first and last {} reads", steps / 2),
        total,
        move |i| {
            let (k, size, part, zero, end, at) = dec(i);
            json!({"content": short(&content(k)), "buffer": size, "part": part.min(1 << 30), "zero_reads": zero, "end": NAMES[end], "at": at})
        },
        move |i, ctx| {
            let (k, size, part, zero, end, at) = dec(i);
            let data = content(k);
            let piece = size.min(part);
            let reads = data.len().div_ceil(piece) + 1;
            if reads > 6000 || (end == 0 && at > 0) {
                return Ok(());
            }
            // first half counts from the start, second half from the end
            let half = (steps / 2) as usize;
            let n = if at < half { at } else { (reads + half).saturating_sub(at + 1) };
            if n >= reads + 1 || (at >= half && n < half) {
                return Ok(());
            }
            let dir = ctx.clean_scratch();
            let c = cache(&dir)?;
            let (base, url) = (u(BASE), u(URL));
            let fail = match end {
                1 | 4 => Some((if zero { 2 * n + 1 } else { n }, std::io::ErrorKind::ConnectionReset)),
                3 => Some((if zero { 2 * n + 1 } else { n }, std::io::ErrorKind::Interrupted)),
                _ => None,
            };
            let mut r = c.remote_add(&base, &url, Remote { data: data.clone(), pos: 0, part, fail, calls: 0, ends: false }).map_err(|e| Fail::new("add", format!("{e:#}")))?;
            let stop = if end == 2 { Some(n) } else { None };
            let (seen, err, done) = consume(&mut r, size, zero, stop);
            let what = NAMES[end];
            ctx.eval();
            ctx.step(reads as u64);
            ctx.state((k, size, part, end, n));
            let failed = fail.is_some_and(|f| f.1 != std::io::ErrorKind::Interrupted) && n < reads;
            match end {
                1 | 4 if failed => {
                    ensure_eq!(err, Some("remote failure".to_string()), "reader", "{what}: the reader's error");
                    ensure!(seen == data[..(n * piece).min(data.len())], "reader", "{what}: the reader saw {} before the error", short(&seen));
                }
                2 if n < reads => ensure!(seen == data[..(n * piece).min(data.len())], "reader", "{what}: the reader saw {}", short(&seen)),
                _ => {
                    ensure_eq!(err, None, "reader", "{what}: unexpected error");
                    ensure!(done && seen == data, "reader", "{what}: the reader saw {}", short(&seen));
                }
            }
            if end == 4 && failed {
                let (rest, err, done) = consume(&mut r, size, zero, None);
                ensure_eq!(err, None, "reader", "{what}: unexpected second error");
                ensure!(done && rest == data[seen.len()..], "reader", "{what}: the reader saw {} after the error", short(&rest));
            }
            // while the reader lives, and after
            let complete = !failed && done;
            if end != 4 || !failed {
                whole_or_nothing(&look(&c, &base, &url), &data, complete, &format!("{what}, reader still there"))?;
            } else {
                whole_or_nothing(&look(&c, &base, &url), &data, false, &format!("{what}, reader still there"))?;
            }
            if complete && fail.is_none() {
                // reading past the end changes nothing
                let mut b = [0; 16];
                ensure_eq!(r.read(&mut b).map_err(|e| e.to_string()), Ok(0), "reader", "read past the end");
            }
            drop(r);
            let l = look(&cache(&dir)?, &base, &url);
            whole_or_nothing(&l, &data, complete, what)?;
            if !complete {
                // fetched again by the next run
                ensure!(!matches!(l, Look::Error(_)), "stuck", "{what}: the entry stays as an error: {l:?}");
                if l == Look::Absent {
                    let mut r = c.remote_add(&base, &url, Remote { data: data.clone(), pos: 0, part, fail: None, calls: 0, ends: false }).map_err(|e| Fail::new("retry", format!("{what}: {e:#}")))?;
                    let (seen, err, _) = consume(&mut r, size, zero, None);
                    ensure!(err.is_none() && seen == data, "reader", "{what}: the retry saw {}", short(&seen));
                    drop(r);
                    whole_or_nothing(&look(&c, &base, &url), &data, true, &format!("{what}, retried"))?;
                }
            }
            ctx.outcome((complete, k));
            ctx.nontrivial((k, size, part, end, n));
            Ok(())
        },
    )
}

/// Every kind of failure, after which the remote has nothing more, the rest, or is left alone.
fn c20_error_kinds() -> Space {
    use std::io::ErrorKind::*;
    const KINDS: [std::io::ErrorKind; 20] = [
        UnexpectedEof, TimedOut, ConnectionReset, ConnectionAborted, ConnectionRefused, BrokenPipe, WouldBlock, InvalidData, InvalidInput, NotConnected, Other, NotFound, PermissionDenied, AddrInUse,
        AddrNotAvailable, AlreadyExists, WriteZero, Unsupported, OutOfMemory, Interrupted,
    ];
    const AFTER: [&str; 3] = ["abandoned", "read goes on and finds the end", "read goes on and finds the rest"];
    const CONTENT: [usize; 4] = [1, 10, 3000, 20_000];
    Space::new(
        "error kinds",
        "20 kinds of read errors at each of 5 reads of 4 contents, after which the reader is abandoned, finds the end or finds the rest: the cache has the whole file or nothing, and the error reaches the reader",
        20 * 5 * 4 * 3,
        move |i| {
            let mut d = Dec(i);
            let (k, at, c) = (KINDS[d.take(20)], d.take(5), CONTENT[d.take(4)]);
            json!({"kind": format!("{k:?}"), "at": at, "size": c, "then": AFTER[d.take(3)]})
        },
        move |i, ctx| {
            let mut d = Dec(i);
            let (kind, at, size, then) = (KINDS[d.take(20)], d.take(5), CONTENT[d.take(4)], d.take(3));
            let data: Vec<u8> = (0..size).map(|x| b"remote content\n"[x % 15]).collect();
            let part = size.div_ceil(4);
            let dir = ctx.clean_scratch();
            let c = cache(&dir)?;
            let (base, url) = (u(BASE), u(URL));
            let mut r = c.remote_add(&base, &url, Remote { data: data.clone(), pos: 0, part, fail: Some((at, kind)), calls: 0, ends: then == 1 && kind != Interrupted }).map_err(|e| Fail::new("add", format!("{e:#}")))?;
            let (mut seen, err, done) = consume(&mut r, 1 << 16, false, None);
            ctx.eval();
            ctx.step(1 + at as u64);
            ctx.state(i);
            ctx.nontrivial(i);
            let reads = size.div_ceil(part) + 1;
            let hit = at < reads && kind != Interrupted;
            if hit {
                ensure_eq!(err, Some("remote failure".to_string()), "reader", "{kind:?}: the reader's error");
                if then > 0 {
                    let (rest, err, _) = consume(&mut r, 1 << 16, false, None);
                    ensure_eq!(err, None, "reader", "{kind:?}: second error");
                    seen.extend(rest);
                }
            } else {
                ensure!(done && err.is_none(), "reader", "{kind:?}: {err:?}");
            }
            if kind != Interrupted {
                whole_or_nothing(&look(&c, &base, &url), &data, !hit, &format!("{kind:?} at read {at}, {}, reader still there", AFTER[then]))?;
            }
            drop(r);
            let l = look(&cache(&dir)?, &base, &url);
            let must = !hit && kind != Interrupted;
            whole_or_nothing(&l, &data, must, &format!("{kind:?} at read {at} of {reads}, {} (the reader saw {} bytes)", AFTER[then], seen.len()))?;
            ensure!(!matches!(l, Look::Error(_)), "stuck", "{kind:?}: the entry stays as an error: {l:?}");
            ctx.outcome((hit, l == Look::Absent));
            Ok(())
        },
    )
}

// ---- operations with failures and crashes -----------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
enum Job {
    Fetch(usize),
    Abandon(usize),
    Listing(usize),
    HeadTrue,
    HeadFalse,
}
const JOBS: [Job; 13] = [
    Job::Fetch(0),
    Job::Fetch(1),
    Job::Fetch(2),
    Job::Fetch(3),
    Job::Fetch(4),
    Job::Fetch(5),
    Job::Abandon(4),
    Job::Abandon(5),
    Job::Listing(0),
    Job::Listing(3),
    Job::Listing(60),
    Job::HeadTrue,
    Job::HeadFalse,
];

fn urls(n: usize) -> Vec<Url> {
    (0..n).map(|k| u(&format!("http://localhost/base/dir{}/file{}.log?x={}", k % 7, k, "q".repeat(k % 40)))).collect()
}

/// Runs the job; Ok(true): acknowledged as complete.
fn perform(c: &Cache, j: Job) -> Result<bool, Fail> {
    let (base, url) = (u(BASE), u(URL));
    Ok(match j {
        Job::Fetch(k) | Job::Abandon(k) => {
            let data = content(k);
            let stop = matches!(j, Job::Abandon(_)).then_some(3);
            match c.remote_add(&base, &url, Remote { data: data.clone(), pos: 0, part: usize::MAX, fail: None, calls: 0, ends: false }) {
                Err(_) => false,
                Ok(mut r) => {
                    let (seen, err, done) = consume(&mut r, 8192, false, stop);
                    ensure_eq!(err, None, "reader", "a local failure reaches the reader");
                    ensure!(data.starts_with(&seen) && (stop.is_some() || seen == data), "reader", "the reader saw {}", short(&seen));
                    // a local failure is no error of the reader: nothing is acknowledged
                    let _ = done;
                    false
                }
            }
        }
        Job::Listing(n) => c.httpdir_add(&base, &urls(n)).is_ok(),
        Job::HeadTrue => matches!(c.head_set(&base, &url, true), Ok(true)),
        Job::HeadFalse => matches!(c.head_set(&base, &url, false), Ok(false)),
    })
}

/// The cache below dir holds nothing, or all of the job's result.
fn inspect(dir: &Path, j: Job, must: bool, what: &str) -> Result<bool, Fail> {
    let c = cache(dir)?;
    let (base, url) = (u(BASE), u(URL));
    match j {
        Job::Fetch(k) | Job::Abandon(k) => {
            let l = look(&c, &base, &url);
            whole_or_nothing(&l, &content(k), must, what)?;
            // an incomplete file must not stay in the way of the next run
            ensure!(!matches!(l, Look::Error(_)), "stuck", "{what}: an incomplete entry stays: {l:?}");
            Ok(matches!(l, Look::Bytes(_)))
        }
        Job::Listing(n) => {
            let l = listing(&c, &base);
            let there = l.is_some();
            ensure!(!matches!(l, Some(Err(_))), "stuck", "{what}: an incomplete listing stays: {l:?}");
            list_or_nothing(l, &urls(n), must, what)?;
            Ok(there)
        }
        Job::HeadTrue | Job::HeadFalse => {
            let h = c.head(&base, &url);
            let v = j == Job::HeadTrue;
            ensure!(h.is_none() || h == Some(v), "altered", "{what}: the existence answer is {h:?} instead of {v}");
            ensure!(h.is_some() || !must, "lost", "{what}: the existence answer is lost");
            Ok(h.is_some())
        }
    }
}

/// After anything, running the job again without failures works.
fn rerun(dir: &Path, j: Job, what: &str) -> Res {
    if matches!(j, Job::Abandon(_)) {
        return Ok(());
    }
    if !inspect(dir, j, false, what)? {
        let c = cache(dir)?;
        perform(&c, j).map_err(|f| Fail::new(f.key, format!("{what}, again: {}", f.msg)))?;
        inspect(dir, j, true, &format!("{what}, then again"))?;
    }
    Ok(())
}

fn copy_tree(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap().flatten() {
        let t = to.join(e.file_name());
        if e.file_type().unwrap().is_dir() {
            copy_tree(&e.path(), &t);
        } else {
            std::fs::copy(e.path(), t).unwrap();
        }
    }
}

const MODES: [&str; 5] = ["EIO", "ENOSPC", "one byte then ENOSPC", "half then EIO", "short writes only"];

fn c20_faults() -> Space {
    const MAXOP: u64 = 60;
    let dec = |i: u64| {
        let mut d = Dec(i);
        (*d.pick(&JOBS), d.take(5), d.take(2) == 1, d.take(MAXOP))
    };
    Space::new(
        "faults",
        "a failure at every file operation (up to 60) of fetching 6 contents, abandoning 2, saving 3 listings and 2 existence answers, in 5 modes, once or from there on",
        JOBS.len() as u64 * 5 * 2 * MAXOP,
        move |i| {
            let (j, mode, sticky, at) = dec(i);
            json!({"job": format!("{j:?}"), "operation": at, "mode": MODES[mode], "from_there_on": sticky})
        },
        move |i, ctx| {
            let (j, mode, sticky, at) = dec(i);
            let dir = ctx.clean_scratch();
            let root = dir.join("cache");
            std::fs::create_dir_all(&root).unwrap();
            let c = cache(&root)?;
            let n = Arc::new(Mutex::new((0usize, None::<(Kind, PathBuf)>, false)));
            let n2 = n.clone();
            let ack = interpose::with_hook(
                &root,
                move |op| {
                    let mut s = n2.lock().unwrap();
                    let k = s.0;
                    s.0 += 1;
                    if matches!(op.kind, Kind::Close) {
                        return Act::Go;
                    }
                    // what follows a partial write on the same file
                    if let Some((Kind::Write, p)) = &s.1 {
                        if op.kind == Kind::Write && p == op.path && !sticky && k > at {
                            match mode {
                                2 => {
                                    s.1 = None;
                                    s.2 = true;
                                    return Act::Err(libc::ENOSPC);
                                }
                                3 => {
                                    s.1 = None;
                                    s.2 = true;
                                    return Act::Err(libc::EIO);
                                }
                                _ => {}
                            }
                        }
                    }
                    if k == at || (sticky && k > at) {
                        s.1.get_or_insert((op.kind, op.path.to_path_buf()));
                        let w = op.kind == Kind::Write;
                        match mode {
                            0 => {
                                s.2 = true;
                                Act::Err(libc::EIO)
                            }
                            1 => {
                                s.2 = true;
                                Act::Err(libc::ENOSPC)
                            }
                            2 if w && op.len > 1 && k == at => Act::Short(1),
                            3 if w && op.len > 1 && k == at => Act::Short(op.len / 2),
                            2 | 3 if sticky && w => {
                                s.2 = true;
                                Act::Err(libc::ENOSPC)
                            }
                            4 if w && op.len > 1 => Act::Short(op.len / 3 + 1),
                            _ => Act::Go,
                        }
                    } else {
                        Act::Go
                    }
                },
                || perform(&c, j),
            );
            let (ops, hit, failed) = {
                let s = n.lock().unwrap();
                (s.0, s.1.clone(), s.2)
            };
            if at >= ops && at > 0 {
                return Ok(());
            }
            let what = format!("{j:?} with {} at operation {at} ({:?})", MODES[mode], hit.map(|h| h.0));
            let ack = ack.map_err(|f| Fail::new(f.key, format!("{what}: {}", f.msg)))?;
            ctx.eval();
            ctx.step(ops as u64);
            ctx.state((i, ops));
            ctx.nontrivial(i);
            // with short writes only, or no failure met, everything is kept
            let must = ack || (!failed && matches!(j, Job::Fetch(_)));
            // damage done to the removal of a temporary file may leave it, never an entry
            let there = inspect(&root, j, must, &what)?;
            ctx.outcome((there, failed));
            rerun(&root, j, &what)
        },
    )
}

fn c20_crashes() -> Space {
    let dec = |i: u64| {
        let mut d = Dec(i);
        (*d.pick(&JOBS), d.take(4))
    };
    Space::new(
        "crashes",
        "the process dies before any file operation, or after part of any write, of fetching 6 contents, abandoning 2, saving 3 listings and 2 existence answers; in an empty cache, one with other entries, with the remains of an earlier crash, or when the next process has the number of the dead one",
        JOBS.len() as u64 * 4,
        move |i| {
            let (j, prior) = dec(i);
            json!({"job": format!("{j:?}"), "cache": (["empty", "other entries", "remains of a crash in the middle", "empty, and the next process gets the same number"][prior])})
        },
        move |i, ctx| {
            let (j, prior) = dec(i);
            let dir = ctx.clean_scratch();
            let root = dir.join("cache");
            std::fs::create_dir_all(&root).unwrap();
            let c = cache(&root)?;
            let others = |c: &Cache| -> Res {
                ensure!(look(c, &u(BASE), &u("http://localhost/base/other")) == Look::Bytes(content(8)), "others", "another file is lost or altered");
                ensure!(listing(c, &u("http://localhost/o/")) == Some(Ok(urls(2))), "others", "another listing is lost or altered");
                ensure!(c.head(&u(BASE), &u("http://localhost/base/other")) == Some(true), "others", "another existence answer is lost or altered");
                Ok(())
            };
            if prior == 1 {
                let mut r = c.remote_add(&u(BASE), &u("http://localhost/base/other"), std::io::Cursor::new(content(8))).map_err(|e| Fail::new("add", format!("{e:#}")))?;
                consume(&mut r, 4096, false, None);
                drop(r);
                c.httpdir_add(&u("http://localhost/o/"), &urls(2)).map_err(|e| Fail::new("add", format!("{e:#}")))?;
                c.head_set(&u(BASE), &u("http://localhost/base/other"), true).map_err(|e| Fail::new("add", format!("{e:#}")))?;
                others(&c)?;
            }
            // the images of the directory before each operation and after parts of each write
            let record = |c: &Cache, sub: &str| -> Result<Vec<(PathBuf, String)>, Fail> {
                let snaps = Arc::new(Mutex::new(vec![]));
                let (s2, r2, d2) = (snaps.clone(), root.clone(), dir.join(sub));
                let res = interpose::with_hook(
                    &root,
                    move |op| {
                        let mut s = s2.lock().unwrap();
                        let t = d2.join(s.len().to_string());
                        copy_tree(&r2, &t);
                        s.push((t, format!("before {:?} of {} bytes", op.kind, op.len)));
                        if op.kind == Kind::Write {
                            let rel = op.path.strip_prefix(&r2).unwrap().to_path_buf();
                            for cut in [1, op.len / 2, op.len.saturating_sub(1)] {
                                if cut > 0 && cut < op.len {
                                    let t = d2.join(s.len().to_string());
                                    copy_tree(&r2, &t);
                                    // the bytes are the same ones that would have been written: take them from the descriptor's buffer
                                    s.push((t, format!("PART {cut} {}", rel.display())));
                                }
                            }
                        }
                        Act::Go
                    },
                    || perform(c, j),
                );
                res?;
                let mut s = std::mem::take(&mut *snaps.lock().unwrap());
                let t = dir.join(sub).join("end");
                copy_tree(&root, &t);
                s.push((t, "after all".into()));
                // Complete the partial images with the bytes the file has in the next image.
                for k in 0..s.len() {
                    if let Some(rest) = s[k].1.strip_prefix("PART ") {
                        let (cut, rel) = rest.split_once(' ').unwrap();
                        let cut: usize = cut.parse().unwrap();
                        let next = s[k + 1..].iter().find(|x| !x.1.starts_with("PART")).unwrap().0.join(rel);
                        let mine = s[k].0.join(rel);
                        let mut b = std::fs::read(&mine).unwrap_or_default();
                        let full = std::fs::read(&next).unwrap_or_default();
                        let to = (b.len() + cut).min(full.len());
                        if to > b.len() {
                            b = full[..to].to_vec();
                        }
                        std::fs::write(&mine, b).unwrap();
                        s[k].1 = format!("after {cut} bytes of a write");
                    }
                }
                Ok(s)
            };
            if prior == 2 {
                // start from the image in the middle of an earlier run
                let s = record(&c, "earlier")?;
                let mid = &s[s.len() / 2].0;
                std::fs::remove_dir_all(&root).unwrap();
                copy_tree(mid, &root);
                if inspect(&root, j, false, "earlier crash")? {
                    return Ok(());
                }
            }
            let same_pid = prior == 3;
            let images = if same_pid {
                let v = in_child(|| {
                    interpose::set_pid(4242);
                    match record(&c, "images") {
                        Ok(s) => json!(s.iter().map(|(p, w)| (p.to_str().unwrap(), w)).collect::<Vec<_>>()),
                        Err(f) => json!([f.key, f.msg]),
                    }
                    .to_string()
                })?;
                match vengine::serde_json::from_str::<Vec<(PathBuf, String)>>(&v) {
                    Ok(s) => s,
                    Err(_) => return Err(Fail::new("record", v)),
                }
            } else {
                record(&c, "images")?
            };
            let last = images.len() - 1;
            for (k, (img, when)) in images.iter().enumerate() {
                let what = format!("{j:?}, died {when} (image {k} of {last})");
                ctx.eval();
                ctx.step(1);
                let there = inspect(img, j, k == last && !matches!(j, Job::Abandon(_)), &what)?;
                ctx.state((i, k));
                ctx.outcome(there);
                if prior == 1 {
                    others(&cache(img)?)?;
                }
                if same_pid {
                    let r = in_child(|| {
                        interpose::set_pid(4242);
                        rerun(img, j, &what).map_or_else(|f| format!("[{}] {}", f.key, f.msg), |_| String::new())
                    })?;
                    ensure!(r.is_empty(), "same-number", "{what}, the next process has the same number: {r}");
                } else {
                    rerun(img, j, &what)?;
                }
                if prior == 1 {
                    others(&cache(img)?)?;
                }
            }
            ctx.nontrivial(i);
            Ok(())
        },
    )
    .timeout(300)
}

/// Every truncation of the stored files.
fn c20_cuts(tier: Tier) -> Space {
    let ks: Vec<usize> = if tier == Tier::Quick { vec![0, 1, 2, 8, 7] } else { vec![0, 1, 2, 8, 7, 3, 6, 4] };
    let n = ks.len() as u64;
    let ks2 = ks.clone();
    Space::new(
        "cut files",
        "every truncation of the files of the cache after a complete fetch or listing",
        n + 2,
        move |i| json!({"content": if i < n { short(&content(ks2[i as usize])) } else { format!("listing of {}", [1, 30][(i - n) as usize]) }}),
        move |i, ctx| {
            let dir = ctx.clean_scratch();
            let c = cache(&dir)?;
            let job = if i < n { Job::Fetch(ks[i as usize]) } else { Job::Listing([1, 30][(i - n) as usize]) };
            perform(&c, job)?;
            let mut files = vec![];
            fn walk(d: &Path, f: &mut Vec<PathBuf>) {
                for e in std::fs::read_dir(d).unwrap().flatten() {
                    if e.file_type().unwrap().is_dir() {
                        walk(&e.path(), f)
                    } else {
                        f.push(e.path())
                    }
                }
            }
            walk(&dir, &mut files);
            ensure!(!files.is_empty(), "lost", "no file in the cache after {job:?}");
            for f in files {
                let full = std::fs::read(&f).unwrap();
                for cut in 0..full.len() {
                    std::fs::write(&f, &full[..cut]).unwrap();
                    ctx.eval();
                    ctx.step(1);
                    ctx.state((i, cut));
                    let what = format!("{job:?} cut at {cut} of {}", full.len());
                    match job {
                        Job::Fetch(k) => whole_or_nothing(&look(&c, &u(BASE), &u(URL)), &content(k), false, &what)?,
                        Job::Listing(k) => list_or_nothing(listing(&c, &u(BASE)), &urls(k), false, &what)?,
                        _ => unreachable!(),
                    }
                }
                std::fs::write(&f, &full).unwrap();
            }
            ctx.nontrivial(i);
            Ok(())
        },
    )
}

/// Two readers of the same or of different urls, in every order of their steps.
fn c20_two(tier: Tier) -> Space {
    let len = tier.pick(8u32, 11);
    // each step: which reader moves; its own program is open, read.., end, drop
    let total = (1u64 << len) * 2 * 3 * 3;
    Space::new(
        "two readers",
        format!("every interleaving of the first {len} steps (open, reads, end, drop, look) of two readers of one url or of two, complete, failing or abandoned"),
        total,
        move |i| {
            let mut d = Dec(i);
            let same = d.take(2) == 0;
            let (a, b) = (d.take(3), d.take(3));
            json!({"same_url": same, "ends": [a, b], "order": format!("{:0w$b}", d.0, w = len as usize)})
        },
        move |i, ctx| {
            let mut d = Dec(i);
            let same = d.take(2) == 0;
            let ends = [d.take(3), d.take(3)];
            let order = d.0;
            let dir = ctx.clean_scratch();
            let c = cache(&dir)?;
            let base = u(BASE);
            let url = [u(URL), if same { u(URL) } else { u("http://localhost/base/some/other.txt") }];
            let data = [noise(60_000, 11), b"short and different\n".repeat(5)];
            type R = logreduce_cache::CacheReader<Remote>;
            let mut rs: [Option<R>; 2] = [None, None];
            let mut pc = [0usize; 2];
            let mut seen = [vec![], vec![]];
            let mut done: Vec<usize> = vec![];
            let mut buf = vec![0u8; 32768];
            for s in 0..len + 12 {
                let w = if s < len { (order >> s & 1) as usize } else { (s % 2) as usize };
                pc[w] += 1;
                let part = if w == 0 { 32768 } else { 64 };
                if pc[w] == 1 {
                    let fail = (ends[w] == 1).then_some((1, std::io::ErrorKind::ConnectionReset));
                    // refusing a second transfer of the same url is allowed
                    match c.remote_add(&base, &url[w], Remote { data: data[w].clone(), pos: 0, part, fail, calls: 0, ends: false }) {
                        Ok(r) => rs[w] = Some(r),
                        Err(e) => ensure!(same && (pc[1 - w] > 0), "add", "the first transfer of a url is refused: {e:#}"),
                    }
                } else if let Some(r) = &mut rs[w] {
                    if (ends[w] == 2 && pc[w] == 3) || pc[w] >= 6 {
                        rs[w] = None;
                    } else {
                        match r.read(&mut buf) {
                            Ok(0) => done.push(w),
                            Ok(n) => seen[w].extend_from_slice(&buf[..n]),
                            Err(e) => {
                                ensure!(e.to_string() == "remote failure" && ends[w] == 1, "reader", "unexpected error {e}");
                                rs[w] = None;
                            }
                        }
                        ensure!(data[w].starts_with(&seen[w]), "reader", "reader {w} saw {}", short(&seen[w]));
                    }
                }
                for x in 0..2 {
                    let l = look(&c, &base, &url[x]);
                    if let Look::Bytes(b) = &l {
                        let ok = done.iter().any(|&y| url[y] == url[x] && &data[y] == b);
                        ensure!(ok, "altered", "after step {s} the cache serves {} for reader {x}, completed: {done:?}", short(b));
                    }
                    ensure!(matches!(l, Look::Bytes(_)) || !done.iter().any(|&y| url[y] == url[x]), "lost", "after step {s}: {l:?} for reader {x}, completed: {done:?}");
                    ctx.step(1);
                }
            }
            ctx.eval();
            ctx.state((same, ends, order));
            ctx.nontrivial(i);
            ctx.outcome(&done);
            Ok(())
        },
    )
}

// ------------------------------------------------------------------------------------------------ C21

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op21 {
    Add(usize),
    Partial(usize),
    Drop(usize),
    ListAdd(usize),
    ListDrop(usize),
    Head(usize, bool),
    Reopen,
}

const KEYS: [(&str, &str); 5] = [
    ("http://h/a/", "http://h/a/"),
    ("http://h/a/", "http://h/a/x"),
    ("http://h/a/x", "http://h/a/"),
    ("http://h/a/", "http://h/a/y"),
    ("http://h/b/", "http://h/a/x"),
];

fn ops21() -> Vec<Op21> {
    let mut v = vec![];
    for k in 0..5 {
        v.push(Op21::Add(k));
        v.push(Op21::Drop(k));
        v.push(Op21::Head(k, true));
        v.push(Op21::Head(k, false));
    }
    v.push(Op21::Partial(0));
    v.push(Op21::Partial(1));
    for k in [0, 1] {
        v.push(Op21::ListAdd(k));
        v.push(Op21::ListDrop(k));
    }
    v.push(Op21::Reopen);
    v
}
const LISTS: [&str; 3] = ["http://h/a/", "http://h/a/x", "http://h/b/"];

#[derive(Default, Clone, PartialEq, Eq, Hash, Debug)]
struct Model21 {
    files: BTreeMap<usize, Vec<u8>>,
    lists: BTreeMap<usize, usize>,
    heads: BTreeMap<usize, bool>,
}

fn agree(c: &Cache, m: &Model21, what: &str) -> Res {
    for (k, (b, x)) in KEYS.iter().enumerate() {
        let l = look(c, &u(b), &u(x));
        let e = m.files.get(&k).map_or(Look::Absent, |v| Look::Bytes(v.clone()));
        ensure!(l == e, "file", "{what}: file {b} {x}: {l:?}, expected {e:?}");
        ensure_eq!(c.head(&u(b), &u(x)), m.heads.get(&k).copied(), "head", "{what}: existence of {b} {x}");
    }
    for (k, x) in LISTS.iter().enumerate() {
        let l = listing(c, &u(x));
        let e = m.lists.get(&k).map(|n| Ok(urls(*n)));
        ensure!(l == e, "listing", "{what}: listing {x}: {l:?}, expected {e:?}");
    }
    Ok(())
}

fn c21_sequences(tier: Tier) -> Space {
    let ops = ops21();
    let n = ops.len() as u64;
    let max = tier.pick(4, 5);
    let (o1, o2) = (ops.clone(), ops);
    Space::new(
        "sequences",
        format!("every sequence of {max} operations out of {n} on 5 confusable keys of 3 kinds, all lookups compared after each"),
        n.pow(max),
        move |i| json!(seq_decode(i, n, max, max).iter().map(|&x| format!("{:?}", o1[x])).collect::<Vec<_>>()),
        move |i, ctx| {
            let seq = seq_decode(i, n, max, max);
            let dir = ctx.clean_scratch();
            let mut c = cache(&dir)?;
            let mut m = Model21::default();
            for (s, &x) in seq.iter().enumerate() {
                let op = o2[x];
                let data = format!("content {s} of {x}\n").into_bytes();
                let what = format!("step {s} {op:?}");
                match op {
                    Op21::Add(k) | Op21::Partial(k) => {
                        let whole = matches!(op, Op21::Add(_));
                        match c.remote_add(&u(KEYS[k].0), &u(KEYS[k].1), std::io::Cursor::new(data.clone())) {
                            Ok(mut r) => {
                                ensure!(!m.files.contains_key(&k), "add", "{what}: adding over an entry succeeds");
                                if whole {
                                    let mut v = vec![];
                                    r.read_to_end(&mut v).map_err(|e| Fail::new("add", e.to_string()))?;
                                    m.files.insert(k, data);
                                } else {
                                    let mut b = [0; 4];
                                    r.read_exact(&mut b).map_err(|e| Fail::new("add", e.to_string()))?;
                                }
                            }
                            Err(e) => ensure!(m.files.contains_key(&k), "add", "{what}: {e:#}"),
                        }
                    }
                    Op21::Drop(k) => {
                        let r = c.remote_drop(&u(KEYS[k].0), &u(KEYS[k].1));
                        ensure!(r.is_ok(), "drop", "{what}: {r:?}");
                        m.files.remove(&k);
                    }
                    Op21::ListAdd(k) => {
                        let r = c.httpdir_add(&u(LISTS[k]), &urls(s));
                        ensure_eq!(r.is_ok(), !m.lists.contains_key(&k), "list", "{what}: {r:?}");
                        m.lists.entry(k).or_insert(s);
                    }
                    Op21::ListDrop(k) => {
                        let r = c.httpdir_drop(&u(LISTS[k]));
                        ensure!(r.is_ok(), "drop", "{what}: {r:?}");
                        m.lists.remove(&k);
                    }
                    Op21::Head(k, v) => {
                        let r = c.head_set(&u(KEYS[k].0), &u(KEYS[k].1), v);
                        match &r {
                            Ok(x) => ensure!(*x == v && !m.heads.contains_key(&k), "head", "{what}: {r:?}, known {:?}", m.heads.get(&k)),
                            Err(e) => ensure!(m.heads.contains_key(&k), "head", "{what}: {e:#}"),
                        }
                        m.heads.entry(k).or_insert(v);
                    }
                    Op21::Reopen => c = cache(&dir)?,
                }
                ctx.step(1);
                ctx.state(&m);
                // earlier steps are prefixes of other sequences
                if s + 1 == seq.len() {
                    agree(&c, &m, &what)?;
                    agree(&cache(&dir)?, &m, &what)?;
                }
            }
            ctx.eval();
            ctx.trace();
            ctx.outcome(&m);
            if m != Model21::default() {
                ctx.nontrivial(&seq);
            }
            Ok(())
        },
    )
}

/// Urls which a careless key would confuse.
fn menu21() -> Vec<String> {
    let mut v: Vec<String> = [
        "http://h/", "https://h/", "http://h:81/", "http://u@h/", "http://h/a", "http://h/a/", "http://h/A", "http://h/%61", "http://h/a?", "http://h/a?q", "http://h/a?q=1",
        "http://h/a?q=2", "http://h/a#f", "http://h/a#g", "http://h/a//", "http://h/a/b", "http://h/a/b/", "http://h/a_b", "http://h/a%2Fb", "http://h/\u{e9}", "http://g/a",
        "http://h/1", "http://h/2", "http://h/3", "http://h/0", "http://h/a/b.gz", "http://h/a/b.", "http://h/a/c.log", "http://h/a/c.log.gz", "http://[::1]/a", "http://127.0.0.1/a", "http://h/a;p", "http://h/a+b", "http://h/a%20b",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    for n in [32, 42, 64, 128, 200, 255, 256, 4000] {
        for e in ["x", "y", "x/z"] {
            v.push(format!("http://h/{}{e}", "l".repeat(n)));
        }
    }
    v.sort_by_key(|s| u(s).to_string());
    v.dedup_by_key(|s| u(s).to_string());
    v
}

fn c21_pairs() -> Space {
    let m = menu21();
    let n = m.len() as u64;
    let m2 = m.clone();
    Space::new(
        "keys",
        format!("every ordered pair out of {n} confusable urls as base and url: file, existence and listing stored under it are seen under no other pair, and are seen under their own"),
        n * n,
        move |i| json!({"base": m2[(i / n) as usize], "url": m2[(i % n) as usize]}),
        move |i, ctx| {
            let (b, x) = (u(&m[(i / n) as usize]), u(&m[(i % n) as usize]));
            let dir = ctx.clean_scratch();
            let c = cache(&dir)?;
            let e = |e: String| Fail::new("add", e);
            let mut r = c.remote_add(&b, &x, std::io::Cursor::new(b"stored".to_vec())).map_err(|x| e(format!("{x:#}")))?;
            consume(&mut r, 100, false, None);
            drop(r);
            let truth = i % 2 == 0;
            c.head_set(&b, &x, truth).map_err(|x| e(format!("{x:#}")))?;
            ensure!(listing(&c, &b).is_none() && listing(&c, &x).is_none(), "kinds", "a file is found as a listing");
            c.httpdir_add(&b, &urls(1)).map_err(|x| e(format!("{x:#}")))?;
            for y in &m {
                let y = u(y);
                // all urls under this base, this url under all bases, and the reverse
                for (p, q) in [(&b, &y), (&y, &x), (&y, &b), (&x, &y), (&y, &y)] {
                    let own = *p == b && *q == x;
                    let l = look(&c, p, q);
                    ensure!(l == if own { Look::Bytes(b"stored".to_vec()) } else { Look::Absent }, "file", "file of {b} {x} seen as {p} {q}: {l:?}");
                    ensure_eq!(c.head(p, q), own.then_some(truth), "head", "existence of {b} {x} seen as {p} {q}");
                    ctx.step(2);
                }
                let l = listing(&c, &y);
                ensure!(l == (y == b).then(|| Ok(urls(1))), "listing", "listing of {b} seen as {y}: {l:?}");
            }
            ctx.eval();
            ctx.trace();
            ctx.state(i);
            ctx.nontrivial(i);
            ctx.outcome(truth);
            Ok(())
        },
    )
}

/// Listings keep their urls, in order, whatever they are.
fn c21_listings() -> Space {
    let m = menu21();
    let n = m.len() as u64;
    let m2 = m.clone();
    Space::new(
        "listings",
        format!("every ordered pair of {n} urls as a listing, and listings of 0..5000 urls"),
        n * n + 12,
        move |i| json!({"listing": if i < n * n { vec![m2[(i / n) as usize].clone(), m2[(i % n) as usize].clone()] } else { vec![format!("{} urls", [0, 1, 2, 3, 63, 64, 255, 256, 257, 1000, 1025, 5000][(i - n * n) as usize])] }}),
        move |i, ctx| {
            let l = if i < n * n {
                vec![u(&m[(i / n) as usize]), u(&m[(i % n) as usize])]
            } else {
                urls([0, 1, 2, 3, 63, 64, 255, 256, 257, 1000, 1025, 5000][(i - n * n) as usize])
            };
            let c = cache(&ctx.clean_scratch())?;
            c.httpdir_add(&u(BASE), &l).map_err(|e| Fail::new("add", format!("{e:#}")))?;
            ctx.eval();
            ctx.trace();
            ctx.step(1);
            ctx.state(i);
            ctx.nontrivial(i);
            let got = listing(&c, &u(BASE));
            ensure!(got.as_ref() == Some(&Ok(l.clone())), "listing", "listing {:?} instead of {:?}", got, l);
            Ok(())
        },
    )
}

/// Caches with thousands of entries, and urls of every length.
fn c21_many(tier: Tier) -> Space {
    const FAMS: [&str; 8] = ["numbered files of a base", "numbered bases", "numbered listings", "numbered existence", "hosts", "queries", "last byte of long urls", "first directory of long urls"];
    let n = tier.pick(4000usize, 40_000);
    let url = move |f: usize, k: usize| -> (Url, Url) {
        match f {
            1 => (u(&format!("http://h/job/{k}/")), u("http://h/file.log")),
            4 => (u(&format!("http://h{k}.example.com/")), u(&format!("http://h{k}.example.com/x"))),
            5 => (u("http://h/"), u(&format!("http://h/f?n={k}"))),
            // every length up to 2000, four last letters each
            6 => (u("http://h/"), u(&format!("http://h/{}{}", "p/".repeat(k / 4 % 1000), ["a", "b", "aa", "ab"][k % 4]))),
            7 => (u("http://h/"), u(&format!("http://h/{k}/{}", "q".repeat(k % 3000)))),
            _ => (u("http://h/"), u(&format!("http://h/{k}"))),
        }
    };
    Space::new(
        "many",
        format!("{n} entries in one cache, of 8 families {FAMS:?}: each is found again and is its own, and others are absent"),
        FAMS.len() as u64,
        |i| json!({"family": FAMS[i as usize]}),
        move |i, ctx| {
            let f = i as usize;
            let n = match f { 6 => n.min(4000), _ => n };
            let c = cache(&ctx.clean_scratch())?;
            let e = |e: String| Fail::new("add", e);
            let data = |k: usize| format!("content {k}").into_bytes();
            for k in 0..n {
                let (b, x) = url(f, k);
                match f {
                    2 => c.httpdir_add(&x, &[x.clone()]).map_err(|x| e(format!("{k}: {x:#}")))?,
                    3 => drop(c.head_set(&b, &x, k % 3 == 0).map_err(|x| e(format!("{k}: {x:#}")))?),
                    _ => {
                        let mut r = c.remote_add(&b, &x, std::io::Cursor::new(data(k))).map_err(|x| e(format!("{k}: {x:#}")))?;
                        consume(&mut r, 100, false, None);
                    }
                }
                ctx.step(1);
            }
            for k in 0..n + 50 {
                let (b, x) = url(f, k);
                let there = k < n;
                ctx.eval();
                ctx.nontrivial((f, k));
                if f == 6 && !there {
                    continue;
                }
                ensure!(f == 2 || listing(&c, &x).is_none(), "kinds", "{x} is found as a listing");
                ensure!(f == 3 || c.head(&b, &x).is_none(), "kinds", "{x} is found as an existence answer");
                match f {
                    2 => ensure!(listing(&c, &x) == there.then(|| Ok(vec![x.clone()])), "listing", "listing {k} of {n}: {:?}", listing(&c, &x)),
                    3 => ensure_eq!(c.head(&b, &x), there.then_some(k % 3 == 0), "head", "existence {k} of {n}"),
                    _ => {
                        let l = look(&c, &b, &x);
                        ensure!(l == if there { Look::Bytes(data(k)) } else { Look::Absent }, "file", "file {k} of {n}: {l:?}");
                    }
                }
            }
            ctx.trace();
            ctx.state(i);
            Ok(())
        },
    )
    .timeout(300)
}

fn main() {
    run_main(|p, tier| {
        Some(match p {
            "C20" => Check {
                level: "fault_enumeration",
                rule: "after every outcome of a transfer, every failing file operation and every crash image, a lookup gives nothing or exactly what was fetched, and a new fetch succeeds".into(),
                assumptions: vec!["failures are injected at the libc calls of the process".into(), "a process that dies leaves a prefix of each of its writes".into()],
                spaces: vec![c20_transfers(tier), c20_error_kinds(), c20_faults(), c20_crashes(), c20_cuts(tier), c20_two(tier)],
            },
            "C21" => Check {
                level: "model_checking",
                rule: "state: the map from kind and urls to content; transition: one cache operation; after every sequence all lookups of the real cache equal the map".into(),
                assumptions: vec![],
                spaces: vec![c21_sequences(tier), c21_pairs(), c21_listings(), c21_many(tier)],
            },
            _ => return None,
        })
    });
}
