//! The scheduler.
use std::cell::Cell;
use std::collections::HashMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex, MutexGuard};
use std::time::Duration;

/// Payload that ends the threads of an execution that is over.
struct Abort;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Run,
    /// Waiting for a resource; with a time limit or not.
    Block(usize, Option<Duration>),
    Done,
}

struct Th {
    st: St,
    go: Arc<AtomicBool>,
    handle: Option<std::thread::Thread>,
    /// Its last wait ended by the time limit.
    fired: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    /// The main closure returned.
    Returned,
    Deadlock(String),
    Endless,
}

/// How the next thread is chosen where there is no deviation.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Policy {
    /// The running thread goes on until it waits, then the next one.
    RunOn,
    /// Another thread at every step.
    RoundRobin,
    /// The youngest thread first.
    Newest,
}

struct Exec {
    ths: Vec<Th>,
    policy: Policy,
    devs: HashMap<usize, usize>,
    /// Number of alternatives at each scheduling point passed so far.
    trace: Vec<u8>,
    steps: usize,
    streak: usize,
    abort: bool,
    main_done: bool,
    end: Option<End>,
    clock: Duration,
    live: usize,
}

const MAX_STEPS: usize = 400_000;
const MAX_STREAK: usize = 2_000;

static EXEC: Mutex<Option<Exec>> = Mutex::new(None);
static NEXT_ID: AtomicUsize = AtomicUsize::new(1);
thread_local! { static ME: Cell<Option<usize>> = const { Cell::new(None) }; }

pub(crate) fn new_id() -> usize {
    NEXT_ID.fetch_add(1, SeqCst)
}

fn lock() -> MutexGuard<'static, Option<Exec>> {
    EXEC.lock().unwrap_or_else(|e| e.into_inner())
}

fn me() -> Option<usize> {
    ME.try_with(|m| m.get()).unwrap_or(None)
}

pub(crate) fn controlled() -> bool {
    me().is_some()
}

enum Why {
    Step,
    Yield,
    Blocked,
}

impl Exec {
    /// The alternatives, default first.
    fn choices(&self, me: usize, why: &Why) -> Vec<usize> {
        let n = self.ths.len();
        let ready = |t: usize| self.ths[t].st == St::Run;
        let mut v: Vec<usize> = vec![];
        let cyclic = (1..n).map(|k| (me + k) % n).filter(|&t| ready(t));
        let mine = ready(me) && !matches!(why, Why::Blocked);
        match (self.policy, why) {
            (_, Why::Yield) => {
                v.extend(cyclic);
                if mine {
                    v.push(me)
                }
            }
            (Policy::RunOn, _) => {
                if mine && self.streak < MAX_STREAK {
                    v.push(me);
                }
                v.extend(cyclic);
                if mine && self.streak >= MAX_STREAK {
                    v.push(me);
                }
            }
            (Policy::RoundRobin, _) => {
                v.extend(cyclic);
                if mine {
                    v.push(me)
                }
            }
            (Policy::Newest, _) => {
                v.extend((0..n).rev().filter(|&t| ready(t) && (t != me || mine)));
                if self.streak >= MAX_STREAK {
                    v.reverse();
                }
            }
        }
        // time limits, the shortest first
        let mut timed: Vec<(Duration, usize)> = (0..n)
            .filter_map(|t| match self.ths[t].st {
                St::Block(_, Some(d)) => Some((d, t)),
                _ => None,
            })
            .collect();
        timed.sort();
        v.extend(timed.into_iter().map(|x| x.1));
        v
    }

    /// Picks who runs next; None: nobody can.
    fn pick(&mut self, me: usize, why: Why) -> Option<usize> {
        let c = self.choices(me, &why);
        if c.is_empty() {
            return None;
        }
        let mut k = 0;
        // once the main closure returned nothing is observed any more
        if c.len() > 1 && !self.main_done {
            k = self.devs.get(&self.trace.len()).copied().unwrap_or(0).min(c.len() - 1);
            self.trace.push(c.len().min(255) as u8);
        }
        let t = c[k];
        if let St::Block(_, Some(d)) = self.ths[t].st {
            self.ths[t].st = St::Run;
            self.ths[t].fired = true;
            self.clock += d;
        }
        self.streak = if t == me { self.streak + 1 } else { 0 };
        Some(t)
    }

    fn wake_all_for_abort(&mut self) {
        self.abort = true;
        for t in &mut self.ths {
            t.go.store(true, SeqCst);
            if let Some(h) = &t.handle {
                h.unpark();
            }
        }
    }
}

fn give(e: &mut Exec, t: usize) {
    e.ths[t].go.store(true, SeqCst);
    if let Some(h) = &e.ths[t].handle {
        h.unpark();
    }
}

fn wait_for_baton(go: &AtomicBool) {
    while !go.swap(false, SeqCst) {
        std::thread::park();
    }
}

/// True when the execution is over and the caller must get out of the way.
pub(crate) fn aborted() -> bool {
    me().is_some() && lock().as_ref().is_none_or(|e| e.abort)
}

fn leave_if_aborted() {
    if aborted() && !std::thread::panicking() {
        resume_unwind(Box::new(Abort));
    }
}

fn switch(why: Why) {
    let Some(me) = me() else { return };
    let go = {
        let mut g = lock();
        let Some(e) = g.as_mut() else { return };
        if e.abort {
            drop(g);
            leave_if_aborted();
            return;
        }
        e.steps += 1;
        if e.steps > MAX_STEPS {
            e.end.get_or_insert(End::Endless);
            e.wake_all_for_abort();
            drop(g);
            leave_if_aborted();
            return;
        }
        match e.pick(me, why) {
            Some(t) if t == me => return,
            Some(t) => {
                give(e, t);
                e.ths[me].go.clone()
            }
            None => {
                // Everybody waits.
                if !e.main_done {
                    let who: Vec<String> = e.ths.iter().enumerate().filter(|(_, t)| t.st != St::Done).map(|(k, _)| k.to_string()).collect();
                    e.end.get_or_insert(End::Deadlock(format!("threads {} wait forever", who.join(", "))));
                }
                e.wake_all_for_abort();
                e.ths[me].go.clone()
            }
        }
    };
    wait_for_baton(&go);
    leave_if_aborted();
}

/// A scheduling point.
pub fn point() {
    switch(Why::Step)
}

pub fn yield_point() {
    switch(Why::Yield)
}

/// Waits until someone wakes `res`, or the time limit; true if it was the time limit.
pub(crate) fn block(res: usize, limit: Option<Duration>) -> bool {
    let Some(me) = me() else { panic!("blocking outside of an execution") };
    {
        let mut g = lock();
        let Some(e) = g.as_mut() else { return true };
        if e.abort {
            drop(g);
            leave_if_aborted();
            return true;
        }
        e.ths[me].st = St::Block(res, limit);
        e.ths[me].fired = false;
    }
    switch(Why::Blocked);
    let mut g = lock();
    match g.as_mut() {
        Some(e) => std::mem::take(&mut e.ths[me].fired),
        None => true,
    }
}

/// Makes up to `n` threads waiting for `res` ready.
pub(crate) fn wake(res: usize, n: usize) {
    if me().is_none() {
        return;
    }
    if let Some(e) = lock().as_mut() {
        let mut left = n;
        for t in &mut e.ths {
            if left > 0 && matches!(t.st, St::Block(r, _) if r == res) {
                t.st = St::Run;
                left -= 1;
            }
        }
    }
}

pub(crate) fn now() -> Duration {
    lock().as_ref().map_or(Duration::ZERO, |e| e.clock)
}

pub(crate) type Slot<T> = Arc<Mutex<Option<std::thread::Result<T>>>>;

/// Starts a controlled thread.
pub(crate) fn spawn<T: Send + 'static>(name: Option<String>, f: impl FnOnce() -> T + Send + 'static) -> std::io::Result<(usize, usize, Slot<T>)> {
    point();
    let go = Arc::new(AtomicBool::new(false));
    let res = new_id();
    let tid = {
        let mut g = lock();
        let Some(e) = g.as_mut() else { panic!("spawn outside of an execution") };
        if e.abort {
            // e.g. a worker replaced while its thread is unwound
            return Ok((0, res, Arc::new(Mutex::new(None))));
        }
        e.ths.push(Th { st: St::Run, go: go.clone(), handle: None, fired: false });
        e.live += 1;
        e.ths.len() - 1
    };
    let slot: Slot<T> = Arc::new(Mutex::new(None));
    let slot2 = slot.clone();
    let mut b = std::thread::Builder::new().stack_size(512 * 1024);
    if let Some(n) = name {
        b = b.name(n);
    }
    let h = b.spawn(move || {
        ME.with(|m| m.set(Some(tid)));
        wait_for_baton(&go);
        if !aborted() {
            let r = catch_unwind(AssertUnwindSafe(f));
            *slot2.lock().unwrap_or_else(|e| e.into_inner()) = Some(r);
        } else {
            drop(f);
        }
        finish(tid, res);
    })?;
    if let Some(e) = lock().as_mut() {
        e.ths[tid].handle = Some(h.thread().clone());
        if e.abort {
            e.ths[tid].go.store(true, SeqCst);
            h.thread().unpark();
        }
    }
    Ok((tid, res, slot))
}

fn finish(tid: usize, res: usize) {
    wake(res, usize::MAX);
    let mut g = lock();
    if let Some(e) = g.as_mut() {
        e.ths[tid].st = St::Done;
        e.live -= 1;
        if !e.abort {
            match e.pick(tid, Why::Blocked) {
                Some(t) => give(e, t),
                None => {
                    if e.live > 0 {
                        if !e.main_done {
                            e.end.get_or_insert(End::Deadlock("the last running thread ended, the others wait forever".into()));
                        }
                        e.wake_all_for_abort();
                    }
                }
            }
        }
    }
}

pub(crate) fn is_done(tid: usize) -> bool {
    lock().as_ref().is_none_or(|e| e.ths[tid].st == St::Done)
}

pub struct Outcome<T> {
    pub end: End,
    /// What the main closure returned or panicked with.
    pub value: Option<std::thread::Result<T>>,
    pub trace: Vec<u8>,
    pub steps: usize,
}

/// One execution: `f` is the main thread.
pub fn run<T: Send + 'static>(policy: Policy, devs: &[(usize, usize)], f: impl FnOnce() -> T + Send + 'static) -> Outcome<T> {
    let go = Arc::new(AtomicBool::new(false));
    *lock() = Some(Exec {
        ths: vec![Th { st: St::Run, go: go.clone(), handle: None, fired: false }],
        policy,
        devs: devs.iter().copied().collect(),
        trace: vec![],
        steps: 0,
        streak: 0,
        abort: false,
        main_done: false,
        end: None,
        clock: Duration::ZERO,
        live: 1,
    });
    let slot: Slot<T> = Arc::new(Mutex::new(None));
    let slot2 = slot.clone();
    let main = std::thread::Builder::new()
        .stack_size(1 << 20)
        .spawn(move || {
            ME.with(|m| m.set(Some(0)));
            if let Some(e) = lock().as_mut() {
                e.ths[0].handle = Some(std::thread::current());
            }
            let r = catch_unwind(AssertUnwindSafe(f));
            let mut g = lock();
            let e = g.as_mut().unwrap();
            if !e.abort {
                e.end.get_or_insert(End::Returned);
                *slot2.lock().unwrap() = Some(r);
            }
            e.main_done = true;
            drop(g);
            finish(0, 0);
        })
        .expect("thread");
    main.join().expect("main thread");
    // let the others end
    let start = std::time::Instant::now();
    loop {
        {
            let mut g = lock();
            let e = g.as_mut().unwrap();
            if e.live == 0 {
                break;
            }
            if start.elapsed() > Duration::from_secs(20) {
                panic!("controlled threads do not end");
            }
            if e.abort {
                e.wake_all_for_abort();
            }
        }
        if start.elapsed() > Duration::from_millis(2) {
            std::thread::sleep(Duration::from_micros(50));
        } else {
            std::thread::yield_now();
        }
    }
    let e = lock().take().unwrap();
    let value = slot.lock().unwrap().take();
    Outcome { end: e.end.unwrap_or(End::Endless), value, trace: e.trace, steps: e.steps }
}
