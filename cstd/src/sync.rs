use crate::explore::{self, block, new_id, point, wake};
use std::cell::UnsafeCell;
use std::fmt;
use std::ops::{Deref, DerefMut};
pub use std::sync::{Arc, LockResult, OnceLock, LazyLock, Once, PoisonError, TryLockError, TryLockResult, Weak};
use std::sync::atomic::Ordering::Relaxed;
use std::time::Duration;

pub mod atomic {
    use super::point;
    pub use std::sync::atomic::{compiler_fence, AtomicPtr, Ordering};
    pub fn fence(_: Ordering) {
        point();
    }
    macro_rules! ops {
        ($n:ident, $t:ty) => {
            #[derive(Default)]
            pub struct $n(std::sync::atomic::$n);
            impl $n {
                pub const fn new(v: $t) -> $n {
                    $n(std::sync::atomic::$n::new(v))
                }
                pub fn load(&self, o: Ordering) -> $t {
                    point();
                    self.0.load(o)
                }
                pub fn store(&self, v: $t, o: Ordering) {
                    point();
                    self.0.store(v, o)
                }
                pub fn swap(&self, v: $t, o: Ordering) -> $t {
                    point();
                    self.0.swap(v, o)
                }
                pub fn compare_and_swap(&self, a: $t, b: $t, _: Ordering) -> $t {
                    point();
                    match self.0.compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst) {
                        Ok(v) | Err(v) => v,
                    }
                }
                pub fn compare_exchange(&self, a: $t, b: $t, x: Ordering, y: Ordering) -> Result<$t, $t> {
                    point();
                    self.0.compare_exchange(a, b, x, y)
                }
                pub fn compare_exchange_weak(&self, a: $t, b: $t, x: Ordering, y: Ordering) -> Result<$t, $t> {
                    point();
                    self.0.compare_exchange(a, b, x, y)
                }
                pub fn fetch_update(&self, x: Ordering, y: Ordering, f: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> {
                    point();
                    self.0.fetch_update(x, y, f)
                }
                pub fn get_mut(&mut self) -> &mut $t {
                    self.0.get_mut()
                }
                pub fn into_inner(self) -> $t {
                    self.0.into_inner()
                }
                pub fn fetch_and(&self, v: $t, o: Ordering) -> $t {
                    point();
                    self.0.fetch_and(v, o)
                }
                pub fn fetch_or(&self, v: $t, o: Ordering) -> $t {
                    point();
                    self.0.fetch_or(v, o)
                }
                pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t {
                    point();
                    self.0.fetch_xor(v, o)
                }
            }
            impl std::fmt::Debug for $n {
                fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                    self.0.fmt(f)
                }
            }
            impl From<$t> for $n {
                fn from(v: $t) -> $n {
                    $n::new(v)
                }
            }
        };
    }
    macro_rules! ints {
        ($n:ident, $t:ty) => {
            ops!($n, $t);
            impl $n {
                pub fn fetch_add(&self, v: $t, o: Ordering) -> $t {
                    point();
                    self.0.fetch_add(v, o)
                }
                pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t {
                    point();
                    self.0.fetch_sub(v, o)
                }
                pub fn fetch_max(&self, v: $t, o: Ordering) -> $t {
                    point();
                    self.0.fetch_max(v, o)
                }
                pub fn fetch_min(&self, v: $t, o: Ordering) -> $t {
                    point();
                    self.0.fetch_min(v, o)
                }
            }
        };
    }
    ops!(AtomicBool, bool);
    ints!(AtomicUsize, usize);
    ints!(AtomicIsize, isize);
    ints!(AtomicU8, u8);
    ints!(AtomicU16, u16);
    ints!(AtomicU32, u32);
    ints!(AtomicU64, u64);
    ints!(AtomicI8, i8);
    ints!(AtomicI16, i16);
    ints!(AtomicI32, i32);
    ints!(AtomicI64, i64);
}

/// The state of a lock: touched only by the thread that holds the baton.
struct Raw {
    id: std::sync::atomic::AtomicUsize,
    readers: std::sync::atomic::AtomicUsize,
    writer: std::sync::atomic::AtomicBool,
    poison: std::sync::atomic::AtomicBool,
}

impl Raw {
    const fn new() -> Raw {
        Raw {
            id: std::sync::atomic::AtomicUsize::new(0),
            readers: std::sync::atomic::AtomicUsize::new(0),
            writer: std::sync::atomic::AtomicBool::new(false),
            poison: std::sync::atomic::AtomicBool::new(false),
        }
    }
    fn id(&self) -> usize {
        match self.id.load(Relaxed) {
            0 => {
                let n = new_id();
                self.id.store(n, Relaxed);
                n
            }
            n => n,
        }
    }
    fn try_write(&self) -> bool {
        if self.writer.load(Relaxed) || self.readers.load(Relaxed) > 0 {
            return false;
        }
        self.writer.store(true, Relaxed);
        true
    }
    fn try_read(&self) -> bool {
        if self.writer.load(Relaxed) {
            return false;
        }
        self.readers.fetch_add(1, Relaxed);
        true
    }
    fn write(&self) {
        point();
        while !self.try_write() {
            if explore::aborted() {
                return;
            }
            block(self.id(), None);
        }
    }
    fn read(&self) {
        point();
        while !self.try_read() {
            if explore::aborted() {
                self.readers.fetch_add(1, Relaxed);
                return;
            }
            block(self.id(), None);
        }
    }
    fn unwrite(&self, panicked: bool) {
        if panicked && !explore::aborted() {
            self.poison.store(true, Relaxed);
        }
        self.writer.store(false, Relaxed);
        wake(self.id(), usize::MAX);
    }
    fn unread(&self) {
        self.readers.fetch_sub(1, Relaxed);
        wake(self.id(), usize::MAX);
    }
    fn result<G>(&self, g: G) -> LockResult<G> {
        if self.poison.load(Relaxed) {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
}

pub struct Mutex<T: ?Sized> {
    raw: Raw,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}

pub struct MutexGuard<'a, T: ?Sized> {
    m: &'a Mutex<T>,
    panicking: bool,
}

impl<T> Mutex<T> {
    pub const fn new(v: T) -> Mutex<T> {
        Mutex { raw: Raw::new(), data: UnsafeCell::new(v) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.raw.poison.load(Relaxed);
        let v = self.data.into_inner();
        if p {
            Err(PoisonError::new(v))
        } else {
            Ok(v)
        }
    }
}
impl<T: ?Sized> Mutex<T> {
    fn guard(&self) -> MutexGuard<'_, T> {
        MutexGuard { m: self, panicking: std::thread::panicking() }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        self.raw.write();
        self.raw.result(self.guard())
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        point();
        if self.raw.try_write() {
            self.raw.result(self.guard()).map_err(TryLockError::Poisoned)
        } else {
            Err(TryLockError::WouldBlock)
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.raw.poison.load(Relaxed)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        let p = self.raw.poison.load(Relaxed);
        let v = self.data.get_mut();
        if p {
            Err(PoisonError::new(v))
        } else {
            Ok(v)
        }
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("Mutex")
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.m.data.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.m.data.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        self.m.raw.unwrite(std::thread::panicking() && !self.panicking)
    }
}

pub struct RwLock<T: ?Sized> {
    raw: Raw,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>, bool);
impl<T> RwLock<T> {
    pub const fn new(v: T) -> RwLock<T> {
        RwLock { raw: Raw::new(), data: UnsafeCell::new(v) }
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        self.raw.read();
        self.raw.result(RwLockReadGuard(self))
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        self.raw.write();
        self.raw.result(RwLockWriteGuard(self, std::thread::panicking()))
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.0.raw.unread()
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.data.get() }
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        self.0.raw.unwrite(std::thread::panicking() && !self.1)
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}

pub struct Condvar {
    id: std::sync::atomic::AtomicUsize,
}
impl Default for Condvar {
    fn default() -> Self {
        Condvar::new()
    }
}
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("Condvar")
    }
}
impl Condvar {
    pub const fn new() -> Condvar {
        Condvar { id: std::sync::atomic::AtomicUsize::new(0) }
    }
    fn id(&self) -> usize {
        match self.id.load(Relaxed) {
            0 => {
                let n = new_id();
                self.id.store(n, Relaxed);
                n
            }
            n => n,
        }
    }
    fn wait_for<'a, T>(&self, g: MutexGuard<'a, T>, limit: Option<Duration>) -> (LockResult<MutexGuard<'a, T>>, bool) {
        let m = g.m;
        point();
        drop(g);
        let fired = block(self.id(), limit);
        (m.lock(), fired)
    }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        self.wait_for(g, None).0
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn wait_timeout<'a, T>(&self, g: MutexGuard<'a, T>, d: Duration) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let (r, fired) = self.wait_for(g, Some(d));
        match r {
            Ok(g) => Ok((g, WaitTimeoutResult(fired))),
            Err(e) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(fired)))),
        }
    }
    pub fn wait_timeout_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, d: Duration, mut f: F) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        while f(&mut *g) {
            let (h, t) = self.wait_timeout(g, d)?;
            g = h;
            if t.timed_out() {
                let still = f(&mut *g);
                return Ok((g, WaitTimeoutResult(still)));
            }
        }
        Ok((g, WaitTimeoutResult(false)))
    }
    pub fn notify_one(&self) {
        point();
        wake(self.id(), 1)
    }
    pub fn notify_all(&self) {
        point();
        wake(self.id(), usize::MAX)
    }
}

pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
    pub fn is_leader(&self) -> bool {
        self.0
    }
}
pub struct Barrier {
    n: usize,
    m: Mutex<(usize, usize)>,
    c: Condvar,
}
impl Barrier {
    pub const fn new(n: usize) -> Barrier {
        Barrier { n, m: Mutex::new((0, 0)), c: Condvar::new() }
    }
    pub fn wait(&self) -> BarrierWaitResult {
        let mut g = self.m.lock().unwrap();
        let gen = g.1;
        g.0 += 1;
        if g.0 < self.n {
            while g.1 == gen {
                g = self.c.wait(g).unwrap();
            }
            BarrierWaitResult(false)
        } else {
            g.0 = 0;
            g.1 += 1;
            self.c.notify_all();
            BarrierWaitResult(true)
        }
    }
}

pub mod mpsc {
    use super::*;
    use std::collections::VecDeque;
    pub use std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};

    struct Chan<T> {
        q: std::sync::Mutex<State<T>>,
        id: usize,
    }
    struct State<T> {
        q: VecDeque<T>,
        taken: usize,
        put: usize,
        senders: usize,
        rx: bool,
        cap: Option<usize>,
    }
    impl<T> Chan<T> {
        fn with<R>(&self, f: impl FnOnce(&mut State<T>) -> R) -> R {
            f(&mut self.q.lock().unwrap_or_else(|e| e.into_inner()))
        }
    }
    fn mk<T>(cap: Option<usize>) -> Arc<Chan<T>> {
        Arc::new(Chan { q: std::sync::Mutex::new(State { q: VecDeque::new(), taken: 0, put: 0, senders: 1, rx: true, cap }), id: new_id() })
    }
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
        let c = mk(None);
        (Sender(c.clone()), Receiver(c))
    }
    pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) {
        let c = mk(Some(n));
        (SyncSender(c.clone()), Receiver(c))
    }
    fn drop_sender<T>(c: &Chan<T>) {
        if explore::controlled() {
            point();
        }
        if c.with(|s| {
            s.senders -= 1;
            s.senders == 0
        }) {
            wake(c.id, usize::MAX);
        }
    }
    fn send<T>(c: &Chan<T>, v: T) -> Result<(), SendError<T>> {
        point();
        loop {
            let full = c.with(|s| s.rx && s.cap.is_some_and(|n| s.q.len() >= n.max(1)));
            if !full || explore::aborted() {
                break;
            }
            block(c.id, None);
        }
        let r = c.with(|s| {
            if s.rx {
                s.q.push_back(v);
                s.put += 1;
                Ok((s.put, s.cap == Some(0)))
            } else {
                Err(SendError(v))
            }
        });
        wake(c.id, usize::MAX);
        let (ticket, rendezvous) = r?;
        if rendezvous {
            while c.with(|s| s.rx && s.taken < ticket) && !explore::aborted() {
                block(c.id, None);
            }
        }
        Ok(())
    }

    pub struct Sender<T>(Arc<Chan<T>>);
    impl<T> Sender<T> {
        pub fn send(&self, v: T) -> Result<(), SendError<T>> {
            send(&self.0, v)
        }
    }
    impl<T> Clone for Sender<T> {
        fn clone(&self) -> Self {
            self.0.with(|s| s.senders += 1);
            Sender(self.0.clone())
        }
    }
    impl<T> Drop for Sender<T> {
        fn drop(&mut self) {
            drop_sender(&self.0)
        }
    }
    impl<T> fmt::Debug for Sender<T> {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str("Sender")
        }
    }
    pub struct SyncSender<T>(Arc<Chan<T>>);
    impl<T> SyncSender<T> {
        pub fn send(&self, v: T) -> Result<(), SendError<T>> {
            send(&self.0, v)
        }
        pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
            point();
            let r = self.0.with(|s| {
                if !s.rx {
                    Err(TrySendError::Disconnected(v))
                } else if s.cap.is_some_and(|n| s.q.len() >= n) {
                    Err(TrySendError::Full(v))
                } else {
                    s.q.push_back(v);
                    s.put += 1;
                    Ok(())
                }
            });
            wake(self.0.id, usize::MAX);
            r
        }
    }
    impl<T> Clone for SyncSender<T> {
        fn clone(&self) -> Self {
            self.0.with(|s| s.senders += 1);
            SyncSender(self.0.clone())
        }
    }
    impl<T> Drop for SyncSender<T> {
        fn drop(&mut self) {
            drop_sender(&self.0)
        }
    }

    pub struct Receiver<T>(Arc<Chan<T>>);
    // as the real one
    impl<T> Receiver<T> {
        fn take(&self) -> Result<T, TryRecvError> {
            let r = self.0.with(|s| match s.q.pop_front() {
                Some(v) => {
                    s.taken += 1;
                    Ok(v)
                }
                None if s.senders == 0 => Err(TryRecvError::Disconnected),
                None => Err(TryRecvError::Empty),
            });
            if r.is_ok() && self.0.with(|s| s.cap.is_some()) {
                wake(self.0.id, usize::MAX);
            }
            r
        }
        pub fn try_recv(&self) -> Result<T, TryRecvError> {
            point();
            self.take()
        }
        pub fn recv(&self) -> Result<T, RecvError> {
            point();
            loop {
                match self.take() {
                    Ok(v) => return Ok(v),
                    Err(TryRecvError::Disconnected) => return Err(RecvError),
                    Err(TryRecvError::Empty) => {
                        if explore::aborted() {
                            return Err(RecvError);
                        }
                        block(self.0.id, None);
                    }
                }
            }
        }
        pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
            point();
            let mut fired = false;
            loop {
                match self.take() {
                    Ok(v) => return Ok(v),
                    Err(TryRecvError::Disconnected) => return Err(RecvTimeoutError::Disconnected),
                    Err(TryRecvError::Empty) => {
                        if fired || explore::aborted() {
                            return Err(RecvTimeoutError::Timeout);
                        }
                        fired = block(self.0.id, Some(d));
                    }
                }
            }
        }
        pub fn iter(&self) -> Iter<'_, T> {
            Iter(self)
        }
        pub fn try_iter(&self) -> TryIter<'_, T> {
            TryIter(self)
        }
    }
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            if explore::controlled() {
                point();
            }
            let q = self.0.with(|s| {
                s.rx = false;
                std::mem::take(&mut s.q)
            });
            wake(self.0.id, usize::MAX);
            drop(q);
        }
    }
    impl<T> fmt::Debug for Receiver<T> {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str("Receiver")
        }
    }
    pub struct Iter<'a, T>(&'a Receiver<T>);
    impl<T> Iterator for Iter<'_, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.recv().ok()
        }
    }
    pub struct TryIter<'a, T>(&'a Receiver<T>);
    impl<T> Iterator for TryIter<'_, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.try_recv().ok()
        }
    }
    pub struct IntoIter<T>(Receiver<T>);
    impl<T> Iterator for IntoIter<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.recv().ok()
        }
    }
    impl<T> IntoIterator for Receiver<T> {
        type Item = T;
        type IntoIter = IntoIter<T>;
        fn into_iter(self) -> IntoIter<T> {
            IntoIter(self)
        }
    }
    impl<'a, T> IntoIterator for &'a Receiver<T> {
        type Item = T;
        type IntoIter = Iter<'a, T>;
        fn into_iter(self) -> Iter<'a, T> {
            self.iter()
        }
    }
}
