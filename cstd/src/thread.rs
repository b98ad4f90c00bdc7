use crate::explore;
pub use std::thread::{available_parallelism, panicking, AccessError, LocalKey, Result, ThreadId};
use std::time::Duration;

pub struct JoinHandle<T> {
    tid: usize,
    res: usize,
    slot: explore::Slot<T>,
}

impl<T> JoinHandle<T> {
    pub fn join(self) -> std::thread::Result<T> {
        loop {
            explore::point();
            if explore::is_done(self.tid) || explore::aborted() {
                break;
            }
            // finish() wakes before it marks the thread as done: look again under the baton
            if self.slot.lock().unwrap_or_else(|e| e.into_inner()).is_some() {
                break;
            }
            explore::block(self.res, None);
        }
        let r = self.slot.lock().unwrap_or_else(|e| e.into_inner()).take();
        r.unwrap_or_else(|| Err(Box::new("the execution is over")))
    }
    pub fn is_finished(&self) -> bool {
        explore::point();
        explore::is_done(self.tid)
    }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    Builder::new().spawn(f).expect("failed to spawn thread")
}

#[derive(Default)]
pub struct Builder {
    name: Option<String>,
}

impl Builder {
    pub fn new() -> Builder {
        Builder::default()
    }
    pub fn name(mut self, n: String) -> Builder {
        self.name = Some(n);
        self
    }
    pub fn stack_size(self, _: usize) -> Builder {
        self
    }
    pub fn spawn<F, T>(self, f: F) -> std::io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        let (tid, res, slot) = explore::spawn(self.name, f)?;
        Ok(JoinHandle { tid, res, slot })
    }
}

pub fn sleep(d: Duration) {
    explore::block(0, Some(d));
}

pub fn yield_now() {
    explore::yield_point()
}
