#![allow(deprecated)]
//! A stand-in for `std` whose threads and synchronisation run under a controlled scheduler, one thread at a time.
//!
//! Everything but `sync`, `thread` and `time` is the real thing.  Threads are OS threads that pass a baton; every
//! synchronisation operation is a scheduling point.  `explore::run` makes one execution whose schedule is a base
//! policy plus a list of deviations from it, so that all executions with a bounded number of deviations can be
//! enumerated.
pub use std::*;

pub mod explore;
pub mod sync;
pub mod thread;
pub mod time;

/// What a crate compiled against this one imports in place of the usual prelude.
pub mod all {
    pub use std::prelude::rust_2021::*;
    pub use std::{
        assert, assert_eq, assert_ne, cfg, column, concat, dbg, debug_assert, debug_assert_eq, debug_assert_ne, env, eprint, eprintln, file, format, format_args, include, include_bytes,
        include_str, line, matches, module_path, option_env, panic, print, println, stringify, thread_local, todo, unimplemented, unreachable, vec, write, writeln,
    };
}
