//! The real tokio, except for what touches the outside world: network, clock, signals, task scheduling.
//! Those are modelled in `kernel`, which the harness drives.
pub use real_tokio::*;
pub use kmacros::{main, test};

#[macro_use]
mod select;

pub mod kernel;
pub mod net;
pub mod time;
pub mod task;
pub mod signal;

pub use task::spawn;

#[doc(hidden)]
pub mod macros { pub mod support {
    pub use real_tokio::macros::support::{maybe_done, poll_fn, Future, Pin, Poll};
    pub fn thread_rng_n(n: u32) -> u32 { crate::kernel::select_start(n) }
} }
