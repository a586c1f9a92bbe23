//! Stand-in for `crossbeam` (and, through the `rawdio_mc` hook, for `std`) inside the checked build of rawdio.
//!
//! It has the API of the real crates but routes every channel operation, atomic operation, thread spawn and
//! sleep through the model checker's runtime in [mc], and makes hash-map iteration order a controlled input.
//! Everything that is not overridden here is re-exported unchanged from the real `std`.

#![allow(clippy::all)]

pub use ::std::*;

pub mod mc;

pub mod channel;
#[cfg(not(mc_std_collections))]
pub mod collections;
#[cfg(mc_std_collections)]
pub use ::std::collections;
pub mod sync;
pub mod thread;
#[cfg(not(mc_std_sync))]
pub mod time;
#[cfg(mc_std_sync)]
pub use ::std::time;

pub mod hint {
    pub use ::std::hint::*;

    pub fn spin_loop() {
        if crate::mc::in_sched() {
            crate::mc::point("spin");
        } else {
            crate::mc::look("a loop that spins", 10_000);
            ::std::hint::spin_loop();
        }
    }
}

pub use crossbeam_queue as queue;
pub use crossbeam_utils as utils;
pub use crossbeam_utils::atomic;
