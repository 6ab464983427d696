//! Stands in for `std` in the scheduled build of the code under test. Everything is std's own, except for
//! locks, channels, atomics, threads and clocks: inside a controlled execution these announce every
//! operation to the scheduler, outside of one they behave as usual.
pub use std::*;

pub mod sync;
pub mod thread;
pub mod time;
