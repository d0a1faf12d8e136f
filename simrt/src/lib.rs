//! simrt: a deterministic virtual environment for the real async-io code.
//!
//! * `rt`  - baton-passing scheduler over real OS threads. Exactly one managed thread runs at a
//!           time; control may change hands at every control-flow edge of the instrumented crates
//!           (sancov trace-pc-guard callbacks) and at every interposed libc call. Time is virtual.
//! * `env` - virtual epoll, descriptor readiness and OS faults (used by the `polling` shim).
//! * `log` - the event trace.
//! * `interpose` - libc symbols replaced in the final executable.

pub mod cov;
pub mod env;
pub mod interpose;
pub mod log;
pub mod rng;
pub mod rt;
