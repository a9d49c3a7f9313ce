#![allow(static_mut_refs)]
pub mod alloc;
pub mod choice;
pub mod sched;
pub mod shared;
pub mod sys;

pub use choice::*;
pub use sched::{incarnation, quiet, seam, viol, Cfg, End, StdoutPlan, Viol};
pub use shared::{d, e, ev, ev_bytes, file_append, file_get, file_put, hit, hit_n, mix, nontrivial, note, sh, tracing, Shared};

#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;
