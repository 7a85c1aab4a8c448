//! Shared parts of the monitoring harness: random numbers, virtual clock, scheduler,
//! in-memory links, case runner and evidence writer.
pub mod clock;
pub mod exec;
pub mod link;
pub mod report;
pub mod rng;
pub use report::{Acc, CheckSpec, Ctx, Verdict};
pub use rng::{hash_str, mix, Rng};
