//! Bounded-exhaustive exploration and reporting, shared by the two harness binaries.
mod explore;
mod report;
pub use explore::*;
pub use report::*;
