//! Shared machinery of the runtime monitors: seeded randomness, guarded calls
//! into the code under test, case bookkeeping, verdicts and evidence.
pub mod ctx;
pub mod rng;
pub use ctx::*;
pub use rng::Rng;
pub mod checks;
pub mod cmds;
pub mod consts;
pub mod containers;
#[cfg(feature = "derived")]
pub mod derived;
pub mod facts;
pub mod shape;
pub mod srv;
#[cfg(feature = "net")]
pub mod tcpsim;
pub mod types;
pub mod work;
pub mod equal;
