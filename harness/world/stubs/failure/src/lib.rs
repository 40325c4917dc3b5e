//! What the wallet uses of this crate: its copy of core.
pub use core as _core;
