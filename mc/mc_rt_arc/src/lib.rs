//! `mc_rt` with its controlled `Arc` in place of the standard one.
#![allow(ambiguous_glob_reexports)]
pub use mc_rt::*;
pub mod sync {
    pub use mc_rt::arc::{Arc, Weak};
    pub use mc_rt::sync::*;
}
