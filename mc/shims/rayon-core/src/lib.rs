pub use mc_rt::pool::*;
