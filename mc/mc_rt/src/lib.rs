//! A controlled `std`: everything of the standard library, with `sync`, `thread`, `hint::spin_loop`
//! and `thread_local!` replaced by versions whose every operation is a scheduling point of `exec`.
//! Also holds the controlled worker pool (`pool`, behind rayon) and channels (`channel`, behind crossbeam).
#![allow(clippy::all)]
#![feature(coerce_unsized, dispatch_from_dyn, unsize)]
pub use ::std::*;

pub mod arc;
pub mod channel;
pub mod exec;
pub mod pool;
pub mod sync;
pub mod thread;

pub mod hint {
    pub use ::std::hint::*;
    pub fn spin_loop() {
        crate::exec::yield_point("spin_loop");
    }
}

#[macro_export]
macro_rules! thread_local {
    () => {};
    ($(#[$a:meta])* $vis:vis static $name:ident : $t:ty = const $init:block; $($rest:tt)*) => {
        $crate::thread_local!($(#[$a])* $vis static $name: $t = const $init);
        $crate::thread_local!($($rest)*);
    };
    ($(#[$a:meta])* $vis:vis static $name:ident : $t:ty = const $init:block) => {
        $(#[$a])* $vis static $name: $crate::thread::LocalKey<$t> = {
            fn __init() -> $t { $init }
            $crate::thread::LocalKey::new(__init)
        };
    };
    ($(#[$a:meta])* $vis:vis static $name:ident : $t:ty = $init:expr; $($rest:tt)*) => {
        $crate::thread_local!($(#[$a])* $vis static $name: $t = $init);
        $crate::thread_local!($($rest)*);
    };
    ($(#[$a:meta])* $vis:vis static $name:ident : $t:ty = $init:expr) => {
        $(#[$a])* $vis static $name: $crate::thread::LocalKey<$t> = {
            fn __init() -> $t { $init }
            $crate::thread::LocalKey::new(__init)
        };
    };
}
