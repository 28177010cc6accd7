pub use mc_rt::channel::*;

#[macro_export]
macro_rules! select {
    ($($t:tt)*) => { compile_error!("select! is not modelled by the controlled channels") };
}
