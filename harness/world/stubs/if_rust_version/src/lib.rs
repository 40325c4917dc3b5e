//! Stand-in for if_rust_version: every toolchain here is newer than any version asked for.
#[macro_export]
macro_rules! if_rust_version {
    (>= $v:literal { $($a:tt)* } else { $($b:tt)* }) => { $($a)* };
}
