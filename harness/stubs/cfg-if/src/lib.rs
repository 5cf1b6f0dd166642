//! `cfg_if!` as the real crate defines it for one or two branches
#[macro_export]
macro_rules! cfg_if {
    (if #[cfg($m:meta)] { $($a:item)* } else { $($b:item)* }) => { $(#[cfg($m)] $a)* $(#[cfg(not($m))] $b)* };
    (if #[cfg($m:meta)] { $($a:item)* }) => { $(#[cfg($m)] $a)* };
}
