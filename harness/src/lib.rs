pub mod sym;
pub mod json;
pub mod refinf;
pub mod big;
pub mod gen;
pub mod model;
pub mod tok;
pub mod langs;
fn reset() {
    refinf::UNSETTLED.store(false, std::sync::atomic::Ordering::Relaxed);
    model::DATE.store(false, std::sync::atomic::Ordering::Relaxed);
}
#[cfg(feature = "cli")]
pub mod cli_entry {
    use crate::{c_cli, sym};
    /// the program may end itself
    #[no_mangle]
    pub extern "C" fn exit(code: i32) -> ! {
        #[cfg(feature = "native")]
        if !sym::ffi::active() {
            sym::ffi::leave(code)
        }
        c_cli::over(code);
        sym::done()
    }
}
macro_rules! harnesses {
    ($($(#[$c:meta])* $m:ident { $($f:ident),* $(,)? })*) => {
        $($(#[$c])* pub mod $m;)*
        mod entry {
            $($(#[$c])* pub mod $m {
                $(#[no_mangle] pub extern "C-unwind" fn $f(case: u64) { crate::reset(); crate::$m::$f(case) })*
                pub const LIST: &[(&str, extern "C-unwind" fn(u64))] = &[$((stringify!($f), $f)),*];
            })*
        }
        pub fn find(n: &str) -> Option<extern "C-unwind" fn(u64)> {
            $($(#[$c])* if let Some(x) = entry::$m::LIST.iter().find(|x| x.0 == n) { return Some(x.1) })*
            None
        }
    };
}
harnesses! {
    c_self { h_self }
    c_json { h_json_raw, h_json_tpl, h_json_opts }
    c_infer { h_infer, h_merge, h_num }
    c_opts { h_unwrap, h_hint, h_hint_sym, h_map, h_mix, h_order, h_order_keys, h_order_long }
    c_keys { h_key, h_names, h_root, h_format }
    c_out { h_det, h_style, h_vis, h_rust_flags, h_derive, h_other }
    #[cfg(feature = "local")]
    c_file { h_file, h_file_progress }
    #[cfg(feature = "remote")]
    c_remote { h_remote }
    #[cfg(feature = "cli")]
    c_cli { h_cli, h_cli_macro }
    #[cfg(feature = "wasm")]
    c_wasm { h_wasm }
    #[cfg(feature = "mac")]
    c_proc { h_proc, h_proc_word }
    c_total { h_total_names, h_total_root, h_total_docs, h_total_shapes, h_total_opts, h_total_text }
    c_sql { h_sql }
    c_parse { h_opt, h_opt_hint, h_macro, h_macro_full }
    c_gen { h_rust, h_ts, h_alias, h_schema, h_zod, h_kotlin, h_python }
}
