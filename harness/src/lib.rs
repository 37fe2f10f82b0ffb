#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
#![allow(static_mut_refs)]
pub mod prim;
pub mod env;
pub mod util;
macro_rules! entries {
    ($($(#[$c:meta])* $f:path => $n:literal),* $(,)?) => {
        pub fn entry(n: &str) -> Option<extern "C" fn()> {
            match n { $($(#[$c])* $n => Some($f),)* _ => None }
        }
    };
}
pub mod h_client;
pub mod h_hdr;
pub mod h_misc;
pub mod h_read;
pub mod h_save;
#[cfg(feature = "web")] pub mod h_web;
entries! {
    h_client::h_c09 => "h_c09",
    h_client::h_c09_quote => "h_c09_quote",
    h_client::h_c10 => "h_c10",
    h_client::h_c12 => "h_c12",
    h_client::h_c13 => "h_c13",
    h_hdr::h_c07 => "h_c07",
    h_hdr::h_c07_misc => "h_c07_misc",
    h_hdr::h_c08 => "h_c08",
    h_hdr::h_c08_delim => "h_c08_delim",
    h_hdr::h_c08_inner => "h_c08_inner",
    h_misc::h_entries_result => "h_entries_result",
    h_misc::h_entry_result => "h_entry_result",
    h_misc::h_mock_client => "h_mock_client",
    h_misc::h_mock_read => "h_mock_read",
    h_misc::h_mock_write => "h_mock_write",
    h_misc::h_result => "h_result",
    h_misc::h_tee => "h_tee",
    h_read::h_c01_chunk => "h_c01_chunk",
    h_read::h_c01_edge => "h_c01_edge",
    h_read::h_c01_small => "h_c01_small",
    h_read::h_c02 => "h_c02",
    h_read::h_c02_hdr => "h_c02_hdr",
    h_read::h_c03 => "h_c03",
    h_read::h_c03_drain => "h_c03_drain",
    h_read::h_c04 => "h_c04",
    h_read::h_c04_min => "h_c04_min",
    h_read::h_c05 => "h_c05",
    h_read::h_c05_handle => "h_c05_handle",
    h_read::h_c06 => "h_c06",
    h_read::h_ways => "h_ways",
    h_save::h_entries => "h_entries",
    h_save::h_recount => "h_recount",
    h_save::h_save => "h_save",
    #[cfg(feature = "web")] h_web::h_intercept => "h_intercept",
    #[cfg(feature = "web")] h_web::h_web_apply => "h_web_apply",
    #[cfg(feature = "web")] h_web::h_web_param => "h_web_param",
    #[cfg(feature = "web")] h_web::h_web_round => "h_web_round",
    #[cfg(feature = "web")] h_web::h_web_switch => "h_web_switch",
    #[cfg(feature = "web")] h_web::h_web_type => "h_web_type",
}
