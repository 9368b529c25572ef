//! Entries for the plugin itself (swc-plugin-coverage): its options and the exclusion of files.
//! `plugin` is the real source file, compiled with a stand-in for the host interface (fakecore).
#![allow(unexpected_cfgs)]
#[path = "/repo/packages/swc-plugin-coverage/src/lib.rs"]
mod plugin;
mod exclude;
mod options;

macro_rules! entries { ($($n:ident => $p:path),* $(,)?) => {
    mod entry { $( #[no_mangle] pub extern "C" fn $n() { $p() } )* }
    fn dispatch(n: &str) -> bool { match n { $( stringify!($n) => { entry::$n(); true } )* _ => false } }
    #[used] static TABLE: &[extern "C" fn()] = &[ $( entry::$n ),* ];
} }
entries! {
    entry_exclude => crate::exclude::entry_exclude,
    entry_exclude_names => crate::exclude::entry_exclude_names,
    entry_exclude_deep => crate::exclude::entry_exclude_deep,
    entry_exclude_long => crate::exclude::entry_exclude_long,
    entry_exclude_separators => crate::exclude::entry_exclude_separators,
    entry_options => crate::options::entry_options,
    entry_option_pairs => crate::options::entry_option_pairs,
    entry_option_keys => crate::options::entry_option_keys,
    entry_plugin_options => crate::options::entry_plugin_options,
    entry_plugin_options_deep => crate::options::entry_plugin_options_deep,
    entry_plugin_no_options => crate::options::entry_plugin_no_options,
}
fn main() {
    let n = std::env::args().nth(1).unwrap_or_default();
    if !dispatch(&n) { eprintln!("unknown entry {}", n); std::process::exit(2); }
}
