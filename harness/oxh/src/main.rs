//! Entries for the coverage data library (istanbul-oxide): concrete shapes, symbolic hit counts.
#![allow(unexpected_cfgs)]
mod cov;
mod merge;
mod summary;
mod map;
mod json;

macro_rules! entries { ($($n:ident => $p:path),* $(,)?) => {
    mod entry { $( #[no_mangle] pub extern "C" fn $n() { $p() } )* }
    fn dispatch(n: &str) -> bool { match n { $( stringify!($n) => { entry::$n(); true } )* _ => false } }
    #[used] static TABLE: &[extern "C" fn()] = &[ $( entry::$n ),* ];
} }
entries! {
    entry_merge_stmts => crate::merge::entry_merge_stmts,
    entry_merge_fns => crate::merge::entry_merge_fns,
    entry_merge_branches => crate::merge::entry_merge_branches,
    entry_merge_truth => crate::merge::entry_merge_truth,
    entry_merge_truth_deep => crate::merge::entry_merge_truth_deep,
    entry_merge_keys => crate::merge::entry_merge_keys,
    entry_merge_mixed => crate::merge::entry_merge_mixed,
    entry_merge_all => crate::merge::entry_merge_all,
    entry_merge_three => crate::merge::entry_merge_three,
    entry_lines => crate::summary::entry_lines,
    entry_branch_lines => crate::summary::entry_branch_lines,
    entry_totals => crate::summary::entry_totals,
    entry_percent => crate::summary::entry_percent,
    entry_percent_mono => crate::summary::entry_percent_mono,
    entry_percent_large => crate::summary::entry_percent_large,
    entry_percent_any => crate::summary::entry_percent_any,
    entry_map_all => crate::map::entry_map_all,
    entry_summary_merge => crate::summary::entry_summary_merge,
    entry_reset => crate::summary::entry_reset,
    entry_map => crate::map::entry_map,
    entry_map_deep => crate::map::entry_map_deep,
    entry_json_values_deep => crate::json::entry_json_values_deep,
    entry_map_summary => crate::map::entry_map_summary,
    entry_json_shape => crate::json::entry_json_shape,
    entry_json_values => crate::json::entry_json_values,
}
fn main() {
    let n = std::env::args().nth(1).unwrap_or_default();
    if !dispatch(&n) { eprintln!("unknown entry {}", n); std::process::exit(2); }
}
