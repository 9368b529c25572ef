mod data;
mod accept;
mod publish;
mod tx;

macro_rules! entries { ($($n:ident => $p:path),* $(,)?) => {
    mod entry { $( #[no_mangle] pub extern "C" fn $n() { $p() } )* }
    fn dispatch(n: &str) -> bool { match n { $( stringify!($n) => { entry::$n(); true } )* _ => false } }
    #[used] static TABLE: &[extern "C" fn()] = &[ $( entry::$n ),* ];
} }
entries! {
    entry_erasure => crate::tx::entry_erasure,
    entry_bijection => crate::tx::entry_bijection,
    entry_behaviour => crate::tx::entry_behaviour,
    entry_stmts => crate::tx::entry_stmts,
    entry_funcs => crate::tx::entry_funcs,
    entry_branches => crate::tx::entry_branches,
    entry_directives => crate::tx::entry_directives,
    entry_directives_deep => crate::tx::entry_directives_deep,
    entry_erasure_deep => crate::tx::entry_erasure_deep,
    entry_bijection_deep => crate::tx::entry_bijection_deep,
    entry_behaviour_ctrl => crate::tx::entry_behaviour_ctrl,
    entry_behaviour_funs => crate::tx::entry_behaviour_funs,
    entry_stmts_ctrl => crate::tx::entry_stmts_ctrl,
    entry_stmts_funs => crate::tx::entry_stmts_funs,
    entry_funcs_ctrl => crate::tx::entry_funcs_ctrl,
    entry_funcs_funs => crate::tx::entry_funcs_funs,
    entry_branches_ctrl => crate::tx::entry_branches_ctrl,
    entry_branches_funs => crate::tx::entry_branches_funs,
    entry_truth_ctrl => crate::tx::entry_truth_ctrl,
    entry_truth_funs => crate::tx::entry_truth_funs,
    entry_hints => crate::tx::entry_hints,
    entry_hints_deep => crate::tx::entry_hints_deep,
    entry_hints_nested => crate::tx::entry_hints_nested,
    entry_hint_text => crate::tx::entry_hint_text,
    entry_hint_file => crate::tx::entry_hint_file,
    entry_publish => crate::publish::entry_publish,
    entry_names => crate::publish::entry_names,
    entry_files => crate::publish::entry_files,
    entry_ts => crate::accept::entry_ts,
    entry_ts_nested => crate::accept::entry_ts_nested,
    entry_js => crate::accept::entry_js,
    entry_js_nested => crate::accept::entry_js_nested,
    entry_js_short => crate::accept::entry_js_short,
    entry_methods => crate::data::entry_methods,
    entry_methods_nested => crate::data::entry_methods_nested,
    entry_methods_any => crate::data::entry_methods_any,
    entry_methods_lists => crate::data::entry_methods_lists,
    entry_literal_deep => crate::data::entry_literal_deep,
    entry_repeat => crate::data::entry_repeat,
    entry_literal => crate::data::entry_literal,
    entry_literal_map => crate::data::entry_literal_map,
    entry_literal_values => crate::data::entry_literal_values,
    entry_hash => crate::data::entry_hash,
    entry_ranges => crate::data::entry_ranges,
    entry_ranges_deep => crate::data::entry_ranges_deep,
    entry_dummy => crate::data::entry_dummy,
    entry_truth => crate::tx::entry_truth,
    entry_methods_js => crate::data::entry_methods_js,
    entry_methods_ts => crate::data::entry_methods_ts,
    entry_methods_js2 => crate::data::entry_methods_js2,
    entry_repeat_js => crate::data::entry_repeat_js,
    entry_repeat_ts => crate::data::entry_repeat_ts,
    entry_literal_js => crate::data::entry_literal_js,
    entry_literal_ts => crate::data::entry_literal_ts,
    entry_ranges_js => crate::data::entry_ranges_js,
    entry_ranges_ts => crate::data::entry_ranges_ts,
    entry_dummy_js => crate::data::entry_dummy_js,
    entry_dummy_ts => crate::data::entry_dummy_ts,
    entry_publish_js => crate::publish::entry_publish_js,
    entry_publish_ts => crate::publish::entry_publish_ts,
    entry_hints_js_all => crate::tx::entry_hints_js_all,
    entry_hints_ts_all => crate::tx::entry_hints_ts_all,
    entry_bijection_arms => crate::tx::entry_bijection_arms,
    entry_comment_texts => crate::tx::entry_comment_texts,
    entry_hints_js => crate::tx::entry_hints_js,
    entry_hints_ts => crate::tx::entry_hints_ts,
    entry_directives_js => crate::tx::entry_directives_js,
    entry_directives_ts => crate::tx::entry_directives_ts,
    entry_behaviour_js => crate::accept::entry_behaviour_js,
    entry_behaviour_ts => crate::accept::entry_behaviour_ts,
    entry_stmts_js => crate::accept::entry_stmts_js,
    entry_stmts_ts => crate::accept::entry_stmts_ts,
    entry_funcs_js => crate::accept::entry_funcs_js,
    entry_funcs_ts => crate::accept::entry_funcs_ts,
    entry_branches_js => crate::accept::entry_branches_js,
    entry_branches_ts => crate::accept::entry_branches_ts,
    entry_truth_js => crate::accept::entry_truth_js,
    entry_truth_ts => crate::accept::entry_truth_ts,
    entry_behaviour_js2 => crate::accept::entry_behaviour_js2,
    entry_behaviour_ts2 => crate::accept::entry_behaviour_ts2,
    entry_stmts_js2 => crate::accept::entry_stmts_js2,
    entry_stmts_ts2 => crate::accept::entry_stmts_ts2,
    entry_funcs_js2 => crate::accept::entry_funcs_js2,
    entry_funcs_ts2 => crate::accept::entry_funcs_ts2,
    entry_branches_js2 => crate::accept::entry_branches_js2,
    entry_branches_ts2 => crate::accept::entry_branches_ts2,
    entry_truth_js2 => crate::accept::entry_truth_js2,
    entry_truth_ts2 => crate::accept::entry_truth_ts2,
    entry_bijection_js => crate::accept::entry_bijection_js,
    entry_bijection_ts => crate::accept::entry_bijection_ts,
    entry_bijection_hints => crate::tx::entry_bijection_hints,
    entry_behaviour_hints => crate::tx::entry_behaviour_hints,
    entry_truth_hints => crate::tx::entry_truth_hints,
}

fn main() {
    let n = std::env::args().nth(1).unwrap_or_default();
    if n == "--emit" { let a: Vec<String> = std::env::args().skip(2).collect(); tx::emit(&a[0], a[1] == "report", &a[2..]); return; }
    if n == "--templates" { accept::list(); return; }
    if n == "--show" { tx::show(&std::env::args().nth(2).unwrap(), std::env::args().nth(3).as_deref() == Some("report"), std::env::args().nth(4).as_deref() != Some("script")); return; }
    if !dispatch(&n) { eprintln!("unknown entry {}", n); std::process::exit(2); }
}
