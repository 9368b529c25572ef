//! C12: the options the plugin reads from its JSON configuration
use crate::exclude::run;
use swc_coverage_instrument::*;
use symx_rt::*;

fn json_char(tag: &str) -> u8 { let c = u8v(tag); assume(c >= 0x20 && c < 0x7f && c != b'"' && c != b'\\'); c }
fn with(pat: &str, at: usize, c: u8) -> String { let mut b = pat.as_bytes().to_vec(); b[at] = c; unsafe { String::from_utf8_unchecked(b) } }

struct Cfg { items: Vec<(String, String)>, want: InstrumentOptions }
fn defaults() -> InstrumentOptions {
    InstrumentOptions { coverage_variable: "__coverage__".into(), compact: false, report_logic: false, ignore_class_methods: vec![], input_source_map: None, instrument_log: InstrumentLogOptions { level: None, enable_trace: false }, debug_initial_coverage_comment: false, unstable_exclude: None }
}
const N: u64 = 9;
/// add option `i` with its value number `v`; `c` is an open character
fn add(k: &mut Cfg, i: u64, v: u64, c: u8) {
    let mut put = |n: &str, v: String| k.items.push((n.to_string(), v));
    match i {
        0 => { let s = if v == 0 { with("_?_", 1, c) } else { "cov".into() }; put("coverageVariable", format!("\"{}\"", s)); k.want.coverage_variable = s; }
        1 => { put("compact", if v == 0 { "true".into() } else { "false".into() }); k.want.compact = v == 0; }
        2 => { put("reportLogic", if v == 0 { "true".into() } else { "false".into() }); k.want.report_logic = v == 0; }
        3 => match v { 0 => { let s = with("m?", 1, c); put("ignoreClassMethods", format!("[\"{}\",\"n\"]", s)); k.want.ignore_class_methods = vec![s, "n".into()]; } _ => put("ignoreClassMethods", "[]".into()) },
        4 => match v {
            0 => { put("inputSourceMap", "{\"version\":3,\"file\":\"o.js\",\"sources\":[\"i.ts\"],\"sourcesContent\":[\"x\",null],\"names\":[\"n\"],\"mappings\":\"AAAA\",\"sourceRoot\":\"r\"}".into());
                k.want.input_source_map = Some(SourceMap { version: 3, file: Some("o.js".into()), source_root: Some("r".into()), sources: vec!["i.ts".into()], sources_content: Some(vec![Some("x".into()), None]), names: vec!["n".into()], mappings: "AAAA".into() }); }
            1 => { put("inputSourceMap", "{\"mappings\":\"\",\"names\":[],\"sources\":[],\"version\":3,\"x_google_ignoreList\":[0]}".into());
                k.want.input_source_map = Some(SourceMap { version: 3, file: None, source_root: None, sources: vec![], sources_content: None, names: vec![], mappings: "".into() }); }
            _ => put("inputSourceMap", "null".into()),
        },
        5 => match v {
            0 => { put("instrumentLog", "{\"level\":\"info\",\"enableTrace\":true}".into()); k.want.instrument_log = InstrumentLogOptions { level: Some("info".into()), enable_trace: true }; }
            1 => { put("instrumentLog", "{\"enableTrace\":true}".into()); k.want.instrument_log.enable_trace = true; }
            2 => { let s = with("?arn", 0, c); put("instrumentLog", format!("{{\"other\":[1],\"level\":\"{}\"}}", s)); k.want.instrument_log.level = Some(s); }
            _ => put("instrumentLog", "{}".into()),
        },
        6 => { put("debugInitialCoverageComment", if v == 0 { "true".into() } else { "false".into() }); k.want.debug_initial_coverage_comment = v == 0; }
        7 => match v { 0 => { let s = with("**/?.js", 3, c); put("unstableExclude", format!("[\"{}\",\"y\"]", s)); k.want.unstable_exclude = Some(vec![s, "y".into()]); } _ => { put("unstableExclude", "[]".into()); k.want.unstable_exclude = Some(vec![]); } },
        _ => put(["other", "Compact", "report_logic", "verbose"][v as usize % 4], ["1", "{\"a\":[null]}", "true", "\"s\""][v as usize % 4].to_string()),
    }
}
fn text(items: &[(String, String)], order: u64, spaced: bool) -> String {
    let mut v: Vec<&(String, String)> = items.iter().collect();
    match order { 1 => v.reverse(), 2 => { if !v.is_empty() { let m = v.len() / 2; v.rotate_left(m); } } _ => {} }
    let s = if spaced { " " } else { "" };
    format!("{{{}{}{}}}", s, v.iter().map(|(k, v)| format!("\"{}\"{}:{}{}", k, s, s, v)).collect::<Vec<_>>().join(if spaced { ",\n " } else { "," }), s)
}
fn read(t: &str, want: &InstrumentOptions) {
    match serde_json::from_str::<InstrumentOptions>(t) {
        Err(_) => fail("a documented configuration is rejected"),
        Ok(o) => {
            cover("read");
            check(o.coverage_variable == want.coverage_variable, || "coverageVariable is not read as configured".into());
            check(o.compact == want.compact, || "compact is not read as configured".into());
            check(o.report_logic == want.report_logic, || "reportLogic is not read as configured".into());
            check(o.ignore_class_methods == want.ignore_class_methods, || "ignoreClassMethods is not read as configured".into());
            check(o.input_source_map == want.input_source_map, || "inputSourceMap is not read as configured".into());
            check(o.instrument_log.level == want.instrument_log.level && o.instrument_log.enable_trace == want.instrument_log.enable_trace, || "instrumentLog is not read as configured".into());
            check(o.debug_initial_coverage_comment == want.debug_initial_coverage_comment, || "debugInitialCoverageComment is not read as configured".into());
            check(o.unstable_exclude == want.unstable_exclude, || "unstableExclude is not read as configured".into());
        }
    }
}
/// every set of options
pub fn entry_options() {
    let c = b'$';
    let mask = choose(1 << N, "options");
    let v = choose(2, "values");
    let order = choose(3, "order");
    let mut k = Cfg { items: vec![], want: defaults() };
    for i in 0..N { if mask >> i & 1 == 1 { add(&mut k, i, v, c); } }
    let t = text(&k.items, order, order == 2);
    ctx(&t);
    read(&t, &k.want);
}
/// every pair of values of every pair of options
pub fn entry_option_pairs() {
    let c = json_char("char");
    let (i, j) = (choose(N, "first"), choose(N, "second"));
    assume(i != j);
    let (v, w) = (choose(4, "value"), choose(4, "value"));
    let mut k = Cfg { items: vec![], want: defaults() };
    add(&mut k, i, v, c);
    add(&mut k, j, w, c);
    let t = text(&k.items, 0, false);
    ctx(&t);
    read(&t, &k.want);
}
/// a key that differs from a documented one in any one character is not an option
pub fn entry_option_keys() {
    let i = choose(N - 1, "option");
    let mut k = Cfg { items: vec![], want: defaults() };
    add(&mut k, i, 0, b'x');
    let key = k.items[0].0.clone();
    let p = choose(key.len() as u64, "position") as usize;
    let c = json_char("char");
    assume(c != key.as_bytes()[p]);
    let bad = with(&key, p, c);
    let t = format!("{{\"{}\":{},\"compact\":true}}", bad, k.items[0].1);
    ctx(&t);
    let mut want = defaults();
    want.compact = true;
    read(&t, &want);
}
/// the options as they take effect in the plugin
static SRC: &str = "/* istanbul x */ class K { mx() { a || b; } n() {} } a || b;";
pub fn entry_plugin_options() { plugin_options(2, 2) }
pub fn entry_plugin_options_deep() { plugin_options(3, 3) }
fn plugin_options(n: u64, values: u64) {
    mask_hash(true);
    crate::exclude::warm();
    let mut k = Cfg { items: vec![], want: defaults() };
    let c = json_char("char");
    let mut last = 0;
    for _ in 0..n {
        let i = last + choose(N - last + 1, "option");
        if i >= N { break; }
        let v = choose(values, "value");
        // a logger can be installed once in a process
        if i == 5 { assume(v != 0); }
        // patterns are the subject of C11
        let c = if i == 7 { b'q' } else { c };
        add(&mut k, i, v, c);
        last = i + 1;
        if last > N { break; }
    }
    let order = choose(2, "order");
    let t = text(&k.items, order, false);
    let named = choose(2, "named") == 1;
    ctx(&format!("{} {}", named, t));
    let r = run(SRC, if named { Some("q.ts") } else { None }, Some(&t));
    cover("ran");
    let e = r.expected(k.want, if named { "q.ts" } else { "unknown.js" });
    check(r.is(&e), || "the plugin does not use the options it was given".into());
}
/// no configuration, and one that is not readable: the defaults
pub fn entry_plugin_no_options() {
    mask_hash(true);
    crate::exclude::warm();
    let t = match choose(8, "config") {
        0 => None,
        1 => Some("{\"compact\":1,\"reportLogic\":true}".to_string()),
        2 => Some("{\"reportLogic\":true".to_string()),
        3 => Some("{\"reportLogic\":true}}".to_string()),
        4 => Some("{\"coverageVariable\":7}".to_string()),
        k => { let mut s = vec![]; for _ in 5..k { let c = u8v("char"); assume(c < 0x80); s.push(c); } Some(unsafe { String::from_utf8_unchecked(s) }) }
    };
    ctx(&format!("{:?}", t));
    let r = run(SRC, Some("q.ts"), t.as_deref());
    cover("ran");
    check(r.is(&r.expected(defaults(), "q.ts")), || "without a readable configuration the plugin does not use the defaults".into());
}
