# property -> entries (harness functions) per tier, with bounds and vacuity witnesses
BASE_ASSUMPTIONS = [
    'the symbolic executor (/verif/engine), z3 4.8.12 and rustc\'s lowering to LLVM IR (opt-level 1, overflow checks on, panic=abort) are trusted; sampled paths are replayed in the compiled program on every run and sampled queries are answered by cvc5 as well',
    'allocation never fails; HashMap seeds are fixed by the engine',
]
GRAMMAR2 = 'every program the statement/expression grammar of harness/jslib/src/gen.rs derives with at most 2 non-trivial constructs, module mode, report_logic on and off; parsed by the real swc parser'
EXEC = '; every outcome of the calls in it (each unknown call returns true-ish, false-ish or throws) up to 60 interpreter steps per loop bound and 6 forking calls'
JSB = 'every JavaScript/JSX template (70 items, 67 expressions, 41 members) with one besides plain calls, module and script; declared functions and classes are called' + EXEC
TSB = 'every TypeScript template (58 items, 30 expressions, 32 members) with one besides plain calls, module and script; declared functions and classes are called' + EXEC
JS2B = 'every JavaScript item and member, and 10 expressions, in every place of every other' + EXEC
TS2B = 'every TypeScript template in every place of every other' + EXEC
CHECKS = {
    'C01': dict(
        explain='The real visitor is executed symbolically on every generated program. Removing the injected counters must give back the original tree with the original source positions, and running original and instrumented program under the same symbolic outcomes of unknown calls must show the same events.',
        quick=[dict(entry='entry_erasure', covers=['transformed'], bound=GRAMMAR2), dict(entry='entry_behaviour', covers=['transformed', 'ran'], bound=GRAMMAR2 + EXEC), dict(entry='entry_behaviour_js', covers=['ran'], bound=JSB), dict(entry='entry_behaviour_ts', covers=['ran'], bound=TSB), dict(entry='entry_behaviour_hints', covers=['ran'], bound='every program of the whole grammar with one non-trivial construct and one hint, with and without ignored methods'+EXEC)],
        thorough=[dict(entry='entry_behaviour_js2', covers=['ran'], timeout=900, bound=JS2B), dict(entry='entry_behaviour_ts2', covers=['ran'], timeout=900, bound=TS2B), dict(entry='entry_erasure_deep', covers=['transformed'], timeout=1500, bound='the whole grammar with at most 3 non-trivial constructs (as far as the time allows)'), dict(entry='entry_behaviour_ctrl', covers=['ran'], timeout=1500, bound='the control-flow part of the grammar with at most 3 nested constructs'), dict(entry='entry_behaviour_funs', covers=['ran'], timeout=1500, bound='the function/class part of the grammar with at most 3 nested constructs')]),
    'C02': dict(
        explain='For every generated program the counters found in the output and the slots of the coverage object in the output are compared as sets, in both directions.',
        quick=[dict(entry='entry_bijection', covers=['transformed'], bound=GRAMMAR2), dict(entry='entry_bijection_js', covers=['instrumented'], bound='every JavaScript/JSX template with one besides plain calls, module and script, 3 option sets'), dict(entry='entry_bijection_ts', covers=['instrumented'], bound='every TypeScript template with one besides plain calls, one comment, module and script, 3 option sets'), dict(entry='entry_bijection_arms', covers=['transformed'], bound='every program of a grammar of conditionals, switches, functions and logical expressions with at most 2 nested constructs and one hint, with and without ignored methods'), dict(entry='entry_bijection_hints', covers=['transformed'], bound='every program of the whole grammar with one non-trivial construct and one hint, with and without ignored methods')],
        thorough=[dict(entry='entry_bijection_deep', covers=['transformed'], timeout=1500, bound='the whole grammar with at most 3 non-trivial constructs (as far as the time allows)')]),
    'C03': dict(
        explain='Original and instrumented program are run under the same symbolic outcomes; every executable statement must have exactly one entry with its range, whose final count equals the number of executions.',
        quick=[dict(entry='entry_stmts', covers=['transformed', 'statement reached'], bound=GRAMMAR2 + EXEC), dict(entry='entry_stmts_js', covers=['statement reached'], bound=JSB), dict(entry='entry_stmts_ts', covers=['statement reached'], bound=TSB)],
        thorough=[dict(entry='entry_stmts_js2', covers=['statement reached'], timeout=900, bound=JS2B), dict(entry='entry_stmts_ts2', covers=['statement reached'], timeout=900, bound=TS2B), dict(entry='entry_stmts_ctrl', covers=['statement reached'], timeout=1500, bound='the control-flow part of the grammar with at most 3 nested constructs'), dict(entry='entry_stmts_funs', covers=['transformed'], timeout=1500, bound='the function/class part of the grammar with at most 3 nested constructs')]),
    'C04': dict(
        explain='As for statements: each function with a body has one entry with its name and ranges; the count equals the number of entries into the function.',
        quick=[dict(entry='entry_funcs', covers=['transformed', 'function entered'], bound=GRAMMAR2 + EXEC), dict(entry='entry_funcs_js', covers=['function entered'], bound=JSB), dict(entry='entry_funcs_ts', covers=['function entered'], bound=TSB)],
        thorough=[dict(entry='entry_funcs_js2', covers=['function entered'], timeout=900, bound=JS2B), dict(entry='entry_funcs_ts2', covers=['function entered'], timeout=900, bound=TS2B), dict(entry='entry_funcs_ctrl', covers=['function entered'], timeout=1500, bound='the control-flow part of the grammar with at most 3 nested constructs'), dict(entry='entry_funcs_funs', covers=['transformed'], timeout=1500, bound='the function/class part of the grammar with at most 3 nested constructs')]),
    'C05': dict(
        explain='As for statements: each branch has one entry with one path per outcome; path counts equal the number of times the path was taken.',
        quick=[dict(entry='entry_branches', covers=['transformed', 'branch path taken'], bound=GRAMMAR2 + EXEC), dict(entry='entry_branches_js', covers=['branch path taken'], bound=JSB), dict(entry='entry_branches_ts', covers=['branch path taken'], bound=TSB)],
        thorough=[dict(entry='entry_branches_js2', covers=['branch path taken'], timeout=900, bound=JS2B), dict(entry='entry_branches_ts2', covers=['branch path taken'], timeout=900, bound=TS2B), dict(entry='entry_branches_ctrl', covers=['branch path taken'], timeout=1500, bound='the control-flow part of the grammar with at most 3 nested constructs'), dict(entry='entry_branches_funs', covers=['transformed'], timeout=1500, bound='the function/class part of the grammar with at most 3 nested constructs')]),
    'C06': dict(
        explain='The real visitor is executed symbolically on every generated program with a hint comment at every position the grammar has; the entries and counts of the output must be those the rules of the hints (harness/jslib/src/expect.rs) give, and the program must behave the same. Comment texts are varied with a symbolic character.',
        outside='Hints the parser does not attach as leading comment of a construct (trailing comments on the same line) are outside.',
        quick=[dict(entry='entry_hints', covers=['something ignored'], bound='every program of the whole statement/expression grammar with one non-trivial construct besides the first statement, two statements, one hint (next, if, else) at any position, module and script'), dict(entry='entry_hints_nested', covers=['something ignored'], bound='one hint in programs with two nested control-flow constructs'), dict(entry='entry_hint_text', covers=['is a hint', 'is not a hint'], bound='every one-byte replacement or insertion (any ASCII byte) in each of the hint texts'), dict(entry='entry_hint_file', covers=['file ignored', 'file not ignored'], bound='ignore file at every head position (shebang, directives, before other comments) of generated programs'), dict(entry='entry_hints_js', covers=['something ignored'], bound='every JavaScript/JSX template with one besides plain calls, next or else at any place between its tokens'), dict(entry='entry_hints_ts', covers=['something ignored'], bound='every TypeScript template with one besides plain calls, next or else at any place between its tokens'), dict(entry='entry_comment_texts', covers=['something ignored'], bound='18 texts (empty, short, multi-byte, hints with text around) as line and block comment at every place of 4 programs')],
        thorough=[dict(entry='entry_hints_js_all', covers=['something ignored'], timeout=900, bound='every JavaScript/JSX template with one besides plain calls, any hint, block or line comment, at any place between its tokens'), dict(entry='entry_hints_ts_all', covers=['something ignored'], timeout=900, bound='every TypeScript template with one besides plain calls, any hint, block or line comment, at any place between its tokens'), dict(entry='entry_hints_deep', covers=['something ignored'], timeout=1500, bound='two hints in programs with two nested control-flow constructs')]),
    'C07': dict(
        explain='The output is executed (interpreter of the output program in harness/jslib) with different states of the global coverage object and different histories of evaluated files; the published object must be the one the counters increment, under the configured names.',
        quick=[dict(entry='entry_publish', covers=['published'], bound='every program of the whole grammar with one non-trivial construct besides the first statement and one hint, module and script; every outcome of its calls'), dict(entry='entry_names', covers=['transformed'], bound='every pair of 16 file names (separators, case, quotes, line breaks, empty) with each of 4 coverage variables'), dict(entry='entry_files', covers=['same file again', 'two files'], bound='two generated files under the same or different names, evaluated in order and the first again, two coverage variables'), dict(entry='entry_publish_js', covers=['published'], bound='every JavaScript/JSX template with one besides plain calls'), dict(entry='entry_publish_ts', covers=['published'], bound='every TypeScript template with one besides plain calls')]),
    'C08': dict(
        explain='The directive prologues (of the program and of every function body) of original and instrumented program are compared: every directive stays in front, no string statement turns into one.',
        quick=[dict(entry='entry_directives', covers=['transformed', 'has directive'], bound='every program of a grammar focused on string statements (directives in programs, functions, methods, constructors, accessors, arrows; strings elsewhere), at most 3 non-trivial constructs, module and script mode'), dict(entry='entry_directives_js', covers=['transformed', 'has directive'], bound='every JavaScript/JSX template with one besides plain calls, string statements in front of the calls'), dict(entry='entry_directives_ts', covers=['transformed', 'has directive'], bound='every TypeScript template with one besides plain calls, string statements in front of the calls')],
        thorough=[dict(entry='entry_directives_deep', covers=['has directive'], timeout=1500, bound='the directive grammar with at most 3 nested constructs')]),
    'C09': dict(
        explain='The object literal in the output is read back from the output program (the raw text of each literal too) and compared with the JSON the library emits for the same data (debug_initial_coverage_comment), with the input source map given and with the file name; the hash is compared between outputs of related inputs.',
        assumptions=['where characters are symbolic (entry_literal_values) SipHash is computed over them as if they were 0'],
        outside='Collisions of the 64-bit hash, and strings with more than one open character, are outside.',
        quick=[dict(entry='entry_literal', covers=['transformed'], bound='every program of the whole grammar with one non-trivial construct in each of two statements, report_logic on and off'), dict(entry='entry_literal_deep', covers=['transformed'], bound=GRAMMAR2), dict(entry='entry_literal_map', covers=['transformed'], bound='every combination of optional parts of the input source map, 6 odd file names'), dict(entry='entry_literal_values', covers=['transformed'], bound='any ASCII character in the file name, a function name and every string of the input source map; any 32-bit version'), dict(entry='entry_hash', covers=['equal data', 'different data'], bound='every program of the whole grammar with one non-trivial construct, against 6 related inputs (other names, other options, other path, more code, moved code, a source map)'), dict(entry='entry_literal_js', covers=['transformed'], bound='every JavaScript/JSX template with one besides plain calls'), dict(entry='entry_literal_ts', covers=['transformed'], bound='every TypeScript template with one besides plain calls')]),
    'C10': dict(
        explain='With report_logic the truthiness counter of each operand of a logical expression equals the number of evaluations that were non-trivially true.',
        quick=[dict(entry='entry_truth', covers=['transformed', 'truthy operand'], bound=GRAMMAR2 + EXEC), dict(entry='entry_truth_js', covers=['truthy operand'], bound=JSB), dict(entry='entry_truth_ts', covers=['truthy operand'], bound=TSB), dict(entry='entry_truth_hints', covers=['truthy operand'], bound='every program of a grammar of logical expressions with at most 2 nested constructs and one hint, with and without ignored methods and report_logic'+EXEC)],
        thorough=[dict(entry='entry_truth_js2', covers=['truthy operand'], timeout=900, bound=JS2B), dict(entry='entry_truth_ts2', covers=['truthy operand'], timeout=900, bound=TS2B), dict(entry='entry_truth_ctrl', covers=['truthy operand'], timeout=1500, bound='the control-flow part of the grammar with at most 3 nested constructs'), dict(entry='entry_truth_funs', covers=['transformed'], timeout=1500, bound='the function/class part of the grammar with at most 3 nested constructs')]),
    'C11': dict(harness='plug',
        explain='The real `process` of the plugin (the host interface replaced by values of the harness) is executed symbolically, including path normalisation, pattern parsing and the regular expressions of the wax crate, on names with open characters. Whether a name matches is decided independently by a small matcher on the parts of name and pattern; the output must be the input untouched or that of the instrumentation.',
        assumptions=['the host side of the plugin interface (file name, configuration, source map, comments handed over by swc) is replaced by a stand-in', 'where the file name is open SipHash is computed over its characters as if they were 0'],
        outside='UNC and device names, drive-relative names, doubled separators and `.` parts in Windows names, non-ASCII and control characters, and patterns other than the listed ones are outside.',
        quick=[dict(entry='entry_exclude', covers=['ran', 'left alone'], bound='19 lists of patterns (with /, \\\\, drive, *, **, ?, alternatives, several, none, not parsable), names of 1 or 2 open printable ASCII characters, with and without drive in front'), dict(entry='entry_exclude_names', covers=['ran', 'left alone'], bound='the same lists, names of 9 shapes with one open character'), dict(entry='entry_exclude_separators', covers=['ran', 'left alone'], bound='6 longer patterns in 3 spellings, 10 longer names with each separator open')],
        thorough=[dict(entry='entry_exclude_deep', covers=['left alone'], timeout=1200, bound='names of up to 3 open characters'), dict(entry='entry_exclude_long', covers=['left alone'], timeout=1500, bound='9 shapes with up to 3 open characters')]),
    'C12': dict(harness='plug',
        explain='The real serde code reads configurations with every subset of options, and the real `process` runs with configurations; the options read, and the output, must be those of the documented meaning.',
        assumptions=['the host side of the plugin interface is replaced by a stand-in', 'SipHash is computed over open characters as if they were 0'],
        outside='Values of another type than documented, repeated keys, and escapes in strings are outside; the effect of instrumentLog (a log) is outside.',
        quick=[dict(entry='entry_options', covers=['read'], bound='every subset of the 8 options and an unknown key, 2 values each, 3 orders'), dict(entry='entry_option_pairs', covers=['read'], bound='every pair of options with every pair of 4 values, in both orders; strings with any printable character'), dict(entry='entry_option_keys', covers=['read'], bound='every option name with any one character replaced by any other'), dict(entry='entry_plugin_options', covers=['ran'], bound='up to 2 options with 2 values each, in both orders, with and without a file name; effect on the output'), dict(entry='entry_plugin_no_options', covers=['ran'], bound='no configuration, 4 unreadable ones, and any text of up to 2 ASCII characters')],
        thorough=[dict(entry='entry_plugin_options_deep', covers=['ran'], timeout=900, bound='up to 3 options with 3 values each')]),
    'C13': dict(
        explain='The real visitor is executed symbolically with lists of method names that hold an open character. The entries and counts of the output must be those of the program without the listed functions (harness/jslib/src/expect.rs), the output must behave like the original, and the listed functions must be as written.',
        quick=[dict(entry='entry_methods', covers=['transformed', 'something ignored', 'function entered'], bound='every program of a grammar of classes, objects and functions with one non-trivial construct, 4 lists (two with any ASCII character), report_logic on and off'), dict(entry='entry_methods_any', covers=['transformed', 'something ignored'], bound='at most 2 nested constructs, a list with any one-character name'), dict(entry='entry_methods_js', covers=['transformed', 'something ignored'], bound='every JavaScript/JSX template with one besides plain calls'), dict(entry='entry_methods_ts', covers=['transformed', 'something ignored'], bound='every TypeScript template with one besides plain calls')],
        thorough=[dict(entry='entry_methods_js2', covers=['something ignored'], timeout=900, bound='every JavaScript item and member, and 10 expressions, in every place of every other'), dict(entry='entry_methods_lists', covers=['something ignored'], timeout=1500, bound='10 lists'), dict(entry='entry_methods_nested', covers=['something ignored'], timeout=1500, bound='at most 2 nested constructs, 4 lists')]),
    'C14': dict(
        explain='The real visitor runs with a source map that answers every position with numbers particular to it, which tells which positions each range is made of; then one of those positions is answered with an open line and column, which must come out in exactly the ranges made of it. The positions themselves are compared with the constructs by the checks of C03 to C05. Nodes whose start or end carries no position must get the empty range, and no such position may be looked up.',
        assumptions=['SipHash is computed over open digits as if they were 0'],
        outside='Lines and columns of more than 7 digits are outside.',
        quick=[dict(entry='entry_ranges', covers=['looked up'], bound='every program of the whole grammar with one non-trivial construct; every position used; any line and column below 10^7, in 7 pairs of digit counts'), dict(entry='entry_dummy', covers=['without positions'], bound='the same programs with the position blanked for all nodes which start (or end) at any one byte'), dict(entry='entry_ranges_ts', covers=['looked up'], bound='every TypeScript template with one besides plain calls; every position used; any line and column of 1, 5 or 7 digits'), dict(entry='entry_dummy_ts', covers=['without positions'], bound='every TypeScript template with one besides plain calls; the position blanked as above')],
        thorough=[dict(entry='entry_ranges_js', covers=['looked up'], timeout=900, bound='every JavaScript/JSX template with one besides plain calls; every position used; any line and column of 1, 5 or 7 digits'), dict(entry='entry_dummy_js', covers=['without positions'], timeout=900, bound='every JavaScript/JSX template with one besides plain calls; the position blanked as above'), dict(entry='entry_ranges_deep', covers=['looked up'], timeout=1500, bound='the control-flow part of the grammar with at most 2 nested constructs')]),
    'C21': dict(
        explain='Programs derived from templates of JavaScript, JSX and TypeScript constructs (harness/jslib/src/gents.rs) are parsed by the real parser, instrumented by the real visitor, printed by the real printer and parsed again, all executed symbolically. No step may abort, the second parse must succeed, no coverage code may stand in ambient declarations, types or bodies that do not exist, and erasure and the counter/slot bijection must hold.',
        outside='Programs with more than two templates, and aborts by stack overflow on deeply nested programs, are outside.',
        quick=[dict(entry='entry_ts', covers=['instrumented', 'valid again'], bound='every TypeScript template (58 items, 30 expressions, 32 members) with one besides plain calls, one comment, module and script, 3 option sets'), dict(entry='entry_ts_nested', covers=['instrumented', 'valid again'], bound='every TypeScript template in every place of every other'), dict(entry='entry_js', covers=['instrumented', 'valid again'], bound='every JavaScript/JSX template (70 items, 67 expressions, 41 members), module and script, 3 option sets'), dict(entry='entry_js_short', covers=['instrumented', 'valid again'], bound='every JavaScript item and member, and 10 expressions, in every place of every other'), dict(entry='entry_comment_texts', covers=['transformed'], bound='18 texts (empty, short, multi-byte, hints with text around) as line and block comment at every place of 4 programs')],
        thorough=[dict(entry='entry_js_nested', covers=['instrumented', 'valid again'], timeout=1500, bound='every JavaScript template in every place of every other')]),
    'C22': dict(
        explain='In one process the same source is instrumented twice with another file in between (other code, name, options, hints, mode); output tree, positions, comments, initial coverage data and printed text must be the same.',
        outside='Several threads, and hash seeds other than the one the engine fixes, are outside.',
        quick=[dict(entry='entry_repeat', covers=['transformed'], bound='every program of the whole grammar with one non-trivial construct and one hint, and 3 programs as the very first in the process; 6 other files in between'), dict(entry='entry_repeat_ts', covers=['transformed'], bound='every TypeScript template with one besides plain calls (and comments), instrumented twice')],
        thorough=[dict(entry='entry_repeat_js', covers=['transformed'], timeout=900, bound='every JavaScript/JSX template with one besides plain calls, instrumented twice')]),
    'C15': dict(harness='oxh',
        explain='The merge of two (and three) file coverages of every bounded shape is executed symbolically with symbolic hit counts; for every location the result must hold the union of the entries and the exact sum of the counts, with hit and location maps in step.',
        outside='Coverages with more entries per kind, two entries of one coverage at the same location, and sums beyond 32 bits are outside.',
        quick=[dict(entry='entry_merge_stmts', covers=['merged'], bound='statements: up to 3 entries a side at 3 locations, in every order and with 3 id schemes, all hit counts below 2^28'), dict(entry='entry_merge_fns', covers=['merged'], bound='functions: up to 2 entries a side at 3 locations'), dict(entry='entry_merge_branches', covers=['merged'], bound='branches: up to 2 entries a side at 4 locations, 0 to 3 paths'), dict(entry='entry_merge_truth', covers=['merged'], bound='truthiness: up to 2 branches a side at 2 locations, with and without truthiness on each side and branch'), dict(entry='entry_merge_keys', covers=['merged'], bound='every pair of 9 locations differing in one coordinate or in the position of separators'), dict(entry='entry_merge_mixed', covers=['merged'], bound='up to one entry of each kind a side'), dict(entry='entry_merge_all', covers=['merged'], bound='files marked as never loaded, up to 2 entries a side'), dict(entry='entry_merge_three', covers=['merged'], bound='three coverages merged in every grouping, up to one statement and one branch each')],
        thorough=[dict(entry='entry_merge_truth_deep', covers=['merged'], bound='truthiness: up to 2 branches a side at 3 locations')]),
    'C16': dict(harness='oxh',
        explain='The views are computed symbolically for every bounded shape with symbolic 32-bit hit counts and compared with the definition (maximum per line, zero lines, taken and existing paths).',
        quick=[dict(entry='entry_lines', covers=['computed'], bound='up to 3 statements on 3 lines, any hit counts'), dict(entry='entry_branch_lines', covers=['computed'], bound='up to 3 branches on 2 lines with 1 or 2 paths, any hit counts, line given by line or by location')]),
    'C17': dict(harness='oxh',
        explain='Totals and percentages are computed symbolically (including the floating-point arithmetic) and compared with the exact definition.',
        outside='Larger totals are outside of the percentage queries (floating-point division by a symbolic total does not scale).',
        assumptions=['cfg verif_hooks exports the summary types of istanbul-oxide'],
        quick=[dict(entry='entry_totals', covers=['summarised'], bound='up to 3 statements, 3 functions, or 2 branches of up to 2 paths with and without truthiness; any hit counts'), dict(entry='entry_percent', covers=['computed'], qtimeout=60000, bound='percentage bounds and 100 %: all covered <= total < 256'), dict(entry='entry_percent_mono', covers=['computed'], qtimeout=60000, bound='exact value and monotony for all covered <= total, total one of 1 2 3 7 10 97 128'), dict(entry='entry_summary_merge', covers=['merged'], qtimeout=60000, bound='two summaries, totals < 32, skipped < 2^30'), dict(entry='entry_percent_large', covers=['computed'], qtimeout=60000, bound='totals 300, 10000, 42950, 65537, 100003, 1000003, 2^24+1, 2^31, 2^32-1; all covered within 2 of 0, one half, the total, and of 2^16, 2^31, 2^32 over the factors used'), dict(entry='entry_percent_any', covers=['computed'], bound='no abort for any covered <= total of 32 bits')]),
    'C18': dict(harness='oxh',
        explain='Sequences of operations on a coverage map are executed symbolically with symbolic hit counts and compared with a model (per path in order of first addition, sums per location).',
        assumptions=['cfg verif_hooks exports the summary types of istanbul-oxide'],
        quick=[dict(entry='entry_map', covers=['sequence done', 'two files'], bound='up to 2 operations (add, merge with a map of two files, filter) on 3 paths, one statement at 1 of 2 locations per file'), dict(entry='entry_map_summary', covers=['summarised'], bound='up to 2 files with up to 3 entries'), dict(entry='entry_map_all', covers=['sequence done'], bound='up to 3 additions (directly or as a map) of files marked as never loaded or not, 2 paths, 2 locations, then a filter')],
        thorough=[dict(entry='entry_map_deep', covers=['sequence done', 'two files'], bound='up to 3 operations')]),
    'C19': dict(harness='oxh',
        explain='The reset of every bounded shape with symbolic hit counts is compared with the definition; merging the run back gives the run.',
        quick=[dict(entry='entry_reset', covers=['reset'], bound='up to 3 statements, 3 functions or 2 branches (with and without truthiness), any hit counts below 2^28')]),
    'C20': dict(harness='oxh',
        explain='The real serde code writes and reads file coverages with every combination of optional parts, and with symbolic numbers and characters; the value must come back equal and the text must have the istanbul field names.',
        outside='Longer strings and non-ASCII characters are outside.',
        quick=[dict(entry='entry_json_shape', covers=['round trip'], bound='every combination of parts present or absent, every combination of optional source map fields'), dict(entry='entry_json_values', covers=['round trip'], bound='numbers below 64 and two large ones, any ASCII character in names and paths')],
        thorough=[dict(entry='entry_json_values_deep', covers=['round trip'], timeout=900, bound='numbers below 2048')]),
}
NOT_APPLICABLE = {}
HOOKS = {'guard': 'verif_hooks', 'enable': 'RUSTFLAGS=--cfg verif_hooks', 'source_commits': ['7c556a0']}
