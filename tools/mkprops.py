#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only to keep the long lines readable)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SI = 'packages/swc-coverage-instrument/src/'
OX = 'packages/istanbul-oxide/src/'
PL = 'packages/swc-plugin-coverage/src/lib.rs'
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if hook: a['hook_needed'] = hook
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})

VIS = SI + 'macros/instrumentation_visitor.rs'; HELP = SI + 'macros/instrumentation_counter_helper.rs'; STH = SI + 'macros/instrumentation_stmt_counter_helper.rs'
COV = SI + 'visitors/coverage_visitor.rs'; SC = SI + 'source_coverage/mod.rs'
p('C01', 'Instrumenting a program only adds counters; its behaviour stays the same',
  'The instrumented program does what the original program does: for every outcome of the code it calls, the same expressions are evaluated in the same order, the same values are returned or thrown, and the same assignments and calls happen. Nothing of the original program is dropped, duplicated, reordered or moved to another position or scope: taking the injected counters and the injected coverage function out of the output gives the input back, with its source positions.',
  ['programs', 'inputs'], 'for every program the parser accepts (scripts, modules, classes, generators and async functions, patterns, TypeScript syntax) and every outcome of the calls it makes',
  'The repository\'s fixtures run some sixty programs with one or two inputs each; the property is over all programs and all control paths through them.',
  [VIS, HELP, STH, COV], [('statement counters are prepended to statements', STH), ('expressions are wrapped into (counter, expression) sequences', HELP), ('bodies without a block are wrapped into one', VIS)], ['the program returned by the visitor'])
p('C02', 'Counters in the code and slots in the coverage object match one to one',
  'Each statement, function and branch counter increment in the output names a slot which the coverage object embedded in the same output has, and every slot of that coverage object is incremented by exactly one place of the code (for a branch: one place per path). Ids are assigned without gaps for statements and functions, every id in the hit maps has its entry in the location map and the other way round, all hit counts start as zero, and each branch has as many zero counts as locations.',
  ['programs', 'configurations'], 'for every program, with and without logic reporting and ignore hints',
  'Fixtures compare totals of executed programs; a counter without a slot (which throws at run time) or a slot without a counter (which can never be covered) shows up only for the particular nesting that produces it.',
  [SC, HELP, VIS, SI + 'coverage_template/create_coverage_data_object.rs'], [('ids are handed out together with the map entry', SC), ('empty branches are pruned before the object is written', SC + ' freeze')], ['the program returned by the visitor'], [('inner', 'coverage data collected so far', SC)])
p('C03', 'Statement counts equal the number of times each statement was executed',
  'Every executable statement of the source that is not ignored (expression statements, declarators with an initialiser, class property initialisers, return, throw, break, continue, if, loops, switch, try, with, labeled and arrow bodies as the project defines them) has exactly one statement entry, whose range is the source range of that statement. After any run of the instrumented program its count is the number of times control reached that statement, and nothing that is not such a statement has an entry.',
  ['programs', 'inputs'], 'for every program and every path of control through it, including exceptions, early exits, loops, labels and generators',
  'Tests run a few programs on a few inputs; a counter placed after instead of before its statement, in the wrong block, or missing under one parent only shows on specific shapes and paths.',
  [STH, HELP, VIS, SI + 'visitors/stmt_like_visitor.rs'], [('mark_prepend_stmt_counter / cover_statement', HELP), ('insert_stmts_counter', STH)], ['the coverage object after running the output'])
p('C04', 'Function counts equal the number of calls of each function',
  'Every function with a body that is not ignored (declarations, expressions, arrows, methods, accessors, constructors, private methods) has exactly one function entry with its name, its declaration range and its body range. After any run its count equals the number of times the body was entered, and no other construct has a function entry.',
  ['programs', 'inputs'], 'for every program and every sequence of calls it makes',
  'The property ranges over all ways to write a function and all call sequences; tests sample few of them (constructors and private methods were not counted at all).',
  [HELP, VIS], [('create_fn_instrumentation, insert_fn_counter', HELP), ('visit_mut_arrow_expr, visit_mut_class_method, visit_mut_constructor', VIS)], ['the coverage object after running the output'])
p('C05', 'Branch counts equal the number of times each branch path was taken',
  'Every if, conditional expression, switch, logical expression and default value that is not ignored has exactly one branch entry of the right type and range with one path per outcome (two for if and conditional, one per case, one per operand of a chain of logical operators, one for a default value), in source order. After any run the count of a path is the number of times control took it.',
  ['programs', 'inputs'], 'for every nesting of branching constructs and every path of control through them',
  'Nested logical expressions, conditionals inside operands and defaults inside patterns combine without limit; fixtures hold a handful.',
  [VIS, HELP, SI + 'visitors/switch_case_visitor.rs', SC], [('wrap_bin_expr_with_branch_counter, replace_expr_with_branch_counter', HELP), ('visit_mut_if_stmt, visit_mut_cond_expr, visit_mut_assign_pat', VIS), ('switch cases', SI + 'visitors/switch_case_visitor.rs')], ['the coverage object after running the output'])
p('C06', 'Ignore hints remove exactly the hinted code from coverage, and nothing else',
  'A comment `istanbul ignore next` in front of a construct (a leading comment of a statement, declaration, declarator, expression, block, class member, property, parameter or case, as the parser attaches comments) removes the statements, functions and branches of that construct and of everything inside it from the coverage data; `ignore if` and `ignore else` in front of an if remove that arm and its path; and `ignore file` at the head of a file leaves the whole file uninstrumented. Everything outside the hinted code is counted as if there were no hint, the program behaves the same, and comments that are not such hints have no effect.',
  ['programs', 'inputs'], 'for every program, every position of hint comments in it and every comment text',
  'Whether a hint is looked up, inherited and restored is decided at each node kind separately; fixtures put hints on few of them.',
  [SI + 'utils/hint_comments.rs', SI + 'macros/create_instrumentation_visitor.rs', VIS, COV], [('on_enter / on_exit keep the current scope', SI + 'macros/create_instrumentation_visitor.rs'), ('lookup_hint_comments, should_ignore_file', SI + 'utils/hint_comments.rs')], ['the program returned by the visitor and its coverage object'])
p('C07', 'Every output publishes its own coverage object under the configured variable',
  'The output of every instrumented file starts (after its directives) with one coverage function named after the path of that file and one call to it, ahead of every other statement; calling it makes the coverage data available as `<global>.<coverage variable>[<file path>]` and always returns that same object. Files with different paths get different function names and never share an entry, an entry published earlier for the same path with the same hash is reused so that counts accumulate, and all counters of the output go through that function.',
  ['programs', 'configurations', 'histories'], 'for every program, file path, coverage variable and state of the global coverage object',
  'Fixtures evaluate one file with one path and a fresh global; the property is over paths, variables and the order in which files are instrumented and evaluated.',
  [SI + 'coverage_template/create_coverage_fn_decl.rs', SI + 'coverage_template/create_global_stmt_template.rs', SI + 'coverage_template/create_assignment_stmt.rs', COV], [('create_coverage_fn_decl, create_coverage_fn_ident', SI + 'coverage_template/create_coverage_fn_decl.rs'), ('visit_mut_module_items / visit_mut_script insert it', COV)], ['the program returned by the visitor'])
p('C08', 'Directive prologues keep their meaning',
  'Every directive of the program and of each function body ("use strict", "use client", ...) is still in the directive prologue of the output, in the original order and ahead of anything injected, and no string statement that was not a directive becomes one.',
  ['programs'], 'for every program and function body with directives',
  'Directives occur in programs, functions, methods, accessors, constructors and arrows, each instrumented by other code; the tests had one program-level directive.',
  [STH, HELP, COV, SI + 'macros/mod.rs'], [('directives are kept in front', SI + 'macros/mod.rs'), ('insert_fn_counter', HELP)], ['the program returned by the visitor'])
p('C09', 'The coverage object in the output states the collected coverage data exactly',
  'The object literal embedded in the output holds exactly the collected coverage data: evaluated, it equals the JSON the library gives for the same data, including path, every range, function name, branch type and line, logic truthiness and the input source map, whatever characters or numbers they contain. The embedded hash is a function of that data: equal data have equal hashes, and data that differ have different hashes (up to collisions of the hash).',
  ['programs', 'configurations', 'inputs'], 'for every program, file name, function name and input source map',
  'The literal is written field by field by hand; the tests look at few fields and never at escapes, empty maps, or absent optional fields.',
  [SI + 'coverage_template/create_coverage_data_object.rs', SC, OX + 'file_coverage.rs', OX + 'source_map.rs'], [('create_coverage_data_object', SI + 'coverage_template/create_coverage_data_object.rs')], ['the object literal in the output, against serde\'s JSON of the coverage data'])
p('C10', 'With logic reporting, truthiness counts equal the number of truthy evaluations',
  'With reportLogic, each operand of a logical expression counts, besides its evaluations, the evaluations whose value was non-trivially true (truthy, and not an empty array or an empty plain object), and the value of the expression is unchanged. Without reportLogic no truthiness data and no such code appears.',
  ['programs', 'inputs'], 'for every nesting of logical expressions and every value of the operands',
  'Three fixtures with fixed values; the property is over all values and nestings.',
  [SI + 'instrument/create_increase_true_expr.rs', HELP, SC], [('create_increase_true_expr', SI + 'instrument/create_increase_true_expr.rs')], ['the coverage object after running the output'])
p('C11', 'A file is left alone exactly if its normalised name matches an exclude pattern',
  'The name of a file and the exclude patterns are compared after turning both into forward-slash form: names that differ only in the separators used (slash or backslash) are treated alike, a drive letter in front of a rooted name or pattern does not matter, and nothing else of name or pattern is lost (UNC and device names are not covered). A file whose name matches one of the patterns is returned unchanged; every other file is instrumented exactly as without the option, under the name it was given, and a list with a pattern that cannot be parsed excludes nothing that its other patterns do not match.',
  ['inputs', 'configurations'], 'for every file name (Windows, Unix, mixed) and every list of patterns',
  'One test with five names; the property is over all strings.',
  [PL], [('normalize_path', PL), ('wax glob match', PL)], ['return value of the path normalisation', 'the program returned by the plugin'])
p('C12', 'Plugin options are read as documented, with defaults for what is absent',
  'Every documented option in the JSON configuration takes effect under its documented (camel case) name whatever other options are present or absent, each absent option has its documented default, and unknown keys are ignored. Without a configuration, or with one that cannot be read, the plugin instruments with the defaults; a file without a name counts as unknown.js.',
  ['configurations', 'inputs'], 'for every subset of options and every order and value of them',
  'Tests never deserialise a configuration; a renamed field or a lost default compiles and passes.',
  [SI + 'options/instrument_options.rs', PL], [('serde derive with defaults', SI + 'options/instrument_options.rs')], ['the options value parsed from JSON'])
p('C13', 'ignoreClassMethods leaves out exactly the methods with a listed name',
  'With ignoreClassMethods, class and object methods, accessors and constructors whose name (an identifier, not a string, computed or private name) is in the list, and named function expressions so called, have no function, statement or branch entry and are left as they were written; every other function of the program is counted as without the option, and the program behaves the same.',
  ['programs', 'configurations'], 'for every program and every list of names',
  'Two fixtures; methods can be static, private, computed, accessors, generators, in nested classes.',
  [VIS, HELP], [('visit_mut_class_method, visit_mut_fn_expr', VIS)], ['the program returned by the visitor'])
p('C14', 'Ranges in the coverage data are the source positions of the construct',
  'Each range in the coverage data is the line and column the source map gives for the start and for the end of the construct it describes, start and end not exchanged, lines and columns not exchanged or shifted, for every position the source map may give. Constructs without a source position get the empty range instead of an abort.',
  ['inputs', 'programs'], 'for every construct and every line and column the source map may answer',
  'The unit tests never look at ranges; the property is over all positions.',
  [SI + 'utils/lookup_range.rs', VIS, HELP, SC, SI + 'coverage_template/create_coverage_data_object.rs'], [('get_range_from_span', SI + 'utils/lookup_range.rs')], ['the ranges in the coverage object'])
p('C15', 'Merging file coverage adds the hits of equal locations and loses none',
  'Merging a second coverage of a file into a first gives a coverage whose entries are the union of the entries of both by location, with the hits of entries present in both added and the others kept, for statements, functions, branch paths and branch truthiness alike, with hit maps and location maps still matching. A file marked as never loaded (`all`) contributes nothing and is replaced by the real one, and the order of merging does not change the totals.',
  ['inputs', 'histories'], 'for every pair (and sequence) of file coverages with any hit counts',
  'Three unit tests with fixed numbers and no branch truthiness; the merge is quadratic in the ways two maps can overlap.',
  [OX + 'file_coverage.rs'], [('merge_properties, merge_properties_hits_vec', OX + 'file_coverage.rs')], ['the merged file coverage'])
p('C16', 'Line and branch-per-line views derive from the statement and branch data',
  'The count of a line is the largest count of the statements that start on it and a line has a count exactly if a statement starts on it; the uncovered lines are exactly the lines with count zero; and the branch coverage of a line counts exactly the taken and the existing paths of the branches of that line.',
  ['inputs'], 'for every file coverage',
  'Three unit tests with fixed values.',
  [OX + 'file_coverage.rs'], [('get_line_coverage, get_uncovered_lines, get_branch_coverage_by_line', OX + 'file_coverage.rs')], ['return values'])
p('C17', 'Summary totals and percentages are exact and consistent',
  'A summary counts exactly the existing and the covered lines, functions, statements, branch paths and truthiness paths; its percentage is covered/total rounded down to two decimals, which is 100 exactly if everything is covered (or nothing exists), is never above 100 nor below 0, and grows with covered. Merging summaries adds totals, covered and skipped, and recomputes the percentage.',
  ['inputs'], 'for every file coverage and all counts up to the stated bound',
  'Rounding and overflow depend on the numbers; unit tests check two percentages.',
  [OX + 'percent.rs', OX + 'coverage_summary.rs', OX + 'file_coverage.rs'], [('percent', OX + 'percent.rs'), ('CoverageSummary::merge', OX + 'coverage_summary.rs'), ('to_summary', OX + 'file_coverage.rs')], ['totals of the summary'], hook='CoverageSummary is not exported and its fields are private: a guarded accessor')
p('C18', 'A coverage map holds one entry per file with everything added for it',
  'A coverage map has exactly one entry for each file path ever added, in order of first addition, which is the merge of all coverage added for that path; merging maps is adding each file of the other map; filtering keeps exactly the entries the predicate accepts, unchanged; and its summary is the sum of the summaries of its files.',
  ['histories', 'inputs'], 'for every sequence of additions, merges and filters',
  'Tests use empty coverages, so neither the merge nor the sum is visible.',
  [OX + 'coverage_map.rs'], [('add_coverage_for_file, merge, filter, get_coverage_summary', OX + 'coverage_map.rs')], ['get_files, get_coverage_for_file, get_coverage_summary'])
p('C19', 'Resetting hits zeroes every count and changes nothing else',
  'After a reset every statement, function, branch path and truthiness count is zero and everything else of the file coverage is as before, so that the reset coverage followed by merging some run equals that run.',
  ['inputs'], 'for every file coverage', 'One unit test with fixed values and no truthiness.',
  [OX + 'file_coverage.rs'], [('reset_hits', OX + 'file_coverage.rs')], ['the file coverage'])
p('C20', 'Coverage data survives a round trip through its JSON form',
  'Writing a file coverage as JSON and reading it back gives an equal file coverage in the same entry order, the JSON uses the field names of the istanbul format (statementMap, fnMap, branchMap, s, f, b, bT, inputSourceMap, branch types in kebab case), and optional parts that are absent are left out and read back as absent.',
  ['inputs'], 'for every file coverage and source map', 'No test serialises coverage data.',
  [OX + 'file_coverage.rs', OX + 'types.rs', OX + 'range.rs', OX + 'source_map.rs'], [('serde derives', OX + 'file_coverage.rs')], ['the JSON text and the value read from it'])
p('C21', 'Every program the parser accepts is instrumented without an abort',
  'Instrumentation ends normally, with a program that is again syntactically valid, for every program the parser accepts as JavaScript or TypeScript, with any options and any comments: no panic, no invalid output such as code in declarations without a body, statements where only class members may stand, or coverage code inside type-only constructs.',
  ['programs', 'configurations'], 'for every syntax tree the parser produces, including TypeScript-only constructs',
  'Tests cover JavaScript programs that were known to work.',
  [VIS, HELP, COV], [('visitors skip what has no body', HELP), ('template only at the top level', COV)], ['the program returned by the visitor, printed and parsed again'])
p('C22', 'The output depends on nothing but the source, its name and the options',
  'Instrumenting the same source under the same name with the same options always gives the same output and coverage data, whatever was instrumented before in the same process and in whatever order.',
  ['histories', 'programs'], 'for every history of instrumented files before it',
  'Each test instruments in a fresh state or does not compare; state kept between files shows only in sequences.',
  [SI + 'coverage_template/create_coverage_fn_decl.rs', SI + 'constants/idents.rs', COV], [('no state outside the visitor', COV)], ['the program returned by the visitor'])
open(os.path.join(V, 'properties.jsonl'), 'w').write(''.join(json.dumps(x) + '\n' for x in P))
