#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Compiling never crashes, whatever the patterns, flags, ids and mode",
  "Compiling any list of patterns (any text, including non-ASCII characters, control bytes, unbalanced or deeply nested groups and patterns at or over the length limit) with any flags, match ids and mode returns either a database or an error. It never panics, overflows, exhausts the stack, aborts or fails to return.",
  ["inputs", "programs"], "every list of patterns x flags x match ids x mode, up to and beyond the documented limits",
  "the two compile tests run 'foobar' and an empty list; no test compiles a group that does not start the pattern, a non-ASCII character, clashing ids or a deep nest",
  ["src/lib.rs", "src/compiler.rs", "src/parser.rs", "src/util/compile_error.rs"],
  [("per-expression error propagation", "src/lib.rs compile_multi_int"), ("token loop of the parser", "src/parser.rs Context::main"), ("expression index attached to errors", "src/util/compile_error.rs set_expression_index")],
  observe=["return value of compile/compile_multi", "panics and process death"], hook=None)

p("C02", "Exactly the well-formed pattern sets are accepted",
  "A pattern set compiles if and only if it is non-empty and within the pattern-count limit, has one flag set and one match id per pattern, and every pattern is within the byte-length limit, does not combine quiet with start-of-match reporting, opens with no control verb other than a supported one, is otherwise ASCII, has balanced parentheses, and does not disagree with an earlier pattern of the same match id about single-match. No pattern of the list is ever skipped.",
  ["inputs", "configurations"], "every pattern list, flags, ids, mode, and every limit configuration",
  "tests accept one literal and reject one empty list; the boundary of the accepted language and of each limit is unsampled",
  ["src/lib.rs", "src/compiler.rs", "src/parser.rs", "src/parser/control_verbs.rs", "src/grey.rs"],
  [("list-level validation", "src/lib.rs compile_multi_int"), ("length and flag checks", "src/compiler.rs add_expression, ParsedExpression::new"), ("group stack", "src/parser.rs push_sequence/pop_sequence/parse"), ("limits", "src/grey.rs")],
  state=[("sequences", "stack of open groups", "src/parser.rs Context")],
  observe=["Ok/Err of compile_multi"], hook="compile with a non-default limit configuration")

p("C03", "A failed compile blames the first bad pattern and its true cause and place",
  "When a pattern set is rejected because of one of its patterns, the error carries the index of the first pattern (in list order) that is bad, and later patterns have no influence on it. The error's category and text identify that pattern's first failure: over-long pattern, flag conflict, control verb (which one, and where), unmatched closing parenthesis, unclosed group (byte offset of the innermost unclosed one) or non-ASCII character, with the byte offset counted from the start of the pattern including any control verb.",
  ["inputs", "histories"], "every pattern list with one or more bad patterns, every position of the failure",
  "no test looks at an index, a category or an offset",
  ["src/lib.rs", "src/parser.rs", "src/parser/control_verbs.rs", "src/compiler.rs", "src/util/compile_error.rs"],
  [("index attached on the way out", "src/lib.rs compile_multi_int"), ("group start offset", "src/parser.rs push_sequence"), ("message with index", "src/util/compile_error.rs Display")],
  state=[("offset", "byte offset at which an open group started", "src/parser.rs ExprState")],
  observe=["Display and Debug of the returned error"], hook="category/reason/index of an error")

p("C04", "The parse tree says exactly what the pattern says",
  "For every accepted pattern the parse tree contains every literal character once, in pattern order, under the group and alternation branch in which it is written; every '|' separates branches of the innermost enclosing group (or of the whole pattern), empty branches included. Capturing groups are numbered from 1 in the order of their opening parentheses, the whole pattern being 0, and a traversal visits each part exactly once in order.",
  ["inputs", "programs"], "every accepted pattern, any nesting, any number of groups and branches",
  "three fixed trees ('|', 'a', '()') are compared; nesting, ordering and numbering beyond them are open",
  ["src/parser.rs", "src/parser/component_sequence.rs", "src/parser/component_alternation.rs", "src/parser/component.rs"],
  [("sequence stack and numbering", "src/parser.rs push_sequence/pop_sequence"), ("branches", "src/parser/component_sequence.rs add_alternation/finalize"), ("traversal", "src/parser/component*.rs walk_*")],
  state=[("current_seq", "sequence being appended to", "src/parser.rs Context"), ("group_index", "next capture number", "src/parser.rs Context")],
  observe=["tree visited by the component visitor"], hook="export of the tree through the visitor")

p("C05", "Caseless widens exactly the letters and nothing else",
  "Each literal character of a pattern stands for exactly itself, or, when the pattern's caseless flag is set and it is an ASCII letter, for exactly its two case variants. This is so for every character at every position and nesting depth, and one pattern's flag never affects another pattern.",
  ["inputs", "configurations", "histories"], "every literal character x caseless on/off x position x neighbouring patterns",
  "caseless classes are tested in isolation; no test parses a pattern with the flag",
  ["src/parser/ascii_component_class.rs", "src/parser/component_class.rs", "src/parser.rs", "src/util/charreach.rs", "src/util/compare.rs"],
  [("class of a literal", "src/parser/component_class.rs get_literal_component_class"), ("case closure", "src/util/charreach.rs make_caseless")],
  observe=["character class of each literal in the tree and in the graph"], hook="export of the tree")

p("C06", "A leading control verb changes exactly the mode it names",
  "A pattern that opens with a complete control verb has that verb removed and exactly the mode it names switched on (Unicode properties, or UTF-8 under either spelling), all other modes staying as the flags set them, and a verb elsewhere in a pattern has no effect on modes. Recognised but unsupported verbs (including the two limit-setting ones with any value) and unknown verbs are rejected as such, naming the verb and its byte offset; an incomplete or empty verb is ordinary pattern text.",
  ["inputs", "configurations"], "every verb text x every flag combination x every remainder",
  "five verbs are fed to the verb reader alone; their effect on the flags of a real compile, remaining verbs and near-misses are unsampled",
  ["src/parser/control_verbs.rs", "src/parser.rs", "src/parser/parser_util.rs", "src/compiler.rs"],
  [("verb table", "src/parser/control_verbs.rs read_control_verbs"), ("flags to mode", "src/parser/parser_util.rs ParseMode::new"), ("utf8 copied back", "src/compiler.rs ParsedExpression::new")],
  observe=["mode after parsing", "tree of the remainder", "error"], hook="parse with mode reported back")

p("C07", "Pure literals, and only they, are handed on as strings, unaltered",
  "A pattern goes to literal matching as a string if and only if it has at least one character and no alternation (groups are transparent) and literal shortcuts are enabled; every other pattern becomes an automaton graph. The string is the pattern's characters in order, upper-cased and marked case-insensitive exactly where the character matches both cases.",
  ["inputs", "configurations"], "every accepted pattern x caseless x shortcut configuration",
  "no test inspects what a compile hands to literal matching",
  ["src/parser/shortcut_literal.rs", "src/nfagraph/ng.rs", "src/compiler.rs", "src/util/ue2string.rs"],
  [("literal visitor", "src/parser/shortcut_literal.rs ConstructLiteralVisitor"), ("routing", "src/compiler.rs add_expression, src/nfagraph/ng.rs add_literal")],
  observe=["literal built for a pattern", "literal tables after each pattern"], hook="export of the literal and of the compile state")

p("C08", "Reports keep their identity: same report same number, different never merged",
  "Each distinct thing to report on a match (external match id, single-match key, quietness and the other report attributes) gets its own internal number, numbers are handed out densely from 0 in order of first use, the same report always gets the same number, and a number always leads back to the report it was given for. Once the report limit is reached new reports are refused with a resource-limit error while known ones still resolve.",
  ["inputs", "histories", "configurations"], "every sequence of report registrations and compiles, every limit",
  "no test touches the report manager",
  ["src/util/report_manager.rs", "src/util/report.rs", "src/nfagraph/ng.rs"],
  [("interning", "src/util/report_manager.rs get_internal_id"), ("construction of reports", "src/util/report.rs")],
  state=[("report_ids", "reports by internal number", "src/util/report_manager.rs"), ("report_id_to_internal_map", "inverse map", "src/util/report_manager.rs")],
  observe=["internal ids returned", "report ids in the literal tables"], hook="report manager operations")

p("C09", "Patterns sharing a match id must agree on single-match",
  "If two patterns of a set carry the same match id, compiling succeeds only if both or neither ask for single-match, whatever kind of patterns they are and wherever they stand; otherwise the error names the id, both pattern indices (the later and the first that used the id) and truthfully says which asked for it. All single-match literals of one id share one exhaustion key, different ids never share one, keys are dense from 0 in order of first use, and the set counts as globally exhaustible exactly when no pattern so far was without single-match.",
  ["inputs", "histories"], "every list of patterns, ids and single-match flags, in every order",
  "no test compiles two patterns",
  ["src/util/report_manager.rs", "src/nfagraph/ng.rs"],
  [("registration", "src/util/report_manager.rs register_ext_report"), ("keys", "src/util/report_manager.rs get_exhaustible_key"), ("callers", "src/nfagraph/ng.rs add_literal/add_graph")],
  state=[("external_id_map", "first use of each match id", "src/util/report_manager.rs"), ("to_exhaustible_key_map", "exhaustion keys", "src/util/report_manager.rs"), ("global_exhaust", "all single-match so far", "src/util/report_manager.rs")],
  observe=["Ok/Err and message", "registry state after each pattern"], hook="registry projection")

p("C10", "The small-buffer literal tables hold exactly the eligible literals",
  "While the small-buffer engine is enabled and none of its limits (pattern count, literal count, table size) has been exceeded, its two tables (case-sensitive and caseless) hold exactly the literals compiled so far that are not longer than the buffer limit, each leading to exactly the reports registered for it, with common prefixes stored once. Once a limit is exceeded the engine is given up for good and its tables no longer change.",
  ["inputs", "histories", "configurations"], "every sequence of literals and reports, every limit configuration, at and around each limit",
  "no test adds a literal to the tables",
  ["src/smallwrite/smallwrite_build.rs", "src/nfagraph/ng.rs", "src/grey.rs"],
  [("eligibility and poisoning", "src/smallwrite/smallwrite_build.rs SmallWriteBuild::new/add_literal"), ("trie insertion", "src/smallwrite/smallwrite_build.rs add_to_trie")],
  state=[("lit_trie, lit_trie_nocase", "tables", "src/smallwrite/smallwrite_build.rs"), ("poisoned", "engine given up", "src/smallwrite/smallwrite_build.rs"), ("num_literals", "eligible literals so far", "src/smallwrite/smallwrite_build.rs")],
  observe=["projection of the tables after each pattern"], hook="table projection")

p("C11", "The recorded shortest match never exceeds any literal's length",
  "After compiling any prefix of a pattern set the recorded minimum match width is the length of the shortest pattern handed on as a string so far, and infinite if there was none. It never increases as patterns are added and does not depend on their order.",
  ["inputs", "histories"], "every list of patterns in every order",
  "no test reads the width",
  ["src/nfagraph/ng.rs", "src/util/depth.rs"],
  [("running minimum", "src/nfagraph/ng.rs add_literal"), ("ordering of depths", "src/util/depth.rs")],
  state=[("min_width", "running minimum", "src/nfagraph/ng.rs Ng")],
  observe=["projection after each pattern"], hook="width projection")

p("C12", "The automaton has one position per literal, in order, with its class",
  "The graph built for a pattern has the four distinguished vertices (start and floating start reachable on every byte, accept and end-of-data accept) wired start to floating start, floating start to itself and accept to end-of-data accept, plus exactly one further vertex per literal occurrence, in pattern order, reachable on exactly the characters that occurrence stands for. A graph is vacuous exactly when a start is wired to an accept, and its reports are exactly those on vertices wired to an accept.",
  ["inputs", "programs"], "every accepted pattern; every small graph",
  "no test builds a graph",
  ["src/nfagraph/ng_holder.rs", "src/nfagraph/ng_builder.rs", "src/parser/build_state.rs", "src/compiler.rs"],
  [("special vertices", "src/nfagraph/ng_holder.rs NgHolder::new"), ("positions", "src/parser/ascii_component_class.rs note_positions"), ("graph queries", "src/nfagraph/ng_holder.rs is_vacuous/all_reports")],
  observe=["vertices and edges of the built graph"], hook="graph projection")

p("C13", "The database is for the requested mode, runs the right engine, and scans",
  "A compiled database is for the mode it was compiled for (block, streaming, vectored), with the start-of-match precision that mode implies, and the literal-only engine is chosen exactly when floating literals are all that has to run. Scanning any data with any database returns success and leaves the database unchanged.",
  ["inputs", "configurations", "histories"], "every mode and horizon x every resource combination x every data",
  "no test looks at a database's mode or engine, and no test scans",
  ["src/lib.rs", "src/rose/rose_build.rs", "src/rose/rose_build_bytecode.rs", "src/runtime.rs", "src/database.rs", "src/util/compile_context.rs"],
  [("mode derivation", "src/lib.rs Mode, src/rose/rose_build.rs build_final_engine"), ("engine choice", "src/rose/rose_build_bytecode.rs pick_runtime_impl"), ("dispatch", "src/runtime.rs scan")],
  observe=["mode/engine of the database", "result of scan"], hook="database projection, scratch constructor")

p("C14", "Byte classes behave as sets of byte values under every update",
  "Any sequence of single-byte, byte-list, inclusive-range and whole-class updates, complements, unions, intersections, symmetric differences and case closures leaves a byte class containing exactly the bytes set theory says, for every byte value and range boundary and whatever was in it before. Nothing outside the operands of an update changes, and a range whose ends are reversed is refused rather than misapplied.",
  ["inputs", "histories"], "every operation sequence over several classes, every byte and every range",
  "tests start from an empty or full class and check a few ranges, or only first/last/count; updates on non-empty classes are barely sampled",
  ["src/util/bitfield.rs", "src/util/charreach.rs"],
  [("word/bit arithmetic", "src/util/bitfield.rs set/reset/flip/set_range"), ("operators", "src/util/bitfield.rs, src/util/charreach.rs BitAnd/BitOr/BitXor/Not"), ("case closure", "src/util/charreach.rs make_caseless")],
  state=[("bits", "four 64-bit words", "src/util/bitfield.rs BitField256")],
  observe=["membership of all 256 bytes after every operation"], hook="class operations")

p("C15", "Questions about a byte class are answered truthfully",
  "Membership, size, emptiness, fullness, first, last, next-after and n-th member, subset, overlap, equality and the alphabetic, case-pair, bit-5-insensitive, ASCII and UTF-8-lead predicates are each exactly what the class's members imply, for every class. Stepping with next from the first member lists every member once in ascending order.",
  ["inputs", "histories"], "every class reachable by updates (2^256), every byte argument",
  "tests ask about singletons, pairs, full and a few hand-picked classes",
  ["src/util/bitfield.rs", "src/util/charreach.rs", "src/util/compare.rs"],
  [("word scans", "src/util/bitfield.rs find_first/find_last/find_next/find_nth/count"), ("predicates", "src/util/charreach.rs is_*")],
  observe=["answers of all queries on the same class"], hook="class operations")

p("C16", "Encodings of a byte class agree with the class",
  "The 32-byte bit vector of a class has exactly the bits of its members set (whatever the buffer held before, bytes past the vector untouched), the and/compare mask pair accepts every member and is the tightest such pair, and the printed string lists the members in order.",
  ["inputs"], "every class, every byte",
  "neither the bit vector nor the mask pair is tested at all",
  ["src/util/charreach.rs"],
  [("bit vector", "src/util/charreach.rs fill_bitvector"), ("masks", "src/util/charreach.rs make_and_cmp_mask"), ("text", "src/util/charreach.rs Display")],
  observe=["returned encodings"], hook="class operations")

p("C17", "Literals are faithful strings with a consistent total order",
  "A literal lists back exactly the characters pushed, in order, with their case-sensitivity (caseless letters stored upper-case); two literals are equal exactly when these lists are equal; and their ordering is total and agrees with equality. A literal is mixed-sensitivity exactly when it has both a case-sensitive and a caseless letter.",
  ["inputs", "histories"], "every pair and triple of literals",
  "one test compares two empty literals",
  ["src/util/ue2string.rs", "src/util/compare.rs"],
  [("push/iterate", "src/util/ue2string.rs"), ("eq/ord", "src/util/ue2string.rs PartialEq/Ord"), ("mixed_sensitivity", "src/util/ue2string.rs")],
  observe=["iteration, ==, cmp, predicates"], hook="literal operations")

p("C18", "Alignment rounds to the nearest multiple in the stated direction",
  "Rounding up (down) to an alignment yields the smallest multiple not below (largest not above) the argument, for every value representable with room to round in every unsigned width, for every supported power-of-two alignment.",
  ["inputs"], "every value of every unsigned width x alignments 1..128",
  "alignment is only exercised through one range helper on values below 256",
  ["src/util/ue2common.rs"],
  [("masking", "src/util/ue2common.rs round_up_16/round_down_16/round_up_n/round_down_n/round_up_cache_line")],
  observe=["returned value"], hook="alignment functions")

p("C19", "Depths order like numbers with infinity on top and refuse overflow",
  "Every count below the infinity marker converts to a depth and nothing else does, depths compare exactly as their counts do, and infinity is greater than every count and equal to itself.",
  ["inputs"], "every pair of counts of either width, and infinity",
  "no test touches depths",
  ["src/util/depth.rs"],
  [("conversion and ordering", "src/util/depth.rs")],
  observe=["conversion result, ==, cmp"], hook="depth functions")

p("C20", "A compile depends only on its own arguments, in every history and schedule",
  "Compiling the same arguments gives the same outcome (same error, or a database built from the same tables, reports and mode) whatever was compiled before, successfully or not, and whatever other threads are compiling or scanning at the same time.",
  ["histories", "schedules"], "every sequence of earlier compiles, every interleaving of concurrent ones",
  "each test compiles once in a fresh process state and looks only at Ok/Err",
  ["src/lib.rs", "src/compiler.rs", "src/nfagraph/ng.rs"],
  [("per-call state", "src/lib.rs compile_multi_int creates its own context and graph store")],
  observe=["recorded compile traces of interleaved and repeated calls"], hook="compile trace")

p("C21", "Regions of an automaton are wired completely, and only as starts allow",
  "Connecting two regions makes every first of the second a successor of every last of the first, except that the floating start is never connected to or from what must not float, the anchored start never to a position that both must and must not float nor to an epsilon that may float (the floating start leads there), and the start of a line never to the end of the data. A match is led to accept through a fresh position in accept's place, one for each last. What was connected before stays connected, nothing else is, and initially exactly both starts lead to the floating start.",
  ["inputs", "histories"], "every set of lasts and firsts with every combination of flags, every sequence of connections",
  "no test looks at successors at all; compiling wires regions only as far as the port goes",
  ["src/parser/build_state.rs", "src/parser/position_info.rs", "src/nfagraph/ng_builder.rs"],
  [("connecting", "src/parser/build_state.rs connect_regions/connect_successors"), ("exceptions", "src/parser/build_state.rs filter_edges"), ("initial wiring", "src/parser/build_state.rs GlushkovBuildState::new")],
  state=[("successors", "per position, the positions (with flags) it leads to", "src/parser/build_state.rs successors")],
  observe=["vertices and successors after every connection"], hook="wiring of positions")

p("C22", "Graphs only register; what the small-buffer engine cannot do makes it give up",
  "Adding a pattern's graph to a compile registers its match id, unless that conflicts with an earlier one, and notes that the start of match is wanted exactly when some pattern added so far, graph or string, asked for it; it changes no literal table, report, key or width. A graph handed to the small-buffer engine makes the engine give up for good exactly when its pattern asks for the start of match, a match of nothing is possible, or a report it leads to asks for a least length; while the engine has no way to take other graphs it stops instead of going on without them, and a table is never changed.",
  ["inputs", "histories"], "every graph, every history of literals, reports and graphs before it",
  "no test adds a graph with start of match, and none hands a graph to the small-buffer engine",
  ["src/nfagraph/ng.rs", "src/nfagraph/ng_holder.rs", "src/smallwrite/smallwrite_build.rs"],
  [("adding a graph", "src/nfagraph/ng.rs add_graph"), ("giving up", "src/smallwrite/smallwrite_build.rs add_expression"), ("questions about graphs", "src/nfagraph/ng_holder.rs is_vacuous/all_reports")],
  state=[("has_som", "start of match wanted", "src/rose/rose_build.rs RoseBuild"), ("poisoned", "engine given up", "src/smallwrite/smallwrite_build.rs SmallWriteBuild")],
  observe=["state of the store after every addition"], hook="graphs handed to the store")

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
