import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
H="cfg(rescan_verif), src/verif.rs"
p("C01","Compilation is total: it always returns a database or an error",
 "For every list of expressions (any Unicode text, any nesting up to the pattern length limit), flags, match IDs and mode, compiling a single expression or a list of them returns either a database or a compile error. It never panics, overflows an integer or the stack of a main-sized thread, or aborts the process, in debug as well as in release builds. Rendering the returned error as text is total as well.",
 ["inputs","configurations"],"all expression lists x all flag sets x all IDs x all modes, both build profiles",
 "The existing tests compile one expression (`foobar`); on the pinned commit every group that did not start at offset 0, every non-ASCII character and every SINGLEMATCH conflict panicked without any test noticing.",
 ["src/lib.rs","src/compiler.rs","src/parser.rs","src/util/compile_error.rs"],
 [("compile / compile_multi","src/lib.rs"),("Context::main, push_sequence, pop_sequence","src/parser.rs"),("set_expression_index","src/util/compile_error.rs")],
 ["compile()","compile_multi()","Display of CompileError"])
p("C02","An expression is accepted exactly when it is well-formed",
 "A single expression compiles successfully if and only if it is at most 16,000 bytes long, its flags do not combine QUIET with SOM_LEFTMOST, it does not start with an unsupported or unknown control verb, it is all ASCII (a leading verb aside), and its parentheses are balanced; every other ASCII character, quantifier-like ones included, is an ordinary literal and `|` is always allowed. The verdict does not depend on the mode, the match ID or any other flag.",
 ["inputs","configurations"],"all strings, all 2^11 flag sets, all modes, all IDs",
 "Acceptance is a predicate over all strings; the tests parse four fixed strings and compile one.",
 ["src/parser.rs","src/parser/control_verbs.rs","src/compiler.rs","src/lib.rs"],
 [("Context::parse","src/parser.rs"),("read_control_verbs","src/parser/control_verbs.rs"),("ParsedExpression::new, add_expression","src/compiler.rs")],
 ["Ok/Err of compile()"])
p("C03","Compile errors have the right category and point at the exact byte",
 "The first defect of an expression in reading order decides its error: a rejected control verb is reported with its name and the byte index right after its `(*`; a stray close parenthesis and a non-ASCII character with their own byte index (category LocatedParse); and if all is read but groups remain open, the byte index of the innermost open parenthesis (category Parse). All indices count from the start of the original expression, including a leading control verb. An overlong expression or conflicting flags are reported before any syntax error, without an index into the expression.",
 ["inputs"],"all rejected expressions",
 "Tests only look at the first word of three control verb errors; no test inspects an index, which was wrong (or panicked) for every nested group.",
 ["src/parser.rs","src/parser/control_verbs.rs","src/util/compile_error.rs"],
 [("ExprState::offset, Context::main","src/parser.rs"),("read_control_verbs","src/parser/control_verbs.rs")],
 ["Display and Debug of CompileError"])
p("C04","Compiling a list equals compiling each; the first bad one is blamed",
 "As long as the expressions that share a match ID agree on SINGLEMATCH, compiling a list of expressions succeeds if and only if each of them compiles on its own. Otherwise the error is the one the first failing expression gives on its own, except that it names that expression's zero-based position in the list. Neither list length, nor neighbours, nor duplicates, nor match IDs change this.",
 ["inputs","histories"],"all lists of (expression, flags, ID), up to tens of thousands of entries",
 "The only list-level test passes an empty list.",
 ["src/lib.rs","src/compiler.rs","src/util/compile_error.rs"],
 [("compile_multi_int loop","src/lib.rs"),("set_expression_index","src/util/compile_error.rs")],
 ["compile_multi() against compile()"])
p("C05","Literal expressions sharing a match ID must agree on SINGLEMATCH",
 "In a list of literal expressions (non-empty, no alternation), compilation fails if and only if some expression's SINGLEMATCH flag differs from that of the earliest literal expression with the same match ID (or an expression is invalid by itself). The error names the first expression in the list that disagrees, the match ID, and that earliest expression, and is right about which of the two specified SINGLEMATCH. Different match IDs never interact, whatever their values.",
 ["inputs","histories"],"all sequences of (literal, flags, ID), all 32-bit IDs",
 "No test compiles two expressions; the conflict path panicked in debug builds.",
 ["src/util/report_manager.rs","src/nfagraph/ng.rs","src/lib.rs"],
 [("register_ext_report","src/util/report_manager.rs"),("Ng::add_literal","src/nfagraph/ng.rs")],
 ["compile_multi()"],None,
 [("external_id_map","match ID to SINGLEMATCH flag and first expression","src/util/report_manager.rs")])
p("C06","Resource limits and parameter checks are enforced at the exact boundary",
 "An empty list, and lists of expressions, flags and IDs that differ in length, are rejected. A list with more patterns than the pattern count limit (8,000,000 by default) is rejected before any expression is examined, and an expression longer in bytes than the pattern length limit (16,000 by default) is rejected and blamed; a list or expression exactly at a limit is not rejected for it, whatever the limits are set to.",
 ["inputs","configurations"],"all list lengths and expression lengths around every limit value",
 "The tests only cover the empty list.",
 ["src/lib.rs","src/compiler.rs","src/grey.rs"],
 [("compile_multi_int","src/lib.rs"),("add_expression","src/compiler.rs"),("Grey::default","src/grey.rs")],
 ["compile_multi(), and the internal entry point that takes limits"],H)
p("C07","The parse tree is a faithful image of the expression",
 "For every accepted expression, the parse tree contains one character class per ordinary character, in reading order, holding exactly that character (or, if the expression is case-insensitive and it is a letter, both its cases). Groups nest as the parentheses do and carry capture indices 1, 2, 3, ... in the order of their open parentheses, the whole expression being 0; each alternation has exactly the branches that the `|` of its own group separate, in order, empty ones included.",
 ["inputs"],"all accepted expressions and flags",
 "Three one- or two-character expressions are tested; nesting, numbering and scoping of alternation are not.",
 ["src/parser.rs","src/parser/component_sequence.rs","src/parser/component_alternation.rs","src/parser/component.rs","src/parser/ascii_component_class.rs","src/parser/component_class.rs"],
 [("push_sequence/pop_sequence","src/parser.rs"),("add_alternation/finalize","src/parser/component_sequence.rs")],
 ["the parse tree, walked by a visitor"],H)
p("C08","Control verbs and flags set exactly the modes they name",
 "A leading `(*UTF8)` or `(*UTF)` acts exactly like the UTF8 flag, a leading `(*UCP)` exactly like the UCP flag, and is not part of the expression; the rest parses as it would on its own. Verb names are matched whole and case-sensitively, known but unsupported verbs (LIMIT_MATCH= and LIMIT_RECURSION= with any value included) are distinguished from unknown ones, and anything that is not a complete verb at the very start has no special meaning. Every other mode and every per-expression property (SINGLEMATCH, QUIET, PREFILTER, match ID, position in the list) is what the caller passed.",
 ["inputs","configurations"],"all verbs x all flag sets x all rests of expressions",
 "Tests cover six fixed verbs with a fixed rest, and never look at other modes or at expression properties.",
 ["src/parser/control_verbs.rs","src/parser/parser_util.rs","src/compiler.rs"],
 [("read_control_verbs","src/parser/control_verbs.rs"),("ParseMode::new","src/parser/parser_util.rs"),("ParsedExpression::new","src/compiler.rs")],
 ["parse mode, expression properties, compile()"],H)
p("C09","Case-insensitive compilation is blind to letter case, and only to that",
 "With CASELESS, two expressions that differ only in the case of ASCII letters yield the same parse tree, the same automaton and the same literal, and every letter reaches exactly its two cases while every other character reaches exactly itself. Without CASELESS, every character reaches exactly itself, so any change of a letter's case changes the result.",
 ["inputs","configurations"],"all expressions x all re-casings of them",
 "No test compiles or parses with CASELESS.",
 ["src/parser/ascii_component_class.rs","src/util/charreach.rs","src/util/compare.rs","src/util/ue2string.rs","src/parser/component_class.rs"],
 [("make_caseless","src/util/charreach.rs"),("AsciiComponentClass::add","src/parser/ascii_component_class.rs"),("Ue2Literal::push","src/util/ue2string.rs")],
 ["parse tree, graph vertices, literal"],H)
p("C10","The automaton has one position per character, in order, with its class",
 "The graph built for an accepted expression consists of the four special vertices followed by exactly one vertex per ordinary character, in reading order irrespective of grouping and alternation, each reached by exactly that character's class. Start and start-dotstar are reached by every byte, the accept vertices by none, the special vertices are wired start to start-dotstar, start-dotstar to itself and accept to accept-at-end, and a fresh graph is not vacuous and carries no reports. The expression's properties are carried over to the built expression.",
 ["inputs"],"all accepted expressions and flags",
 "No test builds a graph.",
 ["src/compiler.rs","src/nfagraph/ng_builder.rs","src/nfagraph/ng_holder.rs","src/parser/component.rs","src/parser/component_sequence.rs","src/parser/component_alternation.rs","src/parser/ascii_component_class.rs"],
 [("build_graph","src/compiler.rs"),("note_positions","src/parser/component_sequence.rs"),("NgHolder::new","src/nfagraph/ng_holder.rs")],
 ["vertices and edges of the built graph"],H)
p("C11","Literals, and only literals, take the literal shortcut, with exact content",
 "An accepted expression is recognised as a literal if and only if it contains no `|`, and the literal consists of its ordinary characters in order (groups are transparent), each case-insensitive exactly if CASELESS is given and it is a letter, in which case it is held in upper case. It is fed to the literal engine if and only if it is also non-empty and both literal settings are on, as they are by default; otherwise it leaves no trace there.",
 ["inputs","configurations"],"all accepted expressions, flags and settings",
 "No test looks at how an expression is routed.",
 ["src/parser/shortcut_literal.rs","src/nfagraph/ng.rs","src/util/ue2string.rs","src/grey.rs"],
 [("ConstructLiteralVisitor","src/parser/shortcut_literal.rs"),("Ng::add_literal","src/nfagraph/ng.rs")],
 ["outcome of the shortcut, the literal"],H)
p("C12","The small-write engine holds exactly the literals it was given, or gives up",
 "Until it gives up, the small-write engine holds exactly the literals of at most 70 bytes added so far, fully case-sensitive ones apart from those with any case-insensitive character, with exactly the reports added for each, sharing every common prefix once. It gives up, for good and without changing its content any further, exactly when it is disabled, there are too many patterns (over 10,000) or literals (over 10,000), a set of literals needs more than 8,000 vertices, or it is given a graph that needs start of match, is vacuous, or has a report with a minimum length. The limits are those configured, longer literals being skipped without counting, and a literal beyond the number limit is not added.",
 ["histories","configurations"],"all sequences of literals and graphs, all settings",
 "No test touches the small-write builder.",
 ["src/smallwrite/smallwrite_build.rs","src/grey.rs","src/nfagraph/ng.rs"],
 [("SmallWriteBuild::new/add_literal/add_expression","src/smallwrite/smallwrite_build.rs"),("add_to_trie","src/smallwrite/smallwrite_build.rs")],
 ["content of both tries, whether it gave up"],H,
 [("poisoned","gave up","src/smallwrite/smallwrite_build.rs")])
p("C13","Report IDs and exhaustion keys are stable, dense and one-to-one",
 "Internal report IDs are given out as 0, 1, 2, ... in order of first request; equal reports always get the same ID, different ones different IDs, and looking an ID up gives back the report it stands for. The same holds for exhaustion keys. Once the configured number of reports is reached, a new report is refused with a resource limit error, nothing changes, and known reports still get their IDs; the database counts as globally exhaustible exactly as long as no pattern without SINGLEMATCH has been registered, and a refused registration changes nothing.",
 ["histories","configurations"],"all histories of requests, all limits",
 "No test touches the report manager.",
 ["src/util/report_manager.rs","src/util/report.rs"],
 [("get_internal_id, get_report, get_exhaustible_key, register_ext_report","src/util/report_manager.rs")],
 ["results of each request"],H,
 [("report_ids / report_id_to_internal_map","reports and their inverse","src/util/report_manager.rs"),("to_exhaustible_key_map","exhaustion keys","src/util/report_manager.rs")])
p("C14","Character sets behave as sets of bytes under every operation history",
 "After any sequence of set, reset, flip, range, byte-list, and whole-set operations and and/or/xor/not, a set of bytes contains exactly the bytes a mathematical set would. Count, none/any/all, first, last, next, n-th element, equality, hashing and iteration agree with that content; setting a range only adds, includes both ends, and panics exactly if it is reversed. The ordering is a total order consistent with equality.",
 ["histories","inputs"],"all operation histories over pairs of sets, all arguments",
 "Tests cover regular patterns from an empty or full set (single bits, strides, ranges); not ranges on top of other content, arbitrary content, or mixed histories.",
 ["src/util/bitfield.rs","src/util/charreach.rs"],
 [("BitField256","src/util/bitfield.rs"),("CharReach","src/util/charreach.rs")],
 ["all observers of both types"],H,
 [("bits","four 64-bit words","src/util/bitfield.rs")])
p("C15","Character class predicates and conversions match their definitions",
 "For every set of bytes, its predicates (only letters and not empty; exactly one upper/lower pair; closed under flipping bit 5; subset; overlap; within ASCII; nothing below 0xc0) are what their definitions say. Closing it under case adds exactly the missing cases of its letters; its 32-byte bit vector has exactly the bits of its members set and leaves bytes beyond untouched; its text lists its members in order; its and/compare mask accepts every member and is the tightest such mask, and nothing for the empty set.",
 ["inputs"],"all 2^256 sets and pairs of them",
 "Tests cover singletons, pairs and a few ranges; bit vector and mask are untested (the bit vector was wrong for most sets).",
 ["src/util/charreach.rs","src/util/compare.rs","src/util/unicode_def.rs"],
 [("is_alphabetic .. is_utf8_start, make_caseless, fill_bitvector, make_and_cmp_mask, Display","src/util/charreach.rs")],
 ["each predicate and conversion"],H)
p("C16","Case-aware literals keep their content, and compare consistently",
 "A literal keeps the characters pushed to it in order, with their case sensitivity, folding exactly the case-insensitive letters to upper case; its length, emptiness, iteration, and whether any character is case-insensitive follow from that. Two literals are equal exactly if their characters and case sensitivities are, and the ordering is a total order (characters first, then sensitivity) that agrees with equality. A literal is of mixed sensitivity exactly if it has a case-sensitive and a case-insensitive letter; byte case conversion only affects the 26 ASCII letters.",
 ["inputs","histories"],"all sequences of (byte, sensitivity), pairs and triples of literals",
 "The one test compares two empty literals.",
 ["src/util/ue2string.rs","src/util/compare.rs"],
 [("Ue2Literal, mixed_sensitivity","src/util/ue2string.rs"),("mytoupper etc.","src/util/compare.rs")],
 ["iteration, comparison, predicates"],H)
p("C17","Printed character classes and parse trees can be read back exactly",
 "The textual description of every set of bytes, as plain text and as a DOT label, denotes exactly that set when it is read back as a character class (unless it is cut off by the caller's length limit). The printed form of a parse tree shows exactly that tree: the kind, order and nesting of its parts, capture indices, and each character class.",
 ["inputs"],"all sets of bytes, both output forms, all accepted expressions",
 "Three trees are printed in tests; descriptions lost their last range unless it ended in 0xff, and padded hex digits with a space.",
 ["src/util/dump_charclass.rs","src/parser/dump.rs"],
 [("describe_class","src/util/dump_charclass.rs"),("DumpVisitor","src/parser/dump.rs")],
 ["the printed text"],H)
p("C18","Depths are ordered counts below infinity, and overflow is rejected",
 "A depth can be made from exactly the numbers 0 to 2^31-2, from either integer width; any larger number is rejected rather than wrapped. Depths compare as the numbers they were made from, equality agrees with ordering, and infinity is greater than every one of them.",
 ["inputs"],"all 32- and 64-bit numbers",
 "No test touches depths.",
 ["src/util/depth.rs"],
 [("TryFrom, Ord","src/util/depth.rs")],
 ["conversion results, comparisons"],H)
p("C19","Alignment helpers round to the nearest multiple in the right direction",
 "For every power of two n up to 128 and every number of any unsigned width whose rounded value fits it, rounding up gives the smallest multiple of n not below the number and rounding down the largest not above it. The fixed-size variants do so for 16 (both directions) and for the 64-byte cache line (up).",
 ["inputs"],"all numbers of all unsigned integer types, all alignments",
 "No test touches them, and all of them were wrong above 255 (one of them everywhere).",
 ["src/util/ue2common.rs"],
 [("round_up_n, round_down_n, round_up_16, round_down_16, round_up_cache_line","src/util/ue2common.rs")],
 ["return values"],H)
p("C20","The database records its mode, picks a sound runtime, and scans any data",
 "A compiled database records the kind of mode it was compiled for, vectored counting as streaming, with 8, 4 or 2 bytes of start-of-match precision for the large, medium and small horizon, 8 for vectored and none otherwise. The pure-literal runtime is picked exactly if there are floating literals and nothing else that needs the full engine (long-literal checks matter only when streaming). Scanning any data with any database returns success and leaves the caller's state alone.",
 ["inputs","configurations"],"all modes, all 2^13 resource sets, all data",
 "No test looks at modes, the choice of a runtime, or scanning.",
 ["src/lib.rs","src/rose/rose_build.rs","src/rose/rose_build_bytecode.rs","src/runtime.rs","src/util/compile_context.rs"],
 [("Mode","src/lib.rs"),("pick_runtime_impl","src/rose/rose_build_bytecode.rs"),("build_final_engine","src/rose/rose_build.rs"),("scan","src/runtime.rs")],
 ["database mode and runtime, result of scan()"],H)
p("C21","A compilation depends on nothing but its arguments",
 "Compiling the same input gives the same outcome (success, or the identical error) every time: after any history of other successful or failed compilations, on any thread, concurrently with others, and in any process whatever its environment. Databases stay usable independently of each other and of the inputs they were compiled from.",
 ["histories","schedules"],"all histories of compilations, and concurrent ones",
 "Tests never compile twice.",
 ["src/lib.rs","src/compiler.rs","src/nfagraph/ng.rs"],
 [("compile_multi_int builds all state afresh","src/lib.rs"),("Ng::new pins its own report manager","src/nfagraph/ng.rs")],
 ["outcomes of compile() and compile_multi()"])
p("C22","Positions are wired as their caret and float flags demand",
 "Connecting a set of last positions to a set of first positions links each last to each first, with these exceptions: start-dotstar never links to no-float positions, and to nothing if it is itself connected as no-float; start does not link to epsilons that are not no-float, nor to positions that are both must-float and no-float; a multiline-start position never links to accept-at-end; and a fresh vertex stands in for accept. Links only ever accumulate, and initially start and start-dotstar link to start-dotstar only.",
 ["histories","inputs"],"all sequences of connections over all flag combinations",
 "No test connects positions; the condition on epsilons was inverted.",
 ["src/parser/build_state.rs","src/parser/position.rs","src/parser/position_info.rs"],
 [("connect_regions, connect_successors, filter_edges","src/parser/build_state.rs")],
 ["recorded successors"],H,
 [("successors","links from each position","src/parser/build_state.rs")])
p("C23","Vacuity and report queries are right for every automaton",
 "For every graph, it is vacuous if and only if there is an edge from start or start-dotstar straight to accept or accept-at-end. Its reports are exactly the union of the reports of the vertices with an edge to accept or accept-at-end.",
 ["inputs"],"all graphs",
 "No test builds a graph with edges.",
 ["src/nfagraph/ng_holder.rs"],
 [("is_vacuous, all_reports","src/nfagraph/ng_holder.rs")],
 ["query results"],H)
p("C24","The pattern set's bookkeeping equals a replay of what was added",
 "After any sequence of added expressions or literals, the recorded minimum match width is the length of the shortest literal accepted so far (infinite if none), start of match is noted exactly if an accepted literal asked for it, and every pattern registered with the literal engine has a report. A rejected expression, and one that did not take the literal shortcut, leaves all of this and the small-write engine unchanged; literals of mixed case sensitivity are always declined.",
 ["histories"],"all sequences of expressions and literals, all settings",
 "No test adds two expressions or looks at this state.",
 ["src/nfagraph/ng.rs","src/util/depth.rs","src/util/report_manager.rs"],
 [("Ng::add_literal","src/nfagraph/ng.rs"),("add_expression","src/compiler.rs")],
 ["minimum width, flags, and counts of the pattern set builder"],H,
 [("min_width","shortest literal","src/nfagraph/ng.rs")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
