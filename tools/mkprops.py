#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that anchors stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

V = "gearley-vec2d/src/lib.rs"
p("P01", "Sectioned array behaves as a list of finished sets plus one in-progress set",
  "After any sequence of operations that never cuts items below the start of the in-progress set, the container reads back exactly as a list of finished sets followed by one in-progress set: pushing and popping items touch only the end of the in-progress set, finishing a set freezes the in-progress items as the next finished set and starts an empty one, and clearing leaves no finished set and no item. "
  "Truncating to n sets keeps finished sets 0..n and all in-progress items in order and drops exactly the finished sets from n on; truncating the item store to k items keeps exactly the first k items. "
  "Every read (set by number, in-progress set, mutable in-progress set, item by number, last item, set start, item count, set count) agrees with that list.",
  ["histories", "inputs"], "every operation history, every item type and value, every set size (including empty sets), every set number",
  "The repository has no test of this container at all; the guarantee ranges over all operation histories and all contents.",
  [V], [("push_item/pop_item/next_set/extend_with_set/truncate/truncate_chart/clear", V), ("Index::index, last, last_mut, last_item, get_item, index_at, item_count, len", V)],
  [("chart", "all items, flat", V), ("indices", "start of every set; the last one starts the in-progress set", V)],
  ["gearley_vec2d::Vec2d public methods"])
p("P02", "Bulk construction of the sectioned array equals adding the sets one by one",
  "Collecting or extending from an iterator of sets appends every set, in order and with all its items in order, as finished sets, exactly as adding and finishing each set by hand would; items that were already in progress become the first items of the first set added. "
  "A freshly created, default-constructed, capacity-hinted, collected-from-nothing or cleared container is the same empty container: no finished set, an empty in-progress set, no item.",
  ["inputs", "histories"], "every iterator of iterators of items, every prior content, every capacity hint",
  "No existing test builds the container from iterators; the guarantee ranges over all inputs and all prior contents.",
  [V], [("FromIterator::from_iter, Extend::extend, extend_with_set, Default::default, new, with_capacity, clear", V)],
  (), ["gearley_vec2d::Vec2d"])

C = "gearley-utils/src/cartesian_product.rs"
p("P03", "Cartesian product visits every combination exactly once, first factor fastest",
  "For any list of non-empty factors, added one at a time, in batches or in any mixture of the two, repeatedly reading the current combination and advancing visits every combination exactly once, with the first factor varying fastest and each factor in slice order; the current combination always has exactly one element per factor, in the order the factors were added. "
  "Advancing reports false exactly when all combinations have been visited, and then stands at the first combination again; clearing removes all factors.",
  ["inputs", "histories"], "every number of factors, every factor length >= 1, every element type, every order of single and batch additions, clears and advances (factors added while at the first combination)",
  "The only test enumerates one fixed product of three slices added in a single batch; other shapes, element types and mixtures are never reached.",
  [C], [("CartesianProduct::push/extend/advance/as_slice/clear", C), ("Factor::new/advance", C)],
  [("ptrs", "current element of each factor", C), ("ranges", "the factors", C)],
  ["as_slice() after each advance()"])
p("P04", "Cartesian product only ever hands out references into the given slices",
  "Whatever slices are added and however the product is advanced, every reference in the current combination points at an element of the slice of its factor, so that using the safe interface never reads outside the given slices and never forms a reference to memory past their end.",
  ["inputs", "histories"], "every history of push/extend/clear/advance, every slice length including 0 and 1, every element size including 0",
  "A test cannot observe an out-of-range reference that happens not to fault; the only test has one fixed shape.",
  [C], [("Factor::new/advance", C), ("CartesianProduct::push/extend", C)], (), ["as_slice()"])

H = "gearley-recognizer/src/binary_heap.rs"; I = "gearley-forest/src/item.rs"
p("P05", "Pending completions come out by descending (origin, rule), none lost or added",
  "For every interleaving of insertions and removals, removing from the completion queue returns an item whose (origin, rule) pair is greatest among the items present, and returns nothing only when the queue is empty; peeking shows the same item without changing the queue. "
  "Across insertions and removals the items in the queue, with their forest nodes, are exactly those inserted and not yet removed.",
  ["histories", "inputs"], "every history of insertions and removals, every item (origin, rule, node), every queue length",
  "No test addresses the queue; end-to-end parses only drive small queues.",
  [H], [("heap_push, sift_up", H), ("heap_pop, sift_down_range, heap_peek, is_empty, clear", H)],
  [("complete", "binary heap of completed items of the set under construction", "gearley-recognizer/src/recognizer.rs")],
  ["order of next_summand()/next_sum()"])
p("P06", "Item comparison is one lawful total order on (origin, rule)",
  "Comparing two items for equality, partial order or total order depends only on their origin and rule position, never on the forest node; all comparisons agree with each other and with comparing the pair (origin, rule position) lexicographically, origin first.",
  ["inputs"], "every pair and triple of items over the full 32-bit ranges, every node type",
  "No test compares items; a test can only sample pairs.",
  [I], [("PartialEq::eq, PartialOrd::partial_cmp, Ord::cmp for Item", I)], (), ["==, <, <=, cmp on Item"])

G = "compact-bocage/src/graph.rs"
p("P07", "Compact node storage decodes every node exactly as it was stored",
  "Every node appended to the compact forest storage, in short or in fixed-width form, reads back at its position with the same kind and the same field values over their full 32-bit range, no matter what is appended later, on every alignment and platform. "
  "The reported size of a node is the exact distance to the next appended node (9 bytes in the fixed-width form of a two-field node), so stepping by sizes visits exactly the appended nodes in order.",
  ["inputs", "histories"], "every sequence of appended nodes of all kinds, every 32-bit field value",
  "No test covers the encoding; field values near byte-width boundaries are not reached by small parses.",
  [G], [("Graph::push/push_expanded/get/get_node_size/len", G)], [("vect", "byte-encoded nodes", G)], ["Graph::get, Graph::get_node_size"])
B = "compact-bocage/src/bocage.rs"; S = "simple-bocage/src/bocage.rs"
p("P08", "Forests record exactly the derivation steps they are told, with stable handles",
  "For every history of leaf, product, and begin/push/sum calls issued in the order the recognizer issues them, the handle returned for a leaf or a product names a node with exactly the given contents, and the handle returned for a sum names exactly the summands pushed since the sum began, in a multiset sense, each with its rule and factors - a single summand directly, several as one ambiguity node. "
  "Nothing recorded earlier is altered by later calls, so every handle keeps naming the same derivations (in both the simple and the compact forest).",
  ["histories", "inputs"], "every history of forest-building calls, every symbol, value, rule and handle",
  "The existing end-to-end tests need unavailable dependencies and inspect only final values of a few parses.",
  [B, S, G], [("Forest for Bocage (leaf, product, begin_sum, push_summand, sum)", B), ("Forest for Bocage (leaf, product, push_summand, sum)", S)],
  [("graph", "node arena", S), ("sum/num_summands", "open sum", B), ("summand_count", "open sum", S)], ["Forest trait calls; node lookup by handle"])
p("P10", "Nulling symbols resolve to their own nulling node or eliminated nulling rule",
  "In a new forest, the nulling handle of every symbol that occurs in the grammar's eliminated nulling rules or phantom symbols names that symbol's nulling leaf, or, if the symbol is the left side of an intermediate nulling rule, an action-less product over a rule node whose two factors are the nulling handles of the rule's right side, of the last such rule. "
  "This holds for both forests, and the number of prepared leaves covers every such symbol.",
  ["inputs"], "every set of nulling rules and eliminated symbols below the documented limit",
  "The nulling tests need unavailable dependencies and cover a handful of grammars.",
  [B, S, "gearley-forest/src/node_handle.rs", "gearley-grammar/src/lib.rs"],
  [("initialize_nulling, nulling", B), ("initialize_nulling, nulling", S), ("NodeHandle::nulling/mul", "gearley-forest/src/node_handle.rs"), ("ForestInfo::max_nulling_symbol", "gearley-grammar/src/lib.rs")],
  (), ["node lookup at nulling(sym)"])

p("P09", "The finished forest represents exactly the derivations of the input",
  "When an input is accepted, the finished node denotes exactly the derivation trees of the tokens from the grammar's start symbol by the grammar's (internal) rules: every derivation is represented, ambiguous ones included, no tree is represented twice, and no tree that is not a derivation is represented. "
  "Each product names the rule and the factors of its step, and each leaf carries the symbol and the value with which its token was scanned. This holds in the simple and the compact forest, with or without correct lookahead hints, and after a reset.",
  ["inputs", "histories"], "every grammar, every accepted input, every ambiguity, every token value",
  "The tests inspect only final values of a few parses, which hide lost ambiguities, and need unavailable dependencies.",
  ["gearley-recognizer/src/recognizer.rs", "gearley-recognizer/src/binary_heap.rs", B, S],
  [("Recognizer::scan, complete_all_sums_entirely, finished_node", "gearley-recognizer/src/recognizer.rs"), ("CompleteGroup::complete_entire_sum", "gearley-recognizer/src/recognizer.rs"), ("Forest for Bocage", B), ("Forest for Bocage", S)],
  [("Item::node", "partial forest node of every item", "gearley-recognizer/src/recognizer.rs")], ["finished_node and the nodes below it"])

R = "gearley-recognizer/src/recognizer.rs"; PR = "gearley-recognizer/src/predict.rs"
p("P11", "Each position predicts exactly what its expected symbols predict",
  "After a position is advanced over, the set of symbols predicted there is the union of the grammar's prediction rows of the symbols expected next by the partial matches that end there, and nothing else; before any input it is the row of the start symbol. "
  "Predicting one symbol adds that symbol's whole row and removes nothing, and clearing a row leaves nothing predicted.",
  ["inputs", "histories"], "every grammar whose prediction relation is reflexive and transitive, every input, every position, every row width",
  "Tests observe predictions only through acceptance of a few inputs, and need unavailable dependencies.",
  [PR, R], [("Predict::predict/clear", PR), ("prediction_pass, with_forest_and_policy", R)], [("predicted", "one prediction row per position", R)], ["predicted_symbols()"])
p("P12", "Soundness: the recognizer never reports a parse that the grammar does not derive",
  "Whenever the recognizer reports a finished parse at a position, the grammar derives the tokens read so far from the start symbol (the end-of-input symbol excepted). "
  "Every partial match it holds is justified: its origin is an earlier position where its left side was predicted, and its first part derives exactly the tokens read between that position and the current one.",
  ["inputs", "histories"], "every well-formed binarised grammar, every token sequence (also several tokens scanned at one position), every hint, no bound on length",
  "The end-to-end tests need unavailable dependencies and sample a handful of grammars and inputs.",
  [R, H], [("scan, complete, complete_medial_items, complete_predictions, complete_generated_binary_predictions, advance_after_completion, finished_node", R)],
  [("medial", "partial matches per position", R), ("complete", "pending completed items", R)], ["is_finished(), finished_node(), medial_items()"])
p("P13", "Completeness: every input the grammar derives is accepted",
  "If the grammar derives the tokens read so far from its start symbol (the end-of-input symbol excepted), then no advance over these tokens reports failure and the recognizer reports a finished parse at the end, with no lookahead hints given or with hints that announce the token that really follows. "
  "This holds for ambiguous, left-, right- and middle-recursive grammars alike.",
  ["inputs", "histories"], "every well-formed binarised grammar, every derivable token sequence, hints absent or correct",
  "The end-to-end tests need unavailable dependencies and sample a handful of grammars and inputs.",
  [R, H, PR], [("complete_medial_items, complete_predictions, sort_medial_items, prediction_pass, remove_unreachable_sets, finished_node", R)],
  [("medial", "partial matches per position", R), ("predicted", "prediction rows", R)], ["end_earleme(), is_finished()"])
p("P14", "Discarding unreachable positions keeps every position that can still be needed",
  "When positions are discarded after an advance, every position up to the highest origin of a partial match of the current position keeps its partial matches and predictions unchanged, the current position's partial matches survive in order, and the position number becomes that highest origin. "
  "Nothing is discarded when that origin is the previous position or position zero.",
  ["histories", "inputs"], "every recognizer state reachable or not, every set of partial matches",
  "The discarding happens silently inside an advance; tests reach it in few shapes and cannot see it.",
  [R, V], [("remove_unreachable_sets", R), ("Vec2d::truncate", V)], (), ["earleme(), medial_items(), predicted_symbols()"])
p("P16", "Reset returns the recognizer to its initial state",
  "After a reset, at any point of any parse including a failed or abandoned one, the recognizer behaves on every further token and hint sequence exactly as a newly created one with the same grammar: same acceptance, same failures, same predictions and events.",
  ["histories", "inputs"], "every history before the reset and every history after it",
  "No test resets a recognizer; the guarantee quantifies over pairs of histories.",
  [R, "gearley-recognizer/src/lookahead.rs"], [("reset", R), ("BitSlice clear", PR)], [("predicted", "prediction rows", R), ("lookahead", "pending hint", "gearley-recognizer/src/lookahead.rs")], ["end_earleme(), is_finished(), predicted_symbols()"])
p("P17", "Failure to advance is reported exactly when nothing matched",
  "Advancing over a position returns false exactly when no scan since the position was begun produced any partial or completed match; a true result leaves no completion pending and a position whose partial matches are sorted by next expected symbol. "
  "Scanning a symbol that is not expected at the position leaves the set of matches unchanged.",
  ["histories", "inputs"], "every recognizer state, every scanned symbol",
  "Tests check acceptance of a few inputs only, and need unavailable dependencies.",
  [R], [("is_exhausted, end_earleme, complete_all_sums_entirely, sort_medial_items", R)], (), ["end_earleme(), is_exhausted()"])
GG = "gearley-grammar/src/lib.rs"
p("P18", "A borrowed grammar answers every query as the grammar itself",
  "Every query made through a reference to a grammar returns exactly what the same query with the same arguments returns on the grammar itself.",
  ["inputs"], "every grammar implementation, every query, every argument",
  "Tests exercise the borrowed form on a few grammars and never compare it with the owned one.",
  [GG], [("impl Grammar for &G", GG)], (), ["Grammar trait methods"])
PH = "gearley-recognizer/src/perf_hint.rs"
p("P19", "Capacity hints are always computable and sane",
  "For every memory limit, token count and symbol count whose byte totals fit the address space, the capacity hints are computed without overflow, wrap-around or panic; the chart is sized for at least 32 sets of 16 items, and the item capacity is 16 per set. "
  "The completion capacity is 16, 32, 64 or 128 and never decreases as the memory limit grows.",
  ["configurations", "inputs"], "every memory limit, token limit and symbol count with byte totals below half the address space",
  "No test calls the hints; overflow depends on extreme configurations.",
  [PH], [("DefaultPerfHint::chart_use/set_use/forest_use/bytes_per_set, completion_capacity, medial_capacity", PH)], (), ["PerfHint::medial_capacity/completion_capacity"])
p("P22", "Forest metadata queries agree with the metadata",
  "The largest nulling symbol reported is the maximum over all symbols of the eliminated nulling entries and of the nulling intermediate rules, and is absent exactly when there are none. "
  "The external origin reported for a rule is the recorded entry of that rule, and is absent exactly when the rule is out of range.",
  ["inputs"], "every list of eliminated entries, intermediate rules and origins, every rule number",
  "No test calls these queries directly.",
  [GG], [("ForestInfo::max_nulling_symbol/external_origin", GG)], (), ["ForestInfo methods"])
T = "simple-bocage/src/traverse.rs"; T2 = "compact-bocage/src/traverse.rs"
p("P23", "Evaluating an unambiguous parse applies each rule once to its children in order",
  "Evaluating an unambiguous parse forest calls the evaluator once for every leaf, nulling node and user-visible rule application of the derivation, children before parents and left to right, passes each rule exactly its children's results in order (results of internal, origin-less rules spliced in place), and returns the results of the root.",
  ["inputs"], "every unambiguous derivation tree over every grammar, simple and compact forest",
  "The evaluation tests need unavailable dependencies and sample a few trees.",
  [T, T2], [("Bocage::evaluate", T), ("Bocage::evaluate", T2)], (), ["Bocage::evaluate result and the evaluator's calls"])
E = "gearley-recognizer/src/event.rs"; D = "gearley-default-grammar/src/lib.rs"
p("P24", "Events, trace and expected symbols describe exactly the current position",
  "The events, minimal distances and trace reported at a position are, in order, the grammar's prediction entries of the symbols predicted there followed by its entries for the partial matches that end there; the expected symbols are the next symbols of those partial matches.",
  ["histories", "inputs"], "every grammar, every recognizer state with a current position",
  "Nothing tests these accessors with available dependencies.",
  [E, R], [("events, trace, minimal_distances, expected_terminals", E), ("predicted_symbols, medial_items", R)], (), ["Recognizer::events/trace/minimal_distances/expected_terminals"])
p("P25", "The default grammar's lookups agree with the grammar it was compiled from",
  "Every lookup of a compiled default grammar (left side, second symbol, completions of a symbol, completions of an internal symbol, prediction row, lookahead row, events, trace, origins, symbol mapping) returns the entry that its rule list prescribes: completions of a symbol list exactly the rules starting with it, binary rules first, each with the user-visible left side it is reached from; prediction rows are the reflexive transitive closure of the first-symbol relation; event lists are indexed by symbol for predictions and by rule for partial matches, as the trace lists are. Renumbering and sorting leave each rule as it was but for its symbols' numbers: the end of input gets the least number, internal symbols the greatest, the symbol map leads back to the original symbols, and the tables derive exactly what the original rules derive.",
  ["inputs", "programs"], "every processed rule list",
  "The grammar tests need unavailable dependencies and never compare tables with the rules.",
  [D], [("from_grammar, remap_symbols, sort_rules_by_lhs", D), ("compute_completion_table, populate_prediction_matrix, Grammar for DefaultGrammar", D)], (), ["Grammar trait methods of DefaultGrammar"])
p("P26", "Whole-input parsing reports the first unmatched token, else the verdict",
  "Parsing a token list reads the start marker and then every token once, in order, giving each token's index as its value and announcing the following token (none at the end) as the hint; it returns the failing token and its index at the first position that cannot be advanced, and otherwise whether a finished parse ends after the last token.",
  ["inputs"], "every grammar, every token list",
  "The parse helper's test needs unavailable dependencies.",
  ["gearley-utils/src/parse.rs"], [("RecognizerParseExt::parse", "gearley-utils/src/parse.rs")], (), ["RecognizerParseExt::parse result"])
p("P27", "Parsing words and characters reports the first failure, else a finished parse",
  "Parsing a list of words looks every word up by name: the first word that names no symbol is reported as such; otherwise the words' symbols are read in order, and the result is the failing symbol and its index at the first position that cannot be advanced, a finish error when all were read but no finished parse ends there, and success exactly when one does. Parsing a text reads every character as each symbol of its class at one position (the character's code as value) and reports in the same way, the failing position with its class of symbols.",
  ["inputs"], "every grammar, every name table, every list of words, every class table and text",
  "The helpers' tests need unavailable dependencies.",
  ["gearley-utils/src/parse.rs"], [("parse_terminal_list", "gearley-utils/src/parse.rs"), ("parse_tokenizing", "gearley-utils/src/parse.rs")], (), ["parse_terminal_list result", "parse_tokenizing result"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
