_AI = 'abstract interpretation of the MIR (all calls inlined, symbolic heap, loops as joins in an event graph); '
TECH.update({
 'C01': (_AI + 'typestate rule on the search state: everything that survives a query is cleared or outdated before its first use', 'every path of the query functions; the number of a search is shown not to wrap around onto old marks'),
 'C02': (_AI + 'inductive rule on every store of a label and of the result: each value is the weight of a route by construction', 'every path of the query functions; assumes the prepared graph is as C05/C06 establish'),
 'C03': (_AI + 'path rules: every skipped edge, node or meeting and every exit from the search is justified by a comparison that implies it cannot lead to a cheaper route', 'every path of the query functions; C22 (the theorem that these steps suffice) is not claimed'),
 'C04': (_AI + 'path rule over the loops of the contraction: no pair of an in-edge and an out-edge can be passed over without a shortcut or a comparison with a justified witness weight; inductive rule for the witness weights; typestate rule for their freshness', 'every path of both build functions'),
 'C05': (_AI + 'ownership and pairing rules on every write to the adjacency lists and to the recorded edges, and complete-loop rules for the records', 'every path of both build functions'),
 'C06': (_AI + 'path rules for links of shortcuts, parents, walk along the parents and unpacking, each loop round matched with the accessors of the prepared graph', 'every path of the query functions and build functions'),
 'C09': (_AI + 'field-by-field dataflow of both conversions; each conversion of a number is guarded or widening', 'every field of every recorded edge; complete-loop rule'),
 'C11': (_AI + 'path rules over freeze: sort order, one survivor per node pair with the least weight, filter of self-loops, frozen flag', 'every path; trusts the sort of the standard library'),
 'C12': (_AI + 'typestate rule: every access to the edges is preceded by a test of the frozen flag with the right polarity, or by a change of it', 'every path through every public method of InputGraph'),
 'C13': (_AI + 'dominance rule: rejecting tests of all arguments come before the first effect', 'every path of the query functions'),
 'C14': (_AI + 'effect rule: every addition whose operands may carry a weight (taint over the value graph) is saturating or checked', 'every arithmetic operation of the crate reachable from a public function'),
 'C16': (_AI + 'error-flow rule: every result of an operation on the file reaches the caller, and buffered writers are flushed before success is reported', 'every path of the write functions'),
 'C17': (_AI + 'grammar rule: the tokens written and read for each line agree in order, separator and type; every malformed line leads to a panic, every line read reaches the graph', 'every path of the readers and writers of text files'),
 'C18': (_AI + 'path rules: ranks are assigned once per node, orders are checked to be permutations before use, and the ordering read from a graph inverts the ranks', 'every path of the build functions and get_node_ordering'),
 'C20': (_AI + 'ranking rule: every loop of every operation consumes a finite input, counts towards a bound, or removes an entry of a queue that only grows when a label decreases', 'every loop reachable from a public function'),
 'C21': (_AI + 'equality of the normal forms of wrappers and the functions they stand for, including the default parameters', 'all pairs of equivalent entry points'),
 'C25': (_AI + 'resource rule: every list or queue of the calculator that a query appends to is emptied on every path before the first append or before the return; replaced lists keep their length; leak functions and shared owners are absent', 'every path of the query functions; memory of the allocator itself is not modelled'),
 'C28': (_AI + 'backward slicing from every written panic to the branch that decides it: documented reason, comparison of ids, search that found nothing, or unreachable (values chosen at joins are followed backwards along all paths)', 'every panic site of every public function except the text readers; debug assertions included; bounds checks and arithmetic overflow are not covered (C27, C14)'),
 'C26': (_AI + 'field-by-field dataflow of every Clone implementation, and case-complete evaluation of the accessors and the comparison of paths', 'every path of these functions, all cases of the compared parts'),
})
