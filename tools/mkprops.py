import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=[],obs=[]):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=['src/'+f for f in files],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))

p('C01','A query on a reused calculator does not depend on earlier queries',
 'Whatever sequence of queries a calculator has answered or rejected before, the next query returns the same weight and the same node list as a newly created calculator would for the same graph and arguments. This includes a query that follows one which panicked on its arguments, and the query after any number of earlier queries, however large.',
 ['histories'],'every sequence of queries, of any length, on one calculator',
 'The tests run short query sequences on one calculator; leftover labels only surface for particular pairs of consecutive queries, and the generation counter wraps only after 2^32 of them.',
 ['path_calculator.rs','valid_flags.rs'],
 [('queues cleared and generation advanced before anything is read','calc_path_multiple_sources_and_targets'),('a label is only read after its generation was checked','get_weight_*/is_settled_*'),('a label is written completely when it is validated','update_node_*'),('wrap-around resets all flags','ValidFlags::invalidate_all')],
 [('label arrays','per-node search state kept between queries','PathCalculator'),('generation','current validity stamp','ValidFlags')],['returned ShortestPath'])
p('C02','The reported weight belongs to a real route between the given endpoints',
 'If a query returns a path, its weight is the weight offset of one given source, plus the weights of prepared edges leading from that source to a given target, plus that target\'s weight offset: it is never smaller than what some real route costs, and a path is never reported where there is none.',
 ['inputs','histories'],'every prepared graph and every list of weighted sources and targets',
 'Tests compare weights on random graphs with few weight patterns and one source and target per query; a label combined from the wrong node, direction or offset shows only for particular graph shapes.',
 ['path_calculator.rs'],
 [('labels are a source offset or the label of the settled node plus the weight of one of its edges','relaxation loops'),('best weight and meeting node are updated together from both labels of one node','meeting check')],
 [('best weight/meeting node','best connection seen so far','calc_path_multiple_sources_and_targets')],['ShortestPath weight'])
p('C03','A query never discards a cheaper route of the prepared graph',
 'For every prepared graph and every list of weighted sources and targets, a query only gives up on a source, target, node, edge or meeting point when it cannot lead to a route cheaper than the one it returns. In particular it keeps searching until both directions are exhausted, and returns no path only if no route exists.',
 ['inputs'],'every prepared graph, weighted source and target list, and order of queue operations',
 'A premature stop or a wrong pruning condition changes the answer only for graphs where the last settled nodes matter; the random tests hit few of those and none with weighted sources.',
 ['path_calculator.rs'],
 [('stop only when both queues are empty','main loop'),('skip only settled, too expensive or stalled nodes','main loop'),('all edges of a settled node are relaxed','relaxation loops')],[],['ShortestPath weight, None'])
p('C04','Preparation keeps all shortest distances, whatever the parameters',
 'When preparation removes a node, for every incoming and every outgoing edge of it, it keeps a connection of at most their combined weight between the two neighbours: either a path that really exists and avoids the removed node, or a shortcut with that weight. This holds for every graph, node order and every value of the search limits.',
 ['inputs','configurations'],'every input graph, node order and parameter value (including search limits of zero)',
 'Whether a missing shortcut is noticed depends on graph, order and limits; the tests use the default limits and small random graphs.',
 ['node_contractor.rs','witness_search.rs','preparation_graph.rs'],
 [('every pair of in- and out-edges is examined','handle_shortcuts'),('a shortcut is omitted only if a witness is not heavier','handle_shortcuts'),('the witness search avoids the node, and its labels are weights of real paths','WitnessSearch')],
 [('witness labels','upper bounds of distances that avoid the contracted node','WitnessSearch')],['prepared graph'])
p('C05','The prepared graph holds every edge once per direction at its lower node',
 'Each edge of the input graph and each shortcut that is present when a node is removed is recorded with its weight in the prepared graph, at that node, separately for leaving and entering edges, and can be looked up there through the node\'s rank. The two directions never disagree about which edges exist or what they weigh.',
 ['inputs','configurations'],'every input graph, node order and parameter value',
 'An edge missing in one direction only matters for the queries whose best route uses it there; tests check single small graphs edge by edge.',
 ['fast_graph_builder.rs','preparation_graph.rs','fast_graph.rs'],
 [('forward and backward lists are changed in pairs','PreparationGraph'),('all edges of the node are appended before it is contracted','run_contraction*'),('offsets are set by rank','run_contraction*, FastGraph::begin_*/end_*')],
 [('edges_fwd/bwd, first_edge_ids_*','adjacency by rank','FastGraph')],['FastGraph'])
p('C06','A returned route lists every node of the original route in order',
 'The node list of a returned path contains only input-graph connections between consecutive nodes, starts at the reported source and ends at the reported target, and lists each node of the route once per visit, in travel order, with all shortcuts replaced by the original edges whose weights add up to the reported weight.',
 ['inputs'],'every prepared graph, including shortcuts nested arbitrarily deep, and every query',
 'Only the shortcuts of the sampled routes are unpacked in tests; a swapped half or wrong index space shows only where shortcuts nest asymmetrically.',
 ['path_calculator.rs','fast_graph_builder.rs'],
 [('each shortcut is linked to an edge into and an edge out of its middle node','finish_contraction'),('unpacking visits the first half before the second','unpack'),('source and target are taken from the node list','calc_path_multiple_sources_and_targets')],[],['ShortestPath nodes/source/target'])
p('C07','Preparation and queries are deterministic',
 'Preparing the same input graph with the same parameters always yields the same prepared graph, and the same query on it always the same answer, in every process, thread, run and environment.',
 ['programs','histories','configurations'],'every execution of any public operation on the same inputs',
 'Tests run once per process; randomised hash order, addresses, time or environment differ only between runs.',
 ['fast_graph_builder.rs','path_calculator.rs','input_graph.rs'],
 [('no iteration over randomly seeded containers, no clock, random numbers, addresses, environment or thread identity in any reachable function','whole crate'),('ordered set for the neighbours','run_contraction')],[],['FastGraph, ShortestPath'])
p('C08','Prepared graphs can be shared by threads; operations have no side effects',
 'A prepared graph can be used from any number of threads at once, each with its own calculator; no public operation changes a graph that it was given by shared reference, keeps or changes process-wide state, or touches files, the network, standard streams, processes or threads, except for the documented functions that read or write a named file and for log messages.',
 ['schedules','programs'],'every interleaving of public operations on shared graphs',
 'No test uses threads; a cached value inside the graph or a global would still pass single-threaded tests.',
 ['lib.rs','fast_graph.rs','path_calculator.rs'],
 [('graphs contain only owned plain data, no interior mutability','FastGraph, InputGraph, ...'),('no statics, no I/O calls outside the file functions','whole crate')],[],['auto traits, effects'])
p('C09','The 32-bit form of a prepared graph loses nothing',
 'Converting a prepared graph to the 32-bit form and back yields a graph with the same nodes, ranks, edges, weights and offsets, whatever values occur; if a value cannot be represented, the conversion panics instead of storing something else.',
 ['inputs'],'every prepared graph and every value in it, including those next to the 32-bit limit',
 'Tests convert one small graph; truncation needs values near 2^32, and a swapped field needs a graph where the two differ.',
 ['fast_graph32.rs','lib.rs'],
 [('checked conversion of every number, with a marker for the invalid id','usize_to_u32, u32_to_usize'),('field by field copy','FastGraph32::new, convert_to_usize')],[],['FastGraph32, serialize_32/deserialize_32'])
p('C10','Serialising a graph keeps all of its contents',
 'Serialising an input graph, a prepared graph or its 32-bit form and deserialising the result with any serde format, self-describing or positional, restores every part of the value; no part is skipped, renamed on one side only, defaulted, reordered or written conditionally.',
 ['inputs','programs'],'every value of the serialisable types and every serde format',
 'Tests round-trip small graphs through one binary format, which hides name mismatches, and compare only weights of some paths.',
 ['fast_graph.rs','fast_graph32.rs','input_graph.rs','lib.rs'],
 [('derived implementations without attributes','Serialize/Deserialize derives')],[],['serialised form'])
p('C11','Freezing leaves exactly the cheapest valid edge per node pair',
 'After freezing, the edge list holds, for each ordered pair of distinct nodes for which an edge of positive weight was added, exactly one edge with the smallest weight added for it, and nothing else; loops and zero-weight edges are dropped. The node count is one more than the largest node id among the kept edges, and adding an edge reports how many edges it stored.',
 ['inputs','histories'],'every sequence of added edges, in any order, including repeated freezing and thawing',
 'Tests add a few duplicates; wrong tie order or comparison only shows for particular weights and orders.',
 ['input_graph.rs'],
 [('loops and zero weights rejected, node count raised','do_add_edge'),('sorted by endpoints and weight, then adjacent duplicates dropped','freeze')],
 [('edges','edge list','InputGraph'),('num_nodes','node count','InputGraph')],['get_edges, get_num_nodes, get_num_edges'])
p('C12','An input graph can be read only when frozen and changed only when thawed',
 'Adding an edge to a frozen graph, freezing it again, or reading edges or counts (and so preparing or writing) from a graph that is not frozen always panics and changes nothing; after freeze reads succeed, after thaw edges can be added again. No public operation offers a way around this.',
 ['histories'],'every sequence of add, freeze, thaw and read operations',
 'Tests try single calls in one state each; a path that forgets the check is only seen when exactly that call is made in the wrong state.',
 ['input_graph.rs'],
 [('state is checked before anything else happens','check_frozen, do_add_edge, freeze'),('state changes only in freeze and thaw','freeze, thaw')],
 [('frozen','state flag','InputGraph')],['panics'])
p('C13','Queries reject invalid arguments before doing anything with them',
 'A query whose source or target list is empty, whose list contains a node id outside the graph at any position, or whose graph has a different node count than the calculator always panics with that reason; it never answers, ignores the entry or reads outside the data.',
 ['inputs'],'every argument list, with the bad entry at any position and whatever its weight',
 'Tests pass one invalid node in first position; a skipped entry goes unnoticed.',
 ['path_calculator.rs'],
 [('asserts before the search state is touched','calc_path_multiple_sources_and_targets')],[],['panics'])
p('C14','Weight sums never wrap around',
 'Adding up edge weights and source or target offsets, in preparation and in queries, never wraps around: a total that exceeds the largest weight is treated as unreachable, never as a small weight.',
 ['inputs'],'every combination of edge weights and offsets up to the largest representable value',
 'Tests use weights below 1000; release builds do not check overflow.',
 ['path_calculator.rs','node_contractor.rs','witness_search.rs'],
 [('saturating additions on all weights','relaxations, shortcut weights, meeting sums')],[],['weights'])
p('C15','Stack use does not grow with the graph',
 'No public operation recurses: its stack depth is bounded by a constant that does not depend on the graph, the route or the arguments, so that large or degenerate graphs do not overflow the stack.',
 ['inputs'],'every graph, however large or degenerate (such as a long line contracted from one end)',
 'Tests use graphs with a few hundred nodes.',
 ['path_calculator.rs'],[('call graph without cycles','whole crate')],[],['stack overflow'])
p('C16','Writing a graph to a file reports every failure',
 'If creating the file or writing any byte of it fails, including when buffered data is written out at the end, the write functions return that error; they return success only after everything has been handed to the operating system.',
 ['fault_sequences'],'every point at which an I/O operation can fail',
 'No test injects I/O faults.',
 ['input_graph.rs'],[('every I/O result is propagated, explicit flush at the end','to_file, to_dimacs_file')],[],['Result of to_file/to_dimacs_file'])
p('C17','Text files are read back as written and malformed files are rejected',
 'For both text formats the reader accepts what the writer produces and restores the same edges (fields in the same order, same node numbering). Reading never invents or drops a well-formed arc line, and in the DIMACS format panics on unknown or malformed lines, an arc line without a problem line before it, a repeated problem line, node ids outside 1..n, and a number of arc lines that differs from the announced one.',
 ['inputs'],'every graph written and every file contents read',
 'Tests read fixed files; each rejected form needs its own file.',
 ['input_graph.rs'],[('parsing and its assertions','read_from_file, read_from_dimacs, read_arc_line'),('format strings','to_file, to_dimacs_file')],[],['InputGraph, panics'])
p('C18','Node orderings are permutations, honoured and round-trip',
 'The ordering reported for a prepared graph lists every node exactly once, in the order in which nodes were removed. Preparing with a given order removes the nodes in exactly that order, returns an error for an order of the wrong length or with a repeated node, and never produces a graph from an order that is not a permutation.',
 ['inputs','configurations'],'every input graph, parameter set and node order',
 'Tests use correct orders and one wrong length.',
 ['fast_graph_builder.rs','fast_graph.rs','lib.rs'],
 [('rank assigned once per removed node, counting up','run_contraction*'),('ordering is the inverse of the ranks','get_node_ordering'),('order validated','build_with_order_with_params')],[('ranks','node to rank','FastGraph')],['get_node_ordering, prepare_with_order'])
p('C19','No input can cause undefined behaviour',
 'The crate contains no unsafe code, foreign functions or unchecked accesses, so no graph, query, file or (corrupt) serialised data can make it read or write outside its data.',
 ['inputs','programs'],'every input to every public operation, including deserialised data that violates all invariants',
 'Tests do not feed invalid data; memory errors need not show in a passing test.',
 ['lib.rs'],[('no unsafe code anywhere','whole crate')],[],['memory safety'])
p('C20','Every operation terminates',
 'Every public operation finishes (returns, or panics) for every input and every graph built by the crate: each loop consumes a finite input, or queue entries that are only added when a stored weight strictly decreases, or removes a node from a finite set in every round.',
 ['inputs','configurations'],'every graph, parameter value and query',
 'A test that ends says nothing about other inputs; equal weights or particular limits are needed for an endless loop.',
 ['path_calculator.rs','witness_search.rs','fast_graph_builder.rs'],
 [('counted loops','whole crate'),('queue entries are added only on strict improvement','relaxation loops'),('each round removes a queue entry','main loops')],[],['termination'])
p('C21','Equivalent entry points give the same result',
 'The convenience functions behave exactly like the operation they abbreviate: a one-to-one query is the multi-source query with one source and one target of weight zero, one-shot queries equal queries on a new calculator for that graph, preparation without parameters equals preparation with the default parameters, and arguments are passed on unchanged and in the right roles.',
 ['inputs'],'every graph, parameter set and argument',
 'Tests call one variant in most places; a swapped or dropped argument shows only for asymmetric inputs.',
 ['lib.rs','path_calculator.rs','fast_graph_builder.rs'],
 [('delegation','lib.rs functions, PathCalculator::calc_path, FastGraphBuilder::build*')],[],['results'])
p('C22','Queries return the globally optimal weight end to end',
 'For every input graph and every pair of nodes, the weight returned by a query on the prepared graph equals the minimum over all routes of the input graph.',
 ['inputs','configurations'],'every input graph, order, parameter set and query',
 'Random tests sample small graphs.',
 ['path_calculator.rs','node_contractor.rs'],[('contraction hierarchy as a whole','whole crate')],[],['ShortestPath weight'])
p('C23','Queries visit a small part of the graph',
 'On road-like graphs a query settles far fewer nodes than a plain search would and answers in the documented time.',
 ['inputs'],'realistic graphs','Tests measure no visited nodes.',
 ['path_calculator.rs','heap_item.rs'],[('hierarchy, stalling, priority order','PathCalculator')],[],['run time'])
p('C24','Default parameters yield few shortcuts',
 'With the default parameters the preparation adds a number of shortcuts of the same order as the number of edges on realistic graphs, and finishes in the documented time.',
 ['inputs','configurations'],'realistic graphs','Depends on data that the tests do not contain.',
 ['fast_graph_builder.rs','node_contractor.rs'],[('relevance heuristics','calc_relevance')],[],['size of the prepared graph'])
p('C25','Queries leave nothing behind that grows',
 'However many queries a calculator has answered, the memory it holds is bounded by the size of its graph: whatever a query appends to lists or queues that the calculator keeps is emptied for every query, its other lists keep their size, and no public operation leaks memory.',
 ['histories'],'every sequence of queries on one calculator',
 'A few queries in a test leave too little behind to notice; only long-running services see the growth.',
 ['path_calculator.rs','valid_flags.rs'],
 [('queues are emptied before the first entry is added','calc_path_multiple_sources_and_targets'),('marks are reset by a list of the same size','ValidFlags::invalidate_all')],
 [('heap_fwd, heap_bwd','queues kept between queries','PathCalculator')],['memory held by the calculator'])
p('C26','Copies are complete and paths report what they hold',
 'A clone of an input graph, a prepared graph, its 32-bit form or a path equals its original in every part, for all values. A path reports the source, target, weight and nodes it was made with, counts as found exactly if its weight is below the largest one, and compares equal to another path exactly if source, target and weight agree.',
 ['inputs'],'every value of every type that can be cloned; every pair of paths',
 'Tests clone and compare few values; a part that is dropped, limited or compared differently for some values does not show.',
 ['shortest_path.rs','fast_graph.rs','fast_graph32.rs','input_graph.rs'],
 [('clone implementations','derived for all public types'),('accessors and comparison','ShortestPath')],[],['clones, accessors, =='])
p('C27','No index is out of bounds and no lookup fails',
 'Preparing a frozen graph, and querying a prepared graph with valid arguments, never reads outside a list and never misses an entry it looks for.',
 ['inputs','configurations'],'every frozen graph, order, parameter set and valid query',
 'An index or lookup that fails only for particular graphs is not met by sampled graphs.',
 ['fast_graph_builder.rs','path_calculator.rs','witness_search.rs','preparation_graph.rs'],
 [('lookups and indexing','whole crate')],[],['panics'])
p('C28','Valid calls are not turned down',
 'No operation panics through an assertion, panic, unwrap or expect unless its caller did something that is documented as wrong: changing a frozen or reading an unfrozen input graph, a calculator made for another graph, no source or no target, a node id outside the graph, a number that has no place in the 32-bit form. How heavy weights are, how many nodes, edges, sources or targets there are and which of them are equal, how deep shortcuts are nested, how much work was done, limits and parameters, and how many calls came before never end in a panic; the assertions inside preparation and queries only compare ids, marks and list entries, or cannot fail.',
 ['inputs','configurations','histories'],'every call of every public operation except reading text files (C17)',
 'Tests use small graphs, light weights and few calls; an assertion that fails beyond some size is never met.',
 ['input_graph.rs','fast_graph_builder.rs','node_contractor.rs','preparation_graph.rs','witness_search.rs','path_calculator.rs','valid_flags.rs','fast_graph32.rs'],
 [('rejections','check_frozen, assertions of the queries, usize_to_u32'),('internal assertions','WitnessSearch, PreparationGraph, FastGraphBuilder')],[],['panics'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
