"""Writes /verif/properties.jsonl (the one source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=hook))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

FE = "include/find_embedding/"
# ------------------------------------------------------------------ heuristic embedder
prop("M01", "Every reported embedding is a genuine minor embedding",
 "Whenever the heuristic embedder reports success, the mapping it returns has exactly one non-empty chain per source node, every chain is a connected set of distinct target nodes, chains are pairwise disjoint, and every source edge is realised by at least one target edge between the two chains. When it does not succeed and overlaps were not requested, the result is empty. This holds for whatever random choices the search happens to make.",
 ["inputs", "configurations", "schedules"],
 "all source and target graphs (connected or not, isolated nodes, self-loops, duplicate edges), all search parameters, every outcome of every random choice",
 "Tests run a few graph families with seeds that are drawn once; a corrupt chain data structure shows up only under particular random choices on particular graphs.",
 [FE+"find_embedding.hpp", FE+"pathfinder.hpp", FE+"embedding.hpp", FE+"chain.hpp", "minorminer/_minorminer.pyx"],
 [("placement heuristic: find_chain / find_short_chain", FE+"pathfinder.hpp"), ("chain link/steal/trim bookkeeping", FE+"chain.hpp"),
  ("qubit weights decide 'no overlap'", FE+"embedding.hpp statistics()"), ("label translation of chains", "minorminer/_minorminer.pyx find_embedding")],
 ["find_embedding::findEmbedding", "minorminer.find_embedding"],
 [("qub_weight", "number of non-fixed chains using each qubit", FE+"embedding.hpp"), ("bestEmbedding", "what is returned", FE+"pathfinder.hpp")],
 "random draws of the embedder (include/fastrng.hpp) are substituted under a guard")
prop("M02", "Fixed, restricted and suspended chains are honoured in every result",
 "In every successful result, each variable with a fixed chain has exactly that chain and no other chain uses its nodes; each variable with a non-empty restriction, all of whose neighbours are restricted too, has a chain inside the union of its own and its neighbours' restrictions (a path between two chains may use what either may use; with one common restriction, the chain lies inside it); and each suspended variable's chain meets every one of its non-empty blobs. Auxiliary nodes used to implement a constraint never appear in the result. The constraints hold for each combination of hints and for every random choice.",
 ["inputs", "configurations"],
 "all assignments of fixed / restricted / suspended / initial chains to the variables of a problem, and every random choice of the search",
 "Tests fix or suspend one or two hand-picked chains on one seed; combinations (fixed next to restricted next to initial) are never enumerated.",
 ["minorminer/_minorminer.pyx", FE+"find_embedding.hpp", FE+"embedding_problem.hpp", FE+"embedding.hpp"],
 [("reserved qubits are sources, fixed variables are sinks", FE+"find_embedding.hpp parameter_processor"), ("domain masks", FE+"embedding_problem.hpp domain_handler_masked"),
  ("suspension pins", "minorminer/_minorminer.pyx _input_parser")],
 ["minorminer.find_embedding", "find_embedding::findEmbedding"], None, "random draws substituted under a guard")
prop("M03", "Timeout or cancellation at any moment is safe",
 "If the time limit expires or the user interrupts at any point of a search, the search stops, and what it returns is either nothing or a valid embedding (a semi-valid one with its flag cleared when overlaps were requested). A non-interactive interrupt surfaces as a keyboard interrupt; an interactive one and a timeout return normally. The embedder object stays usable: a later uninterrupted run gives a valid result.",
 ["fault_sequences", "inputs", "configurations"],
 "every index of the stop check at which a timeout or an interrupt arrives, including repeated ones, for every small problem and mode",
 "The tests use wall-clock timeouts that hit one arbitrary point; interrupts are not tested at all.",
 [FE+"pathfinder.hpp", FE+"util.hpp", "minorminer/src/pyutil.hpp"],
 [("check_stops", FE+"pathfinder.hpp"), ("heuristicEmbedding switch on -2", FE+"pathfinder.hpp"), ("LocalInteraction::cancelled", FE+"util.hpp"), ("handle_exceptions", "minorminer/src/pyutil.hpp")],
 ["find_embedding::pathfinder_wrapper::heuristicEmbedding", "minorminer.find_embedding"])
prop("M04", "Multi-threaded search is race-free and independent of scheduling",
 "With more than one thread the embedder never deadlocks, no two threads access the same memory without ordering when one of them writes, and for a given seed and input the result is the same for every interleaving of the worker threads. The result satisfies the same validity guarantees as with one thread.",
 ["schedules", "inputs", "configurations"],
 "all interleavings of the worker threads' synchronisation operations, for all small problems and thread counts",
 "Tests run whatever schedule the operating system produces, and cannot see a race that happens to be benign on that run.",
 [FE+"pathfinder.hpp"],
 [("get_job mutex and neighbour cursor", FE+"pathfinder.hpp pathfinder_parallel"), ("exec_chunked / exec_indexed ranges and waits", FE+"pathfinder.hpp")],
 ["find_embedding::findEmbedding with threads > 1"],
 [("nbr_i", "shared cursor over the neighbours", FE+"pathfinder.hpp"), ("futures", "outstanding workers", FE+"pathfinder.hpp")])
prop("M05", "Results are a function of graph structure, parameters and seed only",
 "With a fixed random seed, the result depends only on the order in which nodes and edges are presented, the parameters and the seed: repeating the call, calling it after any other calls, or renaming the nodes (of any hashable type) gives the same embedding up to the renaming. The inputs are not modified.",
 ["histories", "inputs", "configurations"],
 "all sequences of calls preceding a call in one process, all relabelings of source and target",
 "Tests compare two consecutive identical calls on a couple of instances.",
 ["minorminer/_minorminer.pyx", "minorminer/_minorminer_h.pxi", "include/fastrng.hpp", FE+"graph.hpp"],
 [("seeded generator", "include/fastrng.hpp"), ("insertion-ordered label dictionary", "minorminer/_minorminer_h.pxi labeldict"), ("_read_graph", "minorminer/_minorminer.pyx")],
 ["minorminer.find_embedding", "minorminer.miner"])
prop("M06", "Every sequence of miner calls keeps returning correct embeddings",
 "On one miner object, after any sequence of full searches, greedy passes, changes of the initial chains and improvement calls, a full search returns a valid embedding or nothing, and each greedy pass returns connected chains that respect the requested overlap bound, chain-length bound and the fixed chains, with adjacent placed variables actually linked. A freshly constructed miner's first search equals the module-level function for the same seed.",
 ["histories", "inputs"],
 "all operation sequences up to a bound on all small problems",
 "The tests never construct a miner with a sequence of mixed operations.",
 ["minorminer/_minorminer.pyx", FE+"pathfinder.hpp", FE+"find_embedding.hpp"],
 [("quickPass", FE+"pathfinder.hpp"), ("set_initial_chains", FE+"find_embedding.hpp"), ("reset_mood between runs", FE+"embedding_problem.hpp"), ("miner", "minorminer/_minorminer.pyx")],
 ["minorminer.miner"])
prop("M07", "Malformed or degenerate input yields an exception, never a crash or hang",
 "Every call of the embedding entry points with malformed or degenerate input (unknown labels, empty graphs, chains on unreachable or already used nodes, every target node reserved, out-of-range or wrongly typed parameters) either returns (a correct result whenever the hints are legal) or raises an ordinary Python exception. The interpreter is never aborted, memory is never corrupted, and the call returns.",
 ["inputs", "configurations", "fault_sequences"],
 "all combinations of degenerate graphs, chain hints and parameter values from a small alphabet, on both the function and the object interface",
 "A dozen malformed calls are tested; a C++ exception that nobody translates kills the interpreter, so tests for it do not exist.",
 ["minorminer/_minorminer.pyx", "minorminer/_minorminer_h.pxi", "minorminer/src/pyutil.hpp", FE+"find_embedding.hpp", FE+"embedding.hpp"],
 [("handle_exceptions translation", "minorminer/src/pyutil.hpp"), ("except + declarations", "minorminer/_minorminer_h.pxi"), ("parameter_processor::input_chains checks", FE+"find_embedding.hpp")],
 ["minorminer.find_embedding", "minorminer.miner"])
prop("M08", "Improving a valid embedding never makes it worse",
 "When the search is started from a valid embedding (in the largest component of the target) with initialization skipped, it succeeds, and the result is a valid embedding whose longest chain is not longer than the longest chain of the start, and with no more chains of that length when the longest length is unchanged. When the start leaves a variable without a chain or a source edge unrepresented the call raises instead of returning an invalid mapping.",
 ["inputs", "configurations"],
 "all valid embeddings of all small problems as starting points, all non-semi-valid starts, every random choice",
 "One test starts from one hand-made embedding.",
 [FE+"pathfinder.hpp", FE+"embedding.hpp"],
 [("check_improvement ordering", FE+"pathfinder.hpp"), ("initial chain link-up", FE+"embedding.hpp constructor"), ("skip_initialization branch", FE+"pathfinder.hpp heuristicEmbedding")],
 ["minorminer.find_embedding(initial_chains=..., skip_initialization=True)"])
prop("M09", "Overlapped results are semi-valid and their validity flag is exact",
 "When overlaps are requested the result is a pair of a mapping and a flag, the flag is true exactly when the mapping is a valid embedding, and in either case every source node has a non-empty connected chain and every source edge is represented by a target edge between its chains or by a shared target node. No target node is used by more chains than the requested maximum fill (unless the given initial chains already exceed it).",
 ["inputs", "configurations"],
 "all small problems, feasible or not, all parameters, every random choice",
 "Tests look at one or two overlapped results and never check the flag against an independent oracle.",
 ["minorminer/_minorminer.pyx", FE+"pathfinder.hpp", FE+"embedding.hpp"],
 [("statistics()", FE+"embedding.hpp"), ("weight_bound", FE+"embedding_problem.hpp"), ("return_overlap", FE+"find_embedding.hpp findEmbedding")],
 ["minorminer.find_embedding(return_overlap=True)"])
prop("M10", "Quality keys order embeddings by failure, overlap, then chain lengths",
 "For every set of embeddings of one problem, comparing them by the miner's quality key ranks a failed embedding behind every other, an embedding with overlaps behind every one without, among overlapping ones the one with the smaller worst overlaps first, and then the one with fewer of the longest chains (then of the next length, and so on) first; equally good ones have equal keys, whatever the labels, the kind of collection and the order in which nodes and chains are listed. When overlaps are declared absent, only the chain lengths count. Computing a key changes nothing.",
 ["inputs"],
 "all embeddings of small problems: all maps to sets of targets",
 "Tests use the key to pick one embedding, at most.",
 ["minorminer/_minorminer.pyx"],
 [("quality_key", "minorminer/_minorminer.pyx"), ("histogram_key", "minorminer/_minorminer.pyx"), ("count_overlaps", "minorminer/_minorminer.pyx")],
 ["minorminer.miner.quality_key"])
# ------------------------------------------------------------------ data structures
prop("D01", "Chain bookkeeping stays consistent under every operation sequence",
 "Under any legal sequence of the chain operations (rooting, growing, trimming, linking, stealing, freezing and thawing, copying) the membership, the parent tree, the reference counts, the links and the per-node usage counts agree with one another and with a plain reference model: a chain is a tree under its root and no node disappears while something still refers to it.",
 ["histories"],
 "all operation sequences up to a depth over two or three adjacent chains on small target graphs",
 "Unit tests run fourteen fixed sequences.",
 [FE+"chain.hpp"],
 [("reference-counted parent tree", FE+"chain.hpp"), ("steal / link_path / trim_branch", FE+"chain.hpp"), ("freeze / thaw", FE+"chain.hpp")],
 ["find_embedding::chain"])
prop("D02", "The priority queue always yields the least element",
 "For every interleaving of insertions, inspections and removals, the queue used by the shortest-path search returns the entry with the least distance, ties broken by the declared tie-breaker, never loses or duplicates an entry, and is empty exactly when everything inserted has been removed.",
 ["histories"],
 "all operation sequences up to a length over all small priority patterns",
 "Unit tests insert a few ordered or random lists and then drain them; interleavings of pops and pushes are not covered.",
 [FE+"pairing_queue.hpp"], [("pairing heap merge passes", FE+"pairing_queue.hpp")], ["find_embedding::pairing_queue"])
prop("D03", "Component decomposition is an exact, reversible partition of the graph",
 "Splitting a graph into components yields exactly its connected components in order of decreasing size, with reserved nodes numbered last in each component, edges preserved under the renumbering, and translation into and out of a component mutually inverse; neighbour lists are symmetric except where nodes were declared as sources or sinks, and contain neither self-loops nor duplicates.",
 ["inputs"],
 "all small multigraphs with every reserved set and edge order",
 "Unit tests use six fixed graphs.",
 [FE+"graph.hpp"], [("union-find and relabeling", FE+"graph.hpp components"), ("__get_neighbors", FE+"graph.hpp input_graph")], ["graph::components", "graph::input_graph"])
# ------------------------------------------------------------------ busclique
prop("B01", "Structured clique embeddings are valid for every yield pattern",
 "For every Chimera, Pegasus or Zephyr graph with any set of missing nodes and couplers and any labeling, every clique embedding returned for a requested size or node list, with or without the cache, is a valid embedding of exactly that clique using the graph's own labels, or is empty. Every request returns in bounded time.",
 ["inputs", "configurations"],
 "all subsets of missing nodes and couplers (up to a bound) of small graphs of each family, shape and labeling, all requested sizes",
 "Tests use perfect graphs and a few random yields.",
 ["minorminer/busclique.pyx", "include/busclique/clique_cache.hpp", "include/busclique/find_clique.hpp", "include/busclique/bundle_cache.hpp", "include/busclique/coordinate_types.hpp", "include/busclique/topo_cache.hpp", "include/busclique/cell_cache.hpp", "include/busclique/small_cliques.hpp"],
 [("bundle line masks", "include/busclique/bundle_cache.hpp"), ("missing internal couplers handled by node-deletion masks", "include/busclique/topo_cache.hpp"), ("relabelers", "minorminer/busclique.pyx")],
 ["minorminer.busclique.find_clique_embedding", "minorminer.busclique.busgraph_cache"])
prop("B02", "Cached cliques are complete, ordered and no longer than needed",
 "For one graph, a clique of size n is found exactly when n is at most the size of the reported largest clique; the longest chain does not decrease as n grows; the clique reported for a chain-length bound is valid, obeys the bound, and is at least as large as any size whose reported embedding obeys that bound. On a perfect graph the sizes reach what the known constructions guarantee.",
 ["inputs", "configurations"],
 "all yields and shapes in a bounded family",
 "Tests check the largest size of a few perfect graphs only.",
 ["minorminer/busclique.pyx", "include/busclique/clique_cache.hpp", "include/busclique/find_clique.hpp"],
 [("_make_clique_cache by_size / by_length", "minorminer/busclique.pyx"), ("best_cliques", "include/busclique/find_clique.hpp"), ("dynamic program over rectangles", "include/busclique/clique_cache.hpp")],
 ["busgraph_cache.find_clique_embedding", "busgraph_cache.largest_clique", "busgraph_cache.largest_clique_by_chainlength"])
prop("B03", "Structured biclique embeddings are valid and found whenever known",
 "For every Chimera, Pegasus or Zephyr graph with any defects and labeling, every biclique embedding returned for two sides given as sizes or node lists, in either order and including empty sides, is a valid embedding of that biclique with the requested node labels, or is empty; it is not empty when the graph's cache holds a biclique at least as large on both sides. The largest balanced biclique is valid and balanced, and allowing more alternatives around missing couplers never lengthens the chains of a known biclique.",
 ["inputs", "configurations"],
 "all yields up to a bound and all pairs of side sizes in both orders",
 "Tests ask for a few balanced sizes on perfect graphs.",
 ["minorminer/busclique.pyx", "include/busclique/biclique_cache.hpp", "include/busclique/find_biclique.hpp"],
 [("_make_biclique_cache", "minorminer/busclique.pyx"), ("find_biclique_embedding lookup", "minorminer/busclique.pyx"), ("best_bicliques", "include/busclique/find_biclique.hpp")],
 ["busgraph_cache.find_biclique_embedding", "busgraph_cache.largest_balanced_biclique"])
prop("B04", "Every history of clique-cache edits keeps exactly the best embeddings",
 "After any sequence of insertions, merges, replacements and exports on a clique cache, the embedding stored for each size is a valid clique of that size and is the best of everything offered so far under the stated quality rule (or the last one for direct insertion); exporting and re-importing a cache reproduces it, and what one object wrote to disk another object for the same graph reads back.",
 ["histories"],
 "all sequences of cache operations up to a depth from a small alphabet of embeddings",
 "Tests perform single inserts and merges.",
 ["minorminer/busclique.pyx"],
 [("merge_clique_cache", "minorminer/busclique.pyx"), ("insert_clique_embedding", "minorminer/busclique.pyx"), ("get_clique_cache / update_clique_cache", "minorminer/busclique.pyx")],
 ["busgraph_cache"])
prop("B05", "Concurrent use of the disk cache is safe for every interleaving",
 "When several threads or processes use the on-disk cache at the same time, for the same or different graphs, every call returns the same correct embedding as it would alone, none of them raises or blocks forever, and afterwards the cache directory still serves correct results.",
 ["schedules"],
 "all interleavings of the file-system operations of two or three concurrent users up to a bound on preemptions",
 "The tests use the cache from one process at a time.",
 ["minorminer/busclique.pyx"],
 [("thread lock and inter-process lock", "minorminer/busclique.pyx _fetch_cache"), ("write to a temporary name, then replace", "minorminer/busclique.pyx copy_on_close_context")],
 ["busgraph_cache", "find_clique_embedding(use_cache=True)"],
 [("cache file / .lru / .lock", "on-disk state", "minorminer/busclique.pyx _fetch_cache")])
prop("B06", "A crash at any point of a cache update leaves a usable cache",
 "If a process dies at any point while it reads or updates the on-disk cache (including in the middle of a write), every later call for any graph succeeds and returns what it would have returned before or after that update, without manual clean-up: nothing that was stored earlier is lost. The same holds if a file operation fails instead of the process.",
 ["crash_points", "histories"],
 "every prefix of the file-system operations of a history of cache accesses, with every torn final write",
 "No test kills a process.",
 ["minorminer/busclique.pyx"],
 [("copy_on_close_context", "minorminer/busclique.pyx"), ("least-recently-used eviction", "minorminer/busclique.pyx _fetch_cache")],
 ["busgraph_cache"])
prop("B07", "The cache never serves an answer that belongs to a different graph",
 "Whatever graphs were cached before, a cached answer for a graph is a valid embedding in that graph: two graphs that differ in a node, a coupler, a shape or an offset never receive each other's embeddings when those would be invalid. A cached and an uncached request agree on validity.",
 ["histories", "inputs"],
 "all ordered pairs of defect patterns of the same and of different base graphs, sharing one cache directory",
 "Tests clear the cache or use one graph per identifier.",
 ["minorminer/busclique.pyx", "include/busclique/topo_cache.hpp", "include/busclique/coordinate_types.hpp"],
 [("identifier serialization", "include/busclique/topo_cache.hpp serialize"), ("identifier as key inside the cache file", "minorminer/busclique.pyx _fetch_cache")],
 ["busgraph_cache", "find_clique_embedding(use_cache=True)"])
prop("B08", "Mining cliques only ever adds valid, better embeddings",
 "Mining clique embeddings completes for every supported graph family, every embedding in the resulting cache is a valid clique embedding of its size in the graph, no size gets a longer chain than the plain cache had under the default quality rule, and regularizing an embedding keeps it valid.",
 ["inputs", "configurations"],
 "all small graphs of each family with bounded defects, all option combinations",
 "One test runs the miner on one graph.",
 ["minorminer/busclique.pyx"],
 [("mine_clique_embeddings", "minorminer/busclique.pyx"), ("_regularize_embedding", "minorminer/busclique.pyx"), ("_default_quality_function", "minorminer/busclique.pyx")],
 ["minorminer.busclique.mine_clique_embeddings"])
prop("B09", "Clique and biclique answers do not depend on what was asked before",
 "For every Chimera, Pegasus or Zephyr graph and every seed, the answer to each clique or biclique query is determined by the graph, the seed and the query: it is the same whatever cliques and bicliques were asked for earlier of the same object or of other objects (with the same or another seed) for that graph, whether the answer is computed, remembered or read from the cache directory, whether the directory was cleared in between, and in every process.",
 ["histories", "configurations"],
 "all histories of queries on cache objects sharing a directory, up to a length, on graphs of each family with bounded defects",
 "Tests ask one object a handful of questions in one order, on graphs with few missing couplers.",
 ["include/busclique/topo_cache.hpp", "include/busclique/find_clique.hpp", "include/busclique/find_biclique.hpp", "minorminer/busclique.pyx"],
 [("topo_cache::reset", "include/busclique/topo_cache.hpp"), ("topo_cache::next", "include/busclique/topo_cache.hpp"), ("topo_spec_base::serialize", "include/busclique/util.hpp"), ("_fetch_cache", "minorminer/busclique.pyx")],
 ["minorminer.busclique.busgraph_cache", "minorminer.busclique.find_clique_embedding"])
prop("B10", "The fragment view of a target is faithful",
 "For every Chimera, Pegasus or Zephyr graph with any missing nodes and couplers and any labeling, the fragment graph and fragment chains produced for drawing an embedding represent the target exactly: every qubit is a path of fragments of its own, every fragment belongs to a working qubit, two qubits are joined by exactly one fragment coupler if the target has the (internal or external) coupler and by none otherwise, and each chain is the union of the fragments of its qubits.",
 ["inputs"],
 "all small graphs of each family with bounded defects",
 "No test draws a fragment embedding.",
 ["minorminer/busclique.pyx", "include/busclique/topo_cache.hpp", "include/busclique/util.hpp"],
 [("draw_fragment_embedding", "minorminer/busclique.pyx"), ("fragment_nodes", "include/busclique/topo_cache.hpp"), ("fragment_edges", "include/busclique/topo_cache.hpp"), ("pegasus_spec_base::process_edges", "include/busclique/util.hpp")],
 ["minorminer.busclique.busgraph_cache.draw_fragment_embedding"])
# ------------------------------------------------------------------ utils
prop("U01", "The embedding diagnostics agree with the definition of a minor embedding",
 "For every mapping, source and target, the diagnostics report a problem exactly when the mapping is not a minor embedding; each reported problem (missing chain, overlap, disconnected chain, unknown node, missing edge) is real and no problem that is present goes unreported (connectedness and edges are only judged for chains all of whose nodes exist); and the boolean and the raising variant agree with the list.",
 ["inputs"],
 "all mappings between all small sources and targets",
 "Tests use a few hand-made mappings.",
 ["minorminer/utils/diagnostic.py", "minorminer/utils/exceptions.py"],
 [("diagnose_embedding", "minorminer/utils/diagnostic.py"), ("verify_embedding / is_valid_embedding", "minorminer/utils/diagnostic.py")],
 ["minorminer.utils.diagnostic"])
prop("U02", "The feasibility filters never reject an embeddable problem",
 "Whenever a source graph can be embedded in a target graph (as a minor, or as a subgraph when one-to-one is requested) the feasibility filter answers true, and the lattice-size bound is never larger than the size of a square lattice of that family into which the source does embed, nor does it declare such a source infeasible. Both return for every pair of graphs.",
 ["inputs"],
 "all pairs of small graphs, decided by brute force, and all small sources against small lattices of each family",
 "Tests check a handful of pairs.",
 ["minorminer/utils/feasibility.py"],
 [("embedding_feasibility_filter", "minorminer/utils/feasibility.py"), ("lattice_size_lower_bound", "minorminer/utils/feasibility.py")],
 ["minorminer.utils.feasibility"])
prop("U03", "Multiple and tiled embeddings are valid, disjoint and within the limit",
 "Every list of embeddings returned by the multiple-embedding and sublattice searches contains only valid embeddings of the source in the target (or, for a source as its own tile, translations of it) that use pairwise disjoint target nodes, and no more of them than requested, for every embedder that returns valid embeddings (node-to-node or node-to-chain) or fails, in any sequence. The search does not end, short of the requested number and of the deadline, while the embedder would still succeed on what is left of the target or of some sublattice; the embedder is not called after the deadline; shuffle_all_graphs reorders what each attempt sees, determined by the seed. The graphs given by the caller are not modified. array_to_embeddings inverts embeddings_to_array; lattice_size is the larger dimension of the lattice.",
 ["inputs", "configurations"],
 "all small sources and lattices with defects, all option combinations, embedders of both kinds",
 "The module's tests need an extension that cannot be built here and check only a few combinations.",
 ["minorminer/utils/parallel_embeddings.py"],
 [("find_multiple_embeddings", "minorminer/utils/parallel_embeddings.py"), ("find_sublattice_embeddings", "minorminer/utils/parallel_embeddings.py")],
 ["minorminer.utils.parallel_embeddings"])
prop("U04", "Native clique, biclique and grid helpers return valid embeddings",
 "For every requested shape and every Chimera, Pegasus or Zephyr target (given as a size or as a graph, in any labeling, with any defects), the clique, biclique and grid helpers return a valid embedding of exactly the requested graph with the requested labels, or raise the documented error; they do so whenever the clique cache of that target has one, and grids are found exactly when they fit.",
 ["inputs"],
 "all shapes and requested sizes up to a bound on all small targets with bounded defects",
 "Tests use perfect targets and a few sizes.",
 ["minorminer/utils/chimera.py", "minorminer/utils/pegasus.py", "minorminer/utils/zephyr.py"],
 [("find_clique_embedding, find_biclique_embedding, find_grid_embedding", "minorminer/utils/chimera.py"), ("pegasus find_clique_embedding", "minorminer/utils/pegasus.py"), ("zephyr helpers", "minorminer/utils/zephyr.py")],
 ["minorminer.utils"])
prop("U05", "The polynomial Chimera embedder is valid on every defect pattern",
 "For every Chimera graph with any missing nodes or couplers, whether labelled by index or coordinate, and whatever random choices are made, the polynomial-time embedder's cliques and bicliques are valid embeddings in the defective graph, of exactly the requested size where one is requested, with chains in path order that respect the requested length and imbalance. As long as few in-cell couplers between working qubits are missing, the largest clique and biclique it reports are as large as any native one (a family of L-shaped chains of one length, or a rectangle of lines) that avoids all defects within the bounds, and the tightest ones have the shortest chains any native one of that size has; a failure is reported only when there is none.",
 ["inputs"],
 "all defect patterns up to a bound on small Chimera graphs, all sizes",
 "Tests use random defects on a large graph.",
 ["minorminer/utils/polynomialembedder.py"],
 [("eden_processor / processor", "minorminer/utils/polynomialembedder.py")],
 ["minorminer.utils.polynomialembedder.processor"])
prop("U06", "Rectangle packing never overlaps and respects its bounds",
 "For every list of rectangle sizes, packing returns one position per rectangle in order such that all rectangles lie in the non-negative quadrant, no two overlap, and any given maximum width and height are respected; it never reports impossibility when every rectangle fits the bounds and one direction is unbounded or has room for all of them in a row, and malformed sizes are rejected.",
 ["inputs", "configurations"],
 "all multisets of small rectangles in every order, all bounds",
 "The vendored packer has no tests in this repository.",
 ["minorminer/_extern/rpack/_core.pyx", "minorminer/_extern/rpack/__init__.py"],
 [("pack and bounding box search", "minorminer/_extern/rpack/__init__.py"), ("jump-matrix grid", "minorminer/_extern/rpack/_core.pyx")],
 ["minorminer._extern.rpack.pack"])
# ------------------------------------------------------------------ layout
prop("L01", "Layout attributes stay consistent under every sequence of edits",
 "After any sequence of setting a layout's coordinates, array, dimension, centre or scale, the mapping view, the array view and the reported dimension, centre and scale describe the same point set; setting the centre or scale to a value makes the layout have that centre or scale and is otherwise a translation or a uniform scaling.",
 ["histories", "inputs"],
 "all setter sequences up to a depth on small graphs and point sets",
 "Tests set each attribute once.",
 ["minorminer/layout/layout.py"],
 [("lockstep setters", "minorminer/layout/layout.py Layout"), ("_set_layout_specs", "minorminer/layout/layout.py")],
 ["minorminer.layout.Layout"])
prop("L02", "Placements map every source node to usable target nodes",
 "For every pair of layouts, the placement strategies assign to every source node a set of target nodes (a connected set within the requested size bounds for the nearest-subset strategy; the usable qubits that cross at one lattice point, a coupled pair unless qubits are missing there, for the intersection strategy) and the nearest-subset choice with a single neighbour is a set at minimum distance.",
 ["inputs", "configurations"],
 "all small sources and targets with small-integer layouts, all subset bounds",
 "Tests run random layouts and check types.",
 ["minorminer/layout/placement.py"],
 [("closest", "minorminer/layout/placement.py"), ("intersection", "minorminer/layout/placement.py"), ("Placement", "minorminer/layout/placement.py")],
 ["minorminer.layout.Placement"])
prop("L03", "Layout-guided embedding returns only valid embeddings",
 "Layout-guided search returns either a valid embedding of the source in the target or an empty one, for every combination of layout, placement and hint type, including precomputed layouts and placements, and it respects the suspension hint (each chain meets its placement). It uses the layouts it is given and returns what the plain search returns with the resulting placement as its hint. Inputs are not modified.",
 ["inputs", "configurations"],
 "all small sources and targets, all combinations of options",
 "Tests check that calls return, on two graphs.",
 ["minorminer/layout/__init__.py", "minorminer/layout/placement.py", "minorminer/layout/layout.py"],
 [("find_embedding", "minorminer/layout/__init__.py"), ("_parse_layout_parameter / _parse_kwargs", "minorminer/layout/__init__.py")],
 ["minorminer.layout.find_embedding"])
prop("L04", "Layout functions place every vertex where they promise",
 "Every computed layout gives each vertex of the graph one finite point of the requested dimension, with the requested centre and scale. The distance-preserving layout never has a larger distortion (sum over vertex pairs of the squared difference between p-distance and graph distance) than the layout it starts from and, for finite p above one and without a requested scale, ends where no small move of a vertex lowers it, whatever the order in which the graph lists its vertices. The lattice layout is, in each axis, an increasing affine image of the lattice's own drawing that fills the requested square and keeps distinct vertices apart. When components are packed, each is moved rigidly and their bounding boxes do not overlap.",
 ["inputs", "configurations"],
 "all small graphs in many vertex orders, all small lattices with defects, all combinations of p, dimension, centre and scale",
 "Tests check that points exist for a few graphs.",
 ["minorminer/layout/layout.py"],
 [("p_norm", "minorminer/layout/layout.py p_norm, _graph_distance_matrix, _p_norm_objective"), ("graph_layout", "minorminer/layout/layout.py graph_layout"), ("_pack_components", "minorminer/layout/layout.py _pack_components, _rotate_to_minimize_area")],
 ["minorminer.layout.p_norm", "minorminer.layout.graph_layout"])
prop("G01", "Exact subgraph search is sound and complete",
 "The exact subgraph search returns a mapping exactly when one exists, and the mapping is an injective, edge-preserving assignment that honours the fixed nodes, labels and domain restrictions given.",
 ["inputs", "configurations"],
 "all pairs of small graphs with all options",
 "Tests use a few graphs; the solver is a bundled third-party search.",
 ["minorminer/subgraph.pyx"], [("find_subgraph", "minorminer/subgraph.pyx")], ["minorminer.subgraph.find_subgraph"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
