HOOKS = dict(guard="MINORMINER_VERIFICATION", enable="the checks compile /repo's headers and the Cython extension with -DMINORMINER_VERIFICATION and link a definition of minorminer_verification_draw (harness/*.cpp)",
             source_commits=["110f585"])
NA = {"G01": "the Glasgow solver submodule is not in the tree, so the extension cannot be built here and there is no code to explore"}
_S = "stateless model checking of the implementation: "
NOTES = {
    "M01": (_S + "exhaustive small inputs x every bounded deviation of the random draws",
            "Complete searches of the real C++ code on all source graphs up to 4 (5) nodes and targets up to 5 (6); every single random draw replaced by each alternative; independent oracle. Nothing is claimed beyond those sizes and deviation bounds."),
    "M02": (_S + "every hint over small problems x every one-draw deviation",
            "Real code, all fixed/restricted/initial/suspended hints over small problems. Restrictions are soft towards neighbours, as the implementation documents."),
    "M03": ("fault enumeration: a stop injected at every stop check, random draw and logged message of every search",
            "Real code; timeouts (own and library clock test on a virtual clock), cancellations and SIGINTs at every point within the small problems explored."),
    "M04": (_S + "controlled scheduler over the real threaded code, all schedules of each fork-join region within a preemption bound, with vector-clock race detection",
            "std::async/future/mutex are replaced by fibers under a systematic scheduler; every schedule with at most 1-3 preemptions of every region; races, deadlocks, schedule-dependent or invalid results are violations; the first schedule is replayed with real threads. Equality with the single-threaded search is not claimed."),
    "M05": (_S + "all bounded histories of preceding calls, all relabelings and input forms, differential against a fresh process",
            "Real extension; every history of up to 3 (4) of 9 kinds of preceding calls, all permutations of the source's labels and a pool of awkward label types on all small problems, several hash seeds; node and edge order is kept."),
    "M06": (_S + "all operation sequences up to a depth on the real miner object",
            "All sequences of up to 4 of 13 operations (C++), 2 of 13 (Python; 3 thorough), judged by an independent oracle."),
    "M07": (_S + "all combinations of degenerate graphs, hints, parameter values and object operations from an alphabet, in an address-sanitized build with library assertions",
            "Real extension; every pair of degenerate hints, every parameter value and a third of (all) pairs, every sequence of 2 (3) of 40 operations; memory errors as far as AddressSanitizer and libstdc++ assertions see them."),
    "M08": (_S + "every valid embedding of small problems as start x every one-draw deviation", "Real code; all starts up to targets of 4 nodes, a stride of those of 5."),
    "M09": (_S + "exhaustive small inputs, fills and hints x every one-draw deviation", "Real code; the oracle recomputes the flag, semi-validity and fill."),
    "M10": (_S + "all embeddings of small problems: every map from a few nodes to any sets of a few targets", "Real extension; all adjacent pairs of the independently sorted list of embeddings are compared by their keys. The form of the key is not prescribed."),
    "D01": ("explicit-state model checking with the implementation's chain operations as transition relation", "All legal operation sequences on 2-4 chains over target graphs of 2-6 nodes, to closure or to a reported depth; after each step the real objects are compared with the specified state."),
    "D02": (_S + "all operation sequences up to a length against a multiset", "Real queue, both heap orders; all push/pop/reset sequences up to the reported lengths and all orders of up to 7 (9) distinct keys."),
    "D03": (_S + "exhaustive small multigraphs, presentations and reserved sets", "Real components/input_graph; all labelled graphs up to 6 (7) nodes."),
    "B01": (_S + "every yield pattern (all subsets of missing nodes or couplers) of small targets, bounded numbers of defects on larger ones",
            "Real extension on Chimera, Zephyr and Pegasus targets; all request sizes, cached and uncached, all label kinds; independent oracle. The in-tree defect groups beyond two missing parts on larger targets are a listed stride."),
    "B02": (_S + "the yield patterns of B01", "Real extension; completeness against the object's own largest clique and, on perfect graphs, against the sizes of the known constructions."),
    "B03": (_S + "the yield patterns of B01 x all pairs of side sizes along the border of what is found", "Real extension; independent oracle; completeness by dominance among the answers, against everything computed, and against the intact lines of defective Chimera targets."),
    "B04": ("explicit-state model checking of edit histories: the real cache objects and directory are the transition system, compared with a specification after every history",
            "All histories of up to 3 (4) of about 30 operations on two objects and the disk, continued from one history per observable outcome; the specification is independent of the implementation; every history runs against the implementation."),
    "B07": (_S + "all targets of a group (shape, defects, offsets, labels) share one cache directory, each looked up before and after all others", "Real extension and real directory; groups of up to 90 targets, forward and backward, plain, with inserted cliques and with bicliques."),
    "B08": (_S + "families x defects x options x earlier contents of the cache, and every clique embedding of small graphs for regularization", "Real extensions; heuristic draws from listed seeds only; independent oracle."),
    "B05": (_S + "all interleavings, up to a bound on preemptions, of the file operations and lock operations of real processes and threads sharing a cache directory (preloaded scheduler)",
            "Real extension in real processes and threads; 19 scenarios; every schedule with at most 1-2 (2-3) preemptions; every answer, and everything looked up afterwards, must be one that some serial order gives. Memory accesses between file operations are not interleaved."),
    "B06": ("fault enumeration: a death before every file operation and inside every write, an error of every operation, a second death during recovery, and a death of one of two scheduled processes",
            "Real extension and directory; crash of the process, not of the machine. Afterwards fresh processes must succeed with the answers of before or after."),
    "B09": (_S + "all histories, up to a length, of queries, object renewals and removals of the directory on three cache objects sharing a directory",
            "Real extension; three objects (two with one seed, one with another), histories of 2 (3) steps on all listed defect patterns and 3 (4) on some; every answer equals that of a fresh object in an empty directory, in this and two other processes. Graphs listing equal nodes in another order are left out."),
    "B10": (_S + "every small graph of each family x labelings x all patterns of up to one or two missing parts", "Real extension; the fragment graph handed to the drawing function is contracted and compared with the target. The picture itself is not judged."),
    "U01": (_S + "every mapping between small graphs, against the definition", "Real diagnostics; sources up to 3 (4) nodes and targets up to 4 nodes up to isomorphism, every chain absent or any set of target nodes and one unknown node."),
    "U02": (_S + "every pair of small graphs in the minor and subgraph order (computed by closure), bounded histories of node splits, and contractions of real lattices", "Real filters; all pairs of graphs up to 6 (7) nodes, all targets reached from small and special sources by up to 3-4 (4-6) splits, subgraphs and contractions of square lattices. One-sided: only wrong rejections and non-termination are violations."),
    "U06": (_S + "every list of small rectangles in every order under every bound", "Real packer; all lists of up to 4 (some sets: 5-8) rectangles from 12 sets of sizes; longer lists are a listed stride. Optimality is not claimed."),
    "U03": (_S + "every sequence of an embedder's answers with a bounded number of unusual ones (another embedding, failure), and a deadline before every call on a virtual clock",
            "Real code with a stubbed embedder (the Glasgow solver is not in the tree); small sources, targets and defective lattices; option combinations on sublattices are a listed stride (1 in 53 to 113; thorough 1 in 7 to 37)."),
    "U04": (_S + "all requested sizes x ways of giving target and labels on small lattices with up to one or two missing parts", "Real extension; agreement with the cache object plus an independent oracle; grids exhaustively up to 3x3x5 (4x4x5)."),
    "U05": (_S + "all patterns of up to one to three (small graphs: any number of) missing qubits and couplers of small Chimera graphs x every query x the deterministic random choices and single deviations from them", "Real code, the optimum recomputed independently from the definition; patterns of two and three defects on the larger graphs are a listed stride (complete on graphs with up to 8 nodes or edges)."),
    "L01": (_S + "all sequences of assignments to a layout's attributes and points up to a depth", "Real code on small graphs; after every step all attributes must agree with a recomputation."),
    "L02": (_S + "all small layouts, sources and parameters of the placement functions", "Real code; placements judged by the definition of the functions (closest, intersection and the binning)."),
    "L03": (_S + "all combinations of layouts, placements and passing options on small graphs, with a stub recording what reaches find_embedding, and with the real one", "Real code; hints are judged at the point where they reach the embedder, results by an independent oracle."),
    "L04": (_S + "all small graphs x vertex orders x parameters of the layout functions", "Real code with the compiled rectangle packer; every point must be finite, of the right dimension, center and scale; p_norm must not be worse than its start, lattices must equal the drawing."),
}
