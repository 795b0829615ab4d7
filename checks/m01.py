"""M01: every reported embedding is a minor embedding, for every random-draw deviation up to the bound."""
import vf, mm
LEVEL = "exploration"


def run(ctx):
    b = mm.binary()
    vf.use_package(vf.SITE)
    import networkx as nx
    from problems import atlas, line, code, structured, relabel
    groups = []

    def opts(T):
        comp = max(len(c) for c in nx.connected_components(T))
        return dict(tries=2, mni=3, clp=2, mayfail=int(comp == 1))
    A = []
    for S in atlas(1, 4):
        for T in atlas(1, 5):
            A.append(line(code(S) + "/" + code(T), S, T, **opts(T)))
    groups.append(("all S<=4 x all T<=5, 1 deviation of 6", A, 1, 6, 1 if ctx.quick else 4))
    B = []
    for S in atlas(2, 3):
        for T in atlas(2, 4):
            o = opts(T)
            o.update(tries=1, mni=2, clp=1)
            B.append(line(code(S) + "/" + code(T) + "/2dev", S, T, **o))
    groups.append(("all S<=3 x all T<=4, 2 deviations of 3", B if not ctx.quick else B[::2] , 2, 3 if ctx.quick else 6, 1))
    C = []
    S5 = atlas(5, 5, True)
    T6 = atlas(6, 6, True)
    for i, S in enumerate(S5):
        for j, T in enumerate(T6):
            if ctx.quick and (i + j) % 3 != ctx.seed % 3:
                continue
            C.append(line(code(S) + "/" + code(T), S, T, **opts(T)))
    groups.append(("connected S=5 x connected T=6, 1 deviation of 3", C, 1, 3, 1 if ctx.quick else 2))
    # parameters: every combination on a fixed set of pairs
    D = []
    pairs = [(nx.complete_graph(3), relabel(nx.grid_graph([2, 3])), "K3_grid23"), (nx.cycle_graph(4), nx.complete_bipartite_graph(2, 4), "C4_K24"),
             (nx.complete_graph(4), relabel(nx.hypercube_graph(3)), "K4_cube"), (nx.disjoint_union(nx.complete_graph(2), nx.path_graph(3)), nx.cycle_graph(6), "K2+P3_C6"),
             (nx.star_graph(3), nx.path_graph(6), "star3_P6")]
    for S, T, n in pairs:
        for tries in (1, 3):
            for mni in (1, 2, 10):
                for rounds in (1, 3, None):
                    for clp in (0, 1, 3):
                        for fill in (1, 2, 3, None):
                            for beta in (None, 1.1, 2.0):
                                o = dict(tries=tries, mni=mni, clp=clp, mayfail=int(fill is not None))
                                if rounds: o["rounds"] = rounds
                                if fill: o["fill"] = fill
                                if beta: o["beta"] = beta
                                D.append(line("%s/%d.%d.%s.%d.%s.%s" % (n, tries, mni, rounds, clp, fill, beta), S, T, **o))
    groups.append(("5 pairs x all parameter combinations, 1 deviation of 3", D if not ctx.quick else D[ctx.seed % 3::3], 1, 3, 1))
    E = []
    for S, T, n in structured():
        E.append(line(n, S, T, tries=2, mni=4, clp=2))
        # duplicate edges, self loops, both directions
        S2 = nx.MultiGraph(S); S2.add_edges_from(list(S.edges())[::2]); S2.add_edges_from((v, v) for v in list(S.nodes())[:2])
        T2 = nx.MultiGraph(T); T2.add_edges_from((b_, a) for a, b_ in list(T.edges())[::3]); T2.add_edges_from((v, v) for v in list(T.nodes())[:2])

        class W:
            def __init__(s, g): s.g = g
            def __len__(s): return len(s.g)
            def edges(s): return [(a, b_) for a, b_ in s.g.edges()]
        E.append(line(n + "/multi", W(S2), W(T2), tries=2, mni=4, clp=2))
    groups.append(("structured pairs up to 32 target nodes, 1 deviation of 3", E, 1, 3, 1 if ctx.quick else 3))
    desc = []
    for name, lines, dev, alts, seeds in groups:
        st = mm.run_problems(ctx, b, lines, dev=dev, alts=alts, seeds=seeds, env={"MMH_MAXPOS": "400" if ctx.quick else "5000"})
        ctx.log(name, st)
        desc.append("%s: %d executions, %d problems" % (name, st.get("executions", 0), st.get("problems", 0)))
        if len(ctx.violations) > 5:
            break
    c = ctx.coverage
    c["evaluations"] = ctx.counters.get("executions", 0)
    c["distinct_nontrivial"] = ctx.counters.get("distinct_embeddings", 0)
    c["rule"] = ("one evaluation is one complete search of the real C++ code; for every problem each random draw of the base execution is replaced by each of the "
                 "alternatives (and each pair, for the 2-deviation group); non-trivial = distinct (problem, returned embedding) pairs with success")
    c["groups"] = desc
    c["deviation_bound"] = 2
    ctx.assumptions += ["base executions use one generator seed each (VERIF-independent); draws beyond the reported cap keep their base value",
                        "targets up to 6 nodes exhaustively by isomorphism class, up to 32 nodes for the structured pairs"]
