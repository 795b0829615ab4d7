"""Problem generators for the heuristic-embedder harness."""
import itertools
import networkx as nx
from networkx.generators.atlas import graph_atlas_g

_atlas = None


def atlas(lo, hi, connected=None):
    global _atlas
    if _atlas is None:
        _atlas = graph_atlas_g()
    out = []
    for g in _atlas:
        n = g.number_of_nodes()
        if lo <= n <= hi and (connected is None or n == 0 or nx.is_connected(g) == connected):
            out.append(g)
    return out


def code(g):
    """A short name for an atlas graph."""
    return "%dn%s" % (g.number_of_nodes(), "".join("_%d%d" % e for e in sorted(g.edges())))


def relabel(g):
    m = {v: i for i, v in enumerate(g.nodes())}
    return nx.relabel_nodes(g, m)


def line(id, S, T, fixed=None, init=None, restr=None, **opt):
    def es(g):
        return " ".join("%d %d" % e for e in g.edges())

    def ch(c):
        return ";".join("%d: %s" % (v, " ".join(map(str, q))) for v, q in (c or {}).items())
    return "|".join([id, str(len(S)), es(S), str(len(T)), es(T), " ".join("%s=%s" % (k, float(v) if isinstance(v, float) else int(v)) for k, v in opt.items()),
                     ch(fixed), ch(init), ch(restr)])


def connected_subsets(g, maxsize=None):
    nodes = list(g.nodes())
    out = []
    for k in range(1, (maxsize or len(nodes)) + 1):
        for c in itertools.combinations(nodes, k):
            if k == 1 or nx.is_connected(g.subgraph(c)):
                out.append(c)
    return out


def embeddings(S, T, limit=None, maxsize=None):
    """All valid minor embeddings of S in T (as dict node -> tuple), by plain enumeration."""
    subs = connected_subsets(T, maxsize)
    masks = [sum(1 << q for q in c) for c in subs]
    nb = [sum(1 << x for x in set(itertools.chain.from_iterable(T.neighbors(q) for q in c)) if x not in c) for c in subs]
    vs = list(S.nodes())
    out = []
    idx = {v: i for i, v in enumerate(vs)}
    prev = [[idx[u] for u in S.neighbors(v) if u != v and idx[u] < idx[v]] for v in vs]

    def rec(i, used, chosen):
        if limit is not None and len(out) >= limit:
            return
        if i == len(vs):
            out.append({vs[j]: subs[c] for j, c in enumerate(chosen)})
            return
        for c in range(len(subs)):
            if masks[c] & used:
                continue
            if all(nb[chosen[p]] & masks[c] for p in prev[i]):
                chosen.append(c)
                rec(i + 1, used | masks[c], chosen)
                chosen.pop()
    rec(0, 0, [])
    return out


def structured():
    """A few larger pairs (S, T, name)."""
    import dwave.graphs as dg
    c1 = relabel(dg.chimera_graph(1)); c2 = relabel(dg.chimera_graph(2)); c23 = relabel(dg.chimera_graph(2, 2, 2))
    grid = relabel(nx.grid_graph([3, 3])); grid4 = relabel(nx.grid_graph([4, 4])); cube = relabel(nx.hypercube_graph(3))
    pet = nx.petersen_graph()
    out = [(nx.complete_graph(5), c1, "K5_C1"), (nx.complete_graph(6), c2, "K6_C2"), (nx.complete_graph(4), grid, "K4_grid3"),
           (nx.cycle_graph(5), cube, "cyc5_cube"), (nx.complete_bipartite_graph(3, 3), pet, "K33_petersen"), (nx.complete_graph(5), pet, "K5_petersen"),
           (nx.path_graph(6), nx.balanced_tree(2, 3), "path6_tree"), (pet, c2, "petersen_C2"), (nx.complete_graph(5), c23, "K5_C2_2"),
           (nx.star_graph(6), grid4, "star6_grid4"), (nx.disjoint_union(nx.complete_graph(3), nx.cycle_graph(4)), grid4, "K3+C4_grid4")]
    return [(relabel(a), relabel(b), n) for a, b, n in out]
