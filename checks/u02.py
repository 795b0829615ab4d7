"""U02: the feasibility filters on every pair of small graphs of which one is a minor (or a subgraph) of the other, and on sources with known places in lattices."""
import itertools, os, pickle, signal
import vf
LEVEL = "exploration"


class Table:
    """all graphs on n nodes up to isomorphism; canonical forms of all labelled ones"""
    def __init__(self, n):
        import numpy as np
        self.n = n
        self.P = list(itertools.combinations(range(n), 2))
        self.idx = {p: i for i, p in enumerate(self.P)}
        N = 1 << len(self.P)
        a = np.arange(N, dtype=np.uint32)
        gens = []
        if n >= 2:
            for perm in ([1, 0] + list(range(2, n)), list(range(1, n)) + [0]):
                g = np.zeros(N, dtype=np.uint32)
                for (u, v), i in self.idx.items():
                    x, y = sorted((perm[u], perm[v]))
                    g |= ((a >> i) & 1) << self.idx[x, y]
                gens.append(g)
        c = a.copy()
        while True:
            d = c
            for g in gens:
                d = np.minimum(d, d[g])
            if (d == c).all():
                break
            c = d
        self.canon = c
        self.reps = [int(x) for x in np.unique(c)]

    def edges(self, m):
        return [self.P[i] for i in range(len(self.P)) if m >> i & 1]

    def mask(self, E):
        m = 0
        for a, b in E:
            if a != b:
                m |= 1 << self.idx[min(a, b), max(a, b)]
        return m


def relations(N):
    """{(n, rep)}: set of its minors and of its subgraphs, as (n, rep)"""
    tab = {n: Table(n) for n in range(N + 1)}
    minors, subs = {}, {}
    for n in range(N + 1):
        t = tab[n]
        for m in sorted(t.reps, key=lambda x: bin(x).count("1")):
            E = t.edges(m)
            down_m, down_s = {(n, m)}, {(n, m)}
            kids_s = {(n, int(t.canon[m & ~(1 << t.idx[e])])) for e in E}
            kids_m = set()
            if n:
                s = tab[n - 1]
                deg = [sum(v in e for e in E) for v in range(n)]
                for v in range(n):
                    if deg[v] == 0:
                        f = lambda x: x - (x > v)
                        kids_s.add((n - 1, int(s.canon[s.mask([(f(a), f(b)) for a, b in E])])))
                        break
                for u, v in E:      # contract v into u
                    f = lambda x: (u if x == v else x) - ((u if x == v else x) > v)
                    kids_m.add((n - 1, int(s.canon[s.mask([(f(a), f(b)) for a, b in E])])))
            for k in kids_s:
                down_s |= subs[k]
                down_m |= minors[k]
            for k in kids_m:
                down_m |= minors[k]
            minors[n, m], subs[n, m] = down_m, down_s
    return tab, minors, subs


def blowups(nx, S, steps, maxn, coarse=False):
    """every graph of which S is a minor by at most so many splits of a node, up to the isomorphism invariants used; yields graphs"""
    seen = set()
    level = [S]
    for _ in range(steps):
        nxt = []
        for G in level:
            if len(G) >= maxn:
                continue
            new = max(G, default=-1) + 1
            for v in G:
                N = sorted(G[v])
                for k in range(len(N) + 1):
                    for mv in itertools.combinations(N, k):
                        H = G.copy()
                        H.remove_edges_from((v, x) for x in mv)
                        H.add_edges_from((new, x) for x in mv)
                        H.add_edge(v, new)
                        key = tuple(sorted(d for _, d in H.degree()))
                        key = key if coarse else (key, nx.weisfeiler_lehman_graph_hash(H, iterations=2))
                        if key not in seen:
                            seen.add(key)
                            nxt.append(H)
                            yield H
        level = nxt


def lattice_cases(ctx, q):
    """(name, family, t, size, source, one_to_one): sources known to embed in the square lattice of that size"""
    out = []
    small = [("chimera", t, m) for t in (1, 2, 4) for m in (1, 2, 3)] + [("zephyr", t, m) for t in (1, 2, 4) for m in (1, 2)] + [("pegasus", None, m) for m in (2, 3)]
    if not q:
        small += [("chimera", t, m) for t in (1, 2, 3, 4, 8) for m in (4, 5)] + [("zephyr", t, 3) for t in (1, 2, 4)] + [("pegasus", None, m) for m in (4, 5)]
    for fam, t, m in small:
        out.append((fam, t, m))
    return out


def run(ctx):
    import pure
    pure.use()
    import networkx as nx, numpy as np, warnings
    warnings.simplefilter("ignore")
    import dwave.graphs as dw
    from minorminer.utils import feasibility as fe
    q = ctx.quick
    N = 6 if q else 7
    tab, minors, subs = relations(N)
    keys = sorted(minors)

    def graph(k, rev=False):
        n, m = k
        G = nx.Graph()
        G.add_nodes_from(range(n) if not rev else range(n - 1, -1, -1))
        G.add_edges_from(tab[n].edges(m))
        return G
    G = {k: graph(k) for k in keys}
    make = {"chimera": lambda m, t: dw.chimera_graph(m, t=t), "zephyr": lambda m, t: dw.zephyr_graph(m, t=t), "pegasus": lambda m, t: dw.pegasus_graph(m)}
    PARTS = 64
    cases = [("pairs", p) for p in range(PARTS)]
    base = [k for k in keys if k[0] <= (5 if q else 6)]
    cases += [("split", k) for k in base if k[0] >= 2]
    special = {"star %d" % d: nx.star_graph(d) for d in range(4, 9 if q else 11)}
    special.update({"K%d" % n: nx.complete_graph(n) for n in range(5, 8 if q else 10)})
    special.update({"wheel %d" % n: nx.wheel_graph(n) for n in range(6, 8 if q else 10)})
    special.update({"two stars %d %d" % (a, b): nx.convert_node_labels_to_integers(nx.disjoint_union(nx.star_graph(a), nx.star_graph(b))) for a in (3, 4, 5) for b in (4, 5, 6) if a <= b})
    special.update({"K%d,%d" % (a, b): nx.complete_bipartite_graph(a, b) for a in (2, 3) for b in (4, 5, 6)})
    cases += [("special", k) for k in special]
    lat = lattice_cases(ctx, q)
    cases += [("subgraphs", x, p) for x in lat for p in range(4)] + [("minors", x, p) for x in lat for p in range(4)]
    cases += [("infeasible", x) for x in [("chimera", t) for t in (1, 2, 4)] + [("zephyr", t) for t in (1, 2, 4)] + [("pegasus", None)]]

    class Late(Exception):
        pass

    def late(*a):
        raise Late()

    def filt(S, T, one, r, name, must, info):
        vf.note("embedding_feasibility_filter(%s, one_to_one=%r)" % (name, one))
        try:
            v = fe.embedding_feasibility_filter(S, T, one_to_one=one)
        except Exception as e:
            r.violation("embedding_feasibility_filter(%s, one_to_one=%r) raises %r" % (name, one, e), info)
            return
        r.count("filter calls")
        if must and not v:
            r.violation("embedding_feasibility_filter(%s, one_to_one=%r) is %r but the source is a %s of the target" % (name, one, v, "subgraph" if one else "minor"), info)

    def bound(S, r, name, size, info, **kw):
        where = "lattice_size_lower_bound(%s, %s)" % (name, ", ".join("%s=%s" % (k, v if not isinstance(v, nx.Graph) else "lattice of %d nodes" % len(v)) for k, v in kw.items()))
        vf.note(where)
        signal.signal(signal.SIGALRM, late)
        signal.alarm(20)
        try:
            v = fe.lattice_size_lower_bound(S, **kw)
        except Late:
            r.violation("%s does not return" % where, info)
            return
        except Exception as e:
            signal.alarm(0)
            r.violation("%s raises %r" % (where, e), info)
            return
        finally:
            signal.alarm(0)
        r.count("bounds")
        if size is not None and (v is None or v > size):
            r.violation("%s is %r but the source embeds in the lattice of size %d" % (where, v, size), info)
        return v

    def one(case, r):
        kind = case[0]
        if kind == "pairs":
            for i, kT in enumerate(keys):
                if i % PARTS != case[1]:
                    continue
                T = G[kT]
                for kS in keys:
                    S = G[kS]
                    info = dict(S=(kS[0], list(S.edges)), T=(kT[0], list(T.edges)))
                    name = "S=%d nodes %r, T=%d nodes %r" % (kS[0], list(S.edges), kT[0], list(T.edges))
                    m, s = kS in minors[kT], kS in subs[kT]
                    filt(S, T, False, r, name, m, info)
                    filt(S, T, True, r, name, s, info)
                    r.count("pairs")
                    if m and kS != kT:
                        r.nontrivial((kS, kT))
                    if len(r.violations) > 2:
                        return
            return
        if kind == "split":
            S = G[case[1]]
            k = case[1]
            for T in blowups(nx, S, 3 if q else 4, 9):
                name = "S=%d nodes %r, T=%d nodes %r" % (k[0], list(S.edges), len(T), list(T.edges))
                filt(S, T, False, r, name, True, dict(S=list(S.edges), T=list(T.edges)))
                r.count("splits")
                r.nontrivial((k, tuple(sorted(T.edges))))
                if len(r.violations) > 2:
                    return
            return
        if kind == "special":
            S = special[case[1]]
            for T in blowups(nx, S, 4 if q else 6, len(S) + 6, True):
                filt(S, T, False, r, "S=%s, T=%d nodes %r" % (case[1], len(T), list(T.edges)), True, dict(S=case[1], T=list(T.edges)))
                r.count("splits")
                r.nontrivial((case[1], tuple(sorted(d for _, d in T.degree))))
                if len(r.violations) > 2:
                    return
            return
        if kind == "infeasible":
            # must return, whatever the source; a star with more leaves than the largest degree is not a subgraph of any lattice
            fam, t = case[1]
            big = make[fam](4, t)
            D = max(d for _, d in big.degree)
            for d in range(0, D + 12):
                S = nx.star_graph(d)
                v = bound(S, r, "star with %d leaves" % d, 4 if d <= D else None, dict(leaves=d), topology=fam, one_to_one=True, **({} if t is None else dict(t=t)))
                if d > D and v is not None and not r.violations:
                    r.count("loose")
                # as a minor it is always there: a long enough line of nodes
                n = 2
                while n < 12 and d > 2 * n * (n - 1):
                    n += 1
                bound(S, r, "star with %d leaves" % d, n + 2, dict(leaves=d), topology=fam, one_to_one=False, **({} if t is None else dict(t=t)))
                if len(r.violations) > 2:
                    return
            return
        fam, t, m = case[1]
        L = make[fam](m, t)
        part = case[2]
        big = [make[fam](m + 1, t)]
        tk = {} if t is None else dict(t=t)

        def ask(S, name, one):
            info = dict(lattice=case[1], nodes=len(S), edges=S.number_of_edges(), one_to_one=one)
            v = bound(S, r, name, m, info, topology=fam, one_to_one=one, **tk)
            bound(S, r, name, m, info, T=L, one_to_one=one)
            bound(S, r, name, m, info, T=big[0], one_to_one=one)
            bound(S, r, name, m, info, T=big[0], one_to_one=one, topology=fam, **tk) if t is not None else None
            filt(S, L, one, r, "%s, %s lattice %r" % (name, fam, (m, t)), True, info)
            r.nontrivial((case[1], name, one))
            if not r.samples:
                r.sample("%s in the %s lattice %r: bound %r" % (name, fam, (m, t), v))
        nodes = sorted(L)
        if kind == "subgraphs":
            # the lattice, without each node, each edge (stride), pairs of nodes, halves; paths; neighbourhoods
            subs_ = [("all of it", L.copy()), ("nothing", nx.Graph()), ("one node", nx.empty_graph(1))]
            step = max(1, len(nodes) // (40 if q else 200))
            for i in range(0, len(nodes), step):
                H = L.copy(); H.remove_node(nodes[i]); subs_.append(("without node %r" % nodes[i], H))
                H = L.subgraph(nodes[:i + 1]).copy(); subs_.append(("the first %d nodes" % (i + 1), H))
                H = L.subgraph([nodes[i], *L[nodes[i]]]).copy(); subs_.append(("neighbourhood of %r" % nodes[i], H))
                H = nx.Graph([(nodes[i], x) for x in L[nodes[i]]]); subs_.append(("star at %r" % nodes[i], H))
            ed = sorted(L.edges)
            for i in range(0, len(ed), max(1, len(ed) // 40)):
                H = L.copy(); H.remove_edge(*ed[i]); subs_.append(("without edge %r" % (ed[i],), H))
            subs_.append(("no edges", nx.empty_graph(len(L))))
            subs_.append(("spanning forest", nx.Graph(nx.minimum_spanning_tree(L))))
            subs_.append(("matching", nx.Graph(list(nx.maximal_matching(L)))))
            for j, (name, H) in enumerate(subs_):
                if j % 4 == part:
                    for oto in (True, False):
                        ask(H, name, oto)
                    if len(r.violations) > 2:
                        return
            return
        # minors: everything obtained from the lattice by contracting sets of edges given by short descriptions
        out = []
        w = dict(chimera=m * (t or 4) + 1, zephyr=4 * (t or 4) * m, pegasus=12 * (m - 1))[fam]
        # contract each maximal line of the lattice into a node: the intersection graph of its lines
        out += contractions(nx, L, fam, m, t)
        for j, (name, H) in enumerate(out):
            if j % 4 == part:
                ask(H, name, False)
                if len(r.violations) > 2:
                    return

    vf.run_cases(ctx, cases, one, cpu_limit=30 if q else 400, wall_limit=80 if q else 900, describe=lambda c: repr(c))
    c = ctx.coverage
    c["evaluations"] = ctx.counters.get("filter calls", 0) + ctx.counters.get("bounds", 0)
    c["distinct_nontrivial"] = len(ctx.distinct)
    c["rule"] = "a pair of graphs, filtered both ways, or a source and a lattice; distinct: pairs of non-isomorphic graphs with an embedding"
    c["exhaustive"] = True
    ctx.assumptions += ["all pairs of graphs of up to %d nodes; embeddability decided by closure under deletions and contractions" % N, "lattice sources are contractions and subgraphs of the lattice, so embeddability needs no search"]


def contractions(nx, L, fam, m, t):
    """graphs obtained by contracting connected sets: every set of short chains along the lattice's own structure"""
    out = []
    nodes = sorted(L)

    def contract(groups, name):
        rep = {}
        for g in groups:
            for v in g:
                rep[v] = g[0]
        H = nx.Graph()
        H.add_nodes_from(rep.get(v, v) for v in nodes)
        H.add_edges_from((rep.get(a, a), rep.get(b, b)) for a, b in L.edges if rep.get(a, a) != rep.get(b, b))
        out.append((name, H))
        return H
    # one group: balls of growing size around each of some nodes
    for v in nodes[::max(1, len(nodes) // 12)]:
        order = [v] + [b for a, b in nx.bfs_edges(L, v)]
        for k in sorted({2, 3, 4, 6, 9, len(order) // 4, len(order) // 2, len(order) - 2, len(order)}):
            if 2 <= k <= len(order):
                H = contract([order[:k]], "the first %d nodes from %r contracted" % (k, v))
                # and only the star that this makes
                out.append(("star of the first %d nodes from %r contracted" % (k, v), nx.Graph([(v, x) for x in H[v]])))
    # perfect or maximal matchings contracted
    M = sorted(nx.maximal_matching(L))
    for k in sorted({1, 2, len(M) // 3, len(M) // 2, len(M)}):
        if k:
            H = contract([list(e) for e in M[:k]], "%d matched pairs contracted" % k)
    # greedy paths contracted, all the same length
    for n in (3, 4, 5):
        used, groups = set(), []
        for v in nodes:
            if v in used:
                continue
            p = [v]
            while len(p) < n:
                nb = [x for x in sorted(L[p[-1]]) if x not in used and x not in p]
                if not nb:
                    break
                p.append(nb[0])
            if len(p) == n:
                used |= set(p)
                groups.append(p)
        contract(groups, "paths of %d nodes contracted" % n)
        H = contract(groups[:len(groups) // 2], "half of the paths of %d nodes contracted" % n)
    # complete graphs by greedy contraction
    H = nx.Graph(L)
    while True:
        H = nx.Graph(H)
        n = len(H)
        if n < 2 or H.number_of_edges() == n * (n - 1) // 2:
            break
        v = min(H, key=lambda x: (H.degree[x], x))
        if not H.degree[v]:
            H.remove_node(v)
            continue
        w = min(H[v], key=lambda x: (len(set(H[x]) & set(H[v])), x))
        H.add_edges_from((w, x) for x in H[v] if x != w)
        H.remove_node(v)
        if n % 5 == 0 or n < 14:
            out.append(("greedy contraction to %d nodes" % len(H), nx.Graph(H)))
    out.append(("greedy clique of %d nodes" % len(H), nx.Graph(H)))
    for name, S in list(out)[::3]:
        out.append((name + ", spanning tree", nx.minimum_spanning_tree(S)))
    return out
