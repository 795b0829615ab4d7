"""B01: clique embeddings of the real busclique extension on every yield pattern of small targets (and B02 on the same runs)."""
import itertools
import vf
LEVEL = "exploration"


def groups(q, ctx):
    from bus import patterns, bases
    import dwave.graphs as dg
    B = bases()
    G = []

    def add(name, pats, labs=("int",), seeds=(0,)):
        G.append((name, pats, labs, seeds))

    def nodes_all(g):
        V = sorted(g.nodes())
        return [(c, ()) for k in range(len(V) + 1) for c in itertools.combinations(V, k)]

    def edges_all(g, stride=1):
        E = sorted(g.edges())
        return [((), tuple(E[i] for i in range(len(E)) if m >> i & 1)) for m in range(0, 2 ** len(E), stride)]
    for b in ("C1,1,1", "C1,1,2", "C1,1,3", "C1,1,4", "C1,2,1", "C2,1,1", "C2,2,1", "C1,2,2", "C2,1,2"):
        add(b, nodes_all(B[b]()), ("int", "coord"))
    add("C3,3,1", nodes_all(B["C3,3,1"]())[::9 if q else 1])
    for b in ("Z1,1", "C2,3,1", "C3,2,1", "C1,3,2"):
        add(b, nodes_all(B[b]()))
    for b in ("C1,1,2", "C1,1,3", "C2,2,1", "C1,2,2", "C2,1,2"):
        add(b, edges_all(B[b]()), seeds=(0, 1))
    add("C1,1,4", edges_all(B["C1,1,4"](), 13 if q else 1))
    add("Z1,1", edges_all(B["Z1,1"](), 1023 if q else 31))
    s = 2 if q else 1
    for b in ("C2,2,2", "C2,2,3", "Z1,2", "Z1,1", "P2"):
        g = B[b]()
        add(b, patterns(g, 2, 2, stride=s if g.number_of_edges() < 60 else 10 * s, both=True), ("int", "coord", "nice"))
    for b in ("C3,3,2", "C2,2,4", "Z2,1", "Z2,2", "Z1,3", "Z1,4", "P2f", "C2,4,2", "C1,1,8", "C3,3,3", "P3"):
        g = B[b]()
        add(b, patterns(g, 1, 1, stride=max(1, g.number_of_edges() // (160 if q else 2000))), ("int", "coord", "nice"), (0, 7))
    for i in range(8):
        g = B["P2o%d" % i]()
        add("P2o%d" % i, patterns(g, 1, 1, stride=20 if q else 1), ("int", "coord"))
    for b in B:
        add(b, [((), ())], ("int", "coord", "nice"))
    # dense groups of missing couplers inside one cell: more of them than are enumerated exactly
    for b in ("C2,2,2", "C2,2,3", "C2,2,4"):
        g = B[b]()
        t = int(b[-1])
        E = [e for e in sorted(g.edges()) if e[0] // t % 2 != e[1] // t % 2]
        cs = list(itertools.combinations(range(len(E)), 7 if t == 2 else 2))
        add(b, [((), tuple(E[i] for i in c)) if t == 2 else ((), tuple(E[i] for i in range(c[0], len(E), c[1] - c[0] + 1))) for c in cs[::(40 if t == 2 else 7) if q else 4]], seeds=(0, 1, 2))
    return B, G


def relabeled(B, name, lab):
    """(graph, int label -> label) or None"""
    import networkx as nx
    import dwave.graphs as dg
    g = B[name]()
    f = g.graph["family"]
    if lab == "int":
        return g, {v: v for v in g}
    if lab == "coord":
        h = B[name](coordinates=True)
        if f == "chimera":
            c = dg.chimera_coordinates(g.graph["rows"], g.graph["columns"], g.graph["tile"]).linear_to_chimera
        elif f == "zephyr":
            c = dg.zephyr_coordinates(g.graph["rows"], g.graph["tile"]).linear_to_zephyr
        else:
            c = dg.pegasus_coordinates(g.graph["rows"]).linear_to_pegasus
    else:
        if f != "pegasus" or name == "P2f" or "o" in name:
            return None
        h = B[name](nice_coordinates=True)
        c = dg.pegasus_coordinates(g.graph["rows"]).linear_to_nice
    m = {}
    for v in g:
        x = c(v)
        if x in h:
            m[v] = x
    assert len(m) == len(h)
    return h, m


def guaranteed(g):
    """(size, chain length) of the native clique of a perfect graph"""
    d = g.graph
    if d["family"] == "chimera":
        m = min(d["rows"], d["columns"])
        return d["tile"] * m, m + 1
    if d["family"] == "zephyr":
        return 4 * d["tile"] * d["rows"] - 2 * d["tile"], None
    return (12 * (d["rows"] - 1) if d["rows"] != 2 else 10), None


def chunk(cases, n):
    return [cases[i:i + n] for i in range(0, len(cases), n)]


def judge(g, bc, o, where, case, r, mode):
    name, lab, seed, nds, eds = case
    un, ca = {}, {}
    c = bc.busgraph_cache(g, seed=seed)
    top = c.largest_clique()
    N = len(top)

    def check(emb, labels, what):
        labels = list(labels)
        r.count("answers")
        if not emb and labels:
            return
        f = o.clique(emb, labels)
        if f:
            r.violation("%s: %s gives %r: %s" % (where, what, emb, f))
    lim = N + 3
    if mode == "B01":
        for n in range(lim):
            un[n] = bc.find_clique_embedding(n, g, seed=seed, use_cache=False)
            check(un[n], range(n), "find_clique_embedding(%d, use_cache=False)" % n)
            ca[n] = c.find_clique_embedding(n)
            check(ca[n], range(n), "busgraph_cache.find_clique_embedding(%d)" % n)
            if n in (1, 2, 4, N):
                L = [("x", i) if i % 2 else -i for i in range(n)]
                check(c.find_clique_embedding(iter(L)), L, "busgraph_cache.find_clique_embedding(%r)" % L)
                check(bc.find_clique_embedding(L, g, seed=seed, use_cache=False), L, "uncached find_clique_embedding(%r)" % L)
                check(bc.find_clique_embedding(set(L), g, seed=seed), L, "cached find_clique_embedding(%r)" % L)
        # an unseeded request is one of the possible ones; it must be valid as well
        for n in (3, N):
            check(bc.find_clique_embedding(n, g, use_cache=False), range(n), "unseeded find_clique_embedding(%d)" % n)
        check(top, range(N), "largest_clique()")
        for cl in range(-1, 3 + max([len(x) for x in top.values()], default=0)):
            e = c.largest_clique_by_chainlength(cl)
            check(e, range(len(e)), "largest_clique_by_chainlength(%d)" % cl)
        r.nontrivial((name, lab, tuple(nds), tuple(eds), N))
    else:
        ok = o.clique(top, range(N)) is None
        L = {}
        prev = 0
        for n in range(lim):
            e = c.find_clique_embedding(n)
            r.count("answers")
            if bool(e) != (0 < n <= N):
                r.violation("%s: the largest clique has %d nodes but a request for %d gives %r" % (where, N, n, e))
            if len(e) not in (0, n):
                r.violation("%s: a request for %d gives %d chains" % (where, n, len(e)))
            l = max([len(x) for x in e.values()], default=0)
            if e:
                L[n] = l
                if l < prev:
                    r.violation("%s: %d nodes need length %d but %d nodes only %d" % (where, n - 1, prev, n, l))
                prev = l
        mx = max(L.values(), default=0)
        for cl in range(-1, mx + 3):
            e = c.largest_clique_by_chainlength(cl)
            r.count("answers")
            l = max([len(x) for x in e.values()], default=0)
            best = max([n for n in L if L[n] <= cl], default=0)
            if e and o.clique(e, range(len(e))):
                r.violation("%s: largest_clique_by_chainlength(%d) gives %r: %s" % (where, cl, e, o.clique(e, range(len(e)))))
            if l > max(cl, 0):
                r.violation("%s: largest_clique_by_chainlength(%d) has a chain of length %d" % (where, cl, l))
            if len(e) < best:
                r.violation("%s: largest_clique_by_chainlength(%d) has %d chains, but size %d is known with length %d" % (where, cl, len(e), best, L[best]))
        # cliques that lie in the graph as they are
        if g.number_of_nodes() and N < 1 or g.number_of_edges() and N < 2:
            r.violation("%s: largest clique of size %d" % (where, N))
        if not nds and not eds and "o" not in name:
            n, l = guaranteed(g)
            if lab == "nice":
                n = 0
            if N < n or (l and n > 2 and n > g.graph.get("tile", 0) and L[n] > l):
                r.violation("%s: sizes up to %d (length %s), but the native clique has %d nodes of length %s" % (where, N, L.get(n), n, l))
        r.nontrivial((name, lab, tuple(nds), tuple(eds), tuple(L.items())))
    if not r.samples and N > 4 and (nds or eds):
        r.sample("%s: cliques up to %d" % (where, N))


def explore(ctx, judge, every=1):
    """calls judge(g, bc, o, where, case, r) for every target graph; case = (name, labels, seed, missing nodes, missing couplers)"""
    pkg = vf.pypkg(["busclique"], opt="-O1", flags=["-D_GLIBCXX_ASSERTIONS"])
    vf.use_package(pkg)
    import networkx as nx
    from bus import damage, Oracle, Home
    from minorminer import busclique as bc
    q = ctx.quick
    B, G = groups(q, ctx)
    base = {}
    cases = []
    for name, pats, labs, seeds in G:
        for lab in labs:
            if (name, lab) not in base:
                base[name, lab] = relabeled(B, name, lab)
            if base[name, lab] is None:
                continue
            ps = pats if lab == "int" else pats[::3] if len(pats) > 20 else pats
            ps = ps[:1] + ps[1::every]
            for seed in seeds:
                for ch in chunk(ps, 60 if len(base[name, lab][0]) < 60 else 8):
                    cases.append((name, lab, seed, ch))
    home = {}

    def init():
        home["h"] = Home()
        ctx_homes.append(home["h"].dir)
    ctx_homes = []

    def one(case, r):
        name, lab, seed, pats = case
        g0, m = base[name, lab]
        h = home["h"]
        h.wipe()
        for nds, eds in pats:
            nds = [m[v] for v in nds if v in m]
            eds = [(m[a], m[b]) for a, b in eds if a in m and b in m and g0.has_edge(m[a], m[b])]
            g = damage(g0, nds, eds)
            where = "%s (%s labels, seed %d) without nodes %r and couplers %r" % (name, lab, seed, nds, eds)
            vf.note(where)
            r.count("graphs")
            judge(g, bc, Oracle(g), where, (name, lab, seed, nds, eds), r)
            if r.violations:
                return

    import shutil, os, glob, tempfile
    mine = set(glob.glob("/dev/shm/vf_home_%d_*" % vf.MAIN))
    try:
        vf.run_cases(ctx, cases, one, cpu_limit=40, wall_limit=120, init=init, describe=lambda c: repr((c[0], c[1], c[2], c[3][0])))
    finally:
        for x in set(glob.glob("/dev/shm/vf_home_%d_*" % vf.MAIN)) - mine:
            shutil.rmtree(x, ignore_errors=True)
    c = ctx.coverage
    c["evaluations"] = ctx.counters.get("answers", 0)
    c["distinct_nontrivial"] = len(ctx.distinct)
    c["rule"] = "one evaluation is one answer of the extension judged by an independent oracle; distinct = distinct (target, labels, defects, outcome)"
    ctx.assumptions += ["targets up to the listed sizes"]


def run(ctx, mode="B01"):
    explore(ctx, lambda *a: judge(*a, mode))
