"""B08: mining clique embeddings, over families, defects, options and earlier contents of the cache; and regularization of every small clique embedding."""
import itertools, random
import vf
LEVEL = "exploration"


def length(e):
    return max([len(c) for c in e.values()], default=0)


def all_embeddings(o, V, n):
    """all tuples of n disjoint connected node sets, pairwise adjacent, up to reordering"""
    import networkx as nx
    sets = []
    for k in range(1, len(V) - n + 2):
        for c in itertools.combinations(V, k):
            if o.chains([c]) is None:
                sets.append((frozenset(c), frozenset().union(*(o.adj[q] for q in c))))

    def rec(i, got):
        if len(got) == n:
            yield tuple(tuple(sorted(s)) for s, _ in got)
            return
        for j in range(i, len(sets)):
            s, b = sets[j]
            if all(not (s & t) and b & t for t, _ in got):
                yield from rec(j + 1, got + [sets[j]])
    yield from rec(0, [])


def run(ctx):
    pkg = vf.pypkg(["_minorminer", "busclique"], opt="-O1")
    vf.use_package(pkg)
    from minorminer import busclique as bc
    from bus import Home, Oracle, bases, damage
    import b01
    import glob, shutil
    import networkx as nx
    q = ctx.quick
    B = bases()
    base = {}
    cases = []
    # ---- mining
    opts = [dict(num_seeds=1, heuristic_runs=1), dict(num_seeds=0, heuristic_runs=1), dict(num_seeds=2, heuristic_runs=0, regularize=False), dict(num_seeds=1, heuristic_runs=2, heuristic_bound=3),
            dict(num_seeds=2, heuristic_runs=1, mask_bound=1, regularize=False), dict(num_seeds=1, heuristic_runs=1, quality_function="big"), dict(num_seeds=0, heuristic_runs=0), dict(num_seeds=1, heuristic_bound=0)]
    names = ["C1,1,2", "C1,1,4", "C1,2,2", "C2,1,2", "C2,2,2", "C2,2,3", "C2,4,2", "Z1,1", "Z1,2", "Z2,1", "P2", "P2f"] + ([] if q else ["C3,3,1", "C2,2,4", "C3,3,3", "Z1,3", "Z1,4", "Z2,2", "P2o3"])
    for b in names:
        for lab in ("int", "coord", "nice"):
            base[b, lab] = b01.relabeled(B, b, lab)
            if base[b, lab] is None:
                continue
            g, m = base[b, lab]
            V, E = sorted(B[b]().nodes()), sorted(B[b]().edges())
            heavy = len(V) > 30
            pats = [((), ())] + [((v,), ()) for v in V[::5 if q else 2]] + [((), (e,)) for e in E[::11 if q else 4]]
            if len(E) > 8:
                pats += [((), tuple(E[::4])), (tuple(V[::7]), tuple(E[1::9]))]
            if heavy or lab != "int":
                pats = pats[:1] + pats[1::4]
            for i, (nds, eds) in enumerate(pats):
                for j, op in enumerate(opts):
                    if heavy and q and (i + j) % 3:
                        continue
                    for before in ("nothing", "plain", "better", "mined", "other"):
                        if before == "nothing" or (i + j + len(before)) % (6 if q else 2) == 0:
                            cases.append(("mine", b, lab, nds, eds, j, before))
    # ---- regularization
    regs = []
    for b in ("C1,1,2", "C1,1,3", "C2,1,1", "C2,2,1", "C1,2,2", "C1,1,4") if q else ("C1,1,2", "C1,1,3", "C2,1,1", "C2,2,1", "C1,2,2", "C2,1,2", "C1,1,4"):
        g = B[b]()
        o = Oracle(g)
        for n in (1, 2, 3, 4):
            L = list(all_embeddings(o, sorted(g.nodes()), n))
            step = max(1, len(L) // (4000 if q else 40000))
            L = L[::step]
            regs += [("reg", b, L[i:i + 400]) for i in range(0, len(L), 400)]
    for name, g in (("grid", nx.grid_2d_graph(3, 3)), ("wheel", nx.wheel_graph(6)), ("prism", nx.circular_ladder_graph(4))):
        o = Oracle(g)
        for n in (2, 3, 4):
            L = list(all_embeddings(o, sorted(g.nodes()), n))
            L = L[::max(1, len(L) // (3000 if q else 40000))]
            regs += [("reg", name, L[i:i + 400]) for i in range(0, len(L), 400)]
    gr = {"grid": nx.grid_2d_graph(3, 3), "wheel": nx.wheel_graph(6), "prism": nx.circular_ladder_graph(4)}
    for b in names:
        if b not in gr:
            gr[b] = B[b]()
    for b in ("C2,1,1", "C2,2,1", "C1,1,3"):
        gr[b] = B[b]()
    home = {}

    def init():
        home["h"] = Home()

    def regular(case, r):
        _, b, L = case
        g = gr[b]
        o = Oracle(g)
        for e in L:
            emb = {("v", i): c for i, c in enumerate(e)}
            vf.note("regularize %r in %s" % (emb, b))
            new = bc._regularize_embedding(g, emb)
            r.count("regularized")
            w = o.clique(new, emb)
            if w:
                r.violation("regularizing %r in %s gives %r: %s" % (emb, b, new, w))
            elif any(not set(emb[k]) <= set(new[k]) for k in emb):
                r.violation("regularizing %r in %s gives %r, which loses nodes" % (emb, b, new))
            elif length(new) > length(emb):
                r.violation("regularizing %r in %s gives %r, which has longer chains" % (emb, b, new))
            r.nontrivial((b, e, new == emb))

    def one(case, r):
        if case[0] == "reg":
            return regular(case, r)
        _, b, lab, nds, eds, j, before = case
        home["h"].wipe()
        g0, m = base[b, lab]
        nds = [m[v] for v in nds if v in m]
        eds = [(m[x], m[y]) for x, y in eds if x in m and y in m and g0.has_edge(m[x], m[y])]
        g = damage(g0, nds, eds)
        o = Oracle(g)
        kw = dict(opts[j])
        where = "%s (%s labels) without %r and %r, mined with %r after %s" % (b, lab, nds, eds, kw, before)
        vf.note(where)
        if kw.get("quality_function"):
            kw["quality_function"] = lambda ch: -sum(map(len, ch))
        random.seed(j)
        args = dict(chainlength_patience=1, max_no_improvement=2, tries=1, inner_rounds=3, random_seed=j + 1)
        plain = {}
        c = bc.busgraph_cache(g)

        def table(c, what):
            out = {}
            N = len(c.largest_clique())
            for n in range(1, N + 2):
                e = c.find_clique_embedding(n)
                r.count("answers")
                w = e and o.clique(e, range(n))
                if w:
                    r.violation("%s: K_%d of %s is %r: %s" % (where, n, what, e, w))
                if e:
                    out[n] = length(e)
                elif n <= N:
                    r.violation("%s: K_%d of %s is missing, but K_%d is there" % (where, n, what, N))
            return out
        bgc = None
        if before == "nothing":
            # what a plain cache would have, computed elsewhere
            t0 = table(c, "the plain cache")
            home["h"].wipe()
        elif before == "plain":
            t0 = table(c, "the plain cache")
        elif before == "better":
            # the user has saved something better for one size (a triangle of single nodes where there is one, else an edge)
            t0 = table(c, "the plain cache")
            tri = next(((x, y, z) for x in g for y in g[x] for z in g[x] if y != z and g.has_edge(y, z)), None) or next(iter(g.edges()), None)
            if tri:
                c.insert_clique_embedding([(v,) for v in tri])
            t0 = table(bc.busgraph_cache(g), "the augmented cache")
        elif before == "other":
            bc.mine_clique_embeddings(damage(g0), num_seeds=1, heuristic_bound=0)
            t0 = table(c, "the plain cache")
        else:
            t0 = table(c, "the plain cache")
            bc.mine_clique_embeddings(g, num_seeds=1, heuristic_bound=4, heuristic_runs=1, heuristic_args=dict(args, random_seed=99))
            t1 = table(bc.busgraph_cache(g), "the mined cache")
            for n in t0:
                if t1.get(n, 1e9) > t0[n]:
                    r.violation("%s: after mining, K_%d has length %r instead of %d" % (where, n, t1.get(n), t0[n]))
            t0 = t1
        nodes, edges = list(g.nodes()), list(g.edges())
        d0 = dict(g.graph)
        bgc = bc.mine_clique_embeddings(g, heuristic_args=args, **kw)
        r.count("mined")
        if (list(g.nodes()), list(g.edges()), dict(g.graph)) != (nodes, edges, d0):
            r.violation("%s: the target graph has been modified" % where)
        t = table(bgc, "the result")
        td = table(bc.busgraph_cache(g), "the cache on disk")
        if t != td:
            r.violation("%s: the result has the lengths %r, but the cache on disk %r" % (where, t, td))
        if "quality_function" not in kw:
            for n in t0:
                if t.get(n, 1e9) > t0[n]:
                    r.violation("%s: K_%d has length %r instead of %d before" % (where, n, t.get(n), t0[n]))
                    break
        elif set(t0) - set(t):
            r.violation("%s: sizes %r are lost" % (where, sorted(set(t0) - set(t))))
        r.nontrivial((b, lab, tuple(nds), tuple(eds), j, before, tuple(t.items())))
        if not r.samples and before == "mined":
            r.sample(where)
    mine = set(glob.glob("/dev/shm/vf_home_%d_*" % vf.MAIN))
    cases.sort(key=lambda c: -len(gr[c[1]]))
    try:
        vf.run_cases(ctx, cases + regs, one, cpu_limit=60, wall_limit=150, init=init)
    finally:
        for x in set(glob.glob("/dev/shm/vf_home_%d_*" % vf.MAIN)) - mine:
            shutil.rmtree(x, ignore_errors=True)
    c = ctx.coverage
    c["evaluations"] = ctx.counters.get("mined", 0) + ctx.counters.get("regularized", 0)
    c["distinct_nontrivial"] = len(ctx.distinct)
    c["rule"] = "one evaluation is one mining call or one regularization, judged by an independent oracle; distinct = distinct (input, options, history, outcome)"
    ctx.assumptions += ["targets up to the listed sizes; the random draws of the heuristic and polynomial methods are those of fixed seeds"]
