"""L03: layout-guided search over every small source and target with every kind of layout, placement and hint."""
import itertools, time
import vf
LEVEL = "exploration"


def run(ctx):
    pkg = vf.pypkg(["_minorminer", "rpack"], opt="-O1 -DNDEBUG", hook=True)
    vf.use_package(pkg)
    import warnings
    warnings.simplefilter("ignore")
    import os
    os.environ["OPENBLAS_NUM_THREADS"] = os.environ["OMP_NUM_THREADS"] = "1"
    import numpy as np
    import networkx as nx
    import dwave.graphs as dg
    import minorminer
    import minorminer.layout as mml
    import pyo
    from problems import atlas
    q = ctx.quick
    np.seterr(all="ignore")
    base = dict(tries=2, max_no_improvement=3, chainlength_patience=2)
    names = ["b", ("t", 0), "a", 3, 2.5, "zz", frozenset([1])]

    def relab(G, how):
        if how == 0:
            return G
        if how == 1:
            return nx.relabel_nodes(G, {v: "%c" % (ord("k") - i) for i, v in enumerate(G)})
        return nx.relabel_nodes(G, {v: names[i] for i, v in enumerate(G)})
    pairs = []
    for S in atlas(1, 3):
        for T in atlas(2, 4):
            pairs.append((S, T, "small"))
    for i, S in enumerate(atlas(4, 4)):
        for T in atlas(4, 5, True)[i % 3::3]:
            pairs.append((S, T, "medium"))
    lats = [("C1", dg.chimera_graph(1)), ("C2", dg.chimera_graph(2)), ("C2t1", dg.chimera_graph(2, t=1)), ("C12", dg.chimera_graph(1, 2)), ("C2c", dg.chimera_graph(2, coordinates=True)),
            ("P2", dg.pegasus_graph(2)), ("P2n", dg.pegasus_graph(2, nice_coordinates=True)), ("Z1", dg.zephyr_graph(1)), ("Z1c", dg.zephyr_graph(1, coordinates=True)), ("Z1t1", dg.zephyr_graph(1, 1))]
    broken = dg.chimera_graph(2); broken.remove_nodes_from([0, 5, 17, 18]); lats.append(("C2 with defects", broken))
    brokenp = dg.pegasus_graph(2); brokenp.remove_nodes_from(list(brokenp)[::7]); lats.append(("P2 with defects", brokenp))
    srcs = [nx.empty_graph(0), nx.empty_graph(1), nx.path_graph(2), nx.cycle_graph(5), nx.complete_graph(4), nx.disjoint_union(nx.cycle_graph(3), nx.path_graph(2)), nx.star_graph(5), nx.complete_bipartite_graph(2, 3)]
    for n, T in lats:
        for S in srcs:
            pairs.append((S, T, n))
    step = 5 if q else 1
    cases = [(S, T, n) for i, (S, T, n) in enumerate(pairs) if n not in ("small", "medium") or i % step == ctx.seed % step]

    def circ(G, **k):       # the layout functions of networkx take no other keywords
        return nx.circular_layout(G, **{a: b for a, b in k.items() if a in ("dim", "center", "scale")})

    def points(G, k, dim=2):
        return {v: np.array([((i * (k + 2)) % 5) - 1.0, (i * i + k) % 3, i][:dim], dtype=float) for i, v in enumerate(G)}

    def same_layout(a, b):
        return set(a) == set(b) and all(np.allclose(np.asarray(a[v], float), np.asarray(b[v], float), atol=1e-9) for v in a)

    def one(case, r):
        S0, T0, name = case
        lattice = "family" in T0.graph
        for how in ((0, 1, 2) if not lattice and max(len(S0), len(T0)) <= 7 else (0,)):
            S, T = relab(S0, how), T0 if lattice else relab(T0, how)
            sa, ta = pyo.adj_of(S), pyo.adj_of(T)
            # (layout parameter, what the layout of T must be or None)
            lays = [("default", None, None), ("circular", circ, None if lattice else circ), ("p_norm,p_norm", (mml.p_norm, mml.p_norm), mml.p_norm),
                    ("dicts", (points(S, 0), points(T, 1)), points(T, 1)), ("Layouts", (mml.Layout(S, points(S, 2)), mml.Layout(T, points(T, 0))), points(T, 0)),
                    ("list of function and dict", [circ, points(T, 2)], points(T, 2)), ("Layout and function", (mml.Layout(S, points(S, 1)), circ), circ),
                    ("3d dicts", (points(S, 0, 3), points(T, 1, 3)), points(T, 1, 3))]
            if lattice:
                lays.append(("p_norm and graph_layout", (mml.p_norm, mml.graph_layout), mml.graph_layout))
            plac = [("closest", mml.closest, {}), ("closest 1-2", mml.closest, dict(subset_size=(1, 2))), ("closest 2-2 of 3", mml.closest, dict(subset_size=(2, 2), num_neighbors=3)),
                    ("dict", {v: [t] for v, t in zip(S, itertools.cycle(T))}, {}), ("partial dict", {v: [t] for v, t in list(zip(S, T))[:1]}, {}),
                    ("function", lambda s, t, **k: {v: sorted(t.G, key=lambda x: abs(hash(repr((v, x))) % 97))[:2] for v in s.G}, {}), ("scaled", mml.closest, dict(scale_ratio=0.5))]
            plac.append(("Placement", mml.Placement(mml.Layout(S, points(S, 1)), mml.Layout(T, points(T, 2))), {}))
            if lattice:
                plac.append(("intersection", mml.intersection, {}))
            for li, (ln, lay, tl) in enumerate(lays):
                for pi, (pn, pl, pkw) in enumerate(plac):
                    if pn == "intersection" and ln == "3d dicts":
                        continue
                    if q and how and (li + pi) % 3:
                        continue
                    for hint in ("initial_chains", "suspend_chains"):
                        for form in ((0, 1) if (li, pi) in ((0, 0), (1, 0), (3, 3)) and not lattice and S.number_of_edges() and T.number_of_edges()
                                     and not list(nx.isolates(S)) and not list(nx.isolates(T)) else (0,)):
                            check(r, S, T, sa, ta, ln, lay, tl, pn, pl, pkw, hint, form, dict(S=sorted(map(repr, S.edges())), nS=len(S), T=name if lattice else sorted(map(repr, T.edges())), nT=len(T)))
                            if len(r.violations) > 2:
                                return
        # the keywords of the layout, refusals, and a timeout
        if len(S0) and len(T0) > 1:
            S, T = S0, T0
            for kw in (dict(dim=2, center=(3, 4), scale=2.0), dict(center=(1, 2)), dict(scale=0.5), dict(dim=3), dict(center=(1, 2, 3))):
                np.random.seed(0)
                r.count("searches")
                try:
                    e, (a, b) = mml.find_embedding(S, T, return_layouts=True, random_seed=1, **kw, **base)
                except Exception as x:
                    if acceptable(x, T):
                        continue
                    r.violation("find_embedding(%r) raises %r: S=%r T=%s" % (kw, x, list(S.edges()), name), dict(kw=kw))
                    continue
                f = pyo.flaw(e, pyo.adj_of(S), pyo.adj_of(T)) if e else None
                for L, G in ((a, S), (b, T)):
                    arr = np.array([L[v] for v in G], dtype=float)
                    lo, hi = arr.min(axis=0), arr.max(axis=0)
                    dim = kw.get("dim") or len(kw.get("center", (0, 0)))
                    if arr.shape[1] != dim or not np.isfinite(arr).all():
                        f = f or "the layout has the shape %r" % (arr.shape,)
                    elif "center" in kw and not np.allclose((lo + hi) / 2, kw["center"], atol=1e-6):
                        f = f or "the layout is centered at %r" % ((lo + hi) / 2,)
                    elif "scale" in kw and (hi - lo).max() > 1e-6 and not np.isclose((hi - lo).max() / 2, kw["scale"], atol=1e-6):
                        f = f or "the layout has the scale %r" % ((hi - lo).max() / 2)
                if f:
                    r.violation("find_embedding(%r): %s: S=%r T=%s" % (kw, f, list(S.edges()), name), dict(kw=kw))
            for bad, e in ((dict(mm_hint_type="other"), ValueError), (dict(layout=(1, 2, 3)), ValueError), (dict(timeout=0), TimeoutError)):
                try:
                    mml.find_embedding(S, T, **bad)
                    r.violation("find_embedding(%r) did not raise %s" % (bad, e.__name__), dict(kw=repr(bad)))
                except e:
                    pass
            # the timeout covers the layouts and the placement: it is raised when they alone take longer, and not before it is over
            def slow(S_layout, T_layout):
                time.sleep(0.06)
                return {}
            for tm, pl, must in ((0.05, slow, True), (0.9, None, False), (1.5, slow, False)):
                t0 = time.perf_counter()
                try:
                    mml.find_embedding(S, T, timeout=tm, tries=1, **({} if pl is None else dict(placement=pl)))
                    raised = False
                except TimeoutError:
                    raised = True
                except Exception as x:
                    if not acceptable(x, T):
                        r.violation("find_embedding(timeout=%r) raises %r: S=%r T=%s" % (tm, x, list(S.edges()), name), dict(timeout=tm))
                    continue
                t1 = time.perf_counter() - t0
                r.count("timeouts")
                if must and not raised:
                    r.violation("find_embedding(timeout=%r) with a placement that takes 0.06 s did not raise TimeoutError" % tm, dict(timeout=tm))
                if raised and t1 < tm:
                    r.violation("find_embedding(timeout=%r) raised TimeoutError after %.3f s" % (tm, t1), dict(timeout=tm))
        r.sample("S=%r T=%r (%s)" % (sorted(S0.edges()), sorted(T0.edges())[:12], name))

    def acceptable(x, T):
        """the documented refusals of the search itself"""
        if not isinstance(x, (RuntimeError, ValueError)):
            return False
        if "corrupted" in str(x):       # hints must lie in the largest component of the target
            return not nx.is_connected(T)
        return "Failed during init" in str(x) or "too few" in str(x)

    def check(r, S, T, sa, ta, ln, lay, tl, pn, pl, pkw, hint, form, info):
        where = "find_embedding(layout=%s, placement=%s, mm_hint_type=%s)" % (ln, pn, hint)
        info = dict(info, layout=ln, placement=pn, hint=hint, edge_lists=form)
        kw = dict(base, random_seed=5)
        before = (list(S), list(S.edges()), dict(S.graph), list(T), list(T.edges()), dict(T.graph), dict(pl) if not callable(pl) else None,
                  [dict(x) if not callable(x) and x is not None else None for x in lay] if isinstance(lay, (tuple, list)) else None)
        args = dict(placement=pl, mm_hint_type=hint, return_layouts=True, **pkw, **kw)
        if lay is not None:
            args["layout"] = lay
        a, b = (list(S.edges()), list(T.edges())) if form else (S, T)
        np.random.seed(0)
        r.count("searches")
        err = e = None
        vf.note("%s %r" % (where, info))
        try:
            e, (LS, LT) = mml.find_embedding(a, b, **args)
        except Exception as x:
            err = x
        after = (list(S), list(S.edges()), dict(S.graph), list(T), list(T.edges()), dict(T.graph), dict(pl) if not callable(pl) else None)
        if before[:7] != after:
            r.violation("%s changed its arguments: %r" % (where, info), info)
        if before[7] is not None:
            for x, o in zip(lay, before[7]):
                if o is not None and not same_layout(x, o):
                    r.violation("%s changed the layout it was given: %r" % (where, info), info)
        # no connected set of two nodes: nothing to place on
        if pn.startswith("closest 2-2") and T.number_of_edges() == 0:
            return
        if err is not None:
            ok = acceptable(err, T)
            if not ok:
                r.violation("%s raises %r: %r" % (where, err, info), info)
            r.count("refused")
            return
        if e:
            f = pyo.flaw(e, sa, ta)
            if f:
                r.violation("%s: %s: %r -> %r" % (where, f, info, e), info)
                return
            r.count("embeddings")
        # what it must have done: the hint is the placement computed from the layouts
        if set(LS) != set(S) or set(LT) != set(T):
            r.violation("%s returns layouts of other graphs: %r" % (where, info), info)
            return
        if tl is not None and not callable(tl) and not same_layout(LT, tl):
            r.violation("%s does not use the given layout of T: %r" % (where, info), info)
        if callable(tl) and tl is not mml.p_norm and not same_layout(LT, mml.Layout(LT.G, tl)):
            r.violation("%s does not use the given function for the layout of T: %r" % (where, info), info)
        if tl is None and "family" in T.graph and not same_layout(LT, mml.Layout(T, mml.graph_layout)):
            r.violation("%s does not lay a lattice out as a lattice: %r" % (where, info), info)
        P = mml.Placement(LS, LT, pl, **pkw)
        if hint == "suspend_chains" and e:
            for v in S:
                if v in P and len(P[v]) and not set(P[v]) & set(e[v]):
                    r.violation("%s: the chain %r of %r misses its placement %r: %r" % (where, e[v], v, P[v], info), info)
                    return
            r.count("suspended")
        # graphs given as edges may be searched as such or as graphs made of them (the order of nodes and edges decides the result)
        wants = []
        for x, y in [(a, b)] + ([(nx.Graph(a), nx.Graph(b))] if form else []):
            try:
                want = minorminer.find_embedding(x, y, **({"initial_chains": dict(P)} if hint == "initial_chains" else {"suspend_chains": {v: [c] for v, c in P.items()}}), **kw)
            except (RuntimeError, ValueError) as x:
                want = x
            wants.append(want)
        if not any(not isinstance(want, Exception) and {v: tuple(c) for v, c in want.items()} == {v: tuple(c) for v, c in e.items()} for want in wants):
            r.violation("%s returns %r but the search with the placement as its hint %r: %r" % (where, e, wants[0], info), info)
        r.nontrivial((repr(info), repr(e)))
    vf.run_cases(ctx, cases, one, cpu_limit=60 if q else 400, wall_limit=150 if q else 850, describe=lambda c: repr((c[2], sorted(c[0].edges()), sorted(c[1].edges())[:10])))
    for v in ctx.data[:3]:
        ctx.log(v)
    ctx.log({k: v for k, v in ctx.counters.items()})
    c = ctx.coverage
    c["evaluations"] = ctx.counters.pop("searches", 0)
    c["distinct_nontrivial"] = len(ctx.distinct)
    c["rule"] = "one evaluation is one layout-guided search; distinct: (problem, layout, placement, hint) combinations with their results"
    c["exhaustive"] = False
    ctx.assumptions += ["one seed per search (the searches themselves are explored by M01 and M02)", "networkx and numpy random layouts start from a fixed seed"]
