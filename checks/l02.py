"""L02: every small source and target layout through the nearest-subset strategy; every lattice point of every small lattice through the intersection strategy."""
import itertools
import vf
LEVEL = "exploration"


def run(ctx):
    import lay
    mml = lay.use()
    import numpy as np
    import networkx as nx
    import dwave.graphs as dg
    from problems import atlas, connected_subsets
    q = ctx.quick
    np.seterr(all="ignore")
    cases = []
    for n in (1, 2, 3, 4):
        for k in range(len(atlas(n, n))):
            grid = list(itertools.product((0, 1, 3), repeat=2)) if n < 4 else [(0, 0), (1, 0), (0, 2), (3, 3)]
            sets = list(itertools.product(grid, repeat=n))
            st = (1, 1, 8, 3)[n - 1] if q else (1, 1, 4, 2)[n - 1]
            for part in range(4):
                cases.append(("closest", (n, k), sets[::st][part::4]))
    for n in (5, 6):
        for k in range(0, len(atlas(n, n, True)), (2 if n == 5 else 16) if q else (1 if n == 5 else 8)):
            cases.append(("closest-large", (n, k), None))
    lat = []
    for m, n, t in ((1, 1, 1), (1, 1, 4), (2, 2, 1), (2, 2, 2), (2, 2, 4), (3, 3, 2), (1, 3, 2), (3, 2, 3), (4, 4, 4), (2, 4, 4)):
        lat.append(("chimera", (m, n, t)))
    for m in (2, 3, 4):
        lat.append(("pegasus", (m,)))
    for m, t in ((1, 1), (1, 4), (2, 1), (2, 2), (2, 4), (3, 1)):
        lat.append(("zephyr", (m, t)))
    for fam, args in lat:
        labs = [dict(), dict(coordinates=True), dict(data=False)] + ([dict(coordinates=True, data=False)])
        if fam == "pegasus":
            labs += [dict(nice_coordinates=True), dict(nice_coordinates=True, data=False), dict(fabric_only=False)]
        for lb in labs:
            cases.append(("intersection", (fam, args, lb), None))
    cases.append(("placement", None, None))

    def pos(L, v):
        return np.asarray(L[v], dtype=float)

    def check_closest(r, T, TL, S, SL, size, k, info):
        where = "closest(subset_size=%r, num_neighbors=%d)" % (size, k)
        subs = [c for c in connected_subsets(T, size[1]) if size[0] <= len(c)]
        keepS, keepT = {v: tuple(SL[v]) for v in SL}, {v: tuple(TL[v]) for v in TL}
        r.count("placements")
        try:
            P = mml.closest(SL, TL, subset_size=size, num_neighbors=k)
        except Exception as e:
            if subs:
                r.violation("%s raises %r for %r" % (where, e, info), dict(info=info))
            return
        if keepS != {v: tuple(SL[v]) for v in SL} or keepT != {v: tuple(TL[v]) for v in TL}:
            r.violation("%s changed a layout: %r" % (where, info), dict(info=info))
        if set(P) != set(S):
            r.violation("%s places %r: %r" % (where, list(P), info), dict(info=info))
            return
        cent = {frozenset(c): np.mean([pos(TL, x) for x in c], axis=0) for c in subs}
        distinct = {}
        for c, p in cent.items():
            distinct.setdefault(tuple(np.round(p, 9)), p)
        for v, c in P.items():
            c = frozenset(c)
            if c not in cent:
                r.violation("%s places %r on %r, which is not a connected set of %d to %d target nodes: %r" % (where, v, sorted(c), size[0], size[1], info), dict(info=info))
                return
            ds = sorted(float(np.linalg.norm(p - pos(SL, v))) for p in distinct.values())
            d = float(np.linalg.norm(cent[c] - pos(SL, v)))
            lim = ds[min(k, len(ds)) - 1]
            if d > lim + 1e-9:
                r.violation("%s places %r on %r at distance %g although %s at most %g away: %r" % (where, v, sorted(c), d, "one is" if k == 1 else "%d are" % k, lim, info), dict(info=info))
                return
        r.nontrivial((info["T"], info["t"], info["s"], size, k, tuple(sorted((repr(v), tuple(sorted(c))) for v, c in P.items()))))

    def line_graph_sources():
        yield nx.empty_graph(0), {}
        g = nx.empty_graph(1); yield g, {0: (1, 1)}
        for a, b in (((0, 0), (2, 1)), ((0.4, 0.6), (0.4, 0.6)), ((3, 0), (-1, 2.5))):
            yield nx.path_graph(2), {0: a, 1: b}
        yield nx.path_graph(["a", "b", "c"]) if False else nx.relabel_nodes(nx.path_graph(3), dict(enumerate("abc"))), {"a": (0, 0), "b": (0.3, 0.2), "c": (3, 3)}
        yield nx.empty_graph(4), {i: (1, 0) for i in range(4)}

    def one(case, r):
        kind, what, sets = case
        if kind == "closest":
            n, k = what
            T = atlas(n, n)[k]
            srcs = list(line_graph_sources())
            for j, ps in enumerate(sets):
                TL = mml.Layout(T, dict(zip(T, ps)))
                for S, sp in srcs:
                    SL = mml.Layout(S, dict(sp))
                    for size in ((1, 1), (1, 2), (2, 2), (1, 3), (2, 3), (3, 3), (1, 9)):
                        for nb in (1, 2, 5, 50):
                            check_closest(r, T, TL, S, SL, size, nb, dict(T=tuple(sorted(T.edges())), n=n, t=ps, s=tuple(sp.items())))
                    if len(r.violations) > 2:
                        return
            return
        if kind == "closest-large":
            n, k = what
            T = atlas(n, n, True)[k]
            for seed in range(3):
                ps = tuple(((i * i * (seed + 1)) % 5, (i * (2 * seed + 1)) % 7) for i in range(n))
                TL = mml.Layout(T, dict(zip(T, ps)))
                for S, sp in line_graph_sources():
                    SL = mml.Layout(S, dict(sp))
                    for size in ((1, 2), (3, 3), (2, 4), (4, 4), (5, 6)):
                        for nb in (1, 3):
                            check_closest(r, T, TL, S, SL, size, nb, dict(T=tuple(sorted(T.edges())), n=n, t=ps, s=tuple(sp.items())))
                    if len(r.violations) > 2:
                        return
            return
        if kind == "intersection":
            fam, args, lb = what
            make = getattr(dg, fam + "_graph")
            perfect = make(*args, **lb)
            conv = getattr(dg, fam + "_coordinates")
            co = conv(*args)

            def coord(v):
                if lb.get("coordinates"):
                    return v
                if lb.get("nice_coordinates"):
                    return co.nice_to_pegasus(v)
                return getattr(co, "linear_to_" + fam)(v)
            ori = {v: coord(v)[2] if fam == "chimera" else coord(v)[0] for v in perfect}
            for drop in (0, 1, 2):      # the perfect lattice, one with nodes missing, one with couplers missing
                T = perfect.copy()
                if drop == 1:
                    T.remove_nodes_from(list(T)[::3])
                if drop == 2:
                    T.remove_edges_from(list(T.edges())[::2])
                w = T.graph["columns"] * T.graph["tile"] if fam != "zephyr" else (2 * args[0] + 1) * 2 * args[1]
                h = T.graph["rows"] * T.graph["tile"] if fam != "zephyr" else w
                side = min(w, h)
                if side < 2:
                    continue
                S = nx.grid_2d_graph(side, side)
                SL = mml.Layout(S, {v: np.array(v, dtype=float) for v in S})
                TL = mml.Layout(T, {v: np.array((i, i % 7 * 1000), dtype=float) for i, v in enumerate(T)})
                before = {v: tuple(p) for v, p in SL.items()}
                info = dict(family=fam, args=args, labels=lb, drop=drop)
                r.count("placements")
                try:
                    P = mml.Placement(SL, TL, mml.intersection)
                except Exception as e:
                    r.violation("intersection raises %r: %r" % (e, info), info)
                    return
                if before != {v: tuple(p) for v, p in SL.items()}:
                    r.violation("intersection on a Placement's copy changed the caller's layout: %r" % (info,), info)
                if set(P) != set(S):
                    r.violation("intersection places other nodes than those of S: %r" % (info,), info)
                    return
                got = set()
                for v, Q in P.items():
                    Q = list(Q)
                    if any(x not in T for x in Q) or len(Q) > 2 or len({ori[x] for x in Q}) != len(Q):
                        r.violation("intersection places %r on %r, which is not a crossing: %r" % (v, Q, info), info)
                        return
                    if len(Q) == 2:
                        if not perfect.has_edge(*Q):
                            r.violation("intersection places %r on the pair %r, which does not cross: %r" % (v, Q, info), info)
                            return
                        got.add(frozenset(Q))
                    r.count("points")
                    r.nontrivial((fam, args, repr(lb), drop, v, repr(sorted(map(repr, Q)))))
                # the source covers the whole square: every crossing of the lattice is somebody's
                if w == h:
                    want = {frozenset((a, b)) for a, b in perfect.edges() if a in T and b in T and ori[a] != ori[b]}
                    if got != want:
                        r.violation("intersection: crossings %r are missing, %r are no crossings: %r" % (
                            sorted(map(repr, want - got))[:3], sorted(map(repr, got - want))[:3], info), info)
                        return
                # coincident points and single nodes, a layout smaller than the lattice
                for S2, pts in ((nx.empty_graph(1), {0: (5, 5)}), (nx.empty_graph(3), {i: (1, 2) for i in range(3)}), (nx.path_graph(2), {0: (0, 0), 1: (0.5, 0.5)}), (nx.path_graph(3), {0: (-9, 0), 1: (0, 4), 2: (9, 1)})):
                    try:
                        P = mml.Placement(mml.Layout(S2, pts), TL, mml.intersection)
                    except Exception as e:
                        r.violation("intersection raises %r for %r: %r" % (e, pts, info), info)
                        return
                    r.count("placements")
                    if set(P) != set(S2) or any(x not in T for Q in P.values() for x in Q) or any(len(Q) == 2 and not perfect.has_edge(*Q) or len(Q) > 2 for Q in P.values()):
                        r.violation("intersection places %r: %r" % (dict(P), info), info)
                        return
                    for a in S2:
                        for b in S2:
                            if pts[a] == pts[b] and P[a] != P[b]:
                                r.violation("intersection places coinciding nodes differently: %r: %r" % (dict(P), info), info)
            r.sample("intersection %s%r %r" % (fam, args, lb))
            return
        # the Placement object
        S, T = nx.path_graph(3), nx.grid_2d_graph(3, 3)
        TL = mml.Layout(T, {v: v for v in T})
        for f in (0.1, 1, 10):
            for ratio in (None, 0.5, 1):
                SL = mml.Layout(S, {v: (f * v, f) for v in S})
                b = (dict(SL.layout), SL.scale, dict(TL.layout), TL.scale)
                P = mml.Placement(SL, TL, scale_ratio=ratio)
                r.count("placements")
                want = TL.scale if SL.scale > TL.scale else ratio * TL.scale if ratio else SL.scale
                if abs(P.S_layout.scale - want) > 1e-9 or abs(P.T_layout.scale - TL.scale) > 1e-9:
                    r.violation("Placement(scale_ratio=%r) scaled a source layout of scale %g to %g" % (ratio, SL.scale, P.S_layout.scale), dict(f=f, ratio=ratio))
                if (SL.scale, TL.scale) != (b[1], b[3]) or any(tuple(SL[v]) != tuple(b[0][v]) for v in S) or any(tuple(TL[v]) != tuple(b[2][v]) for v in T):
                    r.violation("Placement changed the layouts it was given (scale_ratio=%r)" % (ratio,), dict(f=f, ratio=ratio))
                for v, c in P.items():
                    if len(c) != 1 or not set(c) <= set(T):
                        r.violation("default placement of %r is %r" % (v, c), dict(f=f, ratio=ratio))
                    x, = c
                    d = lambda t: np.linalg.norm(np.asarray(P.T_layout[t], float) - np.asarray(P.S_layout[v], float))
                    if d(x) > min(map(d, T)) + 1e-9:
                        r.violation("default placement of %r is not the nearest node" % (v,), dict(f=f, ratio=ratio))
        SL = mml.Layout(S, {v: (v, v) for v in S})
        fixed = {v: [(0, 0)] for v in S}
        P = mml.Placement(SL, TL, fixed)
        if dict(P) != fixed or len(P) != 3:
            r.violation("a precomputed placement came back as %r" % (dict(P),), {})
        P = mml.Placement(SL, TL, lambda s, t, **k: {v: k for v in s}, subset_size=(1, 2))
        if dict(P) != {v: dict(subset_size=(1, 2)) for v in S}:
            r.violation("keyword arguments reach the placement function as %r" % (dict(P),), {})
        for E in (mml.Layout(nx.Graph(), {}), mml.Layout(nx.Graph(), dim=3), mml.Layout(nx.Graph(), mml.p_norm)):
            for how in (mml.closest, {}, lambda s, t, **k: {}):
                if dict(mml.Placement(E, TL, how)):
                    r.violation("the placement of an empty source is not empty", {})
                r.count("placements")
        for a, b, e in ((SL.layout, TL, TypeError), (SL, TL.layout, TypeError), (mml.Layout(S, {v: (v, v, v) for v in S}), TL, ValueError)):
            try:
                mml.Placement(a, b)
                r.violation("Placement accepted layouts that it should refuse with %s" % e.__name__, {})
            except e:
                pass
        try:
            mml.intersection(SL, TL)
            r.violation("intersection accepted a target that is no lattice", {})
        except NotImplementedError:
            pass
        r.nontrivial("placement object")
    vf.run_cases(ctx, cases, one, cpu_limit=60 if q else 500, wall_limit=120 if q else 850, describe=lambda c: repr((c[0], c[1], len(c[2] or ()))))
    c = ctx.coverage
    c["evaluations"] = ctx.counters.pop("placements", 0) + ctx.counters.pop("points", 0)
    c["distinct_nontrivial"] = len(ctx.distinct)
    c["rule"] = "one evaluation is one computed placement or one lattice point of an intersection placement; distinct: (target, layouts, options, result) for the nearest-subset strategy, (lattice, point, result) for the intersection strategy"
    c["exhaustive"] = not q
    ctx.assumptions += ["in targets without a connected set of the requested size nothing is claimed", "in a lattice with missing nodes a lattice point may have one or no qubit",
                        "which of several nearest subsets is taken is not claimed"]
