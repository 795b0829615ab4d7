"""L04: the layout functions over every small graph in several vertex orders, every small lattice with defects, every combination of parameters."""
import itertools
import vf
LEVEL = "exploration"


def run(ctx):
    import lay
    mml = lay.use()
    import numpy as np
    import networkx as nx
    import dwave.graphs as dg
    from problems import atlas
    q = ctx.quick
    np.seterr(all="ignore")
    cases = []
    for n in (1, 2, 3, 4, 5, 6):
        A = atlas(n, n) if n < 6 else atlas(n, n, True)
        st = {5: 1, 6: 3}.get(n, 1) if q else {6: 2}.get(n, 1)
        for k in range(ctx.seed % st, len(A), st):
            cases.append(("p_norm", n, k))
            cases.append(("pack", n, k))
    for n in range(2, 8):
        cases.append(("pack forests", n, 0))
    for fam, argss in (("chimera", [(1,), (2,), (1, 2), (3, 2), (1, 3), (2, 2, 1), (3, 1, 2), (1, 1, 1)]), ("pegasus", [(2,), (3,)]), ("zephyr", [(1,), (2,), (1, 1), (2, 2)])):
        for args in argss:
            for lb in [dict(), dict(coordinates=True), dict(data=False)] + ([dict(nice_coordinates=True)] if fam == "pegasus" else []):
                cases.append(("lattice", fam, args, lb))

    def distortion(D, L, p):
        vs = list(L)
        t = 0.0
        for u in vs:
            for v in vs:
                d = np.abs(np.asarray(L[u], float) - np.asarray(L[v], float))
                d = d.max() if p == float("inf") else (d ** p).sum() ** (1 / p)
                t += (d - D[u].get(v, len(vs))) ** 2
        return t

    def slope(D, L, p):
        """the largest derivative of the distortion by a coordinate, and the least distance"""
        vs = list(L)
        A = np.array([np.asarray(L[v], float) for v in vs])
        x = A[:, None, :] - A[None, :, :]
        d = (np.abs(x) ** p).sum(axis=-1) ** (1 / p)
        off = ~np.eye(len(vs), dtype=bool)
        t = np.array([[D[u].get(v, len(vs)) for v in vs] for u in vs], float)
        if len(vs) < 2 or d[off].min() < 1e-3:
            return 0.0
        np.fill_diagonal(d, 1)
        w = np.where(off, (d - t) / d ** (p - 1), 0)
        return np.abs((4 * w[:, :, None] * np.sign(x) * np.abs(x) ** (p - 1)).sum(axis=1)).max()

    def shape(L, G, dim, center, scale, ctol=1e-6):
        """None or how the points miss the request"""
        if set(L) != set(G) or len(L) != len(G):
            return "places other vertices"
        if not len(G):
            return None
        A = np.array([np.asarray(L[v], float).ravel() for v in G])
        if A.shape != (len(G), dim):
            return "points have the shape %r instead of %d coordinates" % (A.shape, dim)
        if not np.isfinite(A).all():
            return "points are not finite: %r" % (A.tolist(),)
        lo, hi = A.min(axis=0), A.max(axis=0)
        if center is not None and not np.allclose((lo + hi) / 2, center, atol=ctol):
            return "is centered at %r" % (((lo + hi) / 2).tolist(),)
        if scale is not None and (hi - lo).max() > 1e-9 and abs((hi - lo).max() / 2 - scale) > ctol * max(1, scale):
            return "has the scale %r" % ((hi - lo).max() / 2)

    def orders(nodes):
        ps = list(itertools.permutations(nodes))
        return ps if len(ps) <= 6 else [ps[(k * 7919) % len(ps)] for k in range(8 if q else 24)]

    def reordered(G, o):
        H = nx.Graph()
        H.add_nodes_from(o)
        H.add_edges_from(G.edges())
        return H

    def one(case, r):
        if case[0] == "p_norm":
            G0 = atlas(case[1], case[1])[case[2]] if case[1] < 6 else atlas(6, 6, True)[case[2]]
            for oi, o in enumerate(orders(list(G0))):
                G = reordered(G0, o)
                D = dict(nx.all_pairs_shortest_path_length(G))
                n = len(G)
                for dim, center in ((None, None), (None, (1, -2)), (1, (5,)), (3, None), (2, (0, 0))):
                    d = dim or (len(center) if center else 2)
                    starts = [None] + [{v: np.array([float(((i + 1) * (k + 2 + c * 3)) % 7) for c in range(d)]) for i, v in enumerate(sorted(G))} for k in range(3 if q else 5)]
                    for si, start in enumerate(starts):
                        for p in (2, 1, 3, float("inf")):
                            if q and oi > 1 and (p != 2 or dim):
                                continue
                            for scale in (None, 2.5):
                                if scale and si != 1:
                                    continue
                                for given in (None, {u: dict(x) for u, x in D.items()}):
                                    if given and (si != 1 or scale):
                                        continue
                                    keep = None if start is None else {v: tuple(x) for v, x in start.items()}
                                    np.random.seed(3)
                                    r.count("layouts")
                                    info = dict(nodes=list(G), edges=list(G.edges()), p=p, dim=dim, center=center, scale=scale, start=keep, G_distances=bool(given))
                                    vf.note("p_norm %r" % info)
                                    try:
                                        L = mml.p_norm(G, p=p, starting_layout=start, G_distances=given, dim=dim, center=center, scale=scale)
                                    except Exception as e:
                                        r.violation("p_norm raises %r: %r" % (e, info), info)
                                        return
                                    f = shape(L, G, d, center or (0,) * d, scale)
                                    if f:
                                        r.violation("p_norm %s: %r" % (f, info), info)
                                        return
                                    if start is not None:
                                        if {v: tuple(x) for v, x in start.items()} != keep:
                                            r.violation("p_norm changed its starting layout: %r" % info, info)
                                        a, b = distortion(D, start, p), distortion(D, L, p)
                                        if not scale and b > a * (1 + 1e-9) + 1e-9:
                                            r.violation("p_norm made the distortion worse, %g instead of %g: %r" % (b, a, info), info)
                                            return
                                        if b < a - 1e-6:
                                            r.count("improved")
                                    if p in (2, 3) and not scale:
                                        s = slope(D, L, p)
                                        if s > 0.02:
                                            r.violation("p_norm stops where small moves still lower the distortion (slope %g): %r" % (s, info), info)
                                            return
                                        r.count("stationary")
                                    r.nontrivial((case, o, p, dim, center, scale, si))
                # distances that are not those of the graph
                if n > 1 and oi < 2:
                    W = {u: {v: 0 if u == v else 3 for v in G} for u in G}
                    start = {v: np.array([float(i), float(i * i % 3)]) for i, v in enumerate(sorted(G))}
                    L = mml.p_norm(G, starting_layout=start, G_distances=W)
                    if distortion(W, L, 2) > distortion(W, start, 2) + 1e-9:
                        r.violation("p_norm ignores G_distances: nodes %r edges %r" % (list(G), list(G.edges())), dict(nodes=list(G), edges=list(G.edges())))
                        return
            if len(G0) == 5:
                r.sample("p_norm: %r" % sorted(G0.edges()))
            return
        if case[0] in ("pack", "pack forests"):
            gs = []
            if case[0] == "pack":
                G0 = atlas(case[1], case[1])[case[2]] if case[1] < 6 else atlas(6, 6, True)[case[2]]
                gs = [reordered(G0, o) for o in orders(list(G0))[:3]] + [nx.disjoint_union(G0, h) for h in (nx.empty_graph(1), nx.path_graph(2), nx.cycle_graph(4), G0)]
            else:
                for parts in itertools.combinations_with_replacement((1, 2, 3, 5), case[1] if case[1] < 6 else 3):
                    g = nx.Graph()
                    for x in parts:
                        g = nx.disjoint_union(g, nx.path_graph(x) if x < 5 else nx.cycle_graph(5))
                    gs.append(g)
                gs = gs[::1 if not q else 2]

            def fn(G, dim=None, center=None, scale=None, **k):
                # a fixed arrangement of each component: points on a parabola, scaled as asked
                vs = sorted(G)
                n = dim or (len(center) if center is not None else 2)
                A = np.array([(i, i * i % 4 + 0.25 * i, i * i * i % 5)[:n] for i, v in enumerate(vs)], dtype=float)
                c = (A.min(axis=0) + A.max(axis=0)) / 2
                m = np.abs(A - c).max()
                A = (A - c) * ((scale or 1) / m if m else 1)
                return dict(zip(vs, A + (np.array(center) if center is not None else 0)))
            for G in gs:
                comps = [set(c) for c in nx.connected_components(G)]
                for kw in (dict(), dict(scale=4.0), dict(center=(3, -1)), dict(scale=0.5, center=(0, 0)), dict(dim=2), dict(center=(3, -1, 2)), dict(dim=3), dict(center=(2,)), dict(dim=1, scale=3.0), dict(center=(0, 0, 1), scale=2.0)):
                    dim = kw.get("dim") or len(kw.get("center", (0, 0)))
                    info = dict(nodes=list(G), edges=list(G.edges()), kw=kw)
                    vf.note("pack %r" % info)
                    r.count("layouts")
                    try:
                        L = mml.Layout(G, fn, **kw)
                    except Exception as e:
                        r.violation("a packed layout raises %r: %r" % (e, info), info)
                        return
                    f = shape(L, G, dim, kw.get("center"), kw.get("scale"))
                    if not f and dim != 2:
                        # not packed
                        r.nontrivial((tuple(G), tuple(G.edges()), repr(kw)))
                        continue
                    if f:
                        r.violation("a packed layout %s: %r" % (f, info), info)
                        return
                    boxes = []
                    ratio = None
                    for c in comps:
                        P = {v: np.asarray(L[v], float) for v in c}
                        A = np.array(list(P.values()))
                        boxes.append((A.min(axis=0), A.max(axis=0)))
                        if len(c) > 2:
                            B = fn(G.subgraph(c), scale=len(c) ** .5)
                        elif len(c) == 2:
                            a, b = c
                            B = {a: np.array([0.0, 0.0]), b: np.array([1.0, 0.0])}
                        else:
                            continue
                        for u, v in itertools.combinations(c, 2):
                            x, y = np.linalg.norm(P[u] - P[v]), np.linalg.norm(B[u] - B[v])
                            if y < 1e-9:
                                continue
                            if ratio is None:
                                ratio = x / y
                            if abs(x / y - ratio) > 1e-5 * max(1, ratio):
                                r.violation("a packed layout does not move a component rigidly: the distance of %r and %r is %g, of the layout %g (other pairs: %g): %r" % (u, v, x, y, ratio, info), info)
                                return
                    if ratio is not None and "scale" not in kw and abs(ratio - 1) > 1e-5:
                        r.violation("a packed layout scales its components by %g: %r" % (ratio, info), info)
                        return
                    for (a, b), (c, d) in itertools.combinations(boxes, 2):
                        if (a < d - 1e-6).all() and (c < b - 1e-6).all():
                            r.violation("packed components overlap: %r %r: %r" % ((a.tolist(), b.tolist()), (c.tolist(), d.tolist()), info), info)
                            return
                    for c, d in itertools.combinations(comps, 2):
                        if any(np.allclose(L[u], L[v], atol=1e-9) for u in c for v in d):
                            r.violation("vertices of packed components coincide: %r" % (info,), info)
                            return
                    r.nontrivial((tuple(G), tuple(G.edges()), repr(kw)))
            return
        _, fam, args, lb = case
        perfect = getattr(dg, fam + "_graph")(*args, **lb)
        own = getattr(dg, fam + "_layout")(perfect)
        nodes = list(perfect)
        for drop in range(0, 16 if q else 30):
            T = perfect.copy()
            if drop == 1:
                T.remove_nodes_from(nodes[1:])
            elif drop == 2:
                T.remove_nodes_from(nodes[:-2])
            elif drop == 3:
                T.remove_edges_from(list(T.edges()))
            elif drop == 4:     # one line of the drawing
                x = own[nodes[0]][0]
                T.remove_nodes_from([v for v in nodes if abs(own[v][0] - x) > 1e-9])
            elif drop == 5:
                y = own[nodes[0]][1]
                T.remove_nodes_from([v for v in nodes if abs(own[v][1] - y) > 1e-9])
            elif drop:
                T.remove_nodes_from(nodes[drop % 5::drop])
            if not len(T):
                continue
            if not all(np.isfinite(x).all() for x in getattr(dg, fam + "_layout")(T).values()):
                r.count("not drawn by dwave-graphs")       # a single vertex of some lattices
                continue
            for dim, center, scale in itertools.product((None, 2, 3), (None, (2, -1), (0, 0, 1)), (None, 3, 0.5)):
                if dim and center and len(center) != dim:
                    continue
                d = dim or (len(center) if center else 2)
                info = dict(family=fam, args=args, labels=lb, drop=drop, dim=dim, center=center, scale=scale)
                r.count("layouts")
                vf.note("lattice %r" % info)
                for how in ("function", "Layout", "None"):
                    try:
                        if how == "function":
                            L = mml.graph_layout(T, dim=dim, center=center, scale=scale)
                        elif how == "Layout":
                            L = mml.Layout(T, mml.graph_layout, dim=dim, center=center, scale=scale, pack_components=False)
                        else:
                            L = mml.Layout(T, dim=dim, center=center, scale=scale)
                    except Exception as e:
                        r.violation("graph_layout (%s) raises %r: %r" % (how, e, info), info)
                        return
                    f = shape(L, T, d, None, None)
                    if f:
                        r.violation("graph_layout (%s) %s: %r" % (how, f, info), info)
                        return
                    A = np.array([np.asarray(L[v], float) for v in T])
                    O = np.array([np.asarray(own[v], float)[:2] for v in T])
                    c = np.array(center if center else (0,) * d, dtype=float)
                    s = scale if scale is not None else max(T.graph["rows"], T.graph["columns"]) / 2
                    if how != "None" or True:
                        lo, hi = A.min(axis=0), A.max(axis=0)
                        for i in (0, 1):
                            ext = np.ptp(O[:, i])
                            if ext > 1e-9:
                                want = (O[:, i] - O[:, i].min()) / ext
                                got = (A[:, i] - lo[i]) / (hi[i] - lo[i] if hi[i] > lo[i] else 1)
                                if not np.allclose(want, got, atol=1e-6):
                                    f = "is not an increasing affine image of the lattice's drawing in axis %d" % i
                                if how == "function" and (abs((lo[i] + hi[i]) / 2 - c[i]) > 1e-6 or abs((hi[i] - lo[i]) / 2 - s) > 1e-6):
                                    f = f or "does not fill [%g, %g] in axis %d but [%g, %g]" % (c[i] - s, c[i] + s, i, lo[i], hi[i])
                            elif hi[i] - lo[i] > 1e-9:
                                f = f or "spreads a line of the drawing in axis %d" % i
                            elif abs(lo[i] - c[i]) > s + 1e-6:
                                f = f or "places a line outside of the requested square"
                        if d > 2 and how == "function" and not np.allclose(A[:, 2:], c[2:]):
                            f = f or "has other third coordinates than its center"
                    if len({tuple(np.round(x, 7)) for x in A}) != len(T):
                        f = f or "puts two vertices on one point"
                    if f:
                        r.violation("graph_layout (%s) %s: %r" % (how, f, info), info)
                        return
                r.nontrivial((fam, args, repr(lb), drop, dim, center, scale))
        for bad in (dict(dim=3, center=(0, 0)), ):
            try:
                mml.graph_layout(perfect, **bad)
                r.violation("graph_layout accepted %r" % (bad,), {})
            except ValueError:
                pass
        try:
            mml.graph_layout(nx.path_graph(3))
            r.violation("graph_layout accepted a path", {})
        except ValueError:
            pass
        r.sample("graph_layout %s%r %r" % (fam, args, lb))
    vf.run_cases(ctx, cases, one, cpu_limit=60 if q else 500, wall_limit=150 if q else 850, describe=repr)
    ctx.log(dict(ctx.counters))
    c = ctx.coverage
    c["evaluations"] = ctx.counters.pop("layouts", 0)
    c["distinct_nontrivial"] = len(ctx.distinct)
    c["rule"] = "one evaluation is one computed layout; distinct: (graph with vertex order, parameters) that gave points"
    c["exhaustive"] = False
    ctx.assumptions += ["p from 1, 2, 3 and infinity; starting layouts from a fixed list; vertices that coincide in the starting layout are allowed",
                        "lattices that dwave-graphs itself draws at NaN (a single vertex of a Pegasus or Zephyr graph) are left out",
                        "a lattice whose remaining vertices lie on one line of the drawing is only required to lie inside of the requested square"]
