"""L01: every sequence of edits of a Layout object up to a depth, with explicit states; every initial point set of a small grid."""
import itertools
import vf
LEVEL = "model_checking"
TOL = 1e-7


def run(ctx):
    import lay
    mml = lay.use()
    import numpy as np
    import networkx as nx
    q = ctx.quick
    np.seterr(all="ignore")

    def graphs():
        yield "empty", nx.Graph(), []
        g = nx.Graph(); g.add_node("x"); yield "one", g, [(1,), (3, 4), (1, 2, 3)]
        g = nx.Graph(); g.add_edge(1, 0); yield "unsorted pair", g, None
        g = nx.Graph(); g.add_edges_from([("b", "c"), ("a", "b")]); yield "unsorted strings", g, None
        g = nx.Graph(); g.add_edges_from([("b", 1), (1, (0, 0))]); yield "mixed labels", g, None
        g = nx.Graph(); g.add_nodes_from([3, 1, 2, 0]); g.add_edge(0, 3); yield "four", g, None

    # ---- the model: what each edit means, on a dict of points
    def specs(pts):
        if not pts:
            return 0, (), 0.0
        d = len(next(iter(pts.values())))
        lo = [min(p[i] for p in pts.values()) for i in range(d)]
        hi = [max(p[i] for p in pts.values()) for i in range(d)]
        c = tuple((a + b) / 2 for a, b in zip(lo, hi))
        return d, c, max(max(abs(p[i] - c[i]) for i in range(d)) for p in pts.values())

    def m_center(pts, c):
        d, old, _ = specs(pts)
        return {v: tuple(x - o + n for x, o, n in zip(p, old, c)) for v, p in pts.items()}

    def m_scale(pts, s):
        d, c, old = specs(pts)
        if not old:
            return dict(pts)
        return {v: tuple((x - o) * s / old + o for x, o in zip(p, c)) for v, p in pts.items()}

    def m_dim(pts, n):
        return {v: tuple(p) + (0,) * (n - len(p)) for v, p in pts.items()}

    def close(a, b):
        return abs(a - b) <= TOL * max(1.0, abs(a), abs(b))

    def compare(L, G, pts):
        """None or how the object differs from the model"""
        d, c, s = specs(pts)
        if set(L) != set(pts) or len(L) != len(pts):
            return "its keys are %r" % (list(L),)
        for v in pts:
            p = np.asarray(L[v], dtype=float).ravel()
            if len(p) != d or not all(close(x, y) for x, y in zip(p, pts[v])):
                return "%r is at %r, not at %r" % (v, tuple(p), pts[v])
        A = np.asarray(L.layout_array)
        if len(A) != len(pts) or (pts and A.shape != (len(pts), d)):
            return "its array has the shape %r" % (A.shape,)
        try:
            order = sorted(G)
        except TypeError:
            order = None
        if order is None:       # the order is not documented: the rows are the points in some order
            rows = sorted(tuple(np.round(r, 6) + 0.0) for r in A)
            if not np.allclose(rows, sorted(tuple(np.round(p, 6) + 0.0) for p in pts.values()), atol=1e-5):
                return "its array %r are not its points %r" % (A.tolist(), pts)
        else:
            for v, r in zip(order, A):
                if not all(close(x, y) for x, y in zip(r, pts[v])):
                    return "the array row of %r is %r, not %r" % (v, tuple(r), pts[v])
        if L.dim != d:
            return "its dimension is %r, not %d" % (L.dim, d)
        if len(L.center) != len(c) or not all(close(x, y) for x, y in zip(L.center, c)):
            return "its center is %r, not %r" % (tuple(L.center), c)
        if not close(float(L.scale), s):
            return "its scale is %r, not %r" % (float(L.scale), s)
        if dict(L.layout).keys() != pts.keys():
            return "its dictionary has other keys"

    def operations(G):
        nodes = list(G)
        n = len(nodes)
        pt = lambda i, d: tuple(((i * 3 + k * 5) % 7) - 2 + (k == 0) * 0.5 for k in range(d))
        ops = []
        for d in (1, 2, 3):
            ops.append(("layout=dict%d" % d, lambda L, d=d: setattr(L, "layout", {v: pt(i, d) for i, v in enumerate(nodes)}), lambda P, d=d: {v: pt(i, d) for i, v in enumerate(nodes)}))
        if n:
            ops.append(("layout=arrays", lambda L: setattr(L, "layout", {v: np.array([i, -i]) for i, v in enumerate(nodes)}), lambda P: {v: (i, -i) for i, v in enumerate(nodes)}))
            ops.append(("layout=coincident", lambda L: setattr(L, "layout", {v: [4, 4] for v in nodes}), lambda P: {v: (4, 4) for v in nodes}))
            try:
                order = sorted(nodes)
                ops.append(("array", lambda L: setattr(L, "layout_array", np.array([pt(2 * i + 1, 2) for i in range(n)])), lambda P: {v: pt(2 * i + 1, 2) for i, v in enumerate(order)}))
                ops.append(("array+1", lambda L: setattr(L, "layout_array", L.layout_array + 1), lambda P: {v: tuple(x + 1 for x in p) for v, p in P.items()}))
            except TypeError:
                ops.append(("array+1", lambda L: setattr(L, "layout_array", L.layout_array + 1), lambda P: {v: tuple(x + 1 for x in p) for v, p in P.items()}))
            for i, v in list(enumerate(nodes))[:2] + list(enumerate(nodes))[2:][-1:]:
                ops.append(("[%r]=" % (v,), lambda L, v=v, i=i: L.__setitem__(v, np.array(pt(i + 4, L.dim))), lambda P, v=v, i=i: dict(P, **{}) | {v: pt(i + 4, specs(P)[0])}))
            ops.append(("update", lambda L: L.update({nodes[0]: np.array(pt(9, L.dim)), nodes[-1]: np.array(pt(11, L.dim))}),
                        lambda P: P | {nodes[0]: pt(9, specs(P)[0])} | {nodes[-1]: pt(11, specs(P)[0])}))
        for d in (1, 2, 3, 4):
            ops.append(("dim=%d" % d, lambda L, d=d: setattr(L, "dim", d), lambda P, d=d: P if not P else ValueError if d < specs(P)[0] else m_dim(P, d)))
        for k, c in enumerate(((1, 2, 3, 4), (-7, 0.5, 0, 2), (0, 0, 0, 0))):
            ops.append(("center=%d" % k, lambda L, c=c: setattr(L, "center", c[:L.dim] if k else list(c[:L.dim])), lambda P, c=c: m_center(P, c) if P else P))
        for s in (2, 0.25, 1e-6, 1e6):
            ops.append(("scale=%g" % s, lambda L, s=s: setattr(L, "scale", s), lambda P, s=s: m_scale(P, s)))
        return ops

    def key(pts):
        return tuple(sorted((repr(v), tuple(round(x, 5) for x in p)) for v, p in pts.items()))
    depth = 3 if q else 4
    cases = []
    for name, G, pts in graphs():
        nodes = list(G)
        if not nodes:
            cases.append((name, G, {}, depth))
            continue
        if pts is None:
            n = len(nodes)
            grid = list(itertools.product((0, 1, 3), repeat=2))
            if n == 2:
                sets = list(itertools.product(grid, repeat=2))
            elif n == 3:
                sets = list(itertools.product(grid, repeat=3))[:: 3 if q else 2]
            else:
                sets = [tuple(x) for x in itertools.product([(0, 0), (1, 0), (3, 2)], repeat=4)][:: 2 if q else 1]
            sets += [tuple((float(x),) for x in y) for y in itertools.product((0, 2), repeat=n)]
            sets += [tuple((x, 1, -x) for x in y) for y in itertools.product((0, 2), repeat=n)]
            full = {0, len(sets) // 2, len(sets) - 1, len(sets) - 2 ** n}
            for k, s in enumerate(sets):
                cases.append((name, G, dict(zip(nodes, s)), depth if k in full else 2))
        else:
            for p in pts:
                cases.append((name, G, {nodes[0]: p}, depth))

    def one(case, r):
        name, G, start, depth = case
        ops = operations(G)
        info = dict(graph=name, edges=list(G.edges()), nodes=list(G), start=start)

        def fail(msg, seq):
            r.violation("Layout of the graph %r with %r after %r: %s" % (name, start, seq, msg), dict(info, operations=list(seq)))

        # constructor: every combination of the requested specs
        d0 = specs(start)[0]
        for dim in (None, d0, d0 + 1):
            for c in (None, 1):
                for s in (None, 3, 0.5):
                    given = {v: np.array(p) if s == 3 else tuple(p) for v, p in start.items()}
                    keep = dict(given)
                    cc = None if c is None else tuple(range(1, (dim or d0) + 1)) if start else (1, 2)
                    seq = ("Layout(dim=%r, center=%r, scale=%r)" % (dim, cc, s),)
                    try:
                        L = mml.Layout(G, given, dim=dim, center=cc, scale=s)
                    except Exception as e:
                        fail("raises %r" % (e,), seq)
                        continue
                    m = dict(start)
                    if dim and m:
                        m = m_dim(m, dim)
                    if s:
                        m = m_scale(m, s)
                    if cc is not None and m:
                        m = m_center(m, cc)
                    r.count("constructions")
                    f = compare(L, G, m)
                    if f:
                        fail(f, seq)
                    if given.keys() != keep.keys() or any(given[v] is not keep[v] for v in keep):
                        fail("the caller's dictionary was changed", seq)
        if r.violations:
            return

        def replay(seq):
            L = mml.Layout(G, dict(start))
            for i in seq:
                try:
                    ops[i][1](L)
                except ValueError:
                    pass
            return L
        seen = {key(start)}
        frontier = [((), dict(start))]
        r.count("states")
        for _ in range(depth):
            nxt = []
            for seq, pts in frontier:
                for i, (oname, do, model) in enumerate(ops):
                    L = replay(seq)
                    want = model(pts)
                    names = [ops[k][0] for k in seq] + [oname]
                    refused = None
                    before = (L.layout, {v: np.array(p, dtype=float) for v, p in L.items()})
                    try:
                        do(L)
                    except Exception as e:
                        refused = e
                    r.count("transitions")
                    if want is ValueError:
                        if not isinstance(refused, ValueError):
                            fail("accepted a smaller dimension" if refused is None else "raises %r" % refused, names)
                        want = dict(pts)
                    elif refused is not None:
                        fail("raises %r" % (refused,), names)
                        continue
                    f = compare(L, G, want)
                    if f:
                        fail(f, names)
                        if len(r.violations) > 2:
                            return
                        continue
                    k = key(want)
                    if k not in seen:
                        seen.add(k)
                        r.count("states")
                        nxt.append((seq + (i,), want))
                        r.nontrivial((name, key(start), k))
            r.count("traces", len(nxt))
            frontier = nxt
        if len(seen) > 100:
            r.sample("graph %r, start %r: %d states to depth %d" % (name, start, len(seen), depth))
    vf.run_cases(ctx, cases, one, cpu_limit=100 if q else 600, wall_limit=200 if q else 850, describe=lambda c: repr((c[0], c[2], c[3])))
    c = ctx.coverage
    c["states"] = ctx.counters.pop("states", 0)
    c["transitions"] = ctx.counters.pop("transitions", 0)
    c["traces_validated_against_impl"] = ctx.counters.pop("traces", 0)
    c["exhaustive"] = True
    c["rule"] = ("every transition executes its whole sequence on a new Layout object and compares the object with the model; a state is a set of points, "
                 "kept once per start; a trace is the first sequence that reached a state")
    ctx.assumptions += ["values of a layout are points of one dimension; deleting a vertex leaves a partial mapping about which nothing is claimed",
                        "a centre has as many coordinates as the layout; scales are positive; points that coincide cannot be scaled",
                        "coordinates are compared to 1e-7"]
