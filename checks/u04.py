"""U04: the clique, biclique and grid helpers on every small lattice (perfect or with any one defect), every requested size and every way of asking."""
import itertools
import vf
LEVEL = "exploration"


def run(ctx):
    pkg = vf.pypkg(["busclique"], opt="-O1", flags=["-D_GLIBCXX_ASSERTIONS"])
    import pure
    import sys
    top = pure.use()
    for k in ("busclique",):
        del sys.modules["minorminer." + k]
        delattr(top, k)
    top.__path__ = [pkg + "/minorminer"]
    import networkx as nx
    import dwave.graphs as dg
    from bus import Home, Oracle, bases, damage
    from minorminer.utils import chimera, pegasus, zephyr
    from minorminer.busclique import busgraph_cache
    q = ctx.quick
    mod = dict(C=chimera, P=pegasus, Z=zephyr)
    B = bases()
    names = ["C1,1,1", "C1,1,2", "C1,1,3", "C1,1,4", "C1,2,1", "C2,1,1", "C2,2,1", "C1,2,2", "C2,1,2", "C2,2,2", "C1,3,2", "C2,3,1", "C3,3,1", "C2,2,3", "C2,3,2", "C1,1,8", "C2,2,4", "C3,3,2", "C2,4,2", "P2", "P2f", "P3", "Z1,1", "Z1,2", "Z1,4", "Z2,1", "Z2,2"]
    if not q:
        names += ["C3,3,3", "C3,3,4", "C4,4,2", "C4,4,4", "C2,2,8", "P4", "Z1,3", "Z2,3", "Z2,4", "Z3,2", "Z3,4"] + ["P2o%d" % i for i in range(8)]
    cases = []
    for b in names:
        g = B[b]()
        labs = [{}, dict(coordinates=True)] + ([dict(nice_coordinates=True)] if b in ("P2", "P3", "P4") else []) + [dict(data=False)]
        for lab in labs:
            cases.append(("graph", b, lab, (), ()))
        V, E = list(range(len(g))), list(range(g.number_of_edges()))      # by index
        n = 60 if q else 400
        sv, se = max(1, len(V) // n), max(1, len(E) // n)
        for i, v in enumerate(V[ctx.seed % sv::sv]):
            cases.append(("graph", b, labs[i % len(labs)], (v,), ()))
        for i, e in enumerate(E[ctx.seed % se::se]):
            cases.append(("graph", b, labs[i % len(labs)], (), (e,)))
        if len(V) <= 16:
            for i, vs in enumerate(itertools.combinations(V, 2)):
                if not q or i % 7 == ctx.seed % 7:
                    cases.append(("graph", b, {}, vs, ()))
            for i, es in enumerate(itertools.combinations(E, 2)):
                if not q or i % 31 == ctx.seed % 31:
                    cases.append(("graph", b, {}, (), es))
        cases.append(("graph", b, {}, V, ()))
        cases.append(("graph", b, {}, (), E))
    for m in range(1, 4 if q else 6):
        cases.append(("size", "P", (m,)))
        if m < 4:
            cases.append(("size", "Z", (m,)))
    shapes = [(m, n, t) for m in range(1, 4 if q else 5) for n in [None] + list(range(1, 4 if q else 5)) for t in (None, 1, 2, 3, 4, 5)]
    for s in shapes:
        cases.append(("size", "C", s))
        cases.append(("grid", s))
    cases.append(("arguments",))

    def labelings(k):
        """(what is given for k nodes, the labels expected)"""
        mixed = ["a", (0, 1), 7, -3, frozenset((1,)), 2.5, "bc", b"x"] + list(range(100, 100 + max(0, k - 8)))
        K = nx.complete_graph(k)
        out = [(lambda: k, range(k)), (lambda: mixed[:k], mixed[:k]), (lambda: tuple(range(5, 5 + k)), range(5, 5 + k)), (lambda: K, range(k)), (lambda: iter(range(k, 0, -1)), range(1, k + 1)), (lambda: set(mixed[:k]), mixed[:k]), (lambda: {x: 0 for x in mixed[:k]}, mixed[:k])]
        if 0 < k <= 8:
            out.append((lambda: "abcdefgh"[:k], "abcdefgh"[:k]))
        return out

    def biasks(a, b):
        A = [("x", i) for i in range(a)]
        Bn = ["y%d" % i for i in range(b)]
        out = [(lambda: (a, b), range(a), range(a, a + b)), (lambda: (A, Bn), A, Bn), (lambda: (A, b), A, range(b)), (lambda: (a, Bn), range(a), Bn), (lambda: (iter(A), set(Bn)), A, Bn), (lambda: (nx.empty_graph(a), Bn), range(a), Bn), (lambda: (range(b, b + a), range(b)), range(b, b + a), range(b))]
        return out

    def ask(fn, args, kw):
        try:
            return fn(*args, **kw)
        except ValueError as e:
            return e

    def helpers(M, where, g, ways, r, extra):
        """every size, in every way of giving the target and of giving the labels"""
        o = Oracle(g)
        c = busgraph_cache(g)
        big = len(c.largest_clique())
        lim = big + 2
        sizes = list(range(lim + 1)) if big <= 8 else [0, 1, 2, 3, big // 2, big - 1, big, big + 1, big + 2]
        turn = extra
        for k in sizes:
            L = labelings(k)
            for wi, (args, kw) in enumerate(ways):
                for li in range(len(L)) if big <= 4 else sorted({(turn + wi) % len(L), (turn + 3 * wi + 3) % len(L)}):
                    give, want = L[li]
                    w = "%s: find_clique_embedding(%r, *%r, **%s)" % (where, give(), args, sorted(kw))
                    vf.note(w)
                    try:
                        e = ask(M.find_clique_embedding, (give(),) + args, kw)
                    except Exception as x:
                        r.violation("%s raises %r" % (w, x))
                        return
                    r.count("answers")
                    if isinstance(e, ValueError):
                        if k <= big:
                            r.violation("%s raises %r, but a clique of size %d is known" % (w, e, big))
                            return
                        continue
                    f = o.clique(e, want) if set(e) == set(want) else "labels %r instead of %r" % (list(e), list(want))
                    if not f and k > big:
                        f = "the largest clique is said to have %d nodes" % big
                    if f:
                        r.violation("%s gives %r: %s" % (w, e, f))
                        return
                    if k > 1:
                        r.nontrivial((where, k, wi, li))
                turn += 1
        balanced = len(c.largest_balanced_biclique()) // 2
        pairs = [(a, b) for a in range(0, balanced + 2) for b in range(0, balanced + 2)]
        if len(pairs) > 30:
            pairs = [(a, b) for a, b in pairs if a in (0, 1, balanced - 1, balanced, balanced + 1) and b in (0, 1, 2, balanced, balanced + 1)]
        for a, b in pairs:
            A = biasks(a, b)
            for wi, (args, kw) in enumerate(ways):
                for li in range(len(A)) if balanced <= 2 else sorted({(turn + wi) % len(A)}):
                    give, wa, wb = A[li]
                    w = "%s: find_biclique_embedding(*%r, *%r, **%s)" % (where, give(), args, sorted(kw))
                    vf.note(w)
                    try:
                        e = ask(M.find_biclique_embedding, give() + args, kw)
                    except Exception as x:
                        r.violation("%s raises %r" % (w, x))
                        return
                    r.count("answers")
                    known = c.find_biclique_embedding(a, b)
                    if isinstance(e, ValueError):
                        if known:
                            r.violation("%s raises %r, but the biclique is known" % (w, e))
                            return
                        continue
                    if not (isinstance(e, tuple) and len(e) == 2):
                        r.violation("%s gives %r instead of two embeddings" % (w, e))
                        return
                    x, y = e
                    if set(x) != set(wa) or set(y) != set(wb):
                        f = "labels %r and %r instead of %r and %r" % (list(x), list(y), list(wa), list(wb))
                    else:
                        f = o.biclique({**x, **y}, wa, wb)
                    if f:
                        r.violation("%s gives %r: %s" % (w, e, f))
                        return
                    r.nontrivial((where, a, b, wi, li))
                turn += 1

    def one(case, r):
        home.wipe()
        kind = case[0]
        if kind == "graph":
            _, b, lab, nds, eds = case
            full = B[b](**lab)
            fv, fe = list(full), list(full.edges)
            g = damage(full, {fv[i % len(fv)] for i in nds}, {fe[i % len(fe)] for i in eds}) if fv else full
            M = mod[b[0]]
            ways = [((), dict(target_graph=g))]
            name = "%s %s - %r %r" % (b, sorted(lab), nds if len(nds) < 9 else "all nodes", eds if len(eds) < 9 else "all couplers")
            if b[0] == "C" and not lab:
                # given as edges: a node without one can't be said to be missing
                d = full.graph
                ge = full.copy()
                ge.remove_edges_from([e for e in full.edges if not g.has_edge(*e)])
                helpers(M, name + " as edges", ge, [((d["rows"], d["columns"], d["tile"]), dict(target_edges=list(g.edges))),
                                                   ((), dict(m=d["rows"], n=d["columns"], t=d["tile"], target_edges={tuple(reversed(e)) for e in g.edges}))], r, cases.index(case))
            before = list(g.nodes), list(g.edges), dict(g.graph)
            helpers(M, name, g, ways, r, len(cases) + cases.index(case))
            if (list(g.nodes), list(g.edges), dict(g.graph)) != before:
                r.violation("%r: the target graph was modified" % (case,))
        elif kind == "size":
            _, fam, s = case
            if fam == "C":
                m, n, t = s
                g = dg.chimera_graph(m, n or m, t or 4)
                kw = {k: v for k, v in dict(m=m, n=n, t=t).items() if v is not None}
                ways = [((), kw), ((m,), {k: v for k, v in kw.items() if k != "m"})] + ([((m, n), {k: v for k, v in kw.items() if k == "t"})] if n else []) + ([((m, n, t), {})] if n and t else [])
            else:
                g = dg.pegasus_graph(s[0]) if fam == "P" else dg.zephyr_graph(s[0])
                ways = [((), dict(m=s[0])), ((s[0],), {})]
            helpers(mod[fam], "%s%r" % (fam, s), g, ways, r, sum(x or 0 for x in s))
        elif kind == "grid":
            m, n, t = case[1]
            M, N, T = m, n or m, t or 4
            g = dg.chimera_graph(M, N, T)
            o = Oracle(g)
            kw = {k: v for k, v in dict(n=n, t=t).items() if v is not None}
            for nd in range(0, 5):
                for dim in itertools.product(*[range(0, x + 2) for x in (M, N, T, 1)[:nd]]):
                    for give in (list, tuple, iter):
                        w = "find_grid_embedding(%r, %d, %r)" % (dim, m, kw)
                        vf.note(w)
                        r.count("answers")
                        e = ask(chimera.find_grid_embedding, (give(dim), m), kw)
                        fits = 1 <= nd <= 3 and all(x <= y for x, y in zip(dim, (M, N, T)))
                        if isinstance(e, ValueError):
                            if fits:
                                r.violation("%s raises %r" % (w, e))
                                return
                            continue
                        if not fits:
                            r.violation("%s gives %r instead of a ValueError" % (w, e))
                            return
                        cells = list(itertools.product(*map(range, dim)))
                        key = (lambda x: x[0]) if nd == 1 else (lambda x: x)
                        if set(e) != set(map(key, cells)) or len(e) != len(cells):
                            r.violation("%s gives the keys %r" % (w, list(e)))
                            return
                        f = o.chains([tuple(c) for c in e.values()])
                        if not f:
                            for x in cells:
                                for i in range(nd):
                                    y = x[:i] + (x[i] + 1,) + x[i + 1:]
                                    if y[i] < dim[i] and not any(v in o.adj[u] for u in e[key(x)] for v in e[key(y)]):
                                        f = "no coupler between %r and %r" % (x, y)
                        if f:
                            r.violation("%s gives %r: %s" % (w, e, f))
                            return
                        if len(cells) > 1:
                            r.nontrivial((case, dim, give))
        else:
            for w, fn, want in [
                    ("no target at all, pegasus clique", lambda: pegasus.find_clique_embedding(2), TypeError), ("no target at all, zephyr clique", lambda: zephyr.find_clique_embedding(2), TypeError), ("no target at all, chimera clique", lambda: chimera.find_clique_embedding(2), TypeError),
                    ("no target at all, pegasus biclique", lambda: pegasus.find_biclique_embedding(2, 2), TypeError), ("no target at all, zephyr biclique", lambda: zephyr.find_biclique_embedding(2, 2), TypeError), ("no target at all, chimera biclique", lambda: chimera.find_biclique_embedding(2, 2), TypeError),
                    ("both targets", lambda: chimera.find_clique_embedding(2, target_graph=dg.chimera_graph(1), target_edges=[(0, 4)]), ValueError), ("both targets, biclique", lambda: chimera.find_biclique_embedding(2, 2, target_graph=dg.chimera_graph(1), target_edges=[(0, 4)]), ValueError)] + [
                    ("chimera size %r" % (a,), lambda a=a: chimera.find_clique_embedding(2, *a), (ValueError, TypeError)) for a in ((0,), (-1,), (1, 0), (1, -2), (1, 1, 0), (1.5,), (1, 1.5), (1, 1, 2.5), ("1",))] + [
                    ("grid in a chimera of size %r" % (a,), lambda a=a: chimera.find_grid_embedding([1], *a), (ValueError, TypeError)) for a in ((0,), (-1,), (1, 0), (1, -2), (1, 1, 0), (1.5,), (1, 1.5), (1, 1, 2.5), ("1",))] + [
                    ("overlapping labels in %s" % M.__name__, lambda M=M, a=a, b=b: M.find_biclique_embedding(a, b, 2), ValueError) for M in (chimera, pegasus, zephyr) for a, b in (("ab", "bc"), ([0, 1], 2), (2, [1]), ([1], [1]))]:
                vf.note(w)
                r.count("answers")
                try:
                    e = fn()
                except want:
                    continue
                except Exception as x:
                    e = x
                r.violation("%s: %r instead of an error" % (w, e))

    home = None

    def init():
        nonlocal home
        home = Home()
    try:
        vf.run_cases(ctx, cases, one, init=init, cpu_limit=60 if q else 500, wall_limit=150 if q else 850, describe=repr)
    finally:
        import glob, shutil
        for d in glob.glob("/dev/shm/vf_home_%d_*" % vf.MAIN) + glob.glob("/tmp/vf_home_%d_*" % vf.MAIN):
            shutil.rmtree(d, ignore_errors=True)
    ctx.log(dict(ctx.counters))
    c = ctx.coverage
    c["evaluations"] = ctx.counters.pop("answers", 0)
    c["distinct_nontrivial"] = len(ctx.distinct)
    c["rule"] = "one evaluation is one call of a helper; distinct: (target, size, way of giving target and labels) with an embedding of at least two nodes or a grid of at least two cells"
    c["exhaustive"] = False
    ctx.assumptions += ["what sizes exist is taken from the cache object (B01 to B03 judge that); here the helpers must agree with it and be valid",
                        "with all numbers given as ints; labels are distinct"]
