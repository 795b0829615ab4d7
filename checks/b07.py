"""B07: every target is served its own cached answers, whatever other targets were cached before."""
import itertools
import vf
LEVEL = "exploration"


def pools(q):
    """groups of targets that share one cache directory: name -> list of (description, constructor)"""
    from bus import bases, damage
    import dwave.graphs as dg
    B = bases()
    P = {}

    def var(b, nds, eds, **k):
        return ("%s%s - %r %r" % (b, sorted(k), nds, eds), lambda: damage(B[b](**k), nds, eds))
    names = ["C1,1,2", "C1,2,1", "C2,1,1", "C1,1,4", "C2,2,1", "C2,2,2", "C3,3,1", "C3,3,2", "C2,4,2", "Z1,1", "Z1,2", "Z2,1", "P2", "P2f"]
    names += [] if q else ["C2,2,3", "C2,2,4", "C3,3,3", "Z1,3", "Z1,4", "Z2,2", "P3"] + ["P2o%d" % i for i in range(8)]
    for b in names:
        g = B[b]()
        V, E = sorted(g.nodes()), sorted(g.edges())
        L = [var(b, (), ())] + [var(b, (v,), ()) for v in V] + [var(b, (), (e,)) for e in E]
        if len(L) < 40:
            L += [var(b, x, ()) for x in itertools.combinations(V, 2)] + [var(b, (), x) for x in itertools.combinations(E, 2)]
        for kw in (("coordinates",), ("nice_coordinates",)):
            if kw[0] == "coordinates" or b == "P2":
                h = B[b](**{kw[0]: True})
                L += [("%s %s" % (b, kw[0]), lambda kw=kw, b=b: B[b](**{kw[0]: True}))]
        # the directory keeps 100 files, so that groups of 90 never lose one
        for i in range(0, len(L), 89):
            P["%s/%d" % (b, i // 89)] = L[:1] + L[1:][i:i + 89]
        if len(L) > 89:
            P[b + "/spread"] = L[:1] + L[1::(len(L) + 87) // 88]
            # more than fit: old ones are thrown out along the way
            P[b + "/all"] = L
    P["shapes"] = [var(b, (), ()) for b in B if b not in ("C4,4,4", "Z3,4", "P4")]
    P["shapes with labels"] = [var(b, (), (), coordinates=True) for b in B if b not in ("C4,4,4", "Z3,4", "P4")]
    # shapes of the same extent, each with one missing part
    for n, bs in (("one by n", ["C1,1,1", "C1,1,2", "C1,1,3", "C1,1,4", "C1,2,1", "C2,1,1", "C1,2,2", "C2,1,2"]), ("rectangles", ["C2,3,1", "C3,2,1", "C3,3,1"]), ("six cells", ["C2,3,1", "C3,2,1", "C1,3,2"]),
                  ("offsets", ["P2", "P2f", "P2o0", "P2o1", "P2o2", "P2o3", "P2o4", "P2o5", "P2o6", "P2o7"]), ("tiles", ["Z1,1", "Z1,2", "Z1,3", "Z1,4"]), ("zephyrs", ["Z1,2", "Z2,1", "Z3,1"])):
        L = []
        for b in bs:
            V = sorted(B[b]().nodes())
            L += [var(b, (), ())] + [var(b, (v,), ()) for v in V[:max(4, 88 // len(bs))]]
        P[n] = L[:95]
    return P


def run(ctx):
    pkg = vf.pypkg(["busclique"], opt="-O1", flags=["-D_GLIBCXX_ASSERTIONS"])
    vf.use_package(pkg)
    from minorminer import busclique as bc
    from bus import Home, Oracle
    import glob, shutil
    q = ctx.quick
    P = pools(q)
    cases = [(n, o, k) for n in P for o in (1, -1) for k in ("plain", "insert", "bicliques") if not (q and k == "bicliques" and o < 0)]
    cases.sort(key=lambda c: -len(P[c[0]]))
    home = {}

    def init():
        home["h"] = Home()

    def one(case, r):
        name, order, kind = case
        home["h"].wipe()
        L = P[name][::order]
        T = []
        for d, f in L:
            g = f()
            T.append((d, g, Oracle(g)))

        def look(g, o, where):
            vf.note(where)
            c = bc.busgraph_cache(g)
            if kind == "bicliques":
                e = c.largest_balanced_biclique()
                s = len(e) // 2
                ask = [(s, s, e)] + [(a, b, c.find_biclique_embedding(a, b)) for a, b in ((1, 1), (1, 2), (2, 1), (2, 2), (1, s), (s, 1), (s, s + 1), (s + 1, s), (1, s + 2))]
                for a, b, e in ask:
                    r.count("answers")
                    w = e and o.biclique(e, range(a), range(a, a + b))
                    if w:
                        r.violation("%s: K_{%d,%d} is served as %r: %s" % (where, a, b, e, w))
                return
            top = c.largest_clique()
            for n in range(1, len(top) + 2):
                e = c.find_clique_embedding(n) if n % 2 else bc.find_clique_embedding(n, g)
                r.count("answers")
                w = e and o.clique(e, range(n))
                if w:
                    r.violation("%s: K_%d is served as %r: %s" % (where, n, e, w))
            w = o.clique(top, range(len(top)))
            if w:
                r.violation("%s: the largest clique is served as %r: %s" % (where, top, w))
            for l in (1, 2, 3):
                e = c.largest_clique_by_chainlength(l)
                w = o.clique(e, range(len(e)))
                r.count("answers")
                if w:
                    r.violation("%s: the largest clique with chains of at most %d is served as %r: %s" % (where, l, e, w))
        if kind == "insert":
            # each object saves a K2 on a coupler of its own, then all are looked up
            for i, (d, g, o) in enumerate(T):
                E = list(g.edges())
                c = bc.busgraph_cache(g)
                c.largest_clique()
                if E:
                    # a coupler that some other target of the group lacks, if there is one
                    e = E[i * 7 % len(E)]
                    if i % 2:
                        e = next((x for x in E[i * 7 % len(E):] + E[:i * 7 % len(E)] if any(not h.has_edge(*x) for _, h, _ in T)), e)
                    c.insert_clique_embedding([(e[0],), (e[1],)], direct=True)
                    r.count("inserted")
        for rnd in (0, 1):
            for d, g, o in T:
                look(g, o, "%s, looked up %s after %d others (%s, order %d)" % (d, "again" if rnd else "first", len(T), kind, order))
                r.count("lookups")
                if r.violations:
                    return
        for d, g, o in T:
            r.nontrivial((d, kind, order, name))
        if not r.samples and kind == "plain":
            r.sample("%s: %d targets in one directory, order %d" % (name, len(T), order))
    mine = set(glob.glob("/dev/shm/vf_home_%d_*" % vf.MAIN))
    try:
        vf.run_cases(ctx, cases, one, cpu_limit=100, wall_limit=300, init=init)
    finally:
        for x in set(glob.glob("/dev/shm/vf_home_%d_*" % vf.MAIN)) - mine:
            shutil.rmtree(x, ignore_errors=True)
    c = ctx.coverage
    c["evaluations"] = ctx.counters.get("answers", 0)
    c["distinct_nontrivial"] = len(ctx.distinct)
    c["rule"] = "one evaluation is one cached answer judged in its own target; distinct = distinct (target, group and order of the targets sharing the directory, kind of use)"
    ctx.assumptions += ["targets of the listed sizes with up to one or two missing parts; groups of up to 90 share a directory, with two orders each"]
