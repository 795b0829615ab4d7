"""M02: fixed, restricted and suspended chains, every hint over small pairs, every one-draw deviation."""
import itertools, os
import vf, mm
LEVEL = "exploration"


def subsets(n, kmax=9):
    for k in range(1, min(n, kmax) + 1):
        yield from itertools.combinations(range(n), k)


def s_(c):
    return "".join(map(str, c))


def run(ctx):
    b, pkg = vf.parallel(mm.binary, lambda: vf.pypkg(["_minorminer"], opt="-O1", hook=True))
    vf.use_package(pkg)
    import networkx as nx
    from problems import atlas, line, code, structured, relabel, connected_subsets, embeddings
    q = ctx.quick

    def adj(T, a, c):
        return any(T.has_edge(x, y) for x in a for y in c)
    o = dict(tries=2, mni=3, clp=2, mayfail=1)
    G = []
    A = []
    for S in atlas(2, 3):
        for T in atlas(3, 5, True):
            for v in S.nodes():
                for c in connected_subsets(T):
                    if len(c) == len(T):
                        continue
                    A.append(line("f1/%s/%s/%d.%s" % (code(S), code(T), v, s_(c)), S, T, fixed={v: c}, **o))
            if len(S) == 3:
                for v, w in itertools.combinations(S.nodes(), 2):
                    cs = connected_subsets(T, 2 if len(T) == 5 else 9)
                    for c in cs:
                        for d in cs:
                            if set(c) & set(d) or len(c) + len(d) == len(T) or (S.has_edge(v, w) and not adj(T, c, d)):
                                continue
                            if q and len(T) == 5 and hash((c, d, v)) % 3 != 0:
                                continue
                            A.append(line("f2/%s/%s/%d%d.%s.%s" % (code(S), code(T), v, w, s_(c), s_(d)), S, T, fixed={v: c, w: d}, **o))
    for S in atlas(4, 4, True):
        for T in atlas(5, 5, True):
            for c in connected_subsets(T, 2):
                A.append(line("f4/%s/%s/%s" % (code(S), code(T), s_(c)), S, T, fixed={0: c}, **o))
    G.append(("fixed chains of one and two variables", A, 1, 3))
    B = []
    for S in atlas(2, 3):
        for T in atlas(3, 4, True):
            for c in connected_subsets(T, 2):
                if len(c) == len(T):
                    continue
                for d in subsets(len(T), 2):
                    for clp in (0, 2):
                        B.append(line("fi/%s/%s/%s.%s.%d" % (code(S), code(T), s_(c), s_(d), clp), S, T, fixed={0: c}, init={1: d}, tries=2, mni=3, clp=clp, mayfail=1))
    G.append(("fixed chains with initial hints, also on the fixed nodes", B, 1, 3))
    C = []
    for S in atlas(2, 3, True):
        for T in atlas(4, 4, True):
            for r0 in subsets(4):
                C.append(line("r1/%s/%s/%s" % (code(S), code(T), s_(r0)), S, T, restr={0: r0}, **o))
                for r1 in subsets(4):
                    if q and len(S) == 3 and hash((r0, r1)) % 2:
                        continue
                    C.append(line("r2/%s/%s/%s-%s" % (code(S), code(T), s_(r0), s_(r1)), S, T, restr={0: r0, 1: r1}, **o))
    for S in atlas(2, 4):
        for T in atlas(4, 5, True):
            for r in subsets(len(T)):
                C.append(line("rc/%s/%s/%s" % (code(S), code(T), s_(r)), S, T, restr={v: r for v in S}, tries=1, mni=2, clp=2, mayfail=1))
    for S in atlas(3, 3, True):     # three different restrictions
        for T in atlas(4, 4, True):
            for rs in itertools.product(list(subsets(4, 2)), repeat=3):
                if q and hash(rs) % 4 != 0:
                    continue
                C.append(line("r3/%s/%s/%s" % (code(S), code(T), "-".join(map(s_, rs))), S, T, restr=dict(enumerate(rs)), tries=1, mni=2, clp=2, mayfail=1))
    G.append(("restrictions of one, two and all variables", C, 1, 3))
    D = []
    for S in atlas(2, 4):
        for T in atlas(3, 4, True):
            for c in connected_subsets(T, 2):
                if len(c) == len(T):
                    continue
                for r in subsets(len(T)):
                    if set(r) <= set(c):
                        continue
                    D.append(line("rf/%s/%s/%s.%s" % (code(S), code(T), s_(r), s_(c)), S, T, restr={v: r for v in S if v}, fixed={0: c}, tries=1, mni=2, clp=2, mayfail=1))
    G.append(("fixed and restricted together", D if not q else D[::2], 1, 3))
    E = []
    for S in atlas(2, 3):
        for T in atlas(3, 4, True):
            for c in subsets(len(T)):
                for d in subsets(len(T)):
                    E.append(line("i2/%s/%s/%s.%s" % (code(S), code(T), s_(c), s_(d)), S, T, init={0: c, 1: d}, tries=2, mni=3, clp=2))
    G.append(("arbitrary initial hints", E if not q else E[::2], 1, 3))
    F = []
    for S, T, n in structured():
        # fix part of a known embedding, for every single variable and every pair; restrict everything to its nodes
        if len(T) > 20:
            continue
        embs = embeddings(S, T, limit=3, maxsize=3)
        for k, e in enumerate(embs):
            for v in S.nodes():
                F.append(line("%s/fix%d.%s" % (n, k, v), S, T, fixed={v: e[v]}, **o))
            for v, w in itertools.combinations(S.nodes(), 2):
                F.append(line("%s/fix%d.%s.%s" % (n, k, v, w), S, T, fixed={v: e[v], w: e[w]}, **o))
            u = sorted(set(itertools.chain.from_iterable(e.values())))
            F.append(line("%s/restr%d" % (n, k), S, T, restr={v: u for v in S}, **o))
    G.append(("structured pairs", F, 1, 3))
    H = []      # the same hints with several threads (each works on its own part of the target)
    for S in atlas(2, 3, True):
        for T in atlas(4, 5, True):
            n = len(T)
            for th in (2, 3):
                for r in subsets(n):
                    if 2 <= len(r) < n:
                        H.append(line("tr%d/%s/%s/%s" % (th, code(S), code(T), s_(r)), S, T, restr={v: r for v in S}, threads=th, **o))
                for c in connected_subsets(T, 2):
                    if len(c) < n:
                        H.append(line("tf%d/%s/%s/%s" % (th, code(S), code(T), s_(c)), S, T, fixed={0: c}, threads=th, **o))
    for S, T, n in structured():
        m = len(T)
        for th in (2, 3, 5):
            for k, R in enumerate((range(m // 2), range(m // 2, m), range(m // 4, m - m // 4), range(0, m, 2), range(1, m), range(m - 1))):
                H.append(line("tr%d/%s/%d" % (th, n, k), S, T, restr={v: R for v in S}, threads=th, **o))
    G.append(("restrictions and fixed chains with two, three and five threads", H, 0 if q else 1, 2))
    desc = []
    for name, lines, dev, alts in G:
        st = mm.run_problems(ctx, b, lines, dev=dev, alts=alts if q else 6, seeds=(3 if "threads" in name else 1) if q else 2, env={"MMH_MAXPOS": "6" if q else "200"} if "threads" in name else None)
        ctx.log(name, len(lines), st)
        desc.append("%s: %d problems, %d executions" % (name, len(lines), st.get("executions", 0)))
        if len(ctx.violations) > 5:
            break
    # ------------------------------------------------ through Python: suspension and every other hint by label
    import pyo
    cases = []
    for S in atlas(2, 3, True):
        for T in atlas(3, 4, True):
            n = len(T)
            for b1 in subsets(n, 2):
                cases.append((S, T, dict(suspend_chains={0: [b1]})))
                for b2 in subsets(n, 2):
                    cases.append((S, T, dict(suspend_chains={0: [b1, b2]})))
                    cases.append((S, T, dict(suspend_chains={0: [b1], 1: [b2, ()]})))
                for c in connected_subsets(T, 2):
                    if len(c) < n:
                        cases.append((S, T, dict(suspend_chains={0: [b1]}, fixed_chains={1: c})))
                        cases.append((S, T, dict(suspend_chains={1: [b1]}, initial_chains={0: c})))
                for r in subsets(n):
                    if len(r) >= 2:
                        cases.append((S, T, dict(suspend_chains={0: [b1]}, restrict_chains={v: r for v in S})))
    if q:
        cases = cases[ctx.seed % 2::2]
    from minorminer import find_embedding
    lab = ["a", ("t", 1), 2.5, "q0", frozenset([1]), None, -1]

    def one(case, r):
        S, T, kw = case
        D = pyo.Draws()
        LS = {v: ("s", v) for v in S.nodes()}
        LT = {v: lab[v] for v in T.nodes()}
        S2, T2 = nx.relabel_nodes(S, LS), nx.relabel_nodes(T, LT)
        kw2 = {}
        for k, m in kw.items():
            if k == "suspend_chains":
                kw2[k] = {LS[v]: [[LT[x] for x in bl] for bl in bs] for v, bs in m.items()}
            else:
                kw2[k] = {LS[v]: [LT[x] for x in c] for v, c in m.items()}
        sa, ta = pyo.adj_of(S2), pyo.adj_of(T2)

        def go():
            try:
                return find_embedding(S2, T2, random_seed=7, tries=2, max_no_improvement=3, chainlength_patience=2, **kw2)
            except (RuntimeError, ValueError) as e:
                return e
        for devs, e in D.executions(go, 3, maxpos=20 if q else 200):
            r.count("python_executions")
            if isinstance(e, Exception):
                # documented failure of an over-constrained problem
                if "Failed during initialization" not in str(e) and "too few nodes" not in str(e):
                    r.violation("unexpected %r for %r" % (e, (sorted(S.edges()), sorted(T.edges()), kw, devs)))
                continue
            if not e:
                continue
            r.count("python_successes")
            f = pyo.flaw(e, sa, ta)
            if f is None:
                for v, bs in kw2.get("suspend_chains", {}).items():
                    for bl in bs:
                        if bl and not set(bl) & set(e[v]):
                            f = "chain of %r misses the blob %r" % (v, bl)
                for v, c in kw2.get("fixed_chains", {}).items():
                    if set(c) != set(e[v]):
                        f = "fixed chain of %r changed" % (v,)
            if f:
                r.violation("%s: result %r for S=%r T=%r %r draws %r" % (f, e, sorted(S.edges()), sorted(T.edges()), kw, devs))
            r.nontrivial(repr(e))
        r.sample("S=%r T=%r %r" % (sorted(S.edges()), sorted(T.edges()), kw))
    vf.run_cases(ctx, cases, one, cpu_limit=60, wall_limit=120)
    ctx.log("python", ctx.counters.get("python_executions"), ctx.counters.get("python_successes"))
    c = ctx.coverage
    c["evaluations"] = ctx.counters.get("executions", 0) + ctx.counters.get("python_executions", 0)
    c["distinct_nontrivial"] = ctx.counters.get("distinct_embeddings", 0) + len(ctx.distinct)
    c["rule"] = "one evaluation is one search on the real code for one hint and one draw deviation; non-trivial = distinct returned embeddings"
    c["groups"] = desc + ["python: %d suspension/hint cases" % len(cases)]
    ctx.assumptions += ["fixed chains given are connected, disjoint and coupled where both ends of a source edge are fixed (the caller's duty)",
                        "a restriction is soft towards neighbours (module documentation): a chain must stay within the union of the restrictions of the variable and its neighbours; "
                        "nothing is claimed for a variable with an unrestricted or fixed neighbour"]
