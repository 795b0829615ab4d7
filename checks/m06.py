"""M06: every sequence of miner operations up to a depth, on the real object, from a fresh object each time."""
import itertools
import vf, mm
LEVEL = "model_checking"


def run(ctx):
    b, pkg = vf.parallel(mm.binary, lambda: vf.pypkg(["_minorminer"], opt="-O1", hook=True))
    vf.use_package(pkg)
    import networkx as nx
    from problems import atlas, line, code, structured, relabel, connected_subsets
    q = ctx.quick
    o = dict(tries=2, mni=3, clp=2, mayfail=1)

    def easy(S, T):
        n = len(T)
        return int(T.number_of_edges() == n * (n - 1) // 2 and len(S) < n)
    G = []
    G.append(("S<=3, T<=4", [line(code(S) + "/" + code(T), S, T, easy=easy(S, T), **o) for S in atlas(1, 3) for T in atlas(3, 4, True)], 4 if q else 5))
    G.append(("S=4 connected, T=5 connected", [line(code(S) + "/" + code(T), S, T, easy=easy(S, T), **o) for S in atlas(4, 4, True) for T in atlas(5, 5, True)], 3 if q else 4))
    G.append(("S<=4, T disconnected", [line(code(S) + "/" + code(T), S, T, **o) for S in atlas(2, 4) for T in atlas(4, 5, False)], 2 if q else 3))
    F = []
    for S in atlas(2, 3):
        for T in atlas(4, 4, True):
            for c in connected_subsets(T, 2):
                F.append(line("f/%s/%s/%s" % (code(S), code(T), "".join(map(str, c))), S, T, fixed={0: c}, **o))
                F.append(line("i/%s/%s/%s" % (code(S), code(T), "".join(map(str, c))), S, T, init={0: c, 1: c}, **o))
    for S in atlas(2, 4):
        for T in atlas(4, 4, True):
            for r in itertools.combinations(range(4), 3):
                F.append(line("r/%s/%s/%s" % (code(S), code(T), "".join(map(str, r))), S, T, restr={v: r for v in S}, **o))
    G.append(("fixed, initial and restricted chains", F, 2 if q else 3))
    st_ = [(S, T, n) for S, T, n in structured()]
    G.append(("structured", [line(n, S, T, tries=2, mni=3, clp=2, mayfail=1) for S, T, n in st_], 3 if q else 4))
    desc = []
    for name, lines, depth in G:
        st = mm.run_problems(ctx, b, lines, mode="ops", dev=depth, seeds=1)
        ctx.log(name, depth, len(lines), st)
        desc.append("%s: %d problems, all sequences of up to %d of 13 operations, %d sequences" % (name, len(lines), depth, st.get("transitions", 0)))
        if len(ctx.violations) > 5:
            break

    # ------------------------------------------------------------ the Python object
    import pyo
    import minorminer
    V = minorminer.VARORDER
    pairs = [(S, T) for S in atlas(2, 3, True) for T in atlas(4, 4, True)] + [(S, T) for S in atlas(4, 4, True) for T in atlas(5, 5, True)[::4]]
    pairs += [(nx.complete_graph(4), nx.convert_node_labels_to_integers(nx.hypercube_graph(3))), (nx.disjoint_union(nx.complete_graph(3), nx.path_graph(2)), nx.cycle_graph(6))]
    if q:
        pairs = pairs[ctx.seed % 2::2]
    cases = []
    for S, T in pairs:
        cases.append((S, T, {}))
        cases.append((S, T, dict(return_overlap=True)))
        cases.append((S, T, dict(fixed_chains={0: [1]})))
    depth = 2 if q else 3
    OPS = ["find", "find2", "find2force", "qp", "qp_order", "qp_keepstate", "qp_local", "set_valid", "set_partial", "set_empty", "improve", "bad_order", "bad_chains"]

    def one(case, r):
        S, T, kw = case
        LS = {v: "abcdefg"[v] for v in S}
        LT = {v: (v, "t") for v in T}
        S, T = nx.relabel_nodes(S, LS), nx.relabel_nodes(T, LT)
        kw = dict(kw)
        if "fixed_chains" in kw:
            kw["fixed_chains"] = {"a": [(1, "t")]}
        sa, ta = pyo.adj_of(S), pyo.adj_of(T)
        fixed = kw.get("fixed_chains", {})
        par = dict(random_seed=3, tries=2, max_no_improvement=3, chainlength_patience=2, **kw)
        try:
            ref = minorminer.find_embedding(S, T, **par)
        except RuntimeError as e:
            ref = repr(e)
        try:
            valid = minorminer.find_embedding(S, T, random_seed=11, fixed_chains=fixed)
        except RuntimeError:
            valid = {}
        valid = {v: c for v, c in valid.items() if v not in fixed}
        part = dict(list(valid.items())[:1])
        easy = pyo.is_complete(ta) and len(sa) < len(ta) and not fixed

        def full(e, what):
            if kw.get("return_overlap"):
                e, ok = e
                f = pyo.flaw(e, sa, ta)
                if bool(ok) != (f is None):
                    return "flag %r but %s" % (ok, f)
                return pyo.semi_flaw(e, sa, ta)
            if not e:
                return "no embedding on an easy problem" if easy else None
            f = pyo.flaw(e, sa, ta)
            for v, c in fixed.items():
                if not f and set(e[v]) != set(c):
                    f = "fixed chain changed"
            return f

        def one_of_many(e):
            return full((e, pyo.flaw(e, sa, ta) is None) if kw.get("return_overlap") else e, "")

        def greedy(e, ob, fresh, clb=0, order=None):
            use = {}
            for v, c in e.items():
                if v not in sa or not c or len(set(c)) != len(c) or not pyo.connected(c, ta):
                    return "bad chain %r of %r" % (c, v)
                if clb and len(c) > clb and v not in fixed:
                    return "chain of %r longer than %d" % (v, clb)
                for x in c:
                    use[x] = use.get(x, 0) + 1
            if fresh and use and max(use.values()) > 1 + ob:
                return "overlap bound exceeded"
            for v in sa:
                for u in sa[v]:
                    if u in e and v in e and not any(ta[x] & set(e[v]) or x in e[v] for x in e[u]):
                        return "%r and %r are not linked" % (u, v)
            for v, c in fixed.items():
                if set(e.get(v, ())) != set(c):
                    return "fixed chain changed"
            return None
        for n in range(1, depth + 1):
            for seq in itertools.product(OPS, repeat=n):
                m = minorminer.miner(S, T, **par)
                r.count("transitions")
                if n == depth:
                    r.count("traces")
                f = None
                prevq = False
                for i, op in enumerate(seq):
                    try:
                        if op == "find":
                            e = m.find_embedding()
                            f = full(e, op)
                            if not f and n == 1 and e != ref:
                                f = "first search %r is not the function's %r" % (e, ref)
                        elif op == "find2":
                            for e in m.find_embeddings(2):
                                f = f or one_of_many(e)
                        elif op == "find2force":
                            if not easy:
                                continue
                            es = m.find_embeddings(2, force=True)
                            f = None if len(es) == 2 else "%d embeddings instead of 2" % len(es)
                            for e in es:
                                f = f or one_of_many(e)
                        elif op == "qp":
                            f = greedy(m.quickpass(overlap_bound=1), 1, True)
                        elif op == "qp_order":
                            f = greedy(m.quickpass(varorder=list(sa)[::-1], chainlength_bound=2), 0, True, 2)
                        elif op == "qp_keepstate":
                            f = greedy(m.quickpass(clear_first=False, strategy=V.VARORDER_DFS), 0, True)
                        elif op == "qp_local":
                            f = greedy(m.quickpass(clear_first=False, local_search=True, strategy=V.VARORDER_SHUFFLE), 0, True)
                        elif op == "set_valid":
                            m.set_initial_chains(valid)
                        elif op == "set_partial":
                            m.set_initial_chains(part)
                        elif op == "set_empty":
                            m.set_initial_chains({})
                        elif op == "improve":
                            es = m.improve_embeddings([valid, part])
                            f = None if len(es) == 2 else "%d embeddings instead of 2" % len(es)
                            for e in es:
                                f = f or one_of_many(e)
                        elif op == "bad_order":
                            try:
                                m.quickpass(varorder=["nobody"])
                                f = "unknown variable accepted"
                            except ValueError:
                                pass
                        elif op == "bad_chains":
                            try:
                                m.set_initial_chains({"nobody": [(0, "t")]})
                                f = "unknown variable accepted"
                            except (ValueError, RuntimeError):
                                pass
                    except RuntimeError as x:
                        if "Failed during initialization" not in str(x):
                            f = "unexpected %r" % (x,)
                    if f:
                        r.violation("%s: S=%r T=%r %r after %r" % (f, sorted(S.edges()), sorted(T.edges()), kw, seq[:i + 1]))
                        return
                r.nontrivial((case[0].number_of_edges(), repr(case), seq))
        r.sample("python S=%r T=%r %r" % (sorted(S.edges()), sorted(T.edges()), kw))
    vf.run_cases(ctx, cases, one, cpu_limit=120, wall_limit=300)
    ctx.log("python", len(cases), ctx.counters.get("transitions"))
    c = ctx.coverage
    c["states"] = ctx.counters.get("states", 0)
    c["transitions"] = ctx.counters.get("transitions", 0)
    c["traces_validated_against_impl"] = ctx.counters.pop("traces", 0)
    c["groups"] = desc + ["python: %d problems, all sequences of up to %d of %d operations" % (len(cases), depth, len(OPS))]
    c["rule"] = ("the explored system is the implementation itself: each sequence is executed from a fresh object and its last step is judged by an independent oracle; "
                 "states are distinct (observable chains, number of draws) pairs")
    ctx.assumptions += ["one generator seed per problem", "the overlap bound of a greedy pass is claimed for passes that visit every variable (or start from nothing)"]
