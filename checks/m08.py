"""M08: every valid embedding of every small problem as the start of an improvement, every one-draw deviation."""
import itertools
import vf, mm
LEVEL = "exploration"


def run(ctx):
    b, pkg = vf.parallel(mm.binary, lambda: vf.pypkg(["_minorminer"], opt="-O1", hook=True))
    vf.use_package(pkg)
    import networkx as nx
    from problems import atlas, line, code, structured, relabel, embeddings
    q = ctx.quick

    def largest(T):
        cs = sorted(nx.connected_components(T), key=len)
        return cs[-1] if len(cs) == 1 or len(cs[-2]) < len(cs[-1]) else set()

    def starts(S, T, pre, out, limit=None, step=1, maxsize=None, **o):
        for k, e in enumerate(embeddings(S, T, limit=limit, maxsize=maxsize)):
            if k % step:
                continue
            used = set(itertools.chain.from_iterable(e.values()))
            if not used <= largest(T):
                continue        # a start outside of the largest component is refused
            L = max(map(len, e.values()))
            n = sum(len(c) == L for c in e.values())
            opt = dict(tries=1, mni=2, clp=2, skip=1, mustsucceed=1, startlen=L, startnum=n)
            opt.update(o)
            out.append(line("%s/%d" % (pre, k), S, T, init={v: list(c) for v, c in e.items()}, **opt))
    A = []
    for S in atlas(1, 3):
        for T in atlas(2, 4, True):
            starts(S, T, "a/%s/%s" % (code(S), code(T)), A)
    B = []
    for S in atlas(2, 3, True):
        for T in atlas(5, 5, True):
            starts(S, T, "b/%s/%s" % (code(S), code(T)), B, step=7 if q else 1, clp=3)
    for S in atlas(4, 4, True):
        for T in atlas(5, 5, True):
            starts(S, T, "c/%s/%s" % (code(S), code(T)), B, step=11 if q else 1, clp=3)
    C = []
    for S in atlas(2, 4):
        for T in atlas(4, 6, False):
            starts(S, T, "d/%s/%s" % (code(S), code(T)), C, limit=40 if q else 400, step=9 if q else 1)
    D = []
    for S, T, n in structured():
        if len(T) <= 20:
            starts(S, T, n, D, limit=3000, step=100 if q else 10, maxsize=4, clp=4)
    # part of the variables fixed: the start is fixed + initial chains
    E = []
    for S in atlas(2, 3, True):
        for T in atlas(4, 4, True):
            for k, e in enumerate(embeddings(S, T)):
                L = max(map(len, e.values()))
                n = sum(len(c) == L for c in e.values())
                for v in S:
                    E.append(line("e/%s/%s/%d.%d" % (code(S), code(T), k, v), S, T, fixed={v: e[v]}, init={u: c for u, c in e.items() if u != v},
                                  tries=1, mni=2, clp=2, skip=1, mustsucceed=1))
    desc = []
    for name, lines, dev in (("all starts, T<=4", A, 1), ("starts in T=5", B, 1), ("disconnected targets", C, 1), ("structured", D, 1), ("one chain of the start fixed", E[::3] if q else E, 1)):
        st = mm.run_problems(ctx, b, lines, dev=dev, alts=3 if q else 6, seeds=1 if q else 2, env={"MMH_MAXPOS": "60" if q else "2000"})
        ctx.log(name, len(lines), st)
        desc.append("%s: %d starts, %d executions" % (name, len(lines), st.get("executions", 0)))
        if len(ctx.violations) > 5:
            break

    # what a search finds in larger targets, improved several times in a row
    import dwave.graphs as dg
    big = [(nx.complete_graph(5), nx.grid_graph([4, 4]), "K5_grid4"), (nx.complete_graph(4), nx.grid_graph([3, 4]), "K4_grid34"), (nx.cycle_graph(7), nx.grid_graph([4, 4]), "C7_grid4"),
           (nx.complete_bipartite_graph(3, 3), nx.grid_graph([3, 3, 2]), "K33_grid332"), (nx.petersen_graph(), nx.grid_graph([3, 4, 2]), "petersen_grid342"),
           (nx.complete_graph(6), dg.chimera_graph(2), "K6_C2"), (nx.grid_graph([3, 3]), dg.chimera_graph(2), "grid3_C2"), (nx.complete_graph(6), nx.grid_graph([5, 5]), "K6_grid5"),
           (nx.wheel_graph(7), nx.grid_graph([5, 4]), "wheel7_grid54"), (nx.hypercube_graph(3), nx.grid_graph([5, 5]), "cube_grid5"), (nx.complete_graph(8), dg.chimera_graph(3), "K8_C3"),
           (nx.complete_graph(7), dg.zephyr_graph(1), "K7_Z1"), (nx.path_graph(8), nx.grid_graph([3, 4]), "path8_grid34"), (nx.star_graph(7), nx.grid_graph([4, 4]), "star7_grid4"),
           (nx.disjoint_union(nx.complete_graph(4), nx.cycle_graph(4)), nx.grid_graph([4, 5]), "K4+C4_grid45"), (nx.complete_graph(5), nx.hexagonal_lattice_graph(3, 3), "K5_hex")]
    L = [line("%s/%d" % (n, c), relabel(S), relabel(T), tries=1, mni=4, clp=c, rounds_=4) for S, T, n in big for c in (1, 3)]
    st = mm.run_problems(ctx, b, L, mode="improve", dev=1, alts=2 if q else 4, seeds=24 if q else 200, env={"MMH_MAXPOS": "10" if q else "60"})
    ctx.log("repeated improvement", len(L), st)
    desc.append("repeated improvement in larger targets: %d problems, %d rounds, %d executions" % (len(L), st.get("improvement_rounds", 0), st.get("executions", 0)))

    # ------------------------------------------------------------ through Python: refused starts and improve_embeddings
    import pyo
    import minorminer
    cases = [(S, T) for S in atlas(2, 3) for T in atlas(3, 4, True) if S.number_of_edges()] + [(S, T) for S in atlas(3, 3, True) for T in atlas(4, 5, False)]

    def one(case, r):
        S, T = case
        sa, ta = pyo.adj_of(S), pyo.adj_of(T)
        subs = [c for k in (1, 2) for c in itertools.combinations(list(T), k)]
        big = largest(T)
        for chains in itertools.product([None] + subs, repeat=len(S)):
            start = {v: list(c) for v, c in zip(S, chains) if c is not None}
            r.count("python_starts")
            whole = len(start) == len(S)
            ok = whole and pyo.flaw(start, sa, ta) is None
            ok = ok and set(itertools.chain.from_iterable(start.values())) <= big
            semi = whole and pyo.semi_flaw(start, sa, ta) is None
            unlinked = not whole or any(not any((ta[x] & set(start[v])) or x in start[v] for x in start[u]) for u in sa for v in sa[u])
            for ov in (False, True):
                try:
                    e = minorminer.find_embedding(S, T, random_seed=1, tries=1, max_no_improvement=2, chainlength_patience=1, initial_chains=start, skip_initialization=True, return_overlap=ov)
                except (RuntimeError, ValueError):
                    r.count("python_refused")
                    if ok:
                        r.violation("a valid start was refused: S=%r T=%r start=%r" % (sorted(S.edges()), sorted(T.edges()), start))
                    continue
                if ov:
                    e, flag = e
                    f = pyo.flaw(e, sa, ta)
                    if bool(flag) != (f is None):
                        f = "flag is %r but %s" % (flag, f)
                    elif flag or not semi:
                        f = None if flag else f if not semi and pyo.semi_flaw(e, sa, ta) else None
                    else:
                        f = pyo.semi_flaw(e, sa, ta)
                else:
                    f = pyo.flaw(e, sa, ta) if e else ("a valid start ended without an embedding" if ok else None)
                if not f and unlinked:
                    f = "a start that is not linked was accepted: result %r" % (e,)
                if f and e and unlinked is False and not semi and ov:
                    # linked but with a disconnected chain: documented requirement of the hint, only the flag is judged
                    f = f if "flag" in f else None
                if f:
                    r.violation("%s: S=%r T=%r start=%r overlap=%r" % (f, sorted(S.edges()), sorted(T.edges()), start, ov))
                if ok and e and not ov:
                    a, b_ = sorted((len(c) for c in start.values()), reverse=True), sorted((len(c) for c in e.values()), reverse=True)
                    if (b_[0], b_.count(b_[0])) > (a[0], a.count(a[0])):
                        r.violation("improvement made it worse: %r -> %r S=%r T=%r" % (start, e, sorted(S.edges()), sorted(T.edges())))
                    r.nontrivial((repr(start), repr(e)))
            if ok:
                m = minorminer.miner(S, T, random_seed=2, skip_initialization=True, tries=1, chainlength_patience=2)
                e, = m.improve_embeddings([start])
                if pyo.flaw(e, sa, ta):
                    r.violation("improve_embeddings: %s: S=%r T=%r start=%r -> %r" % (pyo.flaw(e, sa, ta), sorted(S.edges()), sorted(T.edges()), start, e))
                elif m.quality_key(e) > m.quality_key(start) and max(map(len, e.values())) > max(map(len, start.values())):
                    r.violation("improve_embeddings made it worse: S=%r T=%r %r -> %r" % (sorted(S.edges()), sorted(T.edges()), start, e))
        r.sample("python: S=%r T=%r" % (sorted(S.edges()), sorted(T.edges())))
    vf.run_cases(ctx, cases, one, cpu_limit=60, wall_limit=200)
    ctx.log("python", {k: ctx.counters.get(k) for k in ("python_starts", "python_refused")})
    c = ctx.coverage
    c["evaluations"] = ctx.counters.get("executions", 0) + ctx.counters.get("python_starts", 0)
    c["distinct_nontrivial"] = ctx.counters.get("distinct_embeddings", 0) + len(ctx.distinct)
    c["rule"] = "one evaluation is one improvement of one start with one draw deviation; non-trivial = distinct results"
    c["groups"] = desc + ["python: %d problems, every assignment of no chain or a 1-2 node set to every variable as a start" % len(cases)]
    ctx.assumptions += ["better means (longest chain, number of longest chains), the order the documentation names",
                        "a start must lie in the one largest connected component of the target (the embedder uses no other)",
                        "which faulty starts are refused is only claimed for starts that leave a source edge unrepresented or a variable without a chain"]
