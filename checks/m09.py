"""M09: overlapped results over all small problems (feasible or not), fills, hints, every one-draw deviation."""
import itertools
import vf, mm
LEVEL = "exploration"


def subsets(n, kmax=9):
    for k in range(1, min(n, kmax) + 1):
        yield from itertools.combinations(range(n), k)


def s_(c):
    return "".join(map(str, c))


def run(ctx):
    b, pkg = vf.parallel(mm.binary, lambda: vf.pypkg(["_minorminer"], opt="-O1", hook=True))
    vf.use_package(pkg)
    import networkx as nx
    from problems import atlas, line, code, structured, relabel, connected_subsets
    q = ctx.quick

    def o(fill=None, may=None, **k):
        d = dict(tries=1, mni=2, clp=1, overlap=1, mayfail=int(fill is not None) if may is None else may)
        d.update(k)
        if fill:
            d["fill"] = fill
        return d
    A = []
    for S in atlas(1, 5):
        for T in atlas(2, 4, True):
            for fill in (1, 2, 3, None):
                A.append(line("ov/%s/%s/%s" % (code(S), code(T), fill), S, T, **o(fill)))
    for S in atlas(4, 5, True):
        for T in atlas(5, 5, True):
            for fill in (2, None):
                A.append(line("ov/%s/%s/%s" % (code(S), code(T), fill), S, T, **o(fill, tries=2, mni=4, clp=2)))
    B = []
    C = []
    D = []
    for S in atlas(2, 3):
        for T in atlas(3, 4, True):
            for fill in (1, 2, 3, None):
                for c in connected_subsets(T, 2):
                    if len(c) < len(T):
                        B.append(line("ovf/%s/%s/%s.%s" % (code(S), code(T), fill, s_(c)), S, T, fixed={0: c}, **o(fill, 1)))
                for r in subsets(len(T)):
                    C.append(line("ovr/%s/%s/%s.%s" % (code(S), code(T), fill, s_(r)), S, T, restr={v: r for v in S}, **o(fill, 1)))
                for c in subsets(len(T), 3):
                    for d in subsets(len(T), 2):
                        if fill == 1 and set(c) & set(d):
                            continue        # the hint itself exceeds the fill
                        D.append(line("ovi/%s/%s/%s.%s.%s" % (code(S), code(T), fill, s_(c), s_(d)), S, T, init={0: c, 1: d}, **o(fill, 1)))
    E = []
    for n in (8, 20, 40, 70):       # far more variables than nodes
        for T, tn in ((nx.path_graph(2), "P2"), (nx.complete_graph(3), "K3"), (nx.cycle_graph(4), "C4"), (nx.star_graph(3), "star3")):
            for S, sn in ((nx.star_graph(n - 1), "star"), (nx.path_graph(n), "path"), (nx.empty_graph(n), "empty"), (nx.complete_graph(min(n, 20)), "K")):
                for fill in (None, 10, 50):
                    E.append(line("heavy/%s%d/%s/%s" % (sn, n, tn, fill), S, T, seeds=1, dev=0 if q and n > 20 else 1, **o(fill, 1, tries=1, mni=1)))
    for S, T, n in structured():
        for fill in (1, 2, None):
            E.append(line(n + "/%s" % fill, S, T, **o(fill, tries=2, mni=3)))
            E.append(line(n + "/sw%s" % fill, T, S, **o(fill, tries=1, mni=2)))
    desc = []
    for name, lines, alts in (("all S<=5, T<=5, all fills", A, 3), ("with a fixed chain", B, 3), ("restricted", C, 3), ("with initial hints", D[::3] if q else D, 3), ("structured and heavily overfull", E, 3)):
        st = mm.run_problems(ctx, b, lines, dev=1, alts=alts if q else 6, seeds=1 if q else 3, env={"MMH_MAXPOS": "40" if q else "1000"})
        ctx.log(name, len(lines), st)
        desc.append("%s: %d problems, %d executions" % (name, len(lines), st.get("executions", 0)))
        if len(ctx.violations) > 5:
            break

    import pyo
    import minorminer
    cases = [(S, T) for S in atlas(0, 4) for T in atlas(2, 4, True)]

    def one(case, r):
        S, T = case
        lab = {v: ["x", 3, (1, 2), 2.5, "y"][v] for v in S}
        S, T = nx.relabel_nodes(S, lab), nx.relabel_nodes(T, {v: "t%d" % v for v in T})
        sa, ta = pyo.adj_of(S), pyo.adj_of(T)
        D = pyo.Draws()
        for kw in (dict(), dict(max_fill=2), dict(tries=1, max_no_improvement=1), dict(interactive=True)):
            for api in ("function", "miner"):
                def go():
                    try:
                        if api == "function":
                            return minorminer.find_embedding(S, T, return_overlap=True, random_seed=5, chainlength_patience=1, **{**dict(tries=2, max_no_improvement=2), **kw})
                        return minorminer.miner(S, T, return_overlap=True, random_seed=5, chainlength_patience=1, **{**dict(tries=2, max_no_improvement=2), **kw}).find_embedding()
                    except (RuntimeError, ValueError) as e:
                        return e
                for devs, e in D.executions(go, 3, maxpos=6 if q else 100):
                    r.count("python_executions")
                    if isinstance(e, Exception):
                        if not ("max_fill" in kw and "Failed during init" in str(e)) and not ("cowardly" in str(e) and not S.number_of_edges() ):
                            r.violation("unexpected %r for S=%r T=%r %r %s" % (e, list(S.edges()), list(T.edges()), kw, api))
                        continue
                    f = None
                    if not isinstance(e, tuple) or len(e) != 2:
                        f = "not a pair"
                    else:
                        emb, flag = e
                        bad = pyo.flaw(emb, sa, ta)
                        if bool(flag) != (bad is None):
                            f = "flag is %r but %s" % (flag, bad or "the mapping is valid")
                        else:
                            f = pyo.semi_flaw(emb, sa, ta)
                        if not f and "max_fill" in kw:
                            use = {}
                            for c in emb.values():
                                for x in c:
                                    use[x] = use.get(x, 0) + 1
                            if use and max(use.values()) > kw["max_fill"]:
                                f = "max_fill exceeded"
                    if f:
                        r.violation("%s: %r for S=%r T=%r %r %s draws %r" % (f, e, list(S.edges()), list(T.edges()), kw, api, devs))
                    r.nontrivial(repr(e))
    import os, sys

    def init():
        sys.stdout = open(os.devnull, "w")
    vf.run_cases(ctx, cases, one, cpu_limit=60, wall_limit=200, init=init)
    ctx.log("python", ctx.counters.get("python_executions"))
    c = ctx.coverage
    c["evaluations"] = ctx.counters.get("executions", 0) + ctx.counters.get("python_executions", 0)
    c["distinct_nontrivial"] = ctx.counters.get("semivalid_results", 0) + len(ctx.distinct)
    c["rule"] = "one evaluation is one search with overlaps requested and one draw deviation; non-trivial = results that are semi-valid but not valid (C++), distinct results (Python)"
    c["groups"] = desc
    ctx.assumptions += ["the maximum fill is claimed when the initial chains given respect it themselves"]
