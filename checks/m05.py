"""M05: histories of preceding calls, relabelings, input forms and hash seeds never change a seeded result; inputs are not modified."""
import copy, itertools, json, os, pickle, random, subprocess, sys
import vf
LEVEL = "exploration"


class Weird:
    """a hashable label with a constant hash"""
    def __init__(self, k): self.k = k
    def __hash__(self): return 7
    def __eq__(self, o): return isinstance(o, Weird) and o.k == self.k
    def __repr__(self): return "W%d" % self.k
    def __deepcopy__(self, m): return self


def pool():
    return ["a", (1, 2), -1, -2, frozenset([3]), Weird(1), Weird(2), 2.5, ("x",), "0", 0, 10 ** 30, b"x", "", (), float("inf"), "b", 7]


def params_list():
    return [dict(), dict(tries=1, max_no_improvement=1), dict(return_overlap=True, max_fill=2), dict(inner_rounds=2, chainlength_patience=0, max_beta=2.0), dict(verbose=3), dict(skip_initialization=False, timeout=100)]


def problems(q):
    import networkx as nx
    from problems import atlas, relabel
    out = []
    for S in atlas(2, 4):
        for T in atlas(4, 5, True):
            out.append((S, T))
    big = [(nx.complete_graph(5), relabel(nx.grid_graph([4, 4]))), (nx.cycle_graph(7), relabel(nx.hypercube_graph(4))), (nx.petersen_graph(), relabel(nx.grid_graph([5, 5])))]
    return out, [(relabel(a), relabel(b)) for a, b in big]


def build(G, lab, form):
    """the same nodes and edges in the same order under other labels"""
    import networkx as nx
    E = [(lab[a], lab[b]) for a, b in G.edges()]
    if form == "graph":
        H = nx.Graph()
        H.add_nodes_from(lab[v] for v in G.nodes())
        H.add_edges_from(E)
        H.graph["keep"] = [1]
        return H
    if form == "gen":
        return (e for e in E)
    if form == "lists":
        return [list(e) for e in E]
    return tuple(E) if form == "tuple" else E


def hints(G, T):
    """hints in terms of the integer labels"""
    n, m = list(G.nodes()), list(T.nodes())
    return [dict(), dict(initial_chains={n[0]: [m[1], m[0]], n[-1]: [m[-1]]}), dict(fixed_chains={n[0]: [m[0]]}), dict(restrict_chains={n[0]: m[:3], n[1]: m[1:]}),
            dict(suspend_chains={n[0]: [[m[0], m[1]]], n[1]: [[m[2]], []]})]


def mapped(h, ls, lt):
    out = {}
    for k, d in h.items():
        out[k] = {ls[v]: ([[lt[q] for q in b] for b in c] if k == "suspend_chains" else [lt[q] for q in c]) for v, c in d.items()}
    return out


def call(S, T, **kw):
    import minorminer
    try:
        return minorminer.find_embedding(S, T, **kw)
    except RuntimeError as e:
        return ("raised", str(e))


def unmap(r, ls, lt):
    """result in terms of the integer labels"""
    if isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], dict):
        return unmap(r[0], ls, lt), r[1]
    if isinstance(r, dict):
        bs, bt = {l: v for v, l in ls.items()}, {l: v for v, l in lt.items()}
        return [(bs[v], [bt[x] for x in c]) for v, c in r.items()]
    return r


def history_alphabet():
    import networkx as nx
    import minorminer

    def failing():
        try:
            minorminer.find_embedding([(0, 1)], [(0, 1)], fixed_chains={5: [0]})
        except RuntimeError:
            pass

    def badparam():
        try:
            minorminer.find_embedding([(0, 1)], [(0, 1)], tries="x")
        except (TypeError, ValueError):
            pass

    def miner():
        m = minorminer.miner(nx.complete_graph(4), nx.grid_graph([3, 3]), random_seed=3, tries=1)
        m.quickpass(local_search=True)
        m.find_embedding()
        m.set_initial_chains({0: [(0, 0)]})
        m.improve_embeddings([m.find_embedding()])
    return [("other", lambda: minorminer.find_embedding(nx.complete_graph(3), nx.grid_graph([3, 3]), random_seed=9)),
            ("unseeded", lambda: minorminer.find_embedding(nx.path_graph(3), nx.cycle_graph(5))),
            ("failing", failing), ("badparam", badparam), ("miner", miner),
            ("timeout", lambda: minorminer.find_embedding(nx.complete_graph(5), nx.grid_graph([3, 3]), timeout=0)),
            ("infeasible", lambda: minorminer.find_embedding(nx.complete_graph(4), nx.path_graph(5), tries=1, return_overlap=True)),
            ("reseed", lambda: random.seed(1)),
            ("suspend", lambda: minorminer.find_embedding([("p", "q")], [(0, 1), (1, 2)], suspend_chains={"p": [[0]]}))]


def fresh(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, "wb") as f:
                pickle.dump(fn(), f)
            os._exit(0)
        except BaseException:
            import traceback
            traceback.print_exc()
            os._exit(1)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        d = f.read()
    _, st = os.waitpid(pid, 0)
    if st or not d:
        raise RuntimeError("baseline failed")
    return pickle.loads(d)


HASHPROG = r'''
import sys, json
sys.path[:0] = json.loads(sys.argv[1])
import networkx as nx, minorminer
from problems import atlas
out = []
for i, S in enumerate(atlas(2, 4)):
    for T in atlas(4, 5, True)[::4]:
        ls = {v: "s%d" % (v * 7919 % 101) for v in S}
        lt = {v: ("t%d" % (v * 104729 % 103), "u") for v in T}
        r = minorminer.find_embedding(nx.relabel_nodes(S, ls), nx.relabel_nodes(T, lt), random_seed=i, tries=2, initial_chains={ls[0]: [lt[1]]})
        out.append(repr(list(r.items())))
print(json.dumps(out))
'''


def run(ctx):
    pkg = vf.pypkg(["_minorminer"], opt="-O1", hook=True)
    vf.use_package(pkg)
    import minorminer
    import networkx as nx
    q = ctx.quick
    small, big = problems(q)
    ident = lambda G: {v: v for v in G.nodes()}

    # 1. the same request under other labels, input forms, and after nothing
    def relabelings(case, r):
        S, T = case
        ps = params_list()
        pass
        isolated = any(d == 0 for _, d in S.degree())
        P = pool()
        for hi, h in enumerate(hints(S, T)):
            for kw in ps if hi == 0 else ps[:1]:
                kw = dict(kw, random_seed=11, **({} if "tries" in kw else dict(tries=2)))
                base = unmap(call(build(S, ident(S), "graph"), build(T, ident(T), "graph"), **kw, **copy.deepcopy(h)), ident(S), ident(T))
                n, m = len(S), len(T)
                maps = []
                for k, off in enumerate(range(0, len(P), 3)):
                    R = P[off:] + P[:off]
                    maps.append((dict(zip(S.nodes(), R)), dict(zip(T.nodes(), R[3:] + R[:3]))))
                # all permutations of the source's own integers, and of the target's
                perms = list(itertools.permutations(range(n)))
                for p in perms if hi == 0 else perms[::(7 if q else 1)]:
                    maps.append((dict(zip(S.nodes(), p)), {v: (v + p[0]) % m for v in T.nodes()}))
                if not q and hi == 0:
                    for p in itertools.permutations(range(m)):
                        maps.append((ident(S), dict(zip(T.nodes(), p))))
                for i, (ls, lt) in enumerate(maps):
                    form = ["graph", "list", "tuple", "lists", "gen"][i % 5] if not isolated else "graph"
                    tform = ["graph", "tuple", "list"][i % 3]
                    A, B = build(S, ls, form), build(T, lt, tform)
                    hh = mapped(h, ls, lt)
                    keep = copy.deepcopy((A if form != "gen" else None, B, hh))
                    rs = random.getstate()
                    x = call(A, B, **kw, **hh)
                    r.count("executions")
                    if random.getstate() != rs:
                        r.violation("the call changes the state of Python's random module: S=%r" % (list(S.edges()),))
                    now = (A if form != "gen" else None, B, hh)
                    for a, b in zip(keep, now):
                        if isinstance(a, nx.Graph):
                            if list(a.nodes(data=True)) != list(b.nodes(data=True)) or list(a.edges(data=True)) != list(b.edges(data=True)) or a.graph != b.graph:
                                r.violation("input graph modified: S=%r T=%r %r %r" % (list(S.edges()), list(T.edges()), kw, h))
                        elif a != b:
                            r.violation("input modified from %r to %r: S=%r T=%r %r" % (a, b, list(S.edges()), list(T.edges()), kw))
                    y = unmap(x, ls, lt)
                    if y != base:
                        r.violation("labels %r / %r (%s, %s) give %r instead of %r for S=%r T=%r %r %r" % (ls, lt, form, tform, y, base, list(S.edges()), list(T.edges()), kw, h))
                    r.nontrivial((tuple(S.edges()), tuple(T.edges()), repr(base), hi, repr(kw)))
                if base and not r.samples:
                    r.sample("S=%r T=%r %r: %d labelings give %r" % (list(S.edges()), list(T.edges()), kw, len(maps), base))
    def init():
        sys.stdout = open(os.devnull, "w")
    vf.run_cases(ctx, small, relabelings, cpu_limit=120, wall_limit=600, init=init)
    ctx.log("relabelings", ctx.counters.get("executions"))

    # 2. histories
    reps = big + small[5::40]
    base = []
    for S, T in reps:
        base.append([fresh(lambda: unmap(call(S, T, **{**dict(random_seed=5, tries=2), **kw}), ident(S), ident(T))) for kw in params_list()])
    names = [n for n, _ in history_alphabet()]
    seqs = [()] + [s for k in range(1, 4 if q else 5) for s in itertools.product(range(len(names)), repeat=k)]

    def histories(seq, r):
        al = history_alphabet()
        for i, (S, T) in enumerate(reps):
            for a in seq:
                al[a][1]()
            for j, kw in enumerate(params_list()):
                x = unmap(call(S, T, **{**dict(random_seed=5, tries=2), **kw}), ident(S), ident(T))
                r.count("history_executions")
                if x != base[i][j]:
                    r.violation("after %r (and the earlier cases of this process) S=%r T=%r %r gives %r instead of %r" % ([names[a] for a in seq], list(S.edges()), list(T.edges()), kw, x, base[i][j]))
        r.nontrivial(("h", seq))
    vf.run_cases(ctx, seqs, histories, cpu_limit=200, wall_limit=900, init=init)
    ctx.log("histories", len(seqs), ctx.counters.get("history_executions"))

    # 3. hash seeds
    outs = {}
    path = json.dumps([pkg, vf.SITE, os.path.join(vf.VERIF, "lib")])
    ps = [(s, subprocess.Popen([sys.executable, "-c", HASHPROG, path], env=dict(os.environ, PYTHONHASHSEED=str(s), PYTHONDONTWRITEBYTECODE="1"), stdout=subprocess.PIPE, text=True)) for s in range(4 if q else 16)]
    for s, p in ps:
        o, _ = p.communicate()
        if p.returncode:
            raise vf.CheckError("hash seed run failed")
        outs[s] = json.loads(o)
    for s in outs:
        ctx.count("hash_seed_executions", len(outs[s]))
        for a, b in zip(outs[0], outs[s]):
            if a != b:
                ctx.violation("PYTHONHASHSEED=%d changes a result from %s to %s" % (s, a, b), dict(seed=s))
    c = ctx.coverage
    c["evaluations"] = ctx.counters.get("executions", 0) + ctx.counters.get("history_executions", 0) + ctx.counters.get("hash_seed_executions", 0)
    c["distinct_nontrivial"] = len(ctx.distinct)
    c["rule"] = ("one evaluation is one seeded find_embedding of the real extension compared with the same request under plain labels in a fresh state; "
                 "non-trivial = distinct (problem, parameters, hints) and distinct histories")
    c["histories"] = len(seqs)
    ctx.assumptions += ["the order of nodes and edges is kept when labels and input forms vary"]
