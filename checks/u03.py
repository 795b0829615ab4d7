"""U03: every sequence of answers an embedder can give to the multiple and sublattice searches, within a bound on unusual answers; every deadline."""
import itertools, time, warnings
import vf
LEVEL = "exploration"
CLOCKS = ("perf_counter", "monotonic", "time", "process_time", "perf_counter_ns", "monotonic_ns", "time_ns", "process_time_ns")


def mono(S, T, rev=False):
    """the first one-to-one map of S into T preserving edges, by backtracking, or None"""
    T = {v: set(T[v]) for v in T}
    order, left = [], list(S)
    while left:     # connected order where possible
        v = next((x for x in left if any(y in S[x] for y in order)), left[0])
        order.append(v)
        left.remove(v)
    nodes = list(T)
    if rev:
        nodes.reverse()
    deg = {v: sum(x != v for x in S[v]) for v in S}
    emb, used = {}, set()

    def go(i):
        if i == len(order):
            return True
        v = order[i]
        near = [emb[x] for x in S[v] if x in emb and x != v]
        cand = [x for x in nodes if x in T[near[0]]] if near else nodes
        for c in cand:
            if c in used or len(T[c]) < deg[v] or any(c not in T[x] for x in near[1:]):
                continue
            emb[v] = c
            used.add(c)
            if go(i + 1):
                return True
            del emb[v]
            used.discard(c)
        return False
    return {v: emb[v] for v in order} if go(0) else None


def chained(S, T, typ, rev=False, split=True):
    """a map to chains: one-to-one where possible, else with one source node split in two; an unneeded neighbor is added to a chain when `split`"""
    m = mono(S, T, rev)
    if m is not None:
        e = {v: [x] for v, x in m.items()}
        if split:
            used = set(m.values())
            for v in e:
                extra = [x for x in T[m[v]] if x not in used]
                if extra:
                    e[v].append(extra[0])
                    break
        return {v: typ(c) for v, c in e.items()}
    for v in S:     # split v into v and a new node, every way
        N = [x for x in S[v] if x != v]
        for k in range(1, len(N) // 2 + 1):
            for mv in itertools.combinations(N, k):
                H = S.copy()
                new = ("split", v)
                H.remove_edges_from((v, x) for x in mv)
                H.add_edges_from((new, x) for x in mv)
                H.add_edge(v, new)
                m = mono(H, T, rev)
                if m is not None:
                    return {u: typ([m[u], m[new]] if u == v else [m[u]]) for u in S}
    return None


class Explorer:
    """depth-first over the embedder's answers: the usual one, another one, failure; a bounded number of unusual answers"""
    def __init__(self, kind, depth):
        self.kind, self.depth, self.memo = kind, depth, {}

    def answers(self, S, T):
        key = tuple(S), tuple(T), tuple(T.edges)
        if key not in self.memo:
            self.memo[key] = self.fresh(S, {v: list(T[v]) for v in T})
        return self.memo[key]

    def fresh(self, S, T):
        k = self.kind
        if k == "node":
            a, b = mono(S, T), mono(S, T, True)
        else:
            typ = {"list": list, "tuple": tuple, "set": set, "frozenset": frozenset}[k]
            a, b = chained(S, T, typ), chained(S, T, typ, True, False)
        out = [a] if a is not None else []
        if b is not None and b != a:
            out.append(b)
        return out + [{}]

    def runs(self, call):
        """call(embedder) -> result; yields (result, log) for every sequence"""
        script = []
        while True:
            log = []

            def embedder(S, T, **kw):
                i = len(log)
                opts = self.answers(S, T)
                dev = sum(x["pick"] > 0 for x in log)
                pick = script[i] if i < len(script) else 0
                n = len(opts) if dev < self.depth else 1
                log.append(dict(pick=pick, options=n, failed=not opts[pick] and len(opts) > 1, emb=opts[pick], nodes=list(T), edges=[frozenset(e) for e in T.edges], snodes=list(S), sedges={frozenset(e) for e in S.edges}, kw=kw))
                vf.note("answers %r" % ([x["pick"] for x in log],))
                e = opts[pick]
                return {u: (c.copy() if isinstance(c, (list, set)) else c) for u, c in e.items()}
            yield call(embedder), log
            while log and log[-1]["pick"] + 1 >= log[-1]["options"]:
                log.pop()
            if not log:
                return
            script = [x["pick"] for x in log]
            script[-1] += 1


def run(ctx):
    import pure
    real = {k: getattr(time, k) for k in CLOCKS}
    now = [None]

    def clock(k):
        def f():
            if now[0] is None:
                return real[k]()
            return int(now[0] * 10**9) if k.endswith("_ns") else float(now[0])
        return f
    for k in CLOCKS:
        setattr(time, k, clock(k))
    default = [None]
    try:
        pure.use(subgraph=dict(find_subgraph=lambda S, T, **kw: default[0](S, T, **kw)))
        import networkx as nx, numpy as np
        import dwave.graphs as dg
        from minorminer.utils import parallel_embeddings as pe
    finally:
        for k in CLOCKS:
            setattr(time, k, real[k])
    # whichever way the module reads the time, it reads ours
    shim = type(time)("time")
    shim.__dict__.update(time.__dict__)
    for k in CLOCKS:
        setattr(shim, k, clock(k))
        if k in pe.__dict__:
            pe.__dict__[k] = getattr(shim, k)
    for k, v in list(pe.__dict__.items()):
        if v is time:
            pe.__dict__[k] = shim
    warnings.simplefilter("ignore")
    from problems import atlas
    q = ctx.quick

    def graph(n, E, label=lambda x: x):
        G = nx.Graph()
        G.add_nodes_from(label(x) for x in range(n))
        G.add_edges_from((label(a), label(b)) for a, b in E)
        return G

    sources = {"K1": nx.complete_graph(1), "K2": nx.complete_graph(2), "2K1": nx.empty_graph(2), "P3": nx.path_graph(3), "K3": nx.complete_graph(3), "C4": nx.cycle_graph(4), "K13": nx.star_graph(3), "K4": nx.complete_graph(4), "K2+K1": graph(3, [(0, 1)]), "P4": nx.path_graph(4), "K14": nx.star_graph(4), "K23": nx.complete_bipartite_graph(2, 3), "2K2": graph(4, [(0, 1), (2, 3)])}
    named = {k: nx.relabel_nodes(g, {0: "a", 1: ("b", 1), 2: -5, 3: 3.5}) for k, g in sources.items()}
    EMB = ("node", "list", "tuple", "set", "frozenset")
    cases = []
    for n in range(1, 7):
        A = atlas(n, n) if n < 6 else atlas(n, n, True)
        st = {4: 2, 5: 6, 6: 20}.get(n, 1) if q else {5: 1, 6: 3}.get(n, 1)
        for k in range(ctx.seed % st, len(A), st):
            for s in sources:
                if len(sources[s]) <= n:
                    cases.append(("multi", n, k, s))
    for name in ("grid 3 3", "grid 3 4", "cycle 9", "cubes", "K8", "petersen"):
        for s in sources:
            cases.append(("multi", name, 0, s))
    lat = []
    for t in (1, 2, 4):
        for m, n in ((1, 1), (1, 2), (2, 2), (2, 3), (3, 3)):
            lat.append(("chimera", dict(m=m, n=n, t=t)))
    lat += [("pegasus", dict(m=2)), ("pegasus", dict(m=3)), ("zephyr", dict(m=1, t=1)), ("zephyr", dict(m=2, t=1)), ("zephyr", dict(m=1, t=2)), ("zephyr", dict(m=2, t=2)), ("zephyr", dict(m=3, t=1))]
    if not q:
        lat += [("chimera", dict(m=4, n=4, t=2)), ("chimera", dict(m=4, n=2, t=4)), ("pegasus", dict(m=4)), ("zephyr", dict(m=3, t=2)), ("zephyr", dict(m=2, t=4))]
    lsources = ("K1", "K2", "P3", "C4", "K13", "K3", "K4", "K14") + (() if q else ("P4", "K23", "2K2", "2K1"))
    for fam, kw in lat:
        for s in lsources:
            for label in ("int", "coord"):
                for defects in range(4 if q else 8):
                    if q and len(lat) and (label == "coord") and defects % 2:
                        continue
                    cases.append(("sub", fam, kw, s, label, defects))
    for s in ("K2", "P3", "C4", "K3"):
        cases.append(("clock", s))
    cases.append(("arrays",))
    cases.append(("shuffle",))
    cases.append(("size",))

    def snap(G):
        return list(G.nodes(data=True)), [(a, b, dict(d)) for a, b, d in G.edges(data=True)], {k: v for k, v in G.graph.items()}

    def chains(emb, kind):
        return {u: ([c] if kind == "node" else list(c)) for u, c in emb.items()}

    def faults(embs, S, T, kind, limit):
        """None or why the list isn't a list of disjoint embeddings"""
        if not isinstance(embs, list):
            return "isn't a list"
        if limit is not None and len(embs) > limit:
            return "has %d embeddings when %r were asked for" % (len(embs), limit)
        used = set()
        for e in embs:
            if kind != "node" and any(isinstance(c, (str, int)) for c in e.values()):
                return "contains %r whose chains aren't chains" % (e,)
            c = chains(e, kind)
            if set(c) != set(S):
                return "contains %r which has other variables" % (e,)
            mine = set()
            for u, ch in c.items():
                if not ch or any(x not in T for x in ch):
                    return "contains %r which uses nodes not in the target" % (e,)
                if len(set(ch)) != len(ch) or mine & set(ch):
                    return "contains %r which uses a node twice" % (e,)
                mine |= set(ch)
                if len(ch) > 1 and not nx.is_connected(T.subgraph(ch)):
                    return "contains %r with a disconnected chain" % (e,)
            for a, b in S.edges:
                if a != b and not any(y in T[x] for x in c[a] for y in c[b]):
                    return "contains %r which misses the edge %r" % (e, (a, b))
            if used & mine:
                return "contains embeddings which overlap: %r" % (embs,)
            used |= mine
        return None

    def usednodes(embs, kind):
        return {x for e in embs for c in chains(e, kind).values() for x in c}

    def loglegal(log, S, T, kind, shuffled):
        """every graph shown to the embedder is what remains of a part of the target, or None"""
        for x in log:
            if set(x["snodes"]) != set(S) or x["sedges"] != {frozenset(e) for e in S.edges}:
                return "the embedder was asked to embed another source graph"
        return None

    def targets(n, k):
        if isinstance(n, int):
            A = atlas(n, n) if n < 6 else atlas(n, n, True)
            return A[k].copy()
        if n.startswith("grid"):
            _, a, b = n.split()
            return nx.grid_2d_graph(int(a), int(b))
        return {"cycle 9": lambda: nx.cycle_graph(9), "cubes": lambda: nx.disjoint_union(nx.hypercube_graph(2), nx.hypercube_graph(3)), "K8": lambda: nx.complete_graph(8), "petersen": nx.petersen_graph}[n]()

    def multi(case, r):
        _, n, k, s = case
        T0 = targets(n, k)
        small = isinstance(n, int)
        for S, kind in ((sources[s], "node"), (sources[s], "list"), (named[s], "node"), (sources[s], "tuple"), (sources[s], "set"), (sources[s], "frozenset")):
            if kind in ("set", "frozenset") and small and q:
                continue
            for maxn in (None, 0, 1, 2, 3) if small or not q else (None, 2):
                for filt in (True, False):
                    for shuffle in (False, True):
                        for fn in ("find_multiple_embeddings", "find_sublattice_embeddings"):
                            if fn == "find_sublattice_embeddings" and (maxn in (1, 3) or filt != shuffle):
                                continue
                            ex = Explorer(kind, 1 if q else 2)
                            seed = 3 if shuffle else None
                            T = T0.copy()
                            before, sbefore = snap(T), snap(S)
                            kw = dict(max_num_emb=maxn, use_filter=filt, shuffle_all_graphs=shuffle, seed=seed)
                            if kind != "node":
                                kw["one_to_iterable"] = True
                            ek = dict(a=[1]) if shuffle else None
                            if ek:
                                kw["embedder_kwargs"] = ek
                            name = "%s(S=%s on %r, T=%r, embedder -> %s, %s)" % (fn, s, list(S), list(T.edges), kind, ", ".join("%s=%r" % x for x in kw.items()))
                            vf.note(name)

                            def call(emb):
                                try:
                                    if kind == "node" and maxn == 2:      # the default embedder
                                        default[0] = emb
                                        return getattr(pe, fn)(S, T, **kw)
                                    return getattr(pe, fn)(S, T, embedder=emb, **kw)
                                except Exception as e:
                                    return e
                            for res, log in ex.runs(call):
                                r.count("searches")
                                r.count("evaluations")
                                info = dict(call=name, answers=[x["emb"] for x in log], result=repr(res))
                                if isinstance(res, Exception):
                                    r.violation("%s raises %r" % (name, res), info)
                                    return
                                bad = faults(res, S, T0, kind, maxn) or loglegal(log, S, T0, kind, shuffle)
                                if not bad and (snap(T) != before or snap(S) != sbefore):
                                    bad = "with the caller's graph modified"
                                if not bad:
                                    done = 0
                                    for x in log:
                                        left = set(T0) - usednodes(res[:done], kind)
                                        if set(x["nodes"]) != left or set(x["edges"]) != {frozenset(e) for e in T0.subgraph(left).edges}:
                                            bad = "the embedder was shown %r when %r was left" % (x["nodes"], sorted(left, key=str))
                                            break
                                        if x["emb"]:
                                            done += 1
                                        if x["kw"] != (ek or {}):
                                            bad = "the embedder was given other arguments: %r" % (x["kw"],)
                                    if not bad and done != len(res):
                                        bad = "%d of the embedder's answers became %d embeddings" % (done, len(res))
                                if not bad and not any(x["failed"] for x in log):
                                    limit = len(T0) // len(S) if maxn is None else min(maxn, len(T0) // len(S))
                                    if len(res) < limit:
                                        left = T0.subgraph(set(T0) - usednodes(res, kind))
                                        if len(left) and ex.answers(S, left)[0]:
                                            bad = "ends when the embedder would have found another"
                                if bad:
                                    r.violation("%s: the result %s" % (name, bad), info)
                                    return
                                if res:
                                    r.nontrivial((case, kind, maxn, filt, shuffle, fn, tuple(x["pick"] for x in log)))

    def make(fam, kw, label, defects):
        kw = dict(kw)
        if label == "coord":
            kw["coordinates"] = True
        T = dict(chimera=dg.chimera_graph, pegasus=dg.pegasus_graph, zephyr=dg.zephyr_graph)[fam](**kw)
        ns, es = list(T), list(T.edges)
        if defects in (1, 3, 5):
            T.remove_nodes_from(ns[(defects * 7 + i * i * 11) % len(ns)] for i in range(max(1, len(ns) // 12)))
        if defects in (2, 3, 6):
            T.remove_edges_from(es[(defects * 5 + i * i * 7) % len(es)] for i in range(max(1, len(es) // 10)))
        if defects == 4:
            T.remove_nodes_from(ns[::2])
        if defects == 7:
            T.remove_nodes_from(ns[len(ns) // 3:])
        return T

    def tiles(fam, kw):
        """(name, tile arguments, tile) usable in a lattice of this family"""
        out = []
        mm = max(kw["m"], kw.get("n", 0))
        for m in range(1, mm + 1):
            if fam != "pegasus" or m > 1:
                out.append(("size %d" % m, dict(sublattice_size=m), dict(chimera=lambda: dg.chimera_graph(m, m, kw.get("t")), pegasus=lambda: dg.pegasus_graph(m), zephyr=lambda: dg.zephyr_graph(m, kw.get("t")))[fam]()))
        t = kw.get("t", 4)
        extra = []
        if fam == "chimera":
            extra = [dg.chimera_graph(1, kw["n"], t), dg.chimera_graph(1, 1, t, coordinates=True), dg.chimera_graph(1, 1, t, node_list=list(dg.chimera_graph(1, 1, t))[:-1])]
        elif fam == "pegasus":
            extra = [dg.chimera_graph(1, 1, 4), dg.chimera_graph(1, kw["m"] - 1, 4, coordinates=True)]
        else:
            extra = [dg.chimera_graph(1, 1, t), dg.chimera_graph(1, 1, 2 * t), dg.chimera_graph(2, 1, t, coordinates=True)]
        for i, x in enumerate(extra):
            out.append(("tile %d" % i, dict(tile=x), x))
        return out

    def maps(fam, tile, T):
        f = dict(chimera=dg.chimera_sublattice_mappings, pegasus=dg.pegasus_sublattice_mappings, zephyr=dg.zephyr_sublattice_mappings)[fam]
        return list(f(tile, T))

    def sub(case, r):
        _, fam, tkw, s, label, defects = case
        T0 = make(fam, tkw, label, defects)
        if not len(T0):
            return
        S0 = sources[s]
        big = len(T0) > 60
        combos = list(itertools.product(("node", "list", "set"), (None, 1, 2, 0), (True, False), (None, True, False, "given"), (False, True), ("plain", "cast", "made")))
        tl = tiles(fam, tkw)
        for ti, (tname, targ, tile) in enumerate(tl):
            M = maps(fam, tile, T0)
            st = (113 if big else 53) if q else (37 if big else 7)
            for ci in range((case[5] * 7 + ti * 5 + ctx.seed + len(s)) % st, len(combos), st):
                kind, maxn, filt, use, shuffle, how = combos[ci]
                S = S0
                own = tname == "size 1" and ci % 2 and kind != "set"
                if how == "made" and (defects or label == "coord"):
                    how = "cast"
                if len(S) > len(T0):
                    pass
                typ = dict(node=None, list=list, set=set)[kind]
                kw = dict(max_num_emb=maxn, use_filter=filt, **targ)
                given = None
                if use == "given":
                    given = mono(S, tile) if kind == "node" else chained(S, tile, typ)
                    if given is None:
                        continue
                    kw["tile_embedding"] = given
                elif use is not None:
                    kw["use_tile_embedding"] = use
                if shuffle:
                    kw.update(shuffle_all_graphs=True, shuffle_sublattice_order=True, seed=5)
                if kind != "node":
                    kw["one_to_iterable"] = True
                T = T0.copy()
                if how == "cast":
                    T = nx.Graph()
                    T.add_nodes_from(T0)
                    T.add_edges_from(T0.edges)
                    kw.update(T_family=fam, T_kwargs=dict(tkw, coordinates=True) if label == "coord" else dict(tkw))
                elif how == "made":
                    kw.update(T_family=fam, T_kwargs=dict(tkw))
                args = (S,) if how == "made" else (S, T)
                before, sbefore, tbefore = snap(T), snap(S), snap(tile)
                name = "find_sublattice_embeddings(S=%s, T=%s%r %s defects %d%s, embedder -> %s, %s)" % (s, fam, tkw, label, defects, "" if how == "plain" else " " + how, kind, ", ".join("%s=%r" % (k, "tile of %d nodes" % len(v) if k == "tile" else v) for k, v in kw.items() if k not in ("T_kwargs", "T_family")))
                vf.note(name)
                ex = Explorer(kind, 1 if q or big else 2)

                def call(emb):
                    try:
                        return pe.find_sublattice_embeddings(*args, embedder=emb, **kw)
                    except Exception as e:
                        return e
                runs = 0
                for res, log in ex.runs(call):
                    runs += 1
                    r.count("sublattice searches")
                    r.count("evaluations")
                    info = dict(call=name, answers=[x["emb"] for x in log][:20], result=repr(res)[:2000])
                    if isinstance(res, Exception):
                        r.violation("%s raises %r" % (name, res), info)
                        return
                    bad = faults(res, S, T0, kind, maxn) or loglegal(log, S, T0, kind, shuffle)
                    if not bad and (snap(T) != before or snap(S) != sbefore or snap(tile) != tbefore):
                        bad = "with the caller's graph modified"
                    if not bad and not any(x["failed"] for x in log):
                        limit = len(T0) // len(S) if maxn is None else min(maxn, len(T0) // len(S))
                        if len(res) < limit:
                            free = set(T0) - usednodes(res, kind)
                            fixed = given if use == "given" else None
                            if use is True:
                                fixed = log[0]["emb"] if log else {}
                            possible = bool(ex.answers(S, tile)[0])
                            for f in M:
                                if fixed is not None:
                                    p = {u: (f(c) if kind == "node" else typ(f(x) for x in c)) for u, c in fixed.items()}
                                    if p and faults([p], S, T0.subgraph(free), kind, 1) is None:
                                        bad = "leaves out a sublattice in which the tile's embedding is valid: %r" % (p,)
                                        break
                                else:
                                    left = T0.subgraph({f(x) for x in tile} & free)
                                    if len(left) and ex.answers(S, left)[0]:
                                        if not possible:
                                            continue
                                        bad = "leaves out a sublattice in which the embedder would have found an embedding: %r" % (list(left),)
                                        break
                    if bad:
                        r.violation("%s: the result %s" % (name, bad), info)
                        return
                    if res:
                        r.nontrivial((fam, str(tkw), s, label, defects, tname, ci, tuple(x["pick"] for x in log)))
                    if runs > (20 if q else 60):
                        r.count("searches cut short")
                        break
                # S itself as the tile: the trivial embedding
                if own and how == "plain" and len(tile) <= 40:
                    kw2 = {k: v for k, v in kw.items() if k not in ("tile", "sublattice_size", "tile_embedding", "use_tile_embedding")}
                    try:
                        T = T0.copy()
                        res = pe.find_sublattice_embeddings(tile, T, tile=tile, embedder=lambda *a, **k: 1 / 0, **kw2)
                    except ZeroDivisionError:
                        r.violation("%s with S as the tile calls the embedder" % name)
                        return
                    except Exception as e:
                        r.violation("%s with S as the tile raises %r" % (name, e))
                        return
                    r.count("evaluations")
                    bad = faults(res, tile, T0, kind, maxn)
                    if not bad and len(res) < (10**9 if maxn is None else maxn):
                        free = T0.subgraph(set(T0) - usednodes(res, kind))
                        if any(faults([{u: f(u) for u in tile}], tile, free, "node", 1) is None for f in M):
                            bad = "leaves out a fully working tile"
                    if bad:
                        r.violation("%s with S as the tile: the result %s" % (name, bad), dict(result=repr(res)[:2000]))
                        return

    def clockcase(case, r):
        """time passes only in the embedder, one unit each call: the deadline falls before each call in turn"""
        S = sources[case[1]]
        jobs = []
        for T in (nx.grid_2d_graph(3, 4), nx.complete_graph(8), nx.disjoint_union_all([nx.complete_graph(4)] * 3)):
            for sh in (False, True):
                jobs.append(("multi", T, dict(max_num_emb=None, shuffle_all_graphs=sh, seed=2)))
                jobs.append(("whole", T, dict(max_num_emb=None, shuffle_all_graphs=sh, seed=2)))
        for fam, tkw in (("chimera", dict(m=2, n=3, t=2)), ("zephyr", dict(m=2, t=2)), ("pegasus", dict(m=3))):
            T = make(fam, tkw, "int", 0)
            for use in (None, True, False):
                for filt in (True, False):
                    jobs.append(("sub", T, dict(sublattice_size=1 if fam != "pegasus" else 2, max_num_emb=None, use_filter=filt, use_tile_embedding=use)))
        for kind, T0, kw in jobs:
            base = None
            for t in [float("inf")] + [x / 2 for x in range(0, 14)] + [-1]:
                T = T0.copy()
                begun = []

                def emb(S, T, **k):
                    begun.append(now[0])
                    now[0] += 1
                    return mono(S, T) or {}
                now[0] = 100.0
                name = "%s(S=%s, T of %d nodes, %r, timeout=%r)" % ("find_multiple_embeddings" if kind == "multi" else "find_sublattice_embeddings", case[1], len(T), kw, t)
                vf.note(name)
                try:
                    res = (pe.find_multiple_embeddings if kind == "multi" else pe.find_sublattice_embeddings)(S, T, embedder=emb, timeout=t, **kw)
                except Exception as e:
                    now[0] = None
                    r.violation("%s raises %r" % (name, e))
                    return
                finally:
                    now[0] = None
                r.count("evaluations")
                r.count("deadlines")
                bad = faults(res, S, T0, "node", None)
                if any(x > 100 + t for x in begun):
                    bad = "the embedder was called after the deadline, at %r" % ([x - 100 for x in begun],)
                if t == float("inf"):
                    base = (res, len(begun), begun)
                elif not bad and base[1] < t and res != base[0] and not kw.get("shuffle_all_graphs"):
                    bad = "is %r although the whole search takes less time and gives %r" % (res, base[0])
                elif not bad and (begun != base[2][:len(begun)] or len(begun) < sum(x < 100 + t for x in base[2])):
                    bad = "calls the embedder at %r, a search without a deadline at %r" % ([x - 100 for x in begun], [x - 100 for x in base[2]])
                elif not bad and t <= 0 and begun:
                    bad = "the embedder was called though there is no time"
                if bad:
                    r.violation("%s: the result %s" % (name, bad), dict(result=repr(res)[:2000], begun=begun))
                    return
                if 0 < t < base[1]:
                    r.nontrivial((case[1], kind, len(T), str(kw), t))

    def arrays(case, r):
        """embeddings to rows and back"""
        for nv in range(1, 5):
            for ne in range(0, 6):
                for values in ("int", "coord", "list", "tuple", "str"):
                    for keys in ("int", "mixed"):
                        ks = list(range(nv)) if keys == "int" else ["a", (0, 1), 7, -1.5][:nv]
                        val = dict(int=lambda i: i, coord=lambda i: (0, i), list=lambda i: [i, i + 100], tuple=lambda i: (i,), str=lambda i: "q%d" % i)[values]
                        embs = [{k: val(e * nv + i) for i, k in enumerate(ks)} for e in range(ne)]
                        for order in itertools.permutations(ks):
                            for give in ("list", "tuple", None):
                                if give is None and list(order) != ks:
                                    continue
                                no = None if give is None else dict(list=list, tuple=tuple)[give](order)
                                name = "embeddings_to_array(%r, node_order=%r)" % (embs, no)
                                vf.note(name)
                                try:
                                    rows = pe.embeddings_to_array(embs, node_order=no)
                                except Exception as e:
                                    r.violation("%s raises %r" % (name, e))
                                    return
                                r.count("evaluations")
                                want = [[e[k] for k in order] for e in embs]
                                if [list(x) for x in rows] != want:
                                    r.violation("%s is %r" % (name, rows))
                                    return
                                try:
                                    back = pe.array_to_embeddings(rows, node_order=list(order))
                                except Exception as e:
                                    r.violation("array_to_embeddings(%r, %r) raises %r" % (rows, order, e))
                                    return
                                if list(back) != embs:
                                    r.violation("array_to_embeddings(%r, %r) is %r, not the embeddings the rows were made of" % (rows, list(order), back))
                                    return
                                if ne > 1:
                                    r.nontrivial((nv, ne, values, keys, order, give))
                                if values == "int" and (ne or no is not None):
                                    a = pe.embeddings_to_array(embs, node_order=no, as_ndarray=True)
                                    if not isinstance(a, np.ndarray) or a.shape != (ne, nv) or a.tolist() != want:
                                        r.violation("%s as an array is %r" % (name, a))
                                        return

    def shuffle(case, r):
        """with shuffle_all_graphs some seed changes the order shown at every attempt; the same seed gives the same answers"""
        jobs = [("find_multiple_embeddings", sources["P4"], nx.grid_2d_graph(4, 5), {}), ("find_sublattice_embeddings", sources["P4"], nx.grid_2d_graph(4, 5), {}), ("find_sublattice_embeddings", sources["C4"], make("chimera", dict(m=2, n=2, t=4), "int", 0), dict(sublattice_size=1)), ("find_sublattice_embeddings", sources["P4"], make("zephyr", dict(m=2, t=2), "coord", 0), dict(sublattice_size=1, use_filter=False))]
        for fn, S, T, kw in jobs:
            def go(seed, **more):
                out = []

                def emb(S, T, **k):
                    out.append((list(S), list(T), list(T.edges)))
                    return mono(S, T) or {}
                return getattr(pe, fn)(S, T, embedder=emb, max_num_emb=None, seed=seed, **kw, **more), out
            name = "%s(S=%r, T of %d nodes, %r, shuffle_all_graphs=True)" % (fn, list(S.edges), len(T), kw)
            vf.note(name)
            orders = {}
            for seed in range(12):
                a, b = go(seed, shuffle_all_graphs=True), go(seed, shuffle_all_graphs=True)
                r.count("evaluations", 2)
                if a != b:
                    r.violation("%s isn't determined by the seed %d" % (name, seed))
                    return
                bad = faults(a[0], S, T, "node", None)
                if bad:
                    r.violation("%s, seed=%d: the result %s" % (name, seed, bad))
                    return
                if seed:
                    r.nontrivial((fn, str(kw), seed))
                for i, (s, t, e) in enumerate(a[1]):
                    orders.setdefault(("attempt", i, "source"), []).append(tuple(s))
                    if len(t) > 5:
                        orders.setdefault(("attempt", i, "target", frozenset(t)), []).append(tuple(t))
            for k, v in orders.items():
                if len(v) > 9 and len(set(v)) == 1:
                    r.violation("%s shows the %s in the same order at attempt %d whatever the seed" % (name, k[2], k[1]))
                    return

    def size(case, r):
        """lattice_size is the larger dimension of the lattice, whatever its defects and labels"""
        jobs = [("chimera", (m, n, t), max(m, n)) for m in range(1, 5) for n in range(1, 5) for t in (1, 2, 4)]
        jobs += [("pegasus", (m,), m) for m in range(2, 6)] + [("zephyr", (m, t), m) for m in range(1, 5) for t in (1, 2, 4)]
        for fam, args, want in jobs:
            for coord in (False, True):
                full = getattr(dg, fam + "_graph")(*args, coordinates=coord)
                for T in (full, getattr(dg, fam + "_graph")(*args, coordinates=coord, node_list=sorted(full)[:max(1, len(full) // 3)])):
                    name = "lattice_size(%s%r coordinates=%r, %d of %d nodes)" % (fam, args, coord, len(T), len(full))
                    vf.note(name)
                    v = pe.lattice_size(T)
                    r.count("evaluations")
                    r.nontrivial(name)
                    if v != want:
                        r.violation("%s is %r" % (name, v), dict(family=fam, args=args))
                        return

    def one(case, r):
        dict(size=size, shuffle=shuffle, multi=multi, sub=sub, clock=clockcase, arrays=arrays)[case[0]](case, r)

    vf.run_cases(ctx, cases, one, cpu_limit=60 if q else 500, wall_limit=150 if q else 850, describe=repr)
    ctx.log(dict(ctx.counters))
    c = ctx.coverage
    c["evaluations"] = ctx.counters.pop("evaluations", 0)
    c["distinct_nontrivial"] = len(ctx.distinct)
    c["rule"] = "one evaluation is one search with one sequence of embedder answers, or one conversion; distinct: (instance, options, answers) whose result isn't empty"
    c["exhaustive"] = False
    ctx.assumptions += ["the embedder answers with its first choice, another valid one or nothing, with at most %d answers that aren't the first choice" % (1 if q else 2),
                        "chains have at most two nodes; the embedder is complete for those; time passes only inside of the embedder",
                        "source graphs have at least one node and no self-loops"]
