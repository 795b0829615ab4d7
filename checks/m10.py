"""M10: the quality key orders all small embeddings as described."""
import itertools
import vf
LEVEL = "exploration"


def counts(sizes, top):
    """how many of each size, from the largest size down"""
    return tuple(sum(s == k for s in sizes) for k in range(top, 0, -1))


def spec(emb, top, embedded):
    """failed after overlapping after valid; then the overlaps, then the chain lengths, largest first"""
    if not emb:
        return (2, (), ())
    use = {}
    for c in emb.values():
        for q in c:
            use[q] = use.get(q, 0) + 1
    o = () if embedded else counts([n - 1 for n in use.values()], top)
    return (1 if any(o) else 0, o, counts([len(c) for c in emb.values()], top))


def labels():
    return {"int": (list(range(9)), list(range(9))), "str": (["v%d" % i for i in range(9)], [chr(97 + i) for i in range(9)]),
            "mixed": ([(0, 1), "x", 3, frozenset([1]), 5.5, None, "z", -1, "q"], ["t", (1,), 2, 3.5, "u", -7, (0, "k"), "w", 11])}


def embeddings(nv, nt, lo):
    """all maps from nv nodes to sets of at least lo of nt targets"""
    subs = [c for k in range(lo, nt + 1) for c in itertools.combinations(range(nt), k)]
    return itertools.product(subs, repeat=nv)


def run(ctx):
    pkg = vf.pypkg(["_minorminer"], opt="-O1")
    vf.use_package(pkg)
    import networkx as nx
    import minorminer
    q = ctx.quick
    sizes = [(1, 5, 1), (2, 4, 1), (3, 3, 1), (2, 6 if q else 7, 1), (4, 3, 1), (3, 4, 1), (5, 2, 1)] + ([] if q else [(3, 5, 1), (4, 4, 1), (5, 3, 1), (8, 2, 1)])
    cases = [(s, lab, kind, e) for s in sizes for lab in labels() for kind in ("list", "set", "tuple") for e in (False, True) if lab == "int" or kind == "list"]
    # chains of every length up to 12, one to three of them
    cases += [("lengths", lab, "list", e) for lab in ("int",) for e in (False, True)]

    def one(case, r):
        size, lab, kind, embedded = case
        cast = {"list": list, "set": set, "tuple": tuple}[kind]
        if size == "lengths":
            T = nx.path_graph(40)
            A, B = list(range(4)), list(range(40))
            pool = []
            top = 12
            for n in (1, 2, 3):
                for ls in itertools.combinations_with_replacement(range(1, top + 1), n):
                    at, e = 0, []
                    for l in ls:
                        e.append(tuple(range(at, at + l)))
                        at += l
                    pool.append(e)
            S = nx.path_graph(4)
        else:
            nv, nt, lo = size
            A, B = labels()[lab]
            S = nx.relabel_nodes(nx.path_graph(max(nv, 2)), dict(enumerate(A)))
            T = nx.relabel_nodes(nx.path_graph(max(nt, 2)), dict(enumerate(B)))
            pool = embeddings(nv, nt, lo)
            top = max(nv, nt)
        m = minorminer.miner(S, T, random_seed=1, tries=1)
        L = []
        for chains in pool:
            emb = {A[i]: cast([B[x] for x in c]) for i, c in enumerate(chains)}
            key = m.quality_key(emb, embedded) if embedded else m.quality_key(emb)
            L.append((spec(emb, top, embedded), key, emb))
            if {A[i]: cast([B[x] for x in c]) for i, c in enumerate(chains)} != emb:
                r.violation("the key of %r changes the embedding" % (chains,))
        if not embedded:
            # the order in which nodes and chains are listed doesn't matter
            for s, key, emb in L[::7]:
                other = {v: cast(list(c)[::-1]) for v, c in reversed(list(emb.items()))}
                if m.quality_key(other) != key:
                    r.violation("%r has another key in another order: %r and %r" % (emb, key, m.quality_key(other)))
        L.append((spec({}, top, embedded), m.quality_key({}, embedded), {}))
        L.sort(key=lambda x: x[0])
        try:
            ordered = True
            for (s, k, e), (t, l, f) in zip(L, L[1:]):
                r.count("pairs")
                if (s < t) != (k < l) or (s == t) != (k == l) or l < k:
                    r.violation("%r (key %r) and %r (key %r): should be %s" % (e, k, f, l, "equally good" if s == t else "the first better"), replay={"better": repr(e), "worse": repr(f), "keys": [repr(k), repr(l)], "embedded": embedded})
                    ordered = False
                    break
        except TypeError as x:
            r.violation("keys can't be compared: %r" % x)
            ordered = False
        if ordered:
            best = min((e for _, _, e in L), key=lambda e: m.quality_key(e, embedded))
            if spec(best, top, embedded) != L[0][0]:
                r.violation("the best of all is %r" % (best,))
        r.count("keys", len(L))
        for s in set(x[0] for x in L):
            r.nontrivial((s, embedded, lab))
        if not r.samples and lab == "int":
            r.sample("%d embeddings with %r, %d different qualities" % (len(L), size, len(set(x[0] for x in L))))
    vf.run_cases(ctx, cases, one, cpu_limit=100, wall_limit=300)
    c = ctx.coverage
    c["evaluations"] = ctx.counters.get("keys", 0)
    c["distinct_nontrivial"] = len(ctx.distinct)
    c["rule"] = "one evaluation is one embedding with its key; distinct = distinct (quality by definition, overlaps counted or not, labels)"
    c["exhaustive"] = True
    ctx.assumptions += ["all maps from a few nodes to nonempty sets of a few targets (sizes %r), and up to three disjoint chains of up to 12; keys are only required to be comparable and ordered as described, not to have a form" % (sizes,)]
