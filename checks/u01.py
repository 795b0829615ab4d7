"""U01: every mapping between small graphs through the embedding diagnostics, against a direct reading of the definition."""
import itertools
import vf
LEVEL = "exploration"


def graphs(n):
    """all graphs on range(n) up to isomorphism, as edge lists, and for n<=2 also with self-loops"""
    seen, out = set(), []
    P = list(itertools.combinations(range(n), 2))
    for m in range(1 << len(P)):
        E = [P[i] for i in range(len(P)) if m >> i & 1]
        c = min(tuple(sorted(tuple(sorted((p[a], p[b]))) for a, b in E)) for p in itertools.permutations(range(n)))
        if c not in seen:
            seen.add(c)
            out.append(E)
    return out


def problems(ns, E, nt, TE, chains):
    """the definition: per class, the set of facts.  chains[x] is a set of target nodes or unknown ones (>= nt), or None"""
    adj = {t: set() for t in range(nt)}
    for a, b in TE:
        adj[a].add(b)
        adj[b].add(a)
    missing = {x for x in range(ns) if not chains[x]}
    invalid = {(x, q) for x in range(ns) if chains[x] for q in chains[x] if q >= nt}
    bad = {x for x, q in invalid}
    overlap = {(q, frozenset((x, y))) for x in range(ns) for y in range(x) if chains[x] and chains[y] for q in chains[x] & chains[y] if q < nt}
    disc = set()
    for x in range(ns):
        if x in missing or x in bad:
            continue
        seen = set()
        todo = [next(iter(chains[x]))]
        while todo:
            v = todo.pop()
            if v not in seen:
                seen.add(v)
                todo += adj[v] & chains[x]
        if seen != chains[x]:
            disc.add(x)
    noedge = set()
    for x, y in E:
        if x != y and not {x, y} & (missing | bad) and not any(adj[a] & chains[y] for a in chains[x]):
            noedge.add(frozenset((x, y)))
    return missing, invalid, overlap, disc, noedge, bad


def run(ctx):
    import pure
    pure.use()
    import networkx as nx
    from minorminer.utils import diagnostic as dg, exceptions as ex
    import minorminer.utils as mu
    q = ctx.quick
    cases = []
    shapes = [(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (2, 4), (3, 2), (3, 3)] + ([] if q else [(1, 4), (3, 4), (4, 2), (4, 3)])
    for ns, nt in shapes:
        for si, E in enumerate(graphs(ns)):
            for ti, TE in enumerate(graphs(nt)):
                loops = [(0, 0)] + ([(1, 1)] if ns < 3 else [])
                for lab in range(4 if (ns, nt) in ((2, 2), (2, 3), (1, 3), (3, 2)) else 1):
                    cases.append((ns, E, nt, TE, lab, 0))
                if ns * nt <= 6:
                    cases.append((ns, E + [(0, 0)], nt, TE + [(nt - 1, nt - 1)], 0, 0))
    SL = [lambda x: x, lambda x: "abcd"[x], lambda x: (x, "s"), lambda x: [0, "x", (1, 2), 3.5][x]]
    TL = [lambda t: t, lambda t: (0, t), lambda t: "qrstuvw"[t], lambda t: [0, "y", (0, 1), frozenset([2]), -1, 7, 8][t]]
    CON = [list, tuple, set, lambda c: list(c) + list(c)[:1], lambda c: dict.fromkeys(c).keys()]

    def one(case, r):
        ns, E, nt, TE, lab, _ = case
        s, t = SL[lab], TL[lab]
        S = nx.Graph()
        S.add_nodes_from(s(x) for x in range(ns))
        S.add_edges_from((s(a), s(b)) for a, b in E)
        T = nx.Graph()
        T.add_nodes_from(t(x) for x in range(nt))
        T.add_edges_from((t(a), t(b)) for a, b in TE)
        inv_s, inv_t = {s(x): x for x in range(ns)}, {t(x): x for x in range(nt + 1)}
        unknown = nt
        sets = [None] + [frozenset(c) for k in range(nt + 2) for c in itertools.combinations(range(nt + 1), k)]
        edgelist_s = E and len({v for e in E for v in e}) == ns
        edgelist_t = TE and len({v for e in TE for v in e}) == nt
        for k, chains in enumerate(itertools.product(sets, repeat=ns)):
            want = problems(ns, E, nt, TE, chains)
            con = CON[k % len(CON)]
            emb = {s(x): con([t(v) for v in sorted(c)]) for x, c in enumerate(chains) if c is not None}
            if k % 3 == 0:
                emb["extra"] = [t(0)]          # not a source node: not part of the embedding
            GS, GT = S, T
            if k % 2 and edgelist_s:
                GS = [(s(b), s(a)) for a, b in E[::-1]]
            if k // 2 % 2 and edgelist_t:
                GT = [(t(a), t(b)) for a, b in TE]
            where = "embedding %r of source %r in target %r" % (emb, (sorted(inv_s.values()), E), (nt, TE))
            vf.note(where)
            before = repr(emb)
            try:
                found = list(dg.diagnose_embedding(emb, GS, GT))
            except Exception as e:
                r.violation("%s: diagnose_embedding raises %r" % (where, e), dict(case=case, chains=repr(chains)))
                return
            r.count("mappings")
            got = [set(), set(), set(), set(), set()]
            errs = []
            try:
                for f in found:
                    e = f[0](*f[1:])
                    errs.append(e)
                    if type(e) is ex.MissingChainError:
                        got[0].add(inv_s[e.source_node])
                    elif type(e) is ex.InvalidNodeError:
                        got[1].add((inv_s[e.source_node], inv_t[e.target_node]))
                    elif type(e) is ex.ChainOverlapError:
                        got[2].add((inv_t[e.target_node], frozenset(inv_s[x] for x in e.source_nodes)))
                    elif type(e) is ex.DisconnectedChainError:
                        got[3].add(inv_s[e.source_node])
                    elif type(e) is ex.MissingEdgeError:
                        got[4].add(frozenset(inv_s[x] for x in e.source_nodes))
                    else:
                        raise TypeError(f)
                    str(e)
            except Exception as e:
                r.violation("%s: reports %r, which is not a description of a problem: %r" % (where, found, e), dict(case=case))
                return
            if repr(emb) != before:
                r.violation("%s: the embedding was changed to %r" % (where, emb), dict(case=case))
            names = ["missing chain", "unknown node", "overlap", "disconnected chain", "missing edge"]
            for i in range(5):
                if not got[i] <= want[i]:
                    r.violation("%s: reports %s %r, which is not so" % (where, names[i], sorted(map(str, got[i] - want[i]))), dict(case=case))
                    return
                # every problem is reported; of chains that share a node, at least that each takes part
                if i != 2 and got[i] != want[i]:
                    r.violation("%s: %s %r goes unreported" % (where, names[i], sorted(map(str, want[i] - got[i]))), dict(case=case))
                    return
            if {(n, x) for n, p in got[2] for x in p} != {(n, x) for n, p in want[2] for x in p}:
                r.violation("%s: overlaps %r go unreported" % (where, sorted(map(str, want[2] - got[2]))), dict(case=case))
                return
            valid = not any(want[:5])
            b = dg.is_valid_embedding(emb, GS, GT)
            if b is not valid:
                r.violation("%s: is_valid_embedding says %r" % (where, b), dict(case=case))
                return
            r.nontrivial((tuple(map(bool, want[:5])), ns, nt, len(E), len(TE), tuple(c and len(c) for c in chains)))
            # the raising variant, with every set of errors to ignore that occurs
            classes = {type(e) for e in errs}
            ignores = [()] + ([tuple(c) for n in range(1, len(classes) + 1) for c in itertools.combinations(sorted(classes, key=str), n)] if k % 4 == 0 or ns == 1 else [])
            for ig in ignores:
                try:
                    v = dg.verify_embedding(emb, GS, GT, ignore_errors=ig)
                except ex.EmbeddingError as e:
                    if not classes - set(ig):
                        r.violation("%s: verify_embedding(ignore_errors=%r) raises %r" % (where, ig, e), dict(case=case))
                        return
                    if type(e) in ig or (type(e), str(e)) not in {(type(x), str(x)) for x in errs}:
                        r.violation("%s: verify_embedding(ignore_errors=%r) raises %r, which was not diagnosed or is to be ignored" % (where, ig, e), dict(case=case))
                        return
                else:
                    if classes - set(ig) or v is not True:
                        r.violation("%s: verify_embedding(ignore_errors=%r) returns %r" % (where, ig, v), dict(case=case))
                        return
            if len(r.samples) < 1 and len(classes) >= 3:
                r.sample("%s: %r" % (where, [str(e) for e in errs]))
    # the public names are the same functions
    for n in ("diagnose_embedding", "is_valid_embedding", "verify_embedding"):
        if getattr(mu, n)({0: [5], 1: [6]}, [(0, 1)], [(5, 6)]) is False:
            ctx.violation("minorminer.utils.%s rejects a valid embedding" % n, {})
    vf.run_cases(ctx, cases, one, cpu_limit=30 if q else 400, wall_limit=80 if q else 900, describe=lambda c: repr(c[:5]))
    c = ctx.coverage
    c["evaluations"] = ctx.counters.get("mappings", 0)
    c["distinct_nontrivial"] = len(ctx.distinct)
    c["rule"] = "a mapping (every chain absent or any subset of the target's nodes and one unknown node) diagnosed; distinct: set of present problem classes x sizes of graphs and chains"
    c["exhaustive"] = True
    ctx.assumptions += ["source and target up to isomorphism; chains in every kind of container in turn; undirected simple graphs and self-loops"]
