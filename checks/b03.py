"""B03: structured biclique embeddings on every yield pattern of small targets."""
import b01
LEVEL = "exploration"


def intact_lines(g):
    """(vertical, horizontal) lines of a chimera graph without a missing node or outer coupler"""
    import dwave.graphs as dg
    d = g.graph
    m, n, t = d["rows"], d["columns"], d["tile"]
    co = dg.chimera_coordinates(m, n, t)
    lab = (lambda x: x) if d["labels"] == "coordinate" else co.chimera_to_linear
    V = H = 0
    for k in range(t):
        for x in range(n):
            L = [lab((y, x, 0, k)) for y in range(m)]
            V += all(q in g for q in L) and all(g.has_edge(*e) for e in zip(L, L[1:]))
        for y in range(m):
            L = [lab((y, x, 1, k)) for x in range(n)]
            H += all(q in g for q in L) and all(g.has_edge(*e) for e in zip(L, L[1:]))
    return V, H


def judge(g, bc, o, where, case, r):
    name, lab, seed, nds, eds = case
    c = bc.busgraph_cache(g, seed=seed)
    big = c.largest_balanced_biclique()
    s = len(big) // 2
    r.count("answers")
    if len(big) % 2:
        r.violation("%s: the largest balanced biclique has %d chains" % (where, len(big)))
    f = o.biclique(big, range(s), range(s, 2 * s))
    if f:
        r.violation("%s: largest_balanced_biclique() gives %r: %s" % (where, big, f))
    top = {}
    nodes = g.number_of_nodes()

    def ask(n, m):
        e = c.find_biclique_embedding(n, m)
        r.count("answers")
        if e or not n + m:
            f = o.biclique(e, range(n), range(n, n + m))
            if f:
                r.violation("%s: find_biclique_embedding(%d, %d) gives %r: %s" % (where, n, m, e, f))
        return bool(e)
    # all sizes up to the largest ones, walking along the border of what is found where the target is large
    got = {}
    lim = s + 2
    small = s <= 5
    n = 1
    while True:
        m = 1
        col = {}
        while ask(n, m):
            col[m] = True
            m += 1 if small or m < 3 else 3
        if not col:
            break
        got[n] = max(col)
        if n == s:
            for m in range(max(1, s - 1), s + 1):
                if not ask(n, m):
                    r.violation("%s: no K_{%d,%d}, but the largest balanced biclique has %d + %d nodes" % (where, n, m, s, s))
        n += 1 if small or n < 3 or n >= s - 1 else 2
    if big and s not in got and max(got, default=0) < s:
        r.violation("%s: K_{%d,1} is not found, but the largest balanced biclique has %d + %d nodes" % (where, s, s, s))
    if got and min(max(got), max(got.values())) and max(min(a, b) for a, b in got.items()) > s:
        r.violation("%s: largest balanced biclique has %d + %d nodes, but one of %r is found" % (where, s, s, [(a, b) for a, b in got.items() if min(a, b) > s]))
    # whatever is found for one request is found for every smaller one
    prev = None
    for n in sorted(got, reverse=True):
        if prev is not None and not ask(n, got[prev]):
            r.violation("%s: K_{%d,%d} is found but K_{%d,%d} is not" % (where, prev, got[prev], n, got[prev]))
        prev = n
        for a, b in ((got[n], n), (1, n), (n, 1), ((n + 1) // 2, got[n]), (n, (got[n] + 1) // 2)):
            if not ask(a, b):
                r.violation("%s: K_{%d,%d} is found but K_{%d,%d} is not" % (where, n, got[n], a, b))
    raw = c._graph.bicliques()["raw"] if len(nds) + len(eds) < 2 or not small else {}
    for (a, b), emb in raw.items():
        f = o.biclique(c._graph.relabel(dict(enumerate(emb))), range(a), range(a, a + b))
        r.count("answers")
        if f:
            r.violation("%s: the computed biclique K_{%d,%d} is %r: %s" % (where, a, b, emb, f))
        if not ask(a, b) or not ask(b, a):
            r.violation("%s: K_{%d,%d} has been computed but is not found" % (where, a, b))
    if g.graph["family"] == "chimera":
        t = g.graph["tile"]
        co = None
        inner = [e for e in eds if isinstance(e[0], int) and e[0] // t % 2 != e[1] // t % 2 or not isinstance(e[0], int) and e[0][2] != e[1][2]]
        if not inner:
            V, H = intact_lines(g)
            if V and H and not ask(V, H):
                r.violation("%s: K_{%d,%d} consists of intact lines of the target, but is not found" % (where, V, H))
            r.count("native")
    # empty sides and node lists
    for n in (0, 1, nodes):
        for e, A, B in ((c.find_biclique_embedding(0, n), [], range(n)), (c.find_biclique_embedding(n, 0), range(n), []), (c.find_biclique_embedding([], list("abcdefgh")[:n]), [], list("abcdefgh")[:n])):
            r.count("answers")
            f = o.biclique(e, A, B) if e or n <= min(nodes, max(len(A), len(B))) else None
            if f:
                r.violation("%s: a biclique with an empty side and %d nodes gives %r: %s" % (where, n, e, f))
    if got:
        n = max(got)
        m = got[n]
        for a, b in ((n, m), (m, n), (1, n)):
            A, B = ["s%d" % i for i in range(a)], [("t", i) for i in range(b)]
            for x, y, X, Y in ((A, B, A, B), (iter(A), iter(B), A, B), (A, b, A, range(a, a + b)), (a, B, range(a), B)):
                e = c.find_biclique_embedding(x, y)
                r.count("answers")
                f = o.biclique(e, X, Y)
                if f:
                    r.violation("%s: the biclique %r x %r gives %r: %s" % (where, X, Y, e, f))
    # the more ways around missing couplers are considered, the shorter the bicliques
    if len(eds) > 1:
        prev = None
        for k in (1, 2, 4, 64):
            x = bc.busgraph_cache(g, seed=seed)
            x._graph.set_mask_bound(k)
            L = {key: max(map(len, e)) for key, e in x._graph.bicliques()["raw"].items()}
            r.count("answers")
            for key in prev or ():
                if L.get(key, 1e9) > prev[key]:
                    r.violation("%s: K_%r has length %r when up to %d topologies are considered, but %r with fewer" % (where, key, L.get(key), k, prev[key]))
                    break
            prev = L
    # other sessions see the same
    d = bc.busgraph_cache(g, seed=seed)
    if d.largest_balanced_biclique() != big:
        r.violation("%s: the cached largest balanced biclique differs" % where)
    r.nontrivial((name, lab, tuple(nds), tuple(eds), tuple(got.items())))
    if not r.samples and s > 2 and (nds or eds):
        r.sample("%s: bicliques %r" % (where, got))


def run(ctx):
    b01.explore(ctx, judge, every=4 if ctx.quick else 1)
