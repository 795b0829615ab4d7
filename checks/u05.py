"""U05: the polynomial Chimera embedder on every (bounded) defect pattern of small Chimera graphs, every query, every single deviation of its random choices, against an independent optimum."""
import itertools, random
from functools import lru_cache
import vf
LEVEL = "exploration"


class Best:
    """optima in the Chimera graph with these couplers where all in-cell pairs of working qubits are coupled, from the definition of lines, ells and rectangles"""
    def __init__(self, M, N, L, edges):
        self.M, self.N, self.L = M, N, L
        self.E = {frozenset(e) for e in edges}
        self.V = {v for e in edges for v in e}
        self.line = lru_cache(None)(self._line)
        self.cwr = lru_cache(None)(self._cwr)

    def _line(self, u, fixed, lo, hi):
        n = 0
        for k in range(self.L):
            L = [(i, fixed, 0, k) if u == 0 else (fixed, i, 1, k) for i in range(lo, hi + 1)]
            n += all(v in self.V for v in L) and all(frozenset(e) in self.E for e in zip(L, L[1:]))
        return n

    def _cwr(self, x0, x1, y0, y1):
        """largest sum of ells below the working rectangle; y1 = y0 - 1 is allowed"""
        best = 0
        for cx, nx in ((x0, (x0 + 1, x1)), (x1, (x0, x1 - 1))):
            for cy, ny in ((y0 - 1, (y0 - 1, y1)), (y1 + 1, (y0, y1 + 1))):
                if not 0 <= ny[0] <= ny[1] < self.N:
                    continue
                s = min(self.line(0, cy, x0, x1), self.line(1, cx, *ny))
                if nx[0] <= nx[1]:
                    s += self.cwr(nx[0], nx[1], ny[0], ny[1])
                best = max(best, s)
        return best

    def clique(self, width):
        """the largest native clique with chains of width + 1 qubits"""
        best = 0
        for w in range(0, min(width, self.M)):
            h = width - w - 2
            for y in range(0, self.N - h):
                for x in range(0, self.M - w):
                    best = max(best, self.cwr(x, x + w, y, y + h))
        return best

    def rectangles(self):
        """((number of horizontal lines, of vertical lines), (lengths))"""
        for x0 in range(self.M):
            for x1 in range(x0, self.M):
                for y0 in range(self.N):
                    for y1 in range(y0, self.N):
                        yield (sum(self.line(0, y, x0, x1) for y in range(y0, y1 + 1)), sum(self.line(1, x, y0, y1) for x in range(x0, x1 + 1))), (x1 - x0 + 1, y1 - y0 + 1)


def run(ctx):
    import pure
    pure.use()
    import warnings
    warnings.simplefilter("ignore")
    import networkx as nx
    import dwave.graphs as dg
    from bus import Oracle
    from minorminer.utils import polynomialembedder as pe
    q = ctx.quick
    shapes = [(1, 1, 1), (1, 1, 2), (1, 1, 4), (1, 2, 1), (2, 1, 1), (1, 2, 2), (2, 1, 2), (2, 2, 1), (1, 3, 1), (3, 1, 2), (2, 2, 2), (2, 3, 1), (3, 2, 1), (3, 3, 1), (2, 3, 2), (3, 2, 2), (3, 3, 2), (2, 2, 4), (4, 4, 1), (3, 4, 2), (4, 2, 2)]
    if not q:
        shapes += [(4, 4, 2), (3, 3, 4), (4, 4, 4), (5, 5, 1), (2, 5, 2), (5, 3, 2)]

    def coords(M, N, L):
        g = dg.chimera_graph(M, N, L, coordinates=True)
        return g

    cases = []
    cap = 50 if q else 2500
    for sh in shapes:
        g = coords(*sh)
        V, E = list(range(len(g))), list(range(g.number_of_edges()))
        pats = [((), ())]
        if len(V) <= 8:
            pats += [(c, ()) for k in range(1, len(V) + 1) for c in itertools.combinations(V, k)]
        else:
            pats += [((v,), ()) for v in V]
            two = [(c, ()) for c in itertools.combinations(V, 2)]
            three = [(c, ()) for c in itertools.combinations(V, 3)]
            for l in (two, three):
                st = max(1, len(l) // cap)
                pats += l[ctx.seed % st::st]
        if len(E) <= 8:
            pats += [((), c) for k in range(1, len(E) + 1) for c in itertools.combinations(E, k)]
        else:
            pats += [((), (e,)) for e in E]
            for k in (2, 3):
                l = list(itertools.islice(itertools.combinations(E, k), 300000))
                st = max(1, len(l) // cap)
                pats += [((), c) for c in l[ctx.seed % st::st]]
        mixed = [((v,), (e,)) for v in V for e in E]
        st = max(1, len(mixed) // cap)
        pats += mixed[ctx.seed % st::st]
        # whole rows, columns, sides of a cell; lines with one coupler left
        node = list(g)
        for a in range(sh[0]):
            for b in range(sh[1]):
                pats.append((tuple(i for i, v in enumerate(node) if v[:2] == (a, b)), ()))
                for u in (0, 1):
                    pats.append((tuple(i for i, v in enumerate(node) if v[:3] == (a, b, u)), ()))
        for a in range(sh[0]):
            pats.append((tuple(i for i, v in enumerate(node) if v[0] == a and v[2] == 0), ()))
        for b in range(sh[1]):
            pats.append((tuple(i for i, v in enumerate(node) if v[1] == b and v[2] == 1), ()))
            pats.append((tuple(i for i, v in enumerate(node) if v[1] == b and v[2] == 0), ()))
        B = 12
        for i in range(0, len(pats), B):
            cases.append((sh, pats[i:i + B]))

    class Draws:
        """the module's random choices: the smallest outcome except at one place"""
        def __init__(self, dev=None, high=False):
            self.n, self.dev, self.high = 0, dev, high

        def flip(self):
            self.n += 1
            return (self.n - 1 == self.dev) != self.high

        def randint(self, a, b):
            return b if self.flip() and b > a else a

        def choice(self, s):
            s = list(s)
            return s[-1] if self.flip() else s[0]

        def shuffle(self, l):
            if self.flip():
                l.reverse()

        def sample(self, l, k):
            l = list(l)
            return l[-k:] if self.flip() and k else l[:k]

    def under(d, f):
        old = {k: getattr(random, k) for k in ("randint", "choice", "shuffle", "sample")}
        mine = {k: pe.__dict__[k] for k in old if k in pe.__dict__}
        random.seed(d.dev or 0)
        try:
            for k in old:
                setattr(random, k, getattr(d, k))
                if k in mine:
                    pe.__dict__[k] = getattr(d, k)
            return f()
        finally:
            for k in old:
                setattr(random, k, old[k])
                if k in mine:
                    pe.__dict__[k] = mine[k]

    def one(case, r):
        (M, N, L), pats = case
        full = coords(M, N, L)
        FV, FE = list(full), list(full.edges)
        lin = {v: ((v[0] * N + v[1]) * 2 + v[2]) * L + v[3] for v in FV}
        for pi, (nds, eds) in enumerate(pats):
            g = full.copy()
            g.remove_edges_from([FE[i] for i in eds])
            g.remove_nodes_from([FV[i] for i in nds])
            edges = list(g.edges)
            # qubits without couplers aren't known to the embedder
            o = Oracle(g)
            evil = [(u, v) for u, v in full.edges if u[:2] == v[:2] and u in g and v in g and g.degree(u) and g.degree(v) and not g.has_edge(u, v)]
            where0 = "C%r without %r and %r" % ((M, N, L), [FV[i] for i in nds], [FE[i] for i in eds])
            best = []
            exact = 2 ** len(evil) <= 64
            if exact:
                for cover in {frozenset(c) for c in itertools.product(*evil)}:
                    best.append(Best(M, N, L, [e for e in edges if not cover & set(e)]))
            wmax = min(M, N)
            opt = [max(b.clique(w) for b in best) if exact else None for w in range(max(wmax, 6) + 1)]
            rects = [list(b.rectangles()) for b in best]
            linear = (pi + len(nds)) % 2 == 0
            small = M * N * L <= 9
            plist = [(linear, False)] + ([(not linear, True)] if pi % 3 == 0 else [])
            for lm, bundles in plist:
                o2 = Oracle(nx.relabel_nodes(g, lin)) if lm else o
                given = [(lin[a], lin[b]) for a, b in edges] if lm else edges
                if pi % 2:
                    given = [(b, a) for a, b in reversed(given)]

                def ask(name, *a, **k):
                    """results under the base and every deviated choice"""
                    where = "%s linear=%r random_bundles=%r: %s%r%r" % (where0, lm, bundles, name, a, k or "")
                    vf.note(where)

                    def go():
                        return getattr(pe.processor(given, M=M, N=N, L=L, linear=lm, random_bundles=bundles), name)(*a, **k)
                    d0 = Draws()
                    devs = [d0, Draws(high=True)]
                    out = []
                    i = 0
                    while i < len(devs):
                        d = devs[i]
                        try:
                            out.append(under(d, go))
                        except Exception as e:
                            r.violation("%s raises %r" % (where, e), dict(where=where))
                            return where, []
                        r.count("answers")
                        if i == 0:
                            step = max(1, d.n // (6 if q else 40))
                            devs += [Draws(x) for x in range(pi % step, d.n, step)]
                        i += 1
                    return where, out

                def judge(where, c, lo, length, n=None, exactly=False):
                    """a clique of at least lo chains (exactly n) of at most the length"""
                    c = [] if c is None else c
                    f = o2.clique_chains([tuple(x) for x in c])
                    if not f and any(not o2.adj[a] >= {b} for x in c for a, b in zip(x, list(x)[1:])):
                        f = "chains aren't in path order"
                    if not f and lo is not None and len(c) < lo:
                        f = "%d chains, %d are possible" % (len(c), lo)
                    if not f and n is not None and len(c) != n:
                        f = "%d chains instead of %d" % (len(c), n)
                    if not f and length is not None and any(len(x) > length or exactly and len(x) != length for x in c):
                        f = "chains of %r qubits, %d asked" % (sorted({len(x) for x in c}), length)
                    if f:
                        r.violation("%s gives %r: %s" % (where, c, f), dict(where=where))
                    elif len(c) > 1:
                        r.nontrivial((where,))

                def bi(where, e, length, imbalance, sizes=None):
                    A, B = e
                    f = o2.chains([tuple(x) for x in list(A) + list(B)])
                    if not f and any(not any(y in o2.adj[x] for x in a for y in b) for a in A for b in B):
                        f = "no coupler between two sides"
                    if not f and any(b not in o2.adj[a] for x in list(A) + list(B) for a, b in zip(x, list(x)[1:])):
                        f = "chains aren't in path order"
                    la, lb = {len(x) for x in A}, {len(x) for x in B}
                    if not f and (len(la) > 1 or len(lb) > 1 or (length and max(la | lb | {0}) > length)):
                        f = "chain lengths %r and %r" % (la, lb)
                    if not f and imbalance is not None and la and lb and abs(max(la) - max(lb)) > imbalance:
                        f = "chain lengths %r and %r" % (la, lb)
                    if not f and sizes and (len(A), len(B)) not in sizes:
                        f = "sizes %r instead of %r" % ((len(A), len(B)), sorted(sizes))
                    if f:
                        r.violation("%s gives %r: %s" % (where, e, f), dict(where=where))
                    elif A and B:
                        r.nontrivial((where,))

                for mcl in [None] + ([1, 2, 3, 4, wmax + 2] if small or pi % 4 == 0 else [pi % 4 + 1]):
                    where, out = ask("largestNativeClique", **({} if mcl is None else dict(max_chain_length=mcl)))
                    top = wmax if mcl is None else mcl - 1
                    lo = max(opt[:top + 1]) if exact else None
                    for c in out:
                        judge(where, c, lo, top + 1)
                for w in range(0, wmax + 2) if small else (1 + pi % (wmax + 1),):
                    where, out = ask("nativeCliqueEmbed", w)
                    for c in out:
                        judge(where, c, opt[w] if exact else None, w + 1, exactly=True)
                most = max(opt[1:wmax + 1]) if exact else L * wmax
                for n in range(1, most + 2) if small else {1 + pi % (most + 1), most, most + 1} - {0}:
                    where, out = ask("tightestNativeClique", n)
                    for c in out:
                        if not c:
                            if exact and n <= most:
                                r.violation("%s gives %r, but there is one" % (where, c), dict(where=where))
                        elif exact:
                            judge(where, c, n, next((w + 1 for w in range(1, wmax + 1) if opt[w] >= n), 10**6), n, exactly=True)
                        else:
                            judge(where, c, None, None, n)
                bounds = [(0, None), (None, None), (1, None), (None, 1), (0, 2), (1, 2), (None, 3)]
                for imb, mcl in bounds if small else [bounds[pi % len(bounds)], bounds[0]]:
                    ok = lambda s: (mcl is None or max(s) <= mcl) and (imb is None or abs(s[0] - s[1]) <= imb)
                    kw = {} if (imb, mcl) == (0, None) else dict(chain_imbalance=imb, max_chain_length=mcl)
                    where, out = ask("largestNativeBiClique", **kw)
                    sizes = None
                    if exact:
                        big = max((min(s), max(s)) for R in rects for s, l in R if ok(l))
                        sizes = {big, big[::-1]}
                    for e in out:
                        bi(where, e, mcl, imb, sizes)
                    for n, m in [(1, None), (1, 1), (1, 2), (2, 1), (2, None), (L, L + 1), (L * M, 1), (L, L), (L * N, L * M)] if small else [(1 + pi % (L * M), None), (1 + pi % (L + 1), L)]:
                        where, out = ask("tightestNativeBiClique", *((n,) if m is None else (n, m)), **kw)
                        mm = n if m is None else m
                        fit = [(max(l), min(l)) for R in rects for s, l in R if ok(l) and (s[0] >= n and s[1] >= mm or s[0] >= mm and s[1] >= n)]
                        for e in out:
                            if e is None:
                                if exact and fit:
                                    r.violation("%s gives None, but there is one" % where, dict(where=where))
                                continue
                            bi(where, e, mcl, imb, {(n, mm)})
                            if exact and len(best) == 1 and e[0] and e[1]:
                                got = tuple(sorted((len(e[0][0]), len(e[1][0])), reverse=True))
                                if not fit or got != min(fit):
                                    r.violation("%s has chains of %r qubits, %r are possible" % (where, got, min(fit, default=None)), dict(where=where))
                if len(r.violations) > 2:
                    return
            r.count("patterns")

    vf.run_cases(ctx, cases, one, cpu_limit=60 if q else 500, wall_limit=150 if q else 850, describe=lambda c: repr((c[0], c[1][:1])))
    ctx.log(dict(ctx.counters))
    c = ctx.coverage
    c["evaluations"] = ctx.counters.pop("answers", 0)
    c["distinct_nontrivial"] = len(ctx.distinct)
    c["rule"] = "one evaluation is one answer of one query under one sequence of random choices; distinct: (defect pattern, query) with an answer that couples at least two chains"
    c["exhaustive"] = False
    ctx.assumptions += ["the optimum is claimed where at most 6 in-cell couplers between working qubits are missing (beyond that the module examines a random part of the possibilities)",
                        "chain lengths considered for cliques are those the module considers: up to min(M, N) + 1"]
