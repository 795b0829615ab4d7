"""Independent oracles and random-draw control for checks that drive the Python package."""
import ctypes, collections

FRAC = {12: [0, 1 / 6, 1 / 5, 1 / 4, 1 / 3, 2 / 5, 1 / 2, 3 / 5, 2 / 3, 3 / 4, 4 / 5, 5 / 6], 6: [0, 1 / 5, 1 / 3, 1 / 2, 2 / 3, 5 / 6], 3: [0, 2 / 5, 5 / 6]}


def alternatives(k):
    return [int(f * 2.0 ** 64) + 0x0123456789ABC for f in FRAC[k]]


class Draws:
    """Random draws of the extension built with hook=True."""
    def __init__(self):
        import minorminer._minorminer as m
        lib = ctypes.CDLL(m.__file__)
        self.pos = ctypes.c_uint64.in_dll(lib, "vf_rng_pos")
        self.n = ctypes.c_int.in_dll(lib, "vf_rng_ndev")
        self.dp = (ctypes.c_uint64 * 4).in_dll(lib, "vf_rng_devpos")
        self.dv = (ctypes.c_uint64 * 4).in_dll(lib, "vf_rng_devval")

    def start(self, devs=()):
        self.pos.value = 0
        self.n.value = len(devs)
        for i, (p, v) in enumerate(devs):
            self.dp[i] = p
            self.dv[i] = v

    def executions(self, fn, alts=3, seedless=True, maxpos=10 ** 9):
        """Yield (deviations, result) for the base execution and every one-draw deviation."""
        self.start()
        r = fn()
        n = min(self.pos.value, maxpos)
        yield (), r
        for p in range(n):
            for v in alternatives(alts):
                self.start(((p, v),))
                yield ((p, v),), fn()
        self.start()


def adjacency(edges, nodes=()):
    adj = {v: set() for v in nodes}
    for a, b in edges:
        adj.setdefault(a, set())
        adj.setdefault(b, set())
        if a != b:
            adj[a].add(b)
            adj[b].add(a)
    return adj


def adj_of(G):
    if hasattr(G, "edges"):
        return adjacency(list(G.edges()), list(G.nodes()))
    return adjacency(list(G))


def connected(nodes, adj):
    nodes = set(nodes)
    if not nodes:
        return False
    seen, st = set(), [next(iter(nodes))]
    seen.add(st[0])
    while st:
        x = st.pop()
        for y in adj[x]:
            if y in nodes and y not in seen:
                seen.add(y)
                st.append(y)
    return seen == nodes


def flaw(emb, S, T):
    """None if emb is a minor embedding of S in T, else what is wrong (the definition, spelled out)."""
    s = S if isinstance(S, dict) else adj_of(S)
    t = T if isinstance(T, dict) else adj_of(T)
    if set(emb) != set(s):
        return "keys %r are not the source nodes %r" % (sorted(map(repr, emb)), sorted(map(repr, s)))
    used = {}
    ch = {}
    for v, c in emb.items():
        c = list(c)
        if not c:
            return "empty chain for %r" % (v,)
        if len(set(c)) != len(c):
            return "repeated node in the chain of %r: %r" % (v, c)
        for q in c:
            if q not in t:
                return "chain of %r uses %r, which is not a target node" % (v, q)
            if q in used:
                return "%r is in the chains of %r and %r" % (q, used[q], v)
            used[q] = v
        if not connected(c, t):
            return "chain of %r is not connected: %r" % (v, c)
        ch[v] = set(c)
    for u in s:
        for v in s[u]:
            if not any(t[q] & ch[v] for q in ch[u]):
                return "source edge %r-%r is not represented" % (u, v)
    return None


def semi_flaw(emb, S, T):
    s = S if isinstance(S, dict) else adj_of(S)
    t = T if isinstance(T, dict) else adj_of(T)
    if set(emb) != set(s):
        return "keys are not the source nodes"
    for v, c in emb.items():
        if not c:
            return "empty chain for %r" % (v,)
        if any(q not in t for q in c) or len(set(c)) != len(list(c)):
            return "bad chain %r" % (c,)
        if not connected(c, t):
            return "chain of %r is not connected" % (v,)
    for u in s:
        for v in s[u]:
            if not any((t[q] & set(emb[v])) or q in emb[v] for q in emb[u]):
                return "edge %r-%r neither coupled nor shared" % (u, v)
    return None


def is_complete(adj):
    n = len(adj)
    return all(len(adj[v] - {v}) == n - 1 for v in adj)
