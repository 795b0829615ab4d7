"""Target graphs and fast oracles for the busclique checks."""
import itertools, os, shutil, tempfile
import vf
import networkx as nx


def bases():
    """name -> constructor of perfect graphs (integer labels)"""
    import dwave.graphs as dg
    out = {}
    for m, n, t in [(1, 1, 1), (1, 1, 2), (1, 1, 3), (1, 1, 4), (1, 2, 1), (2, 1, 1), (2, 2, 1), (1, 2, 2), (2, 1, 2), (2, 2, 2), (3, 3, 1), (1, 3, 2), (2, 3, 1), (3, 2, 1), (2, 2, 3), (1, 1, 8), (2, 3, 2), (3, 3, 2), (2, 2, 4), (3, 3, 3), (2, 4, 2), (3, 3, 4), (4, 4, 2), (4, 4, 4), (2, 2, 8)]:
        out["C%d,%d,%d" % (m, n, t)] = lambda m=m, n=n, t=t, **k: dg.chimera_graph(m, n, t, **k)
    for m, t in [(1, 1), (1, 2), (1, 3), (1, 4), (2, 1), (2, 2), (3, 1), (2, 3), (2, 4), (3, 2), (3, 4), (4, 1)]:
        out["Z%d,%d" % (m, t)] = lambda m=m, t=t, **k: dg.zephyr_graph(m, t, **k)
    for m in (1, 2, 3, 4):
        out["P%d" % m] = lambda m=m, **k: dg.pegasus_graph(m, **k)
    out["P2f"] = lambda **k: dg.pegasus_graph(2, fabric_only=False, **k)
    for i in range(8):
        out["P2o%d" % i] = lambda i=i, **k: dg.pegasus_graph(2, offsets_index=i, **k)
        out["P3o%d" % i] = lambda i=i, **k: dg.pegasus_graph(3, offsets_index=i, **k)
    return out


def damage(g, nodes=(), edges=()):
    h = g.copy()
    h.remove_edges_from(edges)
    h.remove_nodes_from(nodes)
    return h


def patterns(g, nd, ed, stride=1, both=False):
    """all removals of up to nd nodes and, separately (or combined), up to ed couplers"""
    V, E = sorted(g.nodes()), sorted(g.edges())
    out = [((), ())]
    for k in range(1, nd + 1):
        out += [(c, ()) for c in itertools.combinations(V, k)]
    for k in range(1, ed + 1):
        out += [((), c) for c in itertools.combinations(E, k)]
    if both:
        out += [((v,), (e,)) for v in V for e in E if v not in e]
    return out[:1] + out[1::stride]


class Oracle:
    """minor-embedding tests in one target graph, on neighbour sets"""
    def __init__(self, g):
        self.adj = {v: set(a) for v, a in g.adj.items()}

    def chains(self, chains):
        """what is wrong with these chains as disjoint connected sets, or None"""
        seen = set()
        for c in chains:
            s = set(c)
            if not c:
                return "empty chain"
            if len(s) != len(c):
                return "repeated node in %r" % (c,)
            if seen & s:
                return "chains overlap in %r" % (seen & s,)
            seen |= s
            for q in c:
                if q not in self.adj:
                    return "%r is not in the graph" % (q,)
            todo = [c[0]]
            left = s - {c[0]}
            while todo:
                a = self.adj[todo.pop()] & left
                left -= a
                todo += a
            if left:
                return "chain %r is not connected" % (c,)
        return None

    def clique(self, emb, labels):
        labels = list(labels)
        if list(emb) != labels and set(emb) != set(labels) or len(emb) != len(labels):
            return "labels %r instead of %r" % (list(emb), labels)
        return self.clique_chains([tuple(c) for c in emb.values()])

    def clique_chains(self, ch):
        f = self.chains(ch)
        if f:
            return f
        nb = [set().union(*(self.adj[q] for q in c)) for c in ch]
        for i in range(len(ch)):
            for j in range(i):
                if nb[i].isdisjoint(ch[j]):
                    return "no coupler between %r and %r" % (ch[j], ch[i])
        return None

    def biclique(self, emb, A, B):
        A, B = list(A), list(B)
        if set(emb) != set(A) | set(B) or len(emb) != len(A) + len(B):
            return "labels %r instead of %r + %r" % (list(emb), A, B)
        f = self.chains([tuple(c) for c in emb.values()])
        if f:
            return f
        for a in A:
            nb = set().union(*(self.adj[q] for q in emb[a]))
            for b in B:
                if nb.isdisjoint(emb[b]):
                    return "no coupler between %r and %r" % (emb[a], emb[b])
        return None


class Home:
    """a private directory for the on-disk cache of this process"""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vf_home_%d_" % vf.MAIN, dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
        os.environ["XDG_DATA_HOME"] = self.dir

    def wipe(self):
        for x in os.listdir(self.dir):
            shutil.rmtree(os.path.join(self.dir, x), ignore_errors=True)

    def remove(self):
        shutil.rmtree(self.dir, ignore_errors=True)
