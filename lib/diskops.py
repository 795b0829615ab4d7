"""Operations on the on-disk cache, scenarios and their serial outcomes (B05, B06)."""
import itertools, os, shutil
import fsx


class Disk:
    def __init__(self, bc, home):
        from bus import bases, damage, Oracle
        self.bc, self.home = bc, home
        B = bases()
        self.G = {}
        g = B["C1,1,4"]()
        V = sorted(g)
        # many small targets, to fill the cache up to its limit
        k = 0
        for m in range(1, 256):
            h = damage(g, [V[i] for i in range(8) if m >> i & 1])
            self.G["f%d" % m] = h
        self.G["a"] = B["C1,1,2"]()
        self.G["b"] = B["C1,1,3"]()
        self.G["c"] = B["C2,3,1"]()      # same short code as d
        self.G["d"] = B["C3,2,1"]()
        self.G["z"] = B["Z1,1"]()
        self.G["q"] = damage(B["Z1,1"](), (), [(0, 1)])     # same topology identifier as z
        self.G["e"] = B["C2,2,1"](coordinates=True)
        self.oracle = {k: Oracle(g) for k, g in self.G.items()}

    def cache(self, k):
        return self.bc.busgraph_cache(self.G[k])

    def canon(self, k, e):
        return tuple(tuple(c) for c in e.values())

    def op(self, o):
        """perform an operation given as a tuple; returns a canonical answer"""
        kind, k = o[0], o[1]
        if kind == "largest":
            return self.canon(k, self.cache(k).largest_clique())
        if kind == "find":
            return self.canon(k, self.bc.find_clique_embedding(o[2], self.G[k]))
        if kind == "bi":
            return self.canon(k, self.cache(k).largest_balanced_biclique())
        if kind == "ins":        # a single chain, shorter or longer than what is there
            c = self.cache(k)
            c.largest_clique()
            c.insert_clique_embedding(self.emb(k, o[2]), direct=True)
            return self.canon(k, c.find_clique_embedding(len(self.emb(k, o[2]))))
        if kind == "insblind":
            c = self.cache(k)
            c.insert_clique_embedding(self.emb(k, o[2]), direct=True)
            return self.canon(k, c.find_clique_embedding(len(self.emb(k, o[2]))))
        if kind == "upd":
            c = self.cache(k)
            c.update_clique_cache([[], self.emb(k, 1)])
            return self.canon(k, c.largest_clique())
        if kind == "clear":
            self.bc.busgraph_cache.clear_all_caches()
            return ()
        raise ValueError(o)

    def emb(self, k, v):
        g = self.G[k]
        V = list(g)
        if v == 1:
            return [(V[-1],)]
        if v == 2:
            x = V[-1]
            return [(x, sorted(g[x])[0])]
        x = V[0]
        return [(x,), (sorted(g[x])[-1],)]

    def all(self, ops):
        return [self.op(o) for o in ops]

    def template(self, name):
        """build the initial contents of the directory"""
        self.home.wipe()
        if name == "empty":
            return
        ops = {"warm a": [("largest", "a")], "warm d": [("largest", "d")], "warm ab": [("largest", "a"), ("bi", "a"), ("largest", "b")], "warm c": [("largest", "c")], "edited c": [("insblind", "c", 2)], "edited z": [("insblind", "z", 3)], "warm z": [("largest", "z")],
               "full": None, "full bi": None}[name]
        if ops is None:
            # 100 files
            kind, sub = ("largest", "clique") if name == "full" else ("bi", "biclique")
            self.fill = []
            seen = set()
            for k in self.G:
                if k[0] != "f" or len(seen) >= 100:
                    continue
                s = self.cache(k)._graph.short_identifier
                if s not in seen:
                    seen.add(s)
                    self.fill.append(k)
            ops = [(kind, k) for k in self.fill]
        r = fsx.alone(lambda: self.all(ops))
        assert r[0] == "ok", r

    def save(self, to):
        shutil.copytree(self.home.dir, to, dirs_exist_ok=True)

    def restore(self, frm):
        self.home.wipe()
        shutil.copytree(frm, self.home.dir, dirs_exist_ok=True, copy_function=shutil.copyfile)


def interleavings(seqs):
    """all merges of sequences given by lengths: tuples of indices"""
    out = []

    def rec(pos, got):
        if all(p == n for p, n in zip(pos, seqs)):
            out.append(tuple(got))
            return
        for i in range(len(seqs)):
            if pos[i] < seqs[i]:
                pos[i] += 1
                rec(pos, got + [i])
                pos[i] -= 1
    rec([0] * len(seqs), [])
    return out
