"""B04: all histories of clique-cache edits, up to a length, on two cache objects and the disk, against a specification."""
import gzip, itertools, json
import vf
LEVEL = "model_checking"


def lin(g):
    """label -> integer label"""
    import dwave.graphs as dg
    d = g.graph
    if d["labels"] == "int":
        return lambda v: v
    if d["family"] == "chimera":
        return dg.chimera_coordinates(d["rows"], d["columns"], d["tile"]).chimera_to_linear
    if d["family"] == "zephyr":
        return dg.zephyr_coordinates(d["rows"], d["tile"]).zephyr_to_linear
    c = dg.pegasus_coordinates(d["rows"])
    return c.nice_to_linear if d["labels"] == "nice" else c.pegasus_to_linear


class World:
    """one target, the embeddings offered and the operations; chains are kept as tuples of the target's own labels"""
    def __init__(self, name, lab, nds, bc, extra):
        from bus import bases, damage, Oracle
        import b01
        B = bases()
        g, m = b01.relabeled(B, name, lab)
        self.g = damage(g, [m[v] for v in nds])
        self.o = Oracle(self.g)
        self.bc = bc
        self.to = lin(self.g)
        c = bc.busgraph_cache(self.g, seed=3)
        top = c.largest_clique()
        N = len(top)
        self.native = {n: self.of(c.find_clique_embedding(n)) for n in range(1, N + 1)}
        self.N = N
        pool = [list(top.values())]

        def grow(e, i, k):
            """e with k free neighbours added to chain i"""
            e = [list(x) for x in e]
            used = set().union(*e)
            for _ in range(k):
                q = next((q for v in e[i] for q in sorted(self.g[v]) if q not in used), None)
                if q is None:
                    return None
                e[i].append(q)
                used.add(q)
            return [tuple(x) for x in e]
        small = list(self.native[min(3, N)].values())
        one = [tuple([sorted(self.g)[0]])]
        cand = [grow(list(self.native[N].values()), 0, 2), grow(small, 0, 1), grow(small, len(small) - 1, 2),
                grow(one, 0, 2), list(reversed(list(self.native[N].values()))), one, grow(list(self.native[max(1, N - 1)].values()), 0, 1)]
        self.pool = [e for e in cand if e]
        for e in self.pool:
            assert self.o.clique_chains(e) is None, e
        P = self.pool
        ins = [("ins", "A", i, "none", i % 2 == 0, i % 2) for i in range(len(P))]
        self.ops = ins + [
            ("ins", "A", 0, "big", True, 0), ("ins", "A", 2, "pair", False, 1), ("ins", "A", 1, "big", True, 1),
            ("dir", "A", 3 % len(P), None, True, 0), ("dir", "A", 1, None, False, 1), ("dir", "B", 2, None, True, 0),
            ("ins", "A", None, "none", True, 0), ("ins", "B", 3 % len(P), "none", True, 1), ("ins", "B", 1, "none", False, 0),
            ("dir", "A", None, None, True, 0),
            ("merge", "A", "B", "none", True), ("merge", "A", "B", "big", False), ("merge", "B", "A", "pair", True),
            ("upd", "A", "B", 0, 0, True), ("upd", "A", "B", 1, 1, False), ("upd", "B", "A", 1, 0, True), ("upd", "B", "A", 0, 1, True), ("upd", "A", "A", 0, 1, True),
            ("clr", "A", 0, True), ("clr", "A", 1, False),
            ("get", "A"), ("get", "B"), ("new", "A"), ("new", "B"), ("wipe",)]

    def of(self, emb):
        return {k: tuple(v) for k, v in emb.items()}

    def quality(self, name, r=None, where=None):
        """(function handed to the library, function of the specification)"""
        if name == "none":
            return None, lambda ch: -max(map(len, ch))
        f = (lambda ch: sum(map(len, ch))) if name == "big" else (lambda ch: (-min(map(len, ch)), sum(len(c) ** 2 for c in ch)))

        def lib(emb):
            back = self.back
            try:
                ch = [tuple(back[q] for q in c) for c in emb]
            except (KeyError, TypeError):
                r.violation("%s: the quality function gets %r, which are not integer-labelled chains" % (where, emb))
                return f(emb)
            w = self.o.clique_chains(ch)
            if w:
                r.violation("%s: the quality function gets %r: %s" % (where, emb, w))
            return f(emb)
        return lib, f

    def history(self, path, r, where):
        """run one history on fresh objects; returns what is observable afterwards, and compare it with the specification"""
        bc = self.bc
        self.back = {self.to(v): v for v in self.g}
        bc.busgraph_cache.clear_all_caches()
        mk = lambda: bc.busgraph_cache(self.g, seed=3)
        obj = {"A": mk(), "B": mk()}
        mem = {"A": None, "B": None}        # specification: None or size -> tuple of chains
        disk = [None]
        native = {n: tuple(e.values()) for n, e in self.native.items()}

        def load(x):
            if mem[x] is None:
                if disk[0] is None:
                    disk[0] = dict(native)
                mem[x] = dict(disk[0])

        def blank(x):
            if mem[x] is None:
                mem[x] = {}

        def offer(x, new, spec):
            for n, ch in new.items():
                old = mem[x].get(n)
                if old is None or spec(ch) > spec(old):
                    mem[x][n] = ch
        for op in path:
            k = op[0]
            if k in ("ins", "dir"):
                _, x, i, qn, write, form = op
                e = [] if i is None else self.pool[i]
                s = tuple(sorted(e, key=len))
                arg = list(e) if form else {("k", j): list(c) for j, c in enumerate(e)}
                blank(x)
                if k == "ins":
                    q, spec = self.quality(qn, r, where)
                    obj[x].insert_clique_embedding(arg, write_to_disk=write, quality_function=q)
                    offer(x, {n: s[:n] for n in range(1, len(s) + 1)}, spec)
                else:
                    obj[x].insert_clique_embedding(arg, write_to_disk=write, direct=True)
                    if s:
                        mem[x][len(s)] = s
                if write:
                    disk[0] = dict(mem[x])
            elif k == "merge":
                _, x, y, qn, write = op
                q, spec = self.quality(qn, r, where)
                blank(x)
                obj[x].merge_clique_cache(obj[y], quality_function=q, write_to_disk=write)
                load(y)
                offer(x, mem[y], spec)
                if write:
                    disk[0] = dict(mem[x])
            elif k == "upd":
                _, x, y, sparse, comp, write = op
                load(y)
                cache = obj[y].get_clique_cache(sparse=bool(sparse), compress=bool(comp))
                if comp and sparse:
                    cache = gzip.decompress(cache).decode("utf8")
                obj[x].update_clique_cache(cache, write_to_disk=write)
                blank(x)
                mem[x].update(mem[y])
                if write:
                    disk[0] = dict(mem[x])
            elif k == "clr":
                _, x, form, write = op
                obj[x].update_clique_cache({} if form else [], write_to_disk=write)
                blank(x)
                if write:
                    disk[0] = dict(mem[x])
            elif k == "get":
                obj[op[1]].largest_clique()
                load(op[1])
            elif k == "new":
                obj[op[1]] = mk()
                mem[op[1]] = None
            else:
                bc.busgraph_cache.clear_all_caches()
                disk[0] = None
        flags = (mem["A"] is None, mem["B"] is None, disk[0] is None)
        # what a third session reads, and what the two objects hold
        seen = []
        if disk[0] is None and None not in mem.values():
            pass
        else:
            obj["the disk"] = mk()
            mem["the disk"] = None
            if disk[0] is None:
                disk[0] = dict(native)
        for x in sorted(obj, reverse=True):
            load(x)
            c = obj[x]
            spec = mem[x]
            N = max(spec, default=0)
            got = {}
            for n in range(self.N + 2):
                e = c.find_clique_embedding(n)
                r.count("answers")
                ch = tuple(tuple(v) for v in e.values())
                got[n] = ch
                if list(e) != list(range(len(e))):
                    r.violation("%s: %s answers %r for size %d" % (where, x, e, n))
                w = self.o.clique_chains(ch)
                if w:
                    r.violation("%s: %s holds %r for size %d: %s" % (where, x, e, n, w))
                want = spec.get(n, ())
                if [frozenset(v) for v in ch] != [frozenset(v) for v in want] and sorted(map(sorted, ch)) != sorted(map(sorted, want)):
                    r.violation("%s: %s holds %r for size %d, but the best one offered is %r" % (where, x, ch, n, want))
            top = c.largest_clique()
            if len(top) != N:
                r.violation("%s: the largest clique of %s has %d nodes instead of %d" % (where, x, len(top), N))
            if self.o.clique(top, range(N)):
                r.violation("%s: the largest clique of %s is %r: %s" % (where, x, top, self.o.clique(top, range(N))))
            for cl in range(0, 6):
                e = c.largest_clique_by_chainlength(cl)
                r.count("answers")
                need = max([n for n in spec if max(map(len, spec[n])) <= cl], default=0)
                w = self.o.clique(e, range(len(e)))
                if w or len(e) < need or any(len(v) > cl for v in e.values()):
                    r.violation("%s: largest_clique_by_chainlength(%d) of %s is %r, and size %d is known: %s" % (where, cl, x, e, need, w))
            seen.append(tuple(sorted((n, got[n]) for n in got)))
            # every export reproduces the object
            for sparse in (False, True):
                for comp in (False, True):
                    cache = c.get_clique_cache(sparse=sparse, compress=comp)
                    f = mk()
                    f.update_clique_cache(cache, write_to_disk=False)
                    r.count("exports")
                    for n in got:
                        if tuple(tuple(v) for v in f.find_clique_embedding(n).values()) != got[n] and sorted(map(sorted, f.find_clique_embedding(n).values())) != sorted(map(sorted, got[n])):
                            r.violation("%s: an export (sparse=%r, compress=%r) of %s imports as %r for size %d" % (where, sparse, comp, x, f.find_clique_embedding(n), n))
        return flags, tuple(seen)


def run(ctx):
    pkg = vf.pypkg(["busclique"], opt="-O1", flags=["-D_GLIBCXX_ASSERTIONS"])
    vf.use_package(pkg)
    from minorminer import busclique as bc
    from bus import Home
    import glob, shutil
    q = ctx.quick
    worlds = [("C2,2,2", "int", ()), ("C2,2,2", "coord", ()), ("Z1,1", "coord", ()), ("P2", "nice", ()), ("Z2,1", "int", (6,))] + ([("C1,1,3", "int", (2,)), ("C3,3,1", "coord", (4,)), ("Z1,2", "int", ()), ("P2", "coord", (7,)), ("P2f", "int", ())] if not q else [])
    mine = set(glob.glob("/dev/shm/vf_home_%d_*" % vf.MAIN))
    h = Home()
    W = {w: World(*w, bc, None) for w in worlds}
    h.remove()
    depth = {w: 3 for w in worlds} if q else {w: 4 if w[0] in ("C2,2,2", "C1,1,3") else 3 for w in worlds}
    home = {}

    def init():
        home["h"] = Home()
    states = {}
    trans = 0
    front = {w: [()] for w in worlds}
    full = {}
    try:
        for d in range(1, max(depth.values()) + 1):
            cases = []
            for w in worlds:
                if d > depth[w]:
                    continue
                ex = [p + (op,) for p in front[w] for op in W[w].ops]
                # the last level is explored with a stride in the quick check
                if q and d == 3 and w[0] != "C2,2,2":
                    ex = ex[::5]
                for i in range(0, len(ex), 12):
                    cases.append((w, ex[i:i + 12]))
                trans += len(ex)

            def one(case, r):
                w, paths = case
                for p in paths:
                    where = "%s (%s labels)%s, history %r" % (w[0], w[1], " without %r" % (w[2],) if w[2] else "", p)
                    vf.note(where)
                    s = W[w].history(p, r, where)
                    r.nontrivial((w, hash((s, p[-1]))))
                    r.data.append((w, p, hash(s)))
                    if r.violations:
                        return
                    if len(r.samples) < 1 and len(p) > 2:
                        r.sample(where)
            ctx.data = []
            vf.run_cases(ctx, cases, one, cpu_limit=60, wall_limit=150, init=init, describe=lambda c: repr((c[0], c[1][0])))
            if ctx.violations:
                break
            front = {w: [] for w in worlds}
            new = 0
            # in the order of the histories, whoever finished first
            for w, p, k in sorted(ctx.data, key=repr):
                if (w, k) not in states:
                    states[w, k] = p
                    front[w].append(p)
                    new += 1
            full[d] = new
    finally:
        for x in set(glob.glob("/dev/shm/vf_home_%d_*" % vf.MAIN)) - mine:
            shutil.rmtree(x, ignore_errors=True)
    ctx.counters["histories"] = trans
    c = ctx.coverage
    c["states"] = len(states) + len(worlds)
    c["transitions"] = trans
    c["traces_validated_against_impl"] = trans
    ctx.assumptions += ["histories up to 3 (4) operations of an alphabet of about 30, continuing from one history per observable outcome"]
