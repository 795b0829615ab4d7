"""B10: the fragment view of every small target, contracted, gives back the target."""
import itertools
import vf
LEVEL = "exploration"


def odd(g):
    """couplers that have no counterpart among fragments: the odd couplers of Pegasus and Zephyr"""
    import dwave.graphs as dg
    fam, d = g.graph["family"], g.graph
    E = [tuple(e) for e in g.edges()]
    if fam == "chimera":
        return set()
    if fam == "pegasus":
        c = dg.pegasus_coordinates(d["rows"])
        to = {"int": c.linear_to_pegasus, "coordinate": lambda v: v, "nice": c.nice_to_pegasus}[d["labels"]]
        return {e for e in E if to(e[0])[0] == to(e[1])[0] and to(e[0])[2] != to(e[1])[2]}
    c = dg.zephyr_coordinates(d["rows"], d["tile"])
    to = {"int": c.linear_to_zephyr, "coordinate": lambda v: v}[d["labels"]]
    out = set()
    for e in E:
        (u, w, k, j, z), (u1, w1, k1, j1, z1) = to(e[0]), to(e[1])
        if u == u1 and j != j1:
            out.add(e)
    return out


def run(ctx):
    pkg = vf.pypkg(["busclique"], opt="-O1", flags=["-D_GLIBCXX_ASSERTIONS"])
    vf.use_package(pkg)
    from minorminer import busclique as bc
    import dwave.graphs as dg
    import networkx as nx
    from bus import bases, damage, patterns, Home
    q = ctx.quick
    B = bases()
    cases = []
    for b in B:
        g = B[b]()
        big = g.number_of_edges()
        if b.startswith("P3o") or (b == "P4" and q):
            continue
        kinds = [{}] if g.graph["family"] == "chimera" and b != "C2,2,2" else [{}, {"coordinates": True}]
        if b in ("P2", "P3"):
            kinds.append({"nice_coordinates": True})
        for kw in kinds:
            h = B[b](**kw)
            P = patterns(h, 1, 1, stride=1 if big < (400 if q else 1200) else 7 if big < 1500 else 40, both=False)
            if big < (60 if q else 150):
                P = patterns(h, 2, 2, stride=1 if big < 40 else 5, both=big < 40)
            if kw and q:
                P = P[:1] + P[1::3]
            for i in range(0, len(P), 150):
                cases.append((b, tuple(sorted(kw)), P[i:i + 150]))
    seen = {}

    def stub(f, f_emb, *a, **k):
        seen["f"], seen["emb"] = f, f_emb

    def init():
        import os
        os.environ["OMP_NUM_THREADS"] = "1"
        seen["home"] = Home()
        dg.draw_chimera_embedding = stub

    def view(c, emb):
        seen.pop("f", None)
        c.draw_fragment_embedding(emb)
        f, fe = seen.get("f"), seen.get("emb")
        return f, {k: list(x) for k, x in fe.items()}

    def one(case, r):
        b, kw, P = case
        base = B[b](**{k: True for k in kw})
        for nds, eds in P:
            g = damage(base, nds, eds)
            where = "%s%s without %r %r" % (b, list(kw), nds, eds)
            vf.note(where)
            c = bc.busgraph_cache(g)
            V = list(g.nodes())
            f, fe = view(c, {("chain", i): [v] for i, v in enumerate(V)})
            if set(fe) != {("chain", i) for i in range(len(V))}:
                r.violation("%s: chains %r are drawn" % (where, list(fe)[:10]))
                return
            owner = {}
            for i, v in enumerate(V):
                fr = fe[("chain", i)]
                if not fr or len(set(fr)) != len(fr):
                    r.violation("%s: qubit %r has fragments %r" % (where, v, fr))
                    return
                for x in fr:
                    if x in owner:
                        r.violation("%s: qubits %r and %r share fragment %r" % (where, v, owner[x], x))
                        return
                    if x not in f:
                        r.violation("%s: fragment %r of %r is not in the drawn graph" % (where, x, v))
                        return
                    owner[x] = v
                if not nx.is_connected(f.subgraph(fr)) or f.subgraph(fr).number_of_edges() != len(fr) - 1:
                    r.violation("%s: the fragments %r of %r are not a path" % (where, fr, v))
                    return
            if set(owner) != set(f.nodes()):
                r.violation("%s: fragments %r of the drawn graph belong to no qubit" % (where, sorted(set(f.nodes()) - set(owner))[:10]))
                return
            got = {}
            for x, y in f.edges():
                if owner[x] != owner[y]:
                    k = frozenset((owner[x], owner[y]))
                    got[k] = got.get(k, 0) + 1
            o = odd(g)
            want = {frozenset(e) for e in g.edges() if tuple(e) not in o}
            if set(got) != want:
                r.violation("%s: couplers %r are drawn without being there, %r are not drawn" % (where, [tuple(x) for x in set(got) - want][:4], [tuple(x) for x in want - set(got)][:4]))
                return
            twice = [tuple(k) for k, n in got.items() if n > 1]
            if twice:
                r.violation("%s: couplers %r are drawn several times" % (where, twice[:4]))
                return
            r.count("views")
            r.count("couplers", len(want))
            r.nontrivial((b, kw, nds, eds))
            # a chain is drawn as the fragments of its qubits
            E = sorted(tuple(e) for e in g.edges())[:3]
            for e in E:
                _, f2 = view(c, {"x": list(e), 5: []})
                if sorted(f2["x"]) != sorted(fe[("chain", V.index(e[0]))] + fe[("chain", V.index(e[1]))]) or f2[5]:
                    r.violation("%s: chain %r is drawn as %r" % (where, e, f2))
        if not r.samples:
            r.sample("%s%s: %d patterns of missing parts" % (b, list(kw), len(P)))
    import glob, shutil
    mine = set(glob.glob("/dev/shm/vf_home_%d_*" % vf.MAIN))
    try:
        vf.run_cases(ctx, cases, one, cpu_limit=100, wall_limit=300, init=init)
    finally:
        for x in set(glob.glob("/dev/shm/vf_home_%d_*" % vf.MAIN)) - mine:
            shutil.rmtree(x, ignore_errors=True)
    c = ctx.coverage
    c["evaluations"] = ctx.counters.get("views", 0)
    c["distinct_nontrivial"] = len(ctx.distinct)
    c["rule"] = "one evaluation is one target whose fragment graph is contracted and compared with it; distinct = distinct (target, labels, missing parts)"
    ctx.assumptions += ["the graph and chains handed to the drawing function are judged, not the picture; odd couplers of Pegasus and Zephyr have no counterpart among fragments"]
