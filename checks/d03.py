"""D03: all small multigraphs, presentations and reserved sets through input_graph and components."""
import vf, mm
LEVEL = "exploration"


def run(ctx):
    b = vf.cxx("d23", ["d23.cpp"], flags=["-D_GLIBCXX_ASSERTIONS"], opt="-O2")
    desc = []
    for n in range(1, 7 if ctx.quick else 8):
        st = mm.sharded(ctx, lambda m, i: [b, "comps", str(n), str(m), str(i)])
        for k, v in st.items():
            ctx.count(k, v)
        desc.append("%d nodes: %d graphs with presentation and reserved set" % (n, st.get("evaluations", 0)))
        ctx.log(desc[-1])
        if ctx.violations:
            break
    for n in (8, 16):
        if ctx.violations:
            break
        st = mm.sharded(ctx, lambda m, i: [b, "tournament", str(n), str(m), str(i)])
        for k, v in st.items():
            ctx.count(k, v)
        desc.append("%d nodes joined level by level (deep union-find trees): %d graphs" % (n, st.get("evaluations", 0)))
        ctx.log(desc[-1])
    c = ctx.coverage
    c["evaluations"] = ctx.counters.get("evaluations", 0)
    c["distinct_nontrivial"] = ctx.counters.get("nontrivial", 0)
    c["rule"] = ("one evaluation builds the real graph::components of one labelled multigraph with one edge presentation (plain, reversed, doubled, rotated with self-loops) and one reserved set; "
                 "non-trivial = several components and a non-empty reserved set")
    c["groups"] = desc
    c["exhaustive"] = True
    ctx.assumptions += ["for 6 and more nodes reserved sets of more than 1 node are combined with one presentation only"]
