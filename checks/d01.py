"""D01: explicit-state exploration of chain objects (the implementation's own operations are the transition relation)."""
import os, subprocess
from concurrent.futures import ThreadPoolExecutor
import vf
LEVEL = "model_checking"
GRAPHS = {"P2": (2, "0 1"), "P3": (3, "0 1 1 2"), "K3": (3, "0 1 1 2 0 2"), "P4": (4, "0 1 1 2 2 3"), "S3": (4, "0 1 0 2 0 3"), "C4": (4, "0 1 1 2 2 3 0 3"), "paw": (4, "0 1 1 2 0 2 2 3"),
          "K4": (4, "0 1 0 2 0 3 1 2 1 3 2 3"), "P5": (5, "0 1 1 2 2 3 3 4"), "T5": (5, "0 1 1 2 1 3 3 4"), "C5": (5, "0 1 1 2 2 3 3 4 4 0"), "C6": (6, "0 1 1 2 2 3 3 4 4 5 5 0")}


def run(ctx):
    b = vf.cxx("d01", ["d01.cpp"], flags=["-D_GLIBCXX_ASSERTIONS"], opt="-O2")
    cap = 30000 if ctx.quick else 1500000
    conf = [("P2", 2, "fa"), ("P2", 3, "f"), ("P3", 2, "fa"), ("K3", 2, "f"), ("K3", 2, "a"), ("P3", 3, ""), ("P3", 3, "f"), ("P4", 2, ""), ("P4", 2, "f"), ("P4", 2, "a"), ("S3", 2, ""), ("S3", 2, "fa"),
            ("C4", 2, ""), ("C4", 2, "f"), ("paw", 2, ""), ("K4", 2, ""), ("K3", 3, ""), ("P5", 2, ""), ("T5", 2, ""), ("C5", 2, "")]
    if not ctx.quick:
        conf += [("C6", 2, ""), ("K4", 2, "fa"), ("C4", 3, ""), ("P4", 3, "f"), ("P2", 4, "")]
    desc = []

    def one(c):
        g, k, o = c
        n, e = GRAPHS[g]
        return c, subprocess.run([b, str(n), e, str(k), "60", str(cap), o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    with ThreadPoolExecutor(vf.NCPU if ctx.quick else 4) as ex:
        for c, r in ex.map(one, sorted(conf, key=lambda c: -c[1])):
            st = {}
            bad = False
            for l in r.stdout.splitlines():
                if l.startswith(("VIOL ", "CRASH ", "HANG ")):
                    bad = True
                    ctx.violation("%s, %d chains: %s" % (c[0], c[1], l), dict(config=c, line=l))
                elif l.startswith("STAT "):
                    _, k, v = l.split()
                    st[k] = int(v)
                elif l.startswith("SAMPLE "):
                    ctx.sample(l[7:])
            if r.returncode and not bad:
                raise vf.CheckError("d01 ended with %d\n%s" % (r.returncode, r.stdout[-2000:]))
            for k, v in st.items():
                if not k.startswith("max_"):
                    ctx.count(k, v)
            desc.append("%s, %d chains, options %r: %d states, %d transitions, %s" % (
                c[0], c[1], c[2], st.get("states", 0), st.get("transitions", 0), "closed" if st.get("closed_spaces") else "complete to depth %d" % st.get("max_full_depth", -1)))
    c = ctx.coverage
    c["states"] = ctx.counters.get("states", 0)
    c["transitions"] = ctx.counters.get("transitions", 0)
    c["traces_validated_against_impl"] = ctx.counters.get("maximal_traces", 0)
    c["rule"] = "traces = maximal operation sequences of the exploration tree; every transition is executed on fresh find_embedding::chain objects by replaying the shortest operation sequence to its source state; the model (expected state, tree, reference and usage invariants) is compared after it"
    c["configurations"] = sorted(desc)
    ctx.assumptions += ["operations are called only when their documented preconditions hold (links made and dropped in pairs; a path is linked only into a chain without unreferenced leaves, as the callers do)",
                        "target graphs of 2-6 nodes, 2-4 chains, up to %d states per configuration" % cap]
