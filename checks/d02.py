"""D02: all interleavings of pushes, pops and resets of the pairing queue, against a multiset."""
import vf, mm
LEVEL = "exploration"


def run(ctx):
    b = vf.cxx("d23", ["d23.cpp"], flags=["-D_GLIBCXX_ASSERTIONS"], opt="-O2")
    q = ctx.quick
    groups = [("6 keys, length 8", ["queue", "6", "8"]), ("4 keys, length 9", ["queue", "4", "9"]), ("2 keys, length 13", ["queue", "2", "13"]), ("all orders of 7 distinct keys", ["perm", "7"])]
    if not q:
        groups += [("6 keys, length 9", ["queue", "6", "9"]), ("8 keys, length 8", ["queue", "8", "8"]), ("4 keys, length 11", ["queue", "4", "11"]), ("2 keys, length 17", ["queue", "2", "17"]),
                   ("all orders of 8 distinct keys", ["perm", "8"]), ("all orders of 9 distinct keys", ["perm", "9"])]
    desc = []
    for name, a in groups:
        st = mm.sharded(ctx, lambda n, i: [b, *a, str(n), str(i)])
        for k, v in st.items():
            ctx.count(k, v)
        desc.append("%s: %d sequences" % (name, st.get("sequences", 0)))
        ctx.log(desc[-1])
        if ctx.violations:
            break
    c = ctx.coverage
    c["evaluations"] = ctx.counters.get("sequences", 0)
    c["distinct_nontrivial"] = ctx.counters.get("interleaved", 0)
    c["rule"] = ("one evaluation is one operation sequence on the real pairing_queue (then moved and drained), the first entry compared with a multiset after every operation; "
                 "non-trivial = distinct sequences with two or more pops before the final drain")
    c["groups"] = desc
    c["exhaustive"] = True
    ctx.assumptions += ["pop and top are called on non-empty queues only, and no more pushes happen than the queue was made for"]
