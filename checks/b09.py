"""B09: all histories of queries on cache objects that share a directory, against the answers of a fresh object."""
import itertools, json, os, subprocess, sys
import vf
LEVEL = "exploration"

CHILD = r'''
import sys, json, os
sys.path[:0] = json.loads(sys.argv[1])
import b09
from minorminer import busclique as bc
for line in sys.stdin:
    case, seed = json.loads(line)
    g = b09.graph(case)
    out = [b09.clique_answers(bc.busgraph_cache(g, seed=seed)), b09.biclique_answers(bc.busgraph_cache(g, seed=seed)), b09.direct_answers(bc, g, seed)]
    bc.busgraph_cache.clear_all_caches()
    print(json.dumps(out), flush=True)
'''


def graph(case):
    from bus import bases, damage
    b, nds, eds = case[:3]
    return damage(bases()[b](), nds, [tuple(e) for e in eds])


def plain(e):
    return repr(sorted((repr(k), [repr(q) for q in c]) for k, c in e.items()))


def clique_answers(c):
    top = c.largest_clique()
    out = {"largest clique": plain(top)}
    for n in range(len(top) + 2):
        out["clique of %d" % n] = plain(c.find_clique_embedding(n))
    for l in range(1, 6):
        out["largest clique with chains of at most %d" % l] = plain(c.largest_clique_by_chainlength(l))
    return out


def biclique_answers(c):
    top = c.largest_balanced_biclique()
    s = len(top) // 2
    out = {"largest balanced biclique": plain(top)}
    for n in range(1, s + 3):
        for m in range(n, 2 * s + 3):
            out["biclique of %d and %d" % (n, m)] = plain(c.find_biclique_embedding(n, m))
    return out


def direct_answers(bc, g, seed):
    out = {}
    for n in range(1, 40):
        e = bc.find_clique_embedding(n, g, seed=seed, use_cache=False)
        out["uncached clique of %d" % n] = plain(e)
        if not e:
            break
    return out


# object: seed of the object (they share one directory)
OBJ = {"A": 0, "B": 0, "D": 7}
OPS = [(o, x) for o in ("cliques", "bicliques", "both") for x in "ABD"] + [("direct", "A"), ("renew", "A"), ("wipe", "")]


def histories(depth):
    for h in itertools.product(OPS, repeat=depth):
        # only what some query follows; two renewals or wipes in a row are one; A comes before B
        if h[-1][0] in ("renew", "wipe") or h[0][0] in ("renew", "wipe"):
            continue
        if any(a == b and a[0] in ("renew", "wipe", "direct") for a, b in zip(h, h[1:])):
            continue
        xs = [x for o, x in h if x and o != "renew"]
        if "B" in xs and ("A" not in xs or xs.index("B") < xs.index("A")):
            continue
        yield h


def cases_of(q):
    from bus import bases
    B = bases()
    out = []
    names = ["C2,2,2", "C3,3,2", "C2,2,4", "C3,3,3", "P2", "P2f", "P2o3", "Z1,2", "Z1,4", "Z2,2"] + ([] if q else ["C1,1,4", "C2,3,2", "C2,4,2", "C3,3,4", "C4,4,2", "P2o1", "P2o6", "P3", "Z1,3", "Z2,1", "Z2,3", "Z2,4", "Z3,2"])
    for b in names:
        g = B[b]()
        V, E = sorted(g.nodes()), sorted(tuple(sorted(e)) for e in g.edges())
        out.append((b, (), ()))
        if b not in ("P3", "Z2,4"):
            out.append((b, tuple(V[1::7]), ()))
        for k in (2, 5, 8, 13, 20, 28):
            if 2 * k > len(E):
                continue
            for a in ((0, 3) if q else (0, 1, 3, 4)):
                # k couplers spread over the list, and k neighbouring ones
                sp = tuple(E[(a * 5 + i * len(E) // k) % len(E)] for i in range(k))
                if len(set(sp)) == k:
                    out.append((b, (), sp))
                out.append((b, (), tuple(E[(a * 11 + i) % len(E)] for i in range(k))) if a else (b, (V[0],), tuple(e for e in sp if V[0] not in e)))
    return out


def run(ctx):
    pkg = vf.pypkg(["busclique"], opt="-O1", flags=["-D_GLIBCXX_ASSERTIONS"])
    vf.use_package(pkg)
    from minorminer import busclique as bc
    from bus import Home
    import glob, shutil
    q = ctx.quick
    G = cases_of(q)
    # the long histories only on a few targets
    cases = [(c, 2 if q else 3, 0, 1) for c in G]
    parts = 8 if q else 24
    deep = [c for c in G if c[0] in (("C3,3,2", "P2", "Z1,4") if q else ("C2,2,4", "C3,3,2", "C3,3,3", "P2", "P2f", "Z1,4")) and len(c[2]) in ((5, 13) if q else (5, 13, 20))]
    cases += [(c, 3 if q else 4, i, parts) for c in (deep[::3] if q else deep[::2]) for i in range(parts)]
    cases.sort(key=lambda c: (-c[1], -len(c[0][2])))
    st = {}

    def init():
        st["h"] = Home()
        st["ref"] = {}
        st["kids"] = []
        for hs, per in (("1", "85"), ("77", "202")):
            env = dict(os.environ, PYTHONHASHSEED=hs, MALLOC_PERTURB_=per, XDG_DATA_HOME=st["h"].dir + "/kid" + hs)
            os.makedirs(env["XDG_DATA_HOME"], exist_ok=True)
            st["kids"].append(subprocess.Popen([sys.executable, "-W", "ignore", "-c", CHILD, json.dumps(sys.path)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env))

    def clean():
        bc.busgraph_cache.clear_all_caches()

    def reference(c, r):
        key = repr(c)
        if key in st["ref"]:
            return st["ref"][key]
        g = graph(c)
        ref = {}
        for s in sorted(set(OBJ.values())):
            clean()
            ref[s] = {"cliques": clique_answers(bc.busgraph_cache(g, seed=s))}
            clean()
            ref[s]["bicliques"] = biclique_answers(bc.busgraph_cache(g, seed=s))
            ref[s]["direct"] = direct_answers(bc, g, s)
            for i, k in enumerate(st["kids"]):
                k.stdin.write(json.dumps([c, s]) + "\n")
                k.stdin.flush()
                line = k.stdout.readline()
                if not line:
                    r.violation("%s with seed %d: a process that asks for everything once dies (%r)" % (name(c), s, k.wait()))
                    return ref
                got = dict(zip(("cliques", "bicliques", "direct"), json.loads(line)))
                for what in got:
                    compare(r, got[what], ref[s][what], "%s with seed %d" % (name(c), s), "in another process (number %d)" % i)
        clean()
        st["ref"][key] = ref
        return ref

    def name(c):
        return "%s without %r %r" % (c[0], list(c[1]), list(c[2]))

    def compare(r, got, want, where, how):
        r.count("answers", len(want))
        if got != want:
            d = [k for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k)]
            r.violation("%s: %s, the %s is %s instead of %s" % (where, how, d[0], got.get(d[0]), want.get(d[0])), replay={"graph": where, "how": how, "differs": d})

    def one(case, r):
        c, depth, part, parts = case
        vf.note(name(c))
        ref = reference(c, r)
        if r.violations:
            return
        g = graph(c)
        n = 0
        for i, h in enumerate(histories(depth)):
            if i % parts != part:
                continue
            clean()
            obj = {x: bc.busgraph_cache(g, seed=s) for x, s in OBJ.items()}
            for j, (o, x) in enumerate(h):
                s = OBJ.get(x)
                # the whole sequence has been compared up to its last step by a shorter or an earlier one
                last = j == len(h) - 1
                if o == "wipe":
                    clean()
                elif o == "renew":
                    obj[x] = bc.busgraph_cache(g, seed=s)
                else:
                    for w in (("cliques", "bicliques") if o == "both" else (o,)):
                        if not last:
                            if w == "cliques":
                                obj[x].find_clique_embedding(3)
                            elif w == "bicliques":
                                obj[x].find_biclique_embedding(1, 2)
                            else:
                                bc.find_clique_embedding(5, g, seed=s, use_cache=False)
                            continue
                        got = clique_answers(obj[x]) if w == "cliques" else biclique_answers(obj[x]) if w == "bicliques" else direct_answers(bc, g, s)
                        compare(r, got, ref[s][w], "%s with seed %d" % (name(c), s), "after " + ", ".join("%s %s" % y for y in h[:-1]) + " (objects A and B: seed 0, D: seed 7)")
                r.count("steps")
            n += 1
            if r.violations:
                return
        r.count("histories", n)
        r.nontrivial((name(c), depth, part))
        if not r.samples and part == 0:
            r.sample("%s: %d histories of %d steps" % (name(c), n, depth))
    mine = set(glob.glob("/dev/shm/vf_home_%d_*" % vf.MAIN))
    try:
        vf.run_cases(ctx, cases, one, cpu_limit=60 if q else 200, wall_limit=300 if q else 600, init=init)
    finally:
        for x in set(glob.glob("/dev/shm/vf_home_%d_*" % vf.MAIN)) - mine:
            shutil.rmtree(x, ignore_errors=True)
    k = ctx.coverage
    k["evaluations"] = ctx.counters.get("histories", 0)
    k["distinct_nontrivial"] = len(ctx.distinct)
    k["rule"] = "one evaluation is one history of queries, renewals and removals of the directory whose last answers are all compared with those of a fresh object; distinct = distinct (target, length, part of the histories)"
    ctx.assumptions += ["three objects (two with the same seed) share a directory; histories of up to %d steps on all targets and %d on some; answers are also compared between processes with other hash seeds and memory fillings" % ((2, 3) if q else (3, 4))]
