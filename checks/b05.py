"""B05: all interleavings, up to a number of preemptions, of the file operations of processes and threads that use the disk cache."""
import os, tempfile, shutil, glob
import vf
LEVEL = "model_checking"

# name, initial contents, processes (lists of threads (lists of operations)), operations that look at the result
L, F, BI = "largest", "find", "bi"
END = [(L, "a"), (F, "b", 2), (BI, "a"), (L, "c"), (L, "d"), (L, "z"), (L, "q")]
SCEN = [
    ("two processes, same target, nothing cached", "empty", [[[(L, "a")]], [[(F, "a", 2)]]], END, 2, 3),
    ("two processes, different targets", "empty", [[[(L, "a")]], [[(L, "b")]]], END, 2, 3),
    ("two processes, targets that share a file", "empty", [[[(L, "c")]], [[(L, "d")]]], END, 2, 3),
    ("two processes, targets that share an identifier", "warm z", [[[(L, "z")]], [[(L, "q")]]], END, 2, 3),
    ("reader and writer", "warm ab", [[[(L, "a")]], [[("ins", "a", 2)]]], END, 1, 2),
    ("an edited target and one that shares its file", "edited c", [[[(L, "c")]], [[(L, "d")]]], END, 2, 3),
    ("two writers", "warm ab", [[[("insblind", "a", 2)]], [[("insblind", "a", 3)]]], END, 2, 3),
    ("replacing and inserting", "warm c", [[[("upd", "c")]], [[("insblind", "c", 3)]]], END, 1, 2),
    ("full cache, two new targets", "full", [[[(L, "a")]], [[(L, "b")]]], END, 1, 2),
    ("full cache, a new target and the oldest", "full", [[[(L, "a")]], [[(L, "OLDEST")]]], END + [(L, "OLDEST")], 1, 2),
    ("full biclique cache, two new targets", "full bi", [[[(BI, "a")]], [[(BI, "b")]]], END, 1, 2),
    ("cliques and bicliques of one target", "empty", [[[(L, "a")]], [[(BI, "a")]]], END, 1, 3),
    ("two bicliques", "empty", [[[(BI, "a")]], [[(BI, "b")]]], END, 1, 2),
    ("two threads, same target", "empty", [[[(L, "a")], [(F, "a", 2)]]], END, 2, 3),
    ("two threads, targets that share a file", "empty", [[[(L, "c")], [(L, "d")]]], END, 2, 3),
    ("two threads, reader and writer", "warm ab", [[[(L, "a")], [("insblind", "a", 2)]]], END, 2, 3),
    ("two threads, cliques and bicliques", "empty", [[[(L, "a")], [(BI, "a")]]], END, 1, 2),
    ("three processes", "empty", [[[(L, "a")]], [[(L, "a")]], [[(L, "b")]]], END, 1, 2),
    ("a process with two threads and another process", "warm a", [[[(L, "a")], [(L, "b")]], [[("insblind", "a", 2)]]], END, 1, 2),
    ("two steps against one", "empty", [[[(L, "a"), (L, "b")]], [[(L, "a")]]], END, 1, 2),
]
SHARDS = 16


def run(ctx):
    import fsx
    fsx.reexec()
    pkg = vf.pypkg(["busclique"], opt="-O1", flags=["-D_GLIBCXX_ASSERTIONS"])
    vf.use_package(pkg)
    bc = fsx.import_controlled("minorminer.busclique")
    from bus import Home
    from diskops import Disk, interleavings
    import itertools
    q = ctx.quick
    base = tempfile.mkdtemp(prefix="vf_tpl_", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    mine = set(glob.glob("/dev/shm/vf_home_%d_*" % vf.MAIN))
    try:
        home = Home()
        D = Disk(bc, home)
        scen = []
        for name, tpl, procs, end, b1, b2 in SCEN:
            d = os.path.join(base, tpl.replace(" ", "_"))
            if not os.path.exists(d):
                D.template(tpl)
                D.save(d)
            old = D.fill[0] if tpl.startswith("full") else None
            sub = lambda o: tuple(old if x == "OLDEST" else x for x in o)
            procs = [[[sub(o) for o in th] for th in p] for p in procs]
            end = [sub(o) for o in end]
            flat = [th for p in procs for th in p]
            allowed = set()
            for order in interleavings([len(t) for t in flat]):
                D.restore(d)
                pos = [0] * len(flat)
                res = [[] for _ in flat]
                for i in order:
                    r = fsx.alone(lambda: D.op(flat[i][pos[i]]))
                    if r[0] != "ok":
                        ctx.violation("%s, one after the other in the order %r: operation %r %s %s" % (name, order, flat[i][pos[i]], r[0], r[1]), dict(scenario=name))
                    res[i].append(r[1])
                    pos[i] += 1
                e = fsx.alone(lambda: D.all(end))
                if e[0] != "ok":
                    ctx.violation("%s, one after the other in the order %r: afterwards %s %s" % (name, order, e[0], e[1]), dict(scenario=name))
                allowed.add((tuple(map(tuple, res)), repr(e[1])))
            # what a reader may see of every target, whatever happens
            scen.append((name, d, procs, flat, end, b1 if q else b2, allowed))
        if ctx.violations:
            return
        cases = [(k, s) for s in range(SHARDS) for k in range(len(scen))]
        st = {}

        def init():
            st["D"] = D
            D.home = Home()

        def one(case, r):
            k, shard = case
            name, d, procs, flat, end, bound, allowed = scen[k]
            D = st["D"]

            def judge(choices, skip):
                D.restore(d)
                vf.note("%s, schedule %r" % (name, choices))
                status, chosen, enabled, res, log = fsx.scheduled(D.home.dir, [[(lambda th=th: tuple(D.op(o) for o in th)) for th in p] for p in procs], choices)
                if skip:
                    return chosen, enabled
                r.count("schedules")
                r.count("steps", len(chosen))
                where = "%s, schedule %s" % (name, short(chosen))
                if status != "ok":
                    r.violation("%s: %s; last operations %s" % (where, status, [x[:2] for x in log[-6:]]), dict(scenario=name, schedule=chosen))
                    return None, None
                bad = [(i, x) for i, x in enumerate(res) if x[0] != "ok"]
                if bad:
                    i, x = bad[0]
                    r.violation("%s: actor %d, doing %r, %s %s" % (where, i, flat[i], x[0], x[1]), dict(scenario=name, schedule=chosen))
                    return None, None
                e = fsx.alone(lambda: D.all(end))
                out = (tuple(x[1] for x in res), repr(e[1]))
                if e[0] != "ok":
                    r.violation("%s: afterwards %s %s" % (where, e[0], e[1]), dict(scenario=name, schedule=chosen))
                    return None, None
                if out not in allowed:
                    r.violation("%s: answers %r and then %r, which no order of the operations gives (possible: %r)" % (where, out[0], e[1], list(allowed)[:2]), dict(scenario=name, schedule=chosen))
                    return None, None
                r.nontrivial((k, tuple(chosen)))
                r.data.append((k, tuple(x[1] for x in log[-3:]), hash(out)))
                if len(r.samples) < 1 and fsx.preemptions(chosen, enabled) == bound:
                    r.sample("%s: %s" % (where, "; ".join("%d %s" % (a, s.split("/")[-1]) for a, s, _ in log[:60:6])))
                return chosen, enabled
            fsx.explore(judge, bound, shard, SHARDS, len(flat))
        vf.run_cases(ctx, cases, one, cpu_limit=60 if q else 800, wall_limit=100 if q else 1200, init=init, describe=lambda c: "%s, part %d" % (scen[c[0]][0], c[1]))
        outs = {}
        for k, _, h in ctx.data:
            outs.setdefault(k, set()).add(h)
    finally:
        shutil.rmtree(base, ignore_errors=True)
        for x in set(glob.glob("/dev/shm/vf_home_%d_*" % vf.MAIN)) - mine:
            shutil.rmtree(x, ignore_errors=True)
    c = ctx.coverage
    c["states"] = len(ctx.distinct)
    c["transitions"] = ctx.counters.get("steps", 0)
    c["traces_validated_against_impl"] = ctx.counters.get("schedules", 0)
    c["exhaustive"] = True
    ctx.assumptions += ["scheduling points are the file operations below the cache directory and the module's own locks; up to the given number of preemptions (1 or 2; thorough 1 to 3) per scenario; waiting times are skipped"]


def short(ch):
    out = []
    for c in ch:
        if out and out[-1][0] == c:
            out[-1][1] += 1
        else:
            out.append([c, 1])
    return " ".join("%dx%d" % (n, c) for c, n in out)
