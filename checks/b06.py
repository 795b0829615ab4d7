"""B06: a process dies, or a file operation fails, at every file operation (and in the middle of every write) of every kind of cache access."""
import os, tempfile, shutil, glob, itertools
import vf
LEVEL = "fault_enumeration"

L, F, BI = "largest", "find", "bi"
END = [(L, "a"), (F, "b", 2), (BI, "a"), (L, "c"), (L, "d"), (L, "z"), (L, "q"), (BI, "b"), (F, "c", 2)]
OLD = "OLDEST"
# contents of the directory, operations of the process that dies
SCEN = [
    ("empty", [(L, "a")]), ("empty", [(F, "a", 2)]), ("empty", [(BI, "a")]), ("empty", [(L, "c"), (L, "d")]),
    ("warm a", [(L, "a")]), ("warm a", [(BI, "a")]), ("warm c", [(L, "d")]), ("warm d", [("insblind", "c", 2)]), ("warm z", [(L, "q")]), ("edited c", [(L, "d")]), ("edited c", [("insblind", "d", 2)]), ("edited z", [(L, "q"), (L, "z")]),
    ("warm ab", [("ins", "a", 2)]), ("warm ab", [("insblind", "a", 2)]), ("warm ab", [(L, "a"), (L, "b")]), ("warm c", [("upd", "c")]), ("warm ab", [("clear", "")]),
    ("full", [(L, "a")]), ("full", [(L, OLD)]), ("full", [(L, "a"), (L, "b")]), ("full bi", [(BI, "a")]), ("full", [("insblind", OLD, 2)]),
    ("full", [("clear", "")]),
]
# pairs of processes, of which the first dies
PAIRS = [("empty", [(L, "a")], [(L, "a")]), ("warm c", [(L, "d")], [("insblind", "c", 2)]), ("full", [(L, "a")], [(L, "b")]), ("warm ab", [("insblind", "a", 2)], [(L, "a")]), ("empty", [(BI, "a")], [(L, "a")]), ("edited c", [(L, "d")], [(L, "a")])]
ENOSPC, EIO = -28, -5


def run(ctx):
    import fsx
    fsx.reexec()
    pkg = vf.pypkg(["busclique"], opt="-O1", flags=["-D_GLIBCXX_ASSERTIONS"])
    vf.use_package(pkg)
    bc = fsx.import_controlled("minorminer.busclique")
    from bus import Home
    from diskops import Disk
    q = ctx.quick
    base = tempfile.mkdtemp(prefix="vf_tpl_", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    mine = set(glob.glob("/dev/shm/vf_home_%d_*" % vf.MAIN))
    try:
        D = Disk(bc, Home())
        tdirs, scen = {}, []

        def tpl(name):
            if name not in tdirs:
                d = tdirs[name] = os.path.join(base, name.replace(" ", "_"))
                D.template(name)
                D.save(d)
            return tdirs[name]

        def sub(ops):
            return [tuple(D.fill[0] if x == OLD else x for x in o) for o in ops]

        def serial(name, d, *steps):
            """answers of fresh processes, one per step"""
            D.restore(d)
            out = []
            for s in steps:
                r = fsx.alone(lambda: D.all(s))
                if r[0] != "ok":
                    ctx.violation("%s, without any fault: %r %s %s" % (name, s, r[0], r[1]), dict(steps=repr(steps)))
                    return None
                out.append(r[1])
            return out
        for t, ops in SCEN:
            d = tpl(t)
            ops = sub(ops)
            end = END + [o for o in [(L, OLD)] if t == "full"]
            end = sub(end)
            name = "cache %s, %s" % (t, ops)
            a, b = serial(name, d, end), serial(name, d, ops, end)
            c = serial(name, d, ops, ops, end)
            if None in (a, b, c):
                return
            D.restore(d)
            res, log = fsx.crash(D.home.dir, lambda: D.all(ops), -1)
            if res[0] != "ok":
                ctx.violation("%s: %s %s" % ((name,) + tuple(res)), {})
                return
            scen.append(dict(name=name, d=d, ops=ops, end=end, before=a[0], got=b[0], after=b[1], got2=c[1], after2=c[2], log=log))
        for p in ("full", "empty", "warm c", "warm ab"):
            tpl(p)

        def points(log):
            out = []
            for i, (_, op, n) in enumerate(log):
                out.append((i, 0))
                if op.startswith("write ") and n > 1:
                    out += [(i, k) for k in sorted({1, n // 2, n - 1})]
            return out

        def faults(log):
            return [(i, ENOSPC) for i, (_, op, n) in enumerate(log) if op.split()[0] in ("write", "rename", "mkdir", "unlink", "truncate", "create")] + \
                [(i, EIO) for i, (_, op, n) in enumerate(log) if op.split()[0] in ("write", "open")]
        cases = []
        for k, s in enumerate(scen):
            for part in range(8):
                cases.append(("crash", k, part))
        if not q:
            for k, s in enumerate(scen):
                for p in points(s["log"]):
                    if len(s["log"]) < 200:
                        cases.append(("twice", k, p))
        else:
            for k, s in enumerate(scen):
                if (s["ops"] in ([(L, "a")], [("insblind", "a", 2)]) and ("full" in s["d"] or "warm_ab" in s["d"])):
                    for p in points(s["log"]):
                        cases.append(("twice", k, p))
        for k in range(len(PAIRS)):
            for part in range(16 if q else 32):
                cases.append(("pair", k, part))

        def init():
            D.home = Home()

        def good(r, where, got, kinds, end, info):
            """answers of a fresh process after the fault"""
            if got[0] != "ok":
                r.violation("%s: then a later process %s %s" % (where, got[0], got[1]), info)
                return False
            for i, o in enumerate(end):
                if all(got[1][i] != x[i] for x in kinds):
                    r.violation("%s: then a later %r returns %r instead of %s" % (where, o, got[1][i], " or ".join(repr(x[i]) for x in kinds[:2])), info)
                    return False
            return True

        def died(res):
            return res[0] == "died" and os.WIFEXITED(res[1]) and os.WEXITSTATUS(res[1]) == 137

        def one(case, r):
            kind = case[0]
            if kind == "pair":
                return pair(case, r)
            s = scen[case[1]]
            n = len(s["log"])

            def where(*ps):
                return s["name"] + "".join(", %s at operation %d of %d (%s)" % (("a process dies" + (" after %d bytes" % b if b else "")) if b >= 0 else "error %d" % -b, i, n, s["log"][i][1] if j == 0 else "again") for j, (i, b) in enumerate(ps))
            if kind == "crash":
                for j, (at, nb) in enumerate(points(s["log"]) + faults(s["log"])):
                    if j % 8 != case[2] or (q and n > 200 and j // 8 % 4):
                        continue
                    info = dict(cache=s["d"].split("/")[-1], ops=repr(s["ops"]), at=at, bytes=nb)
                    w = where((at, nb))
                    vf.note(w)
                    for mode in (0, 1):
                        D.restore(s["d"])
                        if nb >= 0:
                            res, log = fsx.crash(D.home.dir, lambda: D.all(s["ops"]), at, nb)
                            if not died(res):
                                r.violation("%s: the same operations do not repeat: %r" % (w, res), info)
                                return
                        else:
                            # the operation fails, the process goes on: it tries again, and looks around
                            res, log = fsx.crash(D.home.dir, lambda: (fsx._guard(lambda: D.all(s["ops"])), D.all(s["ops"]), D.all(s["end"])), at, nb)
                            if res[0] != "ok":
                                r.violation("%s: after the error, the same process %s %s" % ((w,) + tuple(res)), info)
                                return
                            first, again, end = res[1]
                            if first[0] == "ok" and first[1] != s["got"]:
                                r.violation("%s: answers %r instead of %r" % (w, first[1], s["got"]), info)
                                return
                            if not good(r, w, ("ok", end), (s["after"], s["after2"]), s["end"], info):
                                return
                        r.count("faults")
                        r.nontrivial((case[1], at, nb))
                        if mode == 0:
                            if not good(r, w, fsx.alone(lambda: D.all(s["end"])), (s["before"], s["after"]) if nb >= 0 else (s["after"], s["after2"]), s["end"], info):
                                return
                        got = fsx.alone(lambda: D.all(s["ops"]))
                        if got[0] != "ok" or not all(g in (x, y) for g, x, y in zip(got[1], s["got"], s["got2"])):
                            r.violation("%s: trying again %s %r instead of %r" % (w, got[0], got[1], s["got"]), info)
                            return
                        if not good(r, w + ", tried again", fsx.alone(lambda: D.all(s["end"])), (s["after"], s["after2"]), s["end"], info):
                            return
                        stray(r, w)
                    r.sample(w) if len(r.samples) < 1 else None
                return
            # a second process dies while it repeats the operations
            p = case[2]
            at2 = 0
            D.restore(s["d"])
            fsx.crash(D.home.dir, lambda: D.all(s["ops"]), *p)
            res, log = fsx.crash(D.home.dir, lambda: D.all(s["ops"]), -1)
            for p2 in points(log):
                w = where(p, p2)
                vf.note(w)
                info = dict(cache=s["d"].split("/")[-1], ops=repr(s["ops"]), at=p, then=p2)
                D.restore(s["d"])
                fsx.crash(D.home.dir, lambda: D.all(s["ops"]), *p)
                res, _ = fsx.crash(D.home.dir, lambda: D.all(s["ops"]), *p2)
                if not died(res):
                    r.violation("%s: the same operations do not repeat: %r" % (w, res), info)
                    return
                r.count("faults", 2)
                r.nontrivial((case[1], p, p2))
                if not good(r, w, fsx.alone(lambda: D.all(s["end"])), (s["before"], s["after"], s["after2"]), s["end"], info):
                    return

        def stray(r, w):
            """the size of the cache stays bounded: at most 100 files and what a crash may have left behind"""
            for sub in ("clique", "biclique"):
                for root, _, fs in os.walk(D.home.dir):
                    if os.path.basename(root) == sub and len([f for f in fs if not f.startswith(".") and not f.endswith("~")]) > 101:
                        r.violation("%s: %d files in %s" % (w, len(fs), sub), {})

        def pair(case, r):
            k, part = case[1:]
            t, a, b = PAIRS[k]
            d = tdirs[t]
            end = list(END)
            base = "cache %s, a process doing %r dies while another does %r" % (t, a, b)
            outs = st.get(k)
            if outs is None:
                outs = []
                for seq in ([], [a], [b], [a, b], [b, a]):
                    D.restore(d)
                    for x in seq:
                        fsx.alone(lambda: D.all(x))
                    outs.append(fsx.alone(lambda: D.all(end))[1])
                bgot = []
                for seq in ([b], [a, b]):
                    D.restore(d)
                    for x in seq:
                        g = fsx.alone(lambda: D.all(x))
                    bgot.append(g[1])
                outs = st[k] = (outs, bgot)
            outs, bgot = outs
            D.restore(d)
            status, ch, en, res, log = fsx.scheduled(D.home.dir, [[lambda: D.all(a)], [lambda: D.all(b)]], [])
            mine = [x for x in log if x[0] == 0]
            for j, (at, nb) in enumerate(points(mine)):
                if j % (16 if q else 32) != part:
                    continue

                def judge(choices, skip):
                    D.restore(d)
                    w = "%s: at its operation %d (%s) after %d bytes, schedule %r" % (base, at, mine[at][1], nb, choices)
                    vf.note(w)
                    info = dict(pair=k, at=at, bytes=nb, schedule=choices)
                    status, ch, en, res, log = fsx.scheduled(D.home.dir, [[lambda: D.all(a)], [lambda: D.all(b)]], choices, crash=(0, at, nb))
                    if status != "ok":
                        r.violation("%s: %s" % (w, status), info)
                        return None, None
                    r.count("faults")
                    r.nontrivial((k, at, nb, tuple(ch)))
                    if res[1][0] != "ok":
                        r.violation("%s: the other process %s %s" % ((w,) + tuple(res[1])), info)
                        return None, None
                    if res[1][1] not in bgot:
                        r.violation("%s: the other process answers %r" % (w, res[1][1]), info)
                        return None, None
                    if not good(r, w, fsx.alone(lambda: D.all(end)), outs, end, info):
                        return None, None
                    return ch, en
                fsx.explore(judge, 1 if not q or at % 4 == 0 else 0, 0, 1, 2)
        st = {}
        vf.run_cases(ctx, cases, one, cpu_limit=60 if q else 800, wall_limit=100 if q else 1200, init=init, describe=lambda c: repr(c))
    finally:
        shutil.rmtree(base, ignore_errors=True)
        for x in set(glob.glob("/dev/shm/vf_home_%d_*" % vf.MAIN)) - mine:
            shutil.rmtree(x, ignore_errors=True)
    c = ctx.coverage
    c["evaluations"] = ctx.counters.get("faults", 0)
    c["distinct_nontrivial"] = len(ctx.distinct)
    c["rule"] = "a fault (death before a file operation, after 1, half or all but one byte of a write, or an error of the operation) injected into a cache access; distinct: scenario and place"
    c["exhaustive"] = not q
    ctx.assumptions += ["a process dies, the machine does not: what was written before stays", "file operations are those below the cache directory"]
