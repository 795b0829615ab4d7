"""M04: multi-threaded embedding runs under every schedule of every fork-join region, up to a preemption bound."""
import os, subprocess, tempfile
import vf, mm
LEVEL = "exploration"


def build():
    flags = dict(flags=["-D_GLIBCXX_ASSERTIONS"], compiler="clang++")
    return vf.parallel(lambda: vf.cxx("m04", ["m04.cpp", "sched.cpp"], per={"m04.cpp": ("-fsanitize=thread",), "sched.cpp": ("-O2",)}, **flags),
                       lambda: vf.cxx("m04real", ["m04.cpp"], defines=("MINORMINER_VERIFICATION", "VF_REAL"), **flags))


def printed(b, path, seeds):
    ps = [subprocess.Popen([b, path, str(vf.NCPU), str(i), "print", "0", str(seeds)], stdout=subprocess.PIPE, text=True, errors="replace") for i in range(vf.NCPU)]
    out = {}
    for p in ps:
        try:
            o, _ = p.communicate(timeout=200)
        except subprocess.TimeoutExpired:
            p.kill()
            o, _ = p.communicate()
        for l in o.splitlines():
            if l.startswith("OUT "):
                _, i, s, h = l.split()
                out[i, s] = h
            elif l.startswith(("VIOL", "CRASH", "HANG")):
                out[l] = l
    return out


def run(ctx):
    b, real = build()
    vf.use_package(vf.SITE)
    import networkx as nx
    from problems import atlas, line, code, structured, relabel, embeddings
    G = []
    q = ctx.quick

    A = [line("%s/%s/t2" % (code(S), code(T)), S, T, threads=2) for S in atlas(1, 4) for T in atlas(1, 5) if len(S) <= len(T)]
    G.append(("all S<=4 x all T<=5, 2 threads", A[ctx.seed % 4::4] if q else A, 2 if q else 3, 1 if q else 2))
    A = [line("%s/%s/t3" % (code(S), code(T)), S, T, threads=3) for S in atlas(2, 4, True) for T in atlas(3, 5, True) if len(S) <= len(T)]
    G.append(("connected S<=4 x connected T<=5, 3 threads", A[ctx.seed % 8::8] if q else A, 1 if q else 2, 1))
    B = []
    for S in atlas(2, 3):
        for T in atlas(2, 4):
            for th in (2, 3, 5, 8):
                B.append(line("%s/%s/x%d" % (code(S), code(T), th), S, T, threads=th, overlap=1))
            # fixed chains: none, some or all of the target taken
            for e in (embeddings(S, T, limit=40) if nx.is_connected(S) and nx.is_connected(T) else [])[:2 if q else 12]:
                for k in range(1, len(S) + 1):
                    fx = {v: e[v] for v in list(S)[:k]}
                    B.append(line("%s/%s/f%d%s" % (code(S), code(T), k, "_".join(map(str, sum(fx.values(), ())))), S, T, fixed=fx, threads=2, mayfail=1))
            # the whole target reserved by one chain
            if nx.is_connected(T):
                B.append(line("%s/%s/all" % (code(S), code(T)), S, T, fixed={0: tuple(T)}, threads=2))
            B.append(line("%s/%s/r" % (code(S), code(T)), S, T, restr={0: list(T)[:2], 1: list(T)[1:]}, init={0: list(T)[:1]}, threads=2, rounds=2))
    G.append(("small pairs with fixed chains, restrictions, initial chains, and more threads than nodes", B[ctx.seed % 4::4] if q else B, 1 if q else 2, 1))
    C = [line(n, S, T, threads=th, mni=1, rounds=1, regions=4 * (3 * len(S)) if q else 10000) for S, T, n in structured() for th in (2, 3) if len(T) <= (16 if q else 64)]
    G.append(("structured pairs", C[:8] if q else C, 1 if q else 2, 1))
    desc = []
    keys = 0
    for name, lines, bound, seeds in G:
        fd, path = tempfile.mkstemp(prefix="vf_m04_")
        with os.fdopen(fd, "w") as f:
            f.write("\n".join(lines) + "\n")
        try:
            st = mm.sharded(ctx, lambda n, i: [b, path, str(n), str(i), "explore", str(bound), str(seeds)],
                            only_argv=lambda case: [b, path, "1", "0", "explore", str(bound), str(seeds), case.split("|")[0].split()[-1]])
            # the controlled threads against the real ones
            mine = theirs = {}
            if not ctx.violations:
                mine, theirs = printed(b, path, seeds), printed(real, path, seeds)
        finally:
            os.unlink(path)
        for k in sorted(set(mine) | set(theirs), key=str):
            if k[0] != "V" and mine.get(k) != theirs.get(k) and not ctx.violations:
                ctx.violation("with real threads %s gives %s, under the scheduler %s" % (k, theirs.get(k), mine.get(k)), dict(case=str(k)))
        keys += len(set(mine) & set(theirs))
        for k, v in st.items():
            if not k.startswith("max_"):
                ctx.count(k, v)
        ctx.log(name, st)
        desc.append("%s: %d problems, preemption bound %d, %d regions, %d schedules, at most %d of one region" % (
            name, len(lines), bound, st.get("regions_explored", 0), st.get("schedules", 0), st.get("max_schedules_of_a_region", 0)))
        if ctx.violations:
            break
    c = ctx.coverage
    c["evaluations"] = ctx.counters.get("executions", 0)
    c["distinct_nontrivial"] = ctx.counters.get("nondefault", 0)
    c["rule"] = ("one evaluation is one complete findEmbedding of the real C++ code under the controlled scheduler; for each fork-join region of the run in turn, every "
                 "schedule within the preemption bound is executed (the other regions keep the first schedule); non-trivial = distinct schedules that differ from the first one")
    c["groups"] = desc
    c["regions"] = ctx.counters.get("regions_explored", 0)
    c["scheduling_points"] = ctx.counters.get("points", 0)
    c["watched_memory_accesses"] = ctx.counters.get("watched_accesses", 0)
    c["compared_with_real_threads"] = keys
    ctx.assumptions += ["switches happen at task start and end, lock, unlock by blocking, wait and atomic operations; between them the vector-clock detector shows accesses are ordered, so finer switching changes nothing",
                        "two regions of one run are not varied together: a region ends with all its threads joined"]
