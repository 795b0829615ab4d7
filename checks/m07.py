"""M07: every combination of degenerate graphs, hints, parameter values and object operations from an alphabet, in an
address-sanitized build with library assertions: a result or an exception, never a crash, corruption or hang."""
import itertools, math, os, sys
import vf
LEVEL = "exploration"


def asan_env():
    import subprocess
    g = lambda n: os.path.realpath(subprocess.check_output(["gcc", "-print-file-name=" + n], text=True).strip())
    return dict(os.environ, LD_PRELOAD=g("libasan.so") + " " + g("libstdc++.so"),
                ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:quarantine_size_mb=16")


K2, K3 = [(0, 1)], [(0, 1), (1, 2), (0, 2)]
P4 = [(0, 1), (1, 2), (2, 3), (3, 0), (0, 2)]


def sources():
    import networkx as nx
    iso = nx.Graph(K2)
    iso.add_node(2)
    one = nx.Graph()
    one.add_node(0)
    return [("K2", K2), ("K3", K3), ("iso", iso), ("one", one), ("loop", [(0, 0), (0, 1)]), ("two", [(0, 1), (2, 3)]), ("multi", [(0, 1), (1, 0), (0, 1)])]


def targets():
    import networkx as nx
    one = nx.Graph()
    one.add_node(0)
    return [("K2", K2), ("P4", P4), ("P4+", P4 + [(10, 11)]), ("one", one), ("loops", [(v, v) for v in range(4)] + P4), ("twosmall", [(0, 1), (10, 11)])]


class It:
    """not a sequence: a fresh iterator, possibly truthy and empty"""
    def __init__(self, x): self.x = x
    def __iter__(self): return iter(self.x)
    def __repr__(self): return "It(%r)" % (self.x,)


class Bomb:
    def __iter__(self): raise ZeroDivisionError("bomb")
    def __repr__(self): return "Bomb"


class BombHash:
    def __hash__(self): raise ZeroDivisionError("hash")
    def __repr__(self): return "BombHash"


CH = [[], [0], [0, 0], [0, 1], [1, 3], [0, 1, 2, 3], [10], [99], It([]), It([1]), 5, "ab", None, Bomb(), [[0]], [BombHash()]]
SUSP = [[], [[]], [[0]], [[0, 1], [2]], [[0, 0]], [[99]], [0], 5, None, [[10]], It([It([0])]), Bomb(), [Bomb()], [[0], [0]], "a"]
VARS = [0, 1, 99, "x"]
KINDS = ["fixed_chains", "initial_chains", "restrict_chains", "suspend_chains"]
PARAMS = ["tries", "max_no_improvement", "inner_rounds", "chainlength_patience", "max_fill", "threads", "timeout", "max_beta", "verbose", "random_seed",
          "return_overlap", "skip_initialization", "interactive"]
VALUES = [-5, -1, 0, 1, 3, 2 ** 31 - 1, 2 ** 31, 2 ** 40, 2 ** 65, 1.5, "x", math.nan, math.inf, -math.inf, None, [], "3", 1e-300, True]


def hint_sets(q):
    """lists of hint dictionaries, singly and in pairs"""
    vals = lambda k: SUSP if k == "suspend_chains" else CH
    single = [(k, v, c) for k in KINDS for v in VARS[:3] for c in range(len(vals(k)))]
    out = [(a,) for a in single] + [((k, None, c),) for k in KINDS for c in range(6)]
    pairs = list(itertools.combinations_with_replacement(single, 2))
    for a, b in pairs:
        if (a[0], a[1]) != (b[0], b[1]):
            out.append((a, b))
    return out, vals


NONDICT = [5, "ab", [0, 1], [(0, [0])], (), Bomb()]


def run(ctx):
    flags = ["-D_GLIBCXX_ASSERTIONS", "-fsanitize=address", "-fno-omit-frame-pointer"]
    if "VF_ASAN" not in os.environ:
        vf.pypkg(["_minorminer"], opt="-O1", flags=flags)
        sys.stdout.flush()
        os.execve(sys.executable, [sys.executable] + sys.argv + (["--tier", ctx.tier] if "--tier" not in sys.argv else []), dict(asan_env(), VF_ASAN="1"))
    pkg = vf.pypkg(["_minorminer"], opt="-O1", flags=flags)
    os.environ.pop("LD_PRELOAD", None)
    vf.use_package(pkg)
    import minorminer
    import pyo
    import networkx as nx
    from minorminer import find_embedding, miner, VARORDER
    q = ctx.quick
    SS, TS = sources(), targets()
    adj = {id(G): pyo.adj_of(G) for _, G in SS + TS}
    sentinel = dict(find_embedding(K3, P4, random_seed=4))

    def exempt(e):
        # ordinary exceptions; SystemError means that a C function misreported
        return isinstance(e, Exception) and not isinstance(e, (SystemError, MemoryError))

    def attempt(fn, r, what):
        r.count("calls")
        vf.note(what)
        try:
            return fn(), None
        except (Exception, KeyboardInterrupt, SystemExit) as e:
            if not exempt(e):
                r.violation("%r from %s" % (e, what))
            r.count("raised")
            return None, e

    def judge(res, S, T, fixed, kw, r, what):
        if kw.get("return_overlap"):
            if not (isinstance(res, tuple) and len(res) == 2):
                r.violation("no pair with return_overlap: %s returned %r" % (what, res))
                return
            e, ok = res
        else:
            e, ok = res, bool(res)
        if not isinstance(e, dict):
            r.violation("%s returned %r" % (what, res))
            return
        if e and ok:
            f = pyo.flaw(e, S, T)
            for v, c in fixed.items():
                if not f and set(e[v]) != set(c):
                    f = "fixed chain of %r is %r instead of %r" % (v, e[v], c)
            if f:
                r.violation("%s returned %r: %s" % (what, res, f))
            r.count("embeddings")

    def healthy(r, what):
        if dict(find_embedding(K3, P4, random_seed=4)) != sentinel:
            r.violation("another call gives a different seeded result after %s" % what)

    # 1. hints
    HS, vals = hint_sets(q)
    pairs = [(s, t) for s in SS for t in TS]
    step = 97 if q else 31

    def hints(case, r):
        (sn, S), (tn, T), part = case
        s, t = adj[id(S)], adj[id(T)]
        for hi in range(part, len(HS), step):
            h = HS[hi]
            kw, fixed, legalfix = {}, {}, True
            for k, v, c in h:
                if v is None:
                    kw[k] = NONDICT[c]
                    continue
                val = vals(k)[c]
                kw.setdefault(k, {})[v] = val
                if k == "fixed_chains" and v in s and isinstance(val, (list, It)) and list(val) and all(not isinstance(x, (list, BombHash)) and x in t for x in val):
                    fixed[v] = list(val)
            modes = [{}, dict(return_overlap=True), dict(skip_initialization=True)]
            for extra in [modes[hi % 3]] if q else modes:
                what = "find_embedding(%s, %s, %r, %r)" % (sn, tn, kw, extra)
                res, e = attempt(lambda: find_embedding(S, T, random_seed=1, timeout=5, tries=2, **kw, **extra), r, what)
                if e is None:
                    # what the caller fixed is only binding when the fixed chains are themselves legal
                    legal = len({x for c in fixed.values() for x in c}) == sum(len(set(c)) for c in fixed.values()) and all(pyo.connected(c, t) for c in fixed.values())
                    lf = fixed if legal else {}
                    if not legal:
                        r.count("illegal_fixed_tolerated")
                        f = None
                        ee = res[0] if extra.get("return_overlap") and isinstance(res, tuple) else res
                        if not isinstance(ee, dict):
                            r.violation("%s returned %r" % (what, res))
                    else:
                        judge(res, s, t, lf, extra, r, what)
                r.nontrivial((sn, tn, hi, type(e).__name__))
                if r.violations:
                    return
            if hi % 50 == 0:
                healthy(r, "hints %r" % (h,))
        healthy(r, "hints")
    cases = [(a, b, p) for a, b in pairs for p in range(0, step, 2 if q else 1)]
    vf.run_cases(ctx, cases, hints, cpu_limit=60, wall_limit=100)
    ctx.log("hints", ctx.counters.get("calls"), ctx.counters.get("embeddings"))

    # 2. parameters, singly and in pairs
    probs = [(a, b) for a in SS[:4] for b in TS[:4]]
    pcases = [(k, i, l, j) for (k, l) in itertools.combinations(range(len(PARAMS)), 2) for i in range(len(VALUES)) for j in range(len(VALUES))
              if (i + j + k + l) % (3 if q else 1) == 0] + [(k, i, None, None) for k in range(len(PARAMS)) for i in range(len(VALUES))]

    def skip(kw):
        t = kw.get("threads")
        if t is not None and isinstance(t, (int, float)) and t == t and 100 < t < 2 ** 31:
            return True  # that many threads would be started: resource exhaustion, not malformed input
        # nothing happens in a trial without rounds, and so nothing checks the clock
        if kw.get("tries") in (2 ** 31 - 1,) and "inner_rounds" in kw and not (isinstance(kw["inner_rounds"], int) and kw["inner_rounds"] > 0):
            return True
        return False
    chunks = [(c, pcases[i::400]) for c, i in enumerate(range(400))]

    def params(case, r):
        n, ps = case
        for m, (k, i, l, j) in enumerate(ps):
            kw = {PARAMS[k]: VALUES[i]}
            if l is not None:
                kw[PARAMS[l]] = VALUES[j]
            if skip(kw):
                continue
            for d, ((sn, S), (tn, T)) in enumerate(probs):
                if (d + m + n) % (4 if q else 2):
                    continue
                x = dict(kw)
                # a search that is not making progress may use its time: give it little
                to = x.get("timeout")
                if to is None or (isinstance(to, (int, float)) and not to <= 0.02) or to == "3" or to is True:
                    if "timeout" in x and to is not None:
                        for big in ("tries", "max_no_improvement", "inner_rounds", "chainlength_patience"):
                            b = x.get(big)
                            if b is not None and not (isinstance(b, int) and 0 <= b <= 3):
                                x["timeout"] = 0.02
                        if isinstance(to, (int, float)) and to == to and to > 5 and x.get("timeout") == to:
                            x["tries"] = x.get("tries", 2)
                    else:
                        x["timeout"] = 0.02
                x.setdefault("random_seed", 1)
                what = "find_embedding(%s, %s, %r)" % (sn, tn, x)
                ro = x.get("return_overlap")
                res, e = attempt(lambda: find_embedding(S, T, **x), r, what)
                if e is None:
                    judge(res, adj[id(S)], adj[id(T)], {}, dict(return_overlap=bool(ro) and int(ro) != 0), r, what)
                r.nontrivial((sn, tn, k, i, l, j, type(e).__name__))
                if r.violations:
                    return
        healthy(r, "parameters %r" % (case[1][0],))

    def quiet():
        sys.stdout = open(os.devnull, "w")
        import logging
        logging.disable(logging.CRITICAL)
    vf.run_cases(ctx, chunks, params, cpu_limit=60, wall_limit=100, init=quiet)
    ctx.log("parameters", ctx.counters.get("calls"))

    # 3. not graphs
    class G1:
        def edges(self): raise ZeroDivisionError
        def nodes(self): return [0]

    class G2:
        edges = [(0, 1)]
        nodes = [0, 1]
    junk = [None, 5, "ab", "abc", [(0, 1, 2)], [0], [(0,)], [([1], [2])], [()], [(0, 1), 3], {}, {0: 1}, {(0, 1): 5}, [(None, 0)], [(math.nan, math.nan)], It([(0, 1)]), Bomb(), [(BombHash(), 0)], G1(),
            nx.Graph(), nx.DiGraph([(0, 1), (1, 0)]), nx.MultiGraph([(0, 1), (0, 1)]), iter([(0, 1), (1, 2)]), [(0, 0)], [("a", 1)], object(), 3.5, b"ab", range(3), [(0, 1)] * 500]

    def notgraphs(case, r):
        i, j = case
        for entry in (0, 1):
            def go():
                if entry == 0:
                    return find_embedding(junk[i] if i is not None else K3, junk[j] if j is not None else P4, random_seed=1, timeout=5)
                m = miner(junk[i] if i is not None else K3, junk[j] if j is not None else P4, random_seed=1, timeout=5)
                return m.find_embedding(), m.quickpass()
            res, e = attempt(go, r, "%s on %r, %r" % (entry, junk[i] if i is not None else "K3", junk[j] if j is not None else "P4"))
            r.nontrivial(("junk", i, j, entry, type(e).__name__))
        healthy(r, "junk %r %r" % (i, j))
    idx = [None] + list(range(len(junk)))
    vf.run_cases(ctx, [(i, j) for i in idx for j in idx], notgraphs, cpu_limit=60, wall_limit=120, init=quiet)
    ctx.log("not graphs", ctx.counters.get("calls"))

    # 4. operation sequences on the object
    def ctors():
        return [("plain", K3, P4, {}), ("twocomp", K3, P4 + [(10, 11)], {}), ("allreserved", K2, K2, dict(fixed_chains={0: [0, 1]})), ("fixed", K3, P4, dict(fixed_chains={0: [0]})),
                ("allfixed", K2, P4, dict(fixed_chains={0: [0], 1: [1]})), ("init", K3, P4, dict(initial_chains={0: [1, 3], 1: [1]})), ("skip", K3, P4, dict(skip_initialization=True)),
                ("susp", K3, P4, dict(suspend_chains={0: [[0]], 1: [[0, 1, 2, 3]]})), ("overlap", [(0, 1), (1, 2), (2, 3), (3, 0), (0, 2), (1, 3)], P4, dict(return_overlap=True)), ("tiny", K3, K2, {}),
                ("single", K2, [(0, 0)], {}), ("restr", K3, P4, dict(restrict_chains={0: [0], 1: [0], 2: [0]})), ("fill", K3, P4, dict(max_fill=1)), ("zero", K3, P4, dict(tries=0, inner_rounds=0, max_no_improvement=0))]
    nan = math.nan
    ops = [("find", lambda m: m.find_embedding()), ("finds", lambda m: m.find_embeddings(2)), ("finds0", lambda m: m.find_embeddings(0, force=True)), ("finds-", lambda m: m.find_embeddings(-3)), ("findsx", lambda m: m.find_embeddings("x")),
           ("imp0", lambda m: m.improve_embeddings([])), ("impe", lambda m: m.improve_embeddings([{}])), ("impbad", lambda m: m.improve_embeddings([{0: [99]}])), ("impdisc", lambda m: m.improve_embeddings([{0: [1, 3], 1: [0], 2: [2]}])),
           ("impvalid", lambda m: m.improve_embeddings([{0: [0], 1: [1], 2: [2]}])), ("impx", lambda m: m.improve_embeddings(5)), ("impnone", lambda m: m.improve_embeddings([None])),
           ("set0", lambda m: m.set_initial_chains({})), ("setbad", lambda m: m.set_initial_chains({0: [99]})), ("setvar", lambda m: m.set_initial_chains({99: [0]})), ("setdisc", lambda m: m.set_initial_chains({0: [1, 3]})),
           ("setall", lambda m: m.set_initial_chains({0: [0, 1, 2, 3], 1: [0, 1, 2, 3], 2: [0, 1, 2, 3]})), ("setcomp", lambda m: m.set_initial_chains({0: [10]})), ("setx", lambda m: m.set_initial_chains(5)), ("setbomb", lambda m: m.set_initial_chains({0: Bomb()})),
           ("qp", lambda m: m.quickpass()), ("qpe", lambda m: m.quickpass(varorder=[])), ("qpd", lambda m: m.quickpass(varorder=[0, 0, 1, 1])), ("qpb", lambda m: m.quickpass(varorder=[99])), ("qp1", lambda m: m.quickpass(varorder=[1], clear_first=False)),
           ("qps", lambda m: m.quickpass(strategy=99)), ("qpn", lambda m: m.quickpass(chainlength_bound=-1, overlap_bound=-1)), ("qpB", lambda m: m.quickpass(overlap_bound=2 ** 31 - 1)), ("qpO", lambda m: m.quickpass(overlap_bound=2 ** 40)),
           ("qp0", lambda m: m.quickpass(round_beta=0.0)), ("qpm", lambda m: m.quickpass(round_beta=-3.0)), ("qpN", lambda m: m.quickpass(round_beta=nan)), ("qpI", lambda m: m.quickpass(round_beta=math.inf)),
           ("qpk", lambda m: m.quickpass(strategy=VARORDER.VARORDER_KEEP, clear_first=False, local_search=True)), ("qpbfs", lambda m: m.quickpass(strategy=VARORDER.VARORDER_BFS, chainlength_bound=2)), ("qpx", lambda m: m.quickpass(strategy="x")),
           ("qppfs", lambda m: m.quickpass(strategy=VARORDER.VARORDER_PFS, overlap_bound=1)), ("qpdfs", lambda m: m.quickpass(strategy=VARORDER.VARORDER_DFS, clear_first=False)), ("qprpfs", lambda m: m.quickpass(strategy=VARORDER.VARORDER_RPFS)),
           ("qpsh", lambda m: m.quickpass(strategy=VARORDER.VARORDER_SHUFFLE)), ("qk", lambda m: m.quality_key({0: [0], 1: [1], 2: [2]})), ("qke", lambda m: m.quality_key({})), ("qkx", lambda m: m.quality_key(5))]
    depth = 2 if q else 3
    CT = ctors()

    def objects(case, r):
        ci, first = case
        name, S, T, kw = CT[ci]
        s, t = pyo.adj_of(S), pyo.adj_of(T)
        par = {**dict(random_seed=2, timeout=2, tries=2, max_no_improvement=2, chainlength_patience=1), **kw}
        for rest in itertools.product(range(len(ops)), repeat=depth - 1):
            m, e = attempt(lambda: miner(S, T, **par), r, "miner(%s)" % name)
            if e is not None:
                return
            seq = (first,) + rest + (0,)
            for n, o in enumerate(seq):
                res, e = attempt(lambda: ops[o][1](m), r, "miner %s after %r" % (name, [ops[x][0] for x in seq[:n + 1]]))
                if e is None and o == 0:
                    judge(res, s, t, kw.get("fixed_chains", {}), kw, r, "miner %s after %r" % (name, [ops[x][0] for x in seq[:n]]))
            r.nontrivial((name, seq))
            r.count("sequences")
            if r.violations:
                return
        healthy(r, "object operations %s %s" % (name, ops[first][0]))
    vf.run_cases(ctx, [(c, o) for c in range(len(CT)) for o in range(len(ops))], objects, cpu_limit=60, wall_limit=100, init=quiet)
    ctx.log("objects", ctx.counters.get("calls"), ctx.counters.get("sequences"))
    bad = []
    for args in ((), (5, 5), ([], []), ([], P4), (K3, []), (None, None)):
        def ctorbad(args=args):
            return miner(*args)
        bad.append(ctorbad)

    def ctorcases(i, r):
        m, e = attempt(bad[i], r, "miner constructor %d" % i)
        if e is None:
            for nm, o in ops:
                attempt(lambda: o(m), r, "miner constructor %d then %s" % (i, nm))
    vf.run_cases(ctx, list(range(len(bad))), ctorcases, cpu_limit=60, wall_limit=120, init=quiet)
    c = ctx.coverage
    c["evaluations"] = ctx.counters["calls"]
    c["distinct_nontrivial"] = len(ctx.distinct)
    c["rule"] = "one evaluation is one call of the address-sanitized extension; distinct = distinct (graphs, hints, parameters or operation sequence, exception type)"
    ctx.assumptions += ["tries=2^31-1 without inner rounds is not tried (it counts down without looking at the clock)", "thread counts above 100 are not tried (resource exhaustion)", "memory errors are those AddressSanitizer and the libstdc++ assertions detect"]
