"""M03: a timeout or an interrupt at every stop check of every search, and (through Python) at every random draw and message."""
import itertools, os, signal, sys, logging
import vf, mm
LEVEL = "fault_enumeration"


def run(ctx):
    b, pkg = vf.parallel(mm.binary, lambda: vf.pypkg(["_minorminer"], opt="-O1", hook=True))
    vf.use_package(pkg)
    import networkx as nx
    from problems import atlas, line, code, structured, relabel
    q = ctx.quick
    L = []

    def easy(S, T):
        n = len(T)
        return int(T.number_of_edges() == n * (n - 1) // 2 and len(S) < n)
    for S in atlas(1, 4):
        for T in atlas(2, 5, True):
            L.append(line("a/%s/%s" % (code(S), code(T)), S, T, tries=3, mni=3, clp=2, mayfail=1, easy=easy(S, T)))
            if not q:
                L.append(line("b/%s/%s" % (code(S), code(T)), S, T, tries=2, mni=1, clp=0, mayfail=1))
    for S in atlas(5, 5, True):
        for T in atlas(5, 5, True):
            L.append(line("c/%s/%s" % (code(S), code(T)), S, T, tries=3, mni=2, clp=1, mayfail=1))
    for S in atlas(2, 3):       # with fixed and initial chains
        for T in atlas(3, 4, True):
            for x in T.nodes():
                L.append(line("f/%s/%s/%d" % (code(S), code(T), x), S, T, fixed={0: [x]}, tries=3, mni=2, clp=2, mayfail=1))
                L.append(line("i/%s/%s/%d" % (code(S), code(T), x), S, T, init={0: [x], 1: [x]}, tries=3, mni=2, clp=2, mayfail=1))
    for n in (3, 4, 5, 6):      # every node may only use node 0, of which only one has a share: passes fail again and again, and must still look for a stop
        for S in (nx.complete_graph(n), nx.path_graph(n), nx.star_graph(n - 1)):
            L.append(line("k/%s" % code(S), S, nx.complete_graph(n), init={v: [0] if v < 2 else [v] for v in range(n)}, restr={v: [0] for v in range(n)},
                          tries=2, mni=80, clp=2, mayfail=1, skip=1, fill=1))
    for S, T, n in structured():
        L.append(line(n, S, T, tries=3, mni=3, clp=3))
    st = mm.run_problems(ctx, b, L, mode="interrupt", seeds=1 if q else 4)
    ctx.log("stop checks", len(L), st)

    # ------------------------------------------------------------ the Python entry points
    import ctypes, pyo
    import minorminer
    cases = []
    PP = [(S, T) for S in atlas(1, 4, True) for T in atlas(2, 5, True)]
    PP += [(S, T) for S, T, n in structured() if len(T) <= 16]
    if q:
        PP = PP[ctx.seed % 3::3]
    for S, T in PP:
        for kw in (dict(), dict(interactive=True), dict(return_overlap=True), dict(interactive=True, return_overlap=True)):
            for api in ("function", "miner"):
                cases.append((S, T, kw, api))

    def one(case, r):
        S, T, kw, api = case
        D = pyo.Draws()
        lib = ctypes.CDLL(minorminer._minorminer.__file__)
        sigpos = ctypes.c_uint64.in_dll(lib, "vf_rng_sigpos")
        ctypes.c_void_p.in_dll(lib, "vf_rng_sigfn").value = ctypes.cast(ctypes.pythonapi.PyErr_SetInterrupt, ctypes.c_void_p).value
        sa, ta = pyo.adj_of(S), pyo.adj_of(T)
        lg = logging.getLogger("minorminer._minorminer")
        lg.setLevel(1)
        lg.propagate = False
        at = [None, 0]

        class H(logging.Handler):
            def emit(self, rec):
                at[1] += 1
                if at[1] - 1 == at[0]:
                    signal.raise_signal(signal.SIGINT)
        for h in list(lg.handlers):
            lg.removeHandler(h)
        lg.addHandler(H())
        out = open(os.devnull, "w")
        ov = kw.get("return_overlap")
        ia = kw.get("interactive")

        def go():
            par = dict(random_seed=5, tries=3, max_no_improvement=3, chainlength_patience=2, verbose=2, **kw)
            if api == "function":
                return minorminer.find_embedding(S, T, **par)
            m = minorminer.miner(S, T, **par)
            go.m = m
            return m.find_embedding()

        def examine(e, what):
            emb, ok = e if ov else (e, None)
            if ov:
                f = pyo.flaw(emb, sa, ta)
                if ok and f:
                    return "flag set but " + f
                if not ok and any(emb.values()):
                    g = pyo.semi_flaw(emb, sa, ta)
                    if g:
                        return "not semi-valid: " + g
                    if not f:
                        return "valid but the flag is not set"
            elif emb:
                return pyo.flaw(emb, sa, ta)
            return None

        def attempt(what):
            r.count("interrupts")
            got = None
            try:
                got = go()
                for _ in range(3):
                    pass            # a pending interrupt is delivered here at the latest
                intr = False
            except KeyboardInterrupt:
                intr = True
            except RuntimeError as e:
                if "Failed during initialization" not in str(e):
                    r.violation("unexpected %r, %s, S=%r T=%r %r %s" % (e, what, sorted(S.edges()), sorted(T.edges()), kw, api))
                return
            sigpos.value = 2 ** 64 - 1
            at[0] = None
            desc = "%s, S=%r T=%r %r %s" % (what, sorted(S.edges()), sorted(T.edges()), kw, api)
            if not ia and not intr:
                r.violation("an interrupt was swallowed: " + desc)
            if intr:
                r.count("keyboard_interrupts")
            if got is not None:
                r.count("returned")
                f = examine(got, what)
                if f:
                    r.violation("after an interrupt: %s: %r: %s" % (f, got, desc))
            if api == "miner":
                D.start()
                e = None
                try:
                    e = go.m.find_embedding()
                except RuntimeError as x:
                    if "Failed during initialization" not in str(x):
                        raise
                if e is not None:
                    f = examine(e, what)
                    if f:
                        r.violation("search after an interrupted one: %s: %r: %s" % (f, e, desc))
                    r.count("reruns")
        so = sys.stdout
        if ia:
            sys.stdout = out
        try:
            D.start()
            at[0], at[1] = None, 0
            try:
                base = go()
            except RuntimeError:
                return
            nd, nm = D.pos.value, at[1]
            pos = range(nd) if nd <= 60 else sorted(set(range(30)) | set(range(0, nd, max(1, nd // 60))))
            for p in pos:
                D.start()
                sigpos.value = p
                at[0] = None
                attempt("interrupt at draw %d of %d" % (p, nd))
                sigpos.value = 2 ** 64 - 1
            if not ia:
                for k in range(nm):
                    D.start()
                    at[0], at[1] = k, 0
                    attempt("interrupt inside the logger at message %d of %d" % (k, nm))
            r.nontrivial((nd, nm, repr(case)))
        finally:
            sys.stdout = so
            signal.signal(signal.SIGINT, signal.default_int_handler)
        r.sample("S=%r T=%r %r %s: %d draws, %d messages" % (sorted(S.edges()), sorted(T.edges()), kw, api, nd, nm))

    def init():
        signal.signal(signal.SIGINT, signal.default_int_handler)
    sys.stderr.flush()
    vf.run_cases(ctx, cases, one, cpu_limit=60, wall_limit=180, init=init)
    ctx.log("python", {k: ctx.counters.get(k) for k in ("interrupts", "keyboard_interrupts", "returned", "reruns")})
    c = ctx.coverage
    c["evaluations"] = ctx.counters.get("stops", 0) + ctx.counters.get("interrupts", 0)
    c["distinct_nontrivial"] = ctx.counters.get("valid_after_stop", 0) + ctx.counters.get("semivalid_after_stop", 0) + len(ctx.distinct)
    c["rule"] = ("one evaluation is one search of the real code with one stop injected: at every stop check (as timeout, cancellation, or through the library's own clock test on a "
                 "virtual clock), then a second uninterrupted search on the same object; through Python a SIGINT at every random draw (or 60 spread ones) and inside every logged message; "
                 "non-trivial = stops after which chains were returned, plus distinct Python scenarios")
    ctx.assumptions += ["an overlapped result interrupted before any chains exist may be all-empty (its flag is false)",
                        "PySys_WriteStdout discards an interrupt raised inside a Python-level stdout; interrupts there are not injected"]
