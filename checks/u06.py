"""U06: every list of small rectangles, in every order, under every bound, through the rectangle packer."""
import itertools
import vf
LEVEL = "exploration"


def run(ctx):
    d = vf.pypkg(["rpack"], opt="-O1 -DNDEBUG")
    import pure, sys
    pure.use()
    sys.path[:0] = [d]
    sys.modules["minorminer"].__path__ = [d + "/minorminer"]
    from minorminer._extern import rpack
    q = ctx.quick
    side = lambda *s: [(a, b) for a in s for b in s]
    fams = [("1-3", side(1, 2, 3), 4, True), ("1-2", side(1, 2), 6 if q else 8, True), ("1,2,5", side(1, 2, 5), 4, True), ("1,4,7", side(1, 4, 7), 4, True),
            ("1-4", side(1, 2, 3, 4), 3 if q else 4, True), ("1,3,100", side(1, 3, 100), 3, True), ("1-3", side(1, 2, 3), 5, False), ("2,3,7", side(2, 3, 7), 5, False),
            ("squares", [(i, i) for i in (1, 2, 3, 5, 8)], 5 if q else 6, False), ("rows", [(1, 1), (1, 4), (4, 1), (9, 1), (1, 9), (3, 3)], 5 if q else 6, False),
            ("big", side(1, 30000, 46341), 3, False), ("1-6", [(a, b) for a in range(1, 7) for b in range(1, 7)], 2 if q else 3, True)]
    cases = []
    for f, (name, rects, n, bounds) in enumerate(fams):
        cases.append((f, 0, 0))
        for k in range(1, n + 1):
            for i in range(len(rects) if k > 1 else 1):
                cases.append((f, k, i))
    cases.append(("bad", 0, 0))
    cases.append(("forms", 0, 0))
    cases += [("many", n, 0) for n in list(range(6, 40, 3 if q else 1)) + [64, 100]]

    def valid(sizes, pos, mw, mh):
        """None or what is wrong"""
        if type(pos) is not list or len(pos) != len(sizes):
            return "the result has not one position per rectangle"
        R = []
        for (w, h), p in zip(sizes, pos):
            if type(p) is not tuple or len(p) != 2 or type(p[0]) is not int or type(p[1]) is not int:
                return "%r is not a position" % (p,)
            x, y = p
            if x < 0 or y < 0:
                return "position %r is outside of the quadrant" % (p,)
            if mw is not None and x + w > mw:
                return "a rectangle reaches to x=%d" % (x + w)
            if mh is not None and y + h > mh:
                return "a rectangle reaches to y=%d" % (y + h)
            R.append((x, y, x + w, y + h))
        for a, b in itertools.combinations(range(len(R)), 2):
            if R[a][0] < R[b][2] and R[b][0] < R[a][2] and R[a][1] < R[b][3] and R[b][1] < R[a][3]:
                return "rectangles %d and %d overlap" % (a, b)

    def check(r, sizes, mw=None, mh=None, give=None):
        vf.note("pack(%r, %r, %r)" % (sizes, mw, mh))
        info = dict(sizes=list(sizes), max_width=mw, max_height=mh)
        where = "pack(%r, max_width=%r, max_height=%r)" % (sizes, mw, mh)
        W, H = max((w for w, h in sizes), default=0), max((h for w, h in sizes), default=0)
        r.count("packings")
        try:
            pos = rpack.pack(sizes if give is None else give, max_width=mw, max_height=mh)
        except rpack.PackingImpossibleError as e:
            r.count("impossible")
            # with one direction free, or as much room as all of them side by side or one above the other need, it is possible
            if sizes and (mw is None or mw >= W) and (mh is None or mh >= H) and (
                    mw is None or mh is None or mw >= sum(w for w, h in sizes) or mh >= sum(h for w, h in sizes)):
                r.violation("%s: reported impossible (%s)" % (where, e), info)
            return
        except Exception as e:
            r.violation("%s: raises %r" % (where, e), info)
            return
        bad = valid(sizes, pos, mw, mh)
        if bad:
            r.violation("%s: %r: %s" % (where, pos, bad), info)
            return
        r.nontrivial((tuple(sizes), mw, mh))
        if sizes:
            bw, bh = max(x + w for (w, h), (x, y) in zip(sizes, pos)), max(y + h for (w, h), (x, y) in zip(sizes, pos))
            if tuple(rpack.bbox_size(sizes, pos)) != (bw, bh) or tuple(rpack.enclosing_size(sizes, pos)) != (bw, bh):
                r.violation("%s: bbox_size is %r, not %r" % (where, rpack.bbox_size(sizes, pos), (bw, bh)), info)
            if abs(rpack.packing_density(sizes, pos) - sum(w * h for w, h in sizes) / (bw * bh)) > 1e-9:
                r.violation("%s: packing_density is %r" % (where, rpack.packing_density(sizes, pos)), info)
            if rpack.overlapping(sizes, pos) is not None:
                r.violation("%s: overlapping() says %r" % (where, rpack.overlapping(sizes, pos)), info)
        if len(r.samples) < 1 and len(sizes) > 3:
            r.sample("%s: %r" % (where, pos))

    def one(case, r):
        if case[0] == "bad":
            for bad in [[(0, 1)], [(1, 0)], [(-1, 2)], [(2, -1)], [(1, 1), (0, 0)], [(1, 1), (3, -2)], [(1.0, 2)], [(1, 2.5)], [("1", 2)], [(1, 1), (None, 1)], [(1,)], [(1, 2, 3)], [3], [None]]:
                for mw, mh in itertools.product((None, 5, 100), repeat=2):
                    vf.note("pack(%r)" % (bad,))
                    r.count("packings")
                    try:
                        p = rpack.pack(bad, mw, mh)
                    except (TypeError, ValueError) as e:
                        r.nontrivial((repr(bad), mw, mh))
                        continue
                    except Exception as e:
                        r.violation("pack(%r, %r, %r) raises %r" % (bad, mw, mh, e), {})
                        return
                    r.violation("pack(%r, %r, %r) accepts malformed sizes: %r" % (bad, mw, mh, p), {})
                    return
            for mw in (1.5, "3", [1]):
                for kw in (dict(max_width=mw), dict(max_height=mw)):
                    try:
                        rpack.pack([(1, 1)], **kw)
                        r.violation("pack with %r accepted" % kw, {})
                    except TypeError:
                        pass
            # helpers on all placements of two small rectangles
            for s in itertools.product(side(1, 2, 3), repeat=2):
                for p in itertools.product(range(4), repeat=4):
                    P = [p[:2], p[2:]]
                    v = valid(s, [tuple(x) for x in P], None, None)
                    o = rpack.overlapping(s, P)
                    if (o is None) != (v is None) or o is not None and sorted(o) != [0, 1]:
                        r.violation("overlapping(%r, %r) is %r" % (s, P, o), {})
                        return
                    r.count("helper calls")
            return
        if case[0] == "forms":
            for sizes in ([], [(2, 3), (1, 4), (2, 2)]):
                for give in (iter(sizes), tuple(sizes), (x for x in sizes), [list(x) for x in sizes], dict.fromkeys(sizes)):
                    check(r, sizes, None, None, give)
                    if r.violations:
                        return
            s = [(2, 3), (1, 4)]
            rpack.pack(s)
            if s != [(2, 3), (1, 4)]:
                r.violation("pack changed its argument to %r" % s, {})
            return
        if case[0] == "many":
            n = case[1]
            for k in range(30):
                sizes = [(1 + (i * (2 * k + 1)) % 7 + (i * i + k) % 3, 1 + (i * (k + 3)) % 5) for i in range(n)]
                W, H = max(w for w, h in sizes), max(h for w, h in sizes)
                check(r, sizes)
                for mw in (W, W + 3, 5 * W):
                    check(r, sizes, mw, None)
                    check(r, sizes, mw, 3 * H)
                for mh in (H, H + 2, 4 * H):
                    check(r, sizes, None, mh)
                if r.violations:
                    return
            return
        f, k, i = case
        name, rects, n, bounds = fams[f]
        if k == 0:
            check(r, [])
            return
        # some lists twice in a row in one process: nothing is remembered
        for sizes in itertools.product(rects, repeat=k - 1) if k > 1 else [()]:
            for first in ([rects[i]] if k > 1 else rects):
                S = [first, *sizes]
                W, H = max(w for w, h in S), max(h for w, h in S)
                SW, SH = sum(w for w, h in S), sum(h for w, h in S)
                check(r, S)
                if bounds:
                    B = sorted({0, W - 1, W, W + 1, (W + SW) // 2, SW, SW + 2}), sorted({0, H - 1, H, H + 1, (H + SH) // 2, SH, SH + 2})
                else:
                    B = [W, (W + SW) // 2], [H, (H + SH) // 2]
                for mw in B[0]:
                    check(r, S, mw, None)
                for mh in B[1]:
                    check(r, S, None, mh)
                if not q or k < 4:
                    for mw in B[0]:
                        for mh in B[1]:
                            check(r, S, mw, mh)
                else:
                    for mw, mh in ((W, (H + SH) // 2), ((W + SW) // 2, H), ((W + SW) // 2, (H + SH) // 2), (W, SH), (SW, H)):
                        check(r, S, mw, mh)
                if len(r.violations) > 2:
                    return
    vf.run_cases(ctx, cases, one, cpu_limit=30 if q else 400, wall_limit=80 if q else 900, describe=lambda c: repr(c))
    c = ctx.coverage
    c["evaluations"] = ctx.counters.get("packings", 0)
    c["distinct_nontrivial"] = len(ctx.distinct)
    c["rule"] = "a list of rectangles packed under given bounds; distinct: lists and bounds with a packing"
    c["exhaustive"] = True
    ctx.assumptions += ["sizes from the listed sets; sums of sizes and areas fit in 31 bits; longer lists (%s) are a listed stride" % "6 to 100"]
