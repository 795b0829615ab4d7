"""Runs the heuristic-embedder harness (harness/mmh.cpp) over problem files."""
import os, subprocess, tempfile, time, shutil
import vf


def binary():
    return vf.cxx("mmh", ["mmh.cpp"], flags=["-D_GLIBCXX_ASSERTIONS"])


def sharded(ctx, argv_of, nshards=None, what="", keyfn=None, env=None, only_argv=None):
    """Run argv_of(nshards, shard) for every shard and collect VIOL/CRASH/HANG/STAT/SAMPLE lines."""
    n = nshards or vf.NCPU
    ps = []
    e = dict(os.environ, **(env or {}))
    for i in range(n):
        ps.append(subprocess.Popen(argv_of(n, i), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, errors="replace"))
    stats = {}
    bufs = []
    for p in ps:
        out, _ = p.communicate()
        got_bad = False
        for l in out.splitlines():
            if l.startswith("VIOL "):
                got_bad = True
                msg, _, case = l[5:].partition(" @@ ")
                ctx.violation("%s%s  in  %s" % (what, msg, case), dict(message=msg, case=case, cmd=argv_of(1, 0)), keyfn(msg, case) if keyfn else None)
            elif l.startswith("CRASH ") or l.startswith("HANG "):
                got_bad = True
                kind, _, case = l.partition(" ")
                if only_argv:
                    r = confirm(only_argv(case), e)
                    if r == "ok":
                        raise vf.CheckError("not reproducible: " + l)
                ctx.violation("%s%s in %s" % (what, kind, case), dict(message=kind, case=case), keyfn(kind, case) if keyfn else None)
            elif l.startswith("STAT "):
                _, k, v = l.split()
                if k.startswith("max_"):
                    stats[k] = max(stats.get(k, 0), int(v))
                else:
                    stats[k] = stats.get(k, 0) + int(v)
            elif l.startswith("SAMPLE "):
                ctx.sample(l[7:][:600])
        if p.returncode and not got_bad:
            raise vf.CheckError("harness ended with %s:\n%s" % (p.returncode, out[-3000:]))
    return stats


def confirm(argv, env):
    e = dict(env, MMH_HANG="60")
    r = subprocess.run(argv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, errors="replace")
    for l in r.stdout.splitlines():
        if l.startswith(("CRASH ", "HANG ", "VIOL ")):
            return l
    return "ok" if r.returncode == 0 else "exit %d" % r.returncode


def run_problems(ctx, b, lines, mode="explore", dev=1, alts=6, seeds=1, keyfn=None, env=None, add=True):
    fd, path = tempfile.mkstemp(prefix="vf_mm_", suffix=".txt")
    with os.fdopen(fd, "w") as f:
        f.write("\n".join(lines) + "\n")
    try:
        st = sharded(ctx, lambda n, i: [b, path, str(n), str(i), mode, str(dev), str(alts), str(seeds)], keyfn=keyfn, env=env,
                     only_argv=lambda case: [b, path, "1", "0", mode, str(dev), str(alts), str(seeds), case.split("|")[0].split()[-1]])
    finally:
        os.unlink(path)
    if add:
        for k, v in st.items():
            ctx.count(k, v)
    return st
