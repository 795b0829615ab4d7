"""Shared machinery of all checks: builds, case runner, findings, evidence."""
import hashlib, json, os, pickle, select, shutil, signal, struct, subprocess, sys, time, traceback, mmap

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
SITE = "/opt/minorminer-venv/lib/python3.12/site-packages"
MAIN = os.getpid()
CYTHON = ["/opt/minorminer-venv/bin/python", "-m", "cython"]
NCPU = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))


class CheckError(Exception):
    """The check itself could not be carried out (not a verdict)."""


# --------------------------------------------------------------------------- builds
def _hash(paths, extra):
    h = hashlib.sha256(repr(extra).encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def _walk(root, suffixes):
    out = []
    for d, dirs, files in os.walk(root):
        dirs[:] = [x for x in dirs if x not in ("__pycache__", "build", "_build")]
        out += [os.path.join(d, f) for f in files if f.endswith(suffixes)]
    return out


def repo_headers():
    return _walk(os.path.join(REPO, "include"), (".hpp", ".h"))


def _run(cmd, cwd=None, what="build"):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise CheckError("%s failed: %s\n%s" % (what, " ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def _publish(tmp, final):
    try:
        os.rename(tmp, final)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
        if not os.path.exists(final):
            raise


def _prune(prefix, keep):
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith(prefix)]
    except OSError:
        return
    ds = sorted((d for d in ds if os.path.isdir(d)), key=lambda d: os.stat(d).st_mtime)
    for d in ds[:-keep]:
        if time.time() - os.stat(d).st_mtime > 1800:
            shutil.rmtree(d, ignore_errors=True)


def cxx(name, sources, flags=(), defines=("MINORMINER_VERIFICATION",), std="c++17", opt="-O1", link=(), compiler="g++", per=None):
    """Compile a C++ harness from /verif/harness against /repo's headers; returns the binary."""
    srcs = [os.path.join(VERIF, "harness", s) for s in sources]
    aux = _walk(os.path.join(VERIF, "harness"), (".hpp", ".h"))
    cmd0 = [compiler, "-std=" + std, opt, "-g1", "-w", "-include", os.path.join(VERIF, "harness", "prelude.hpp"), "-include", "memory", "-include", "cstdint", "-I", os.path.join(REPO, "include"),
            "-I", os.path.join(VERIF, "harness"), *["-D" + d for d in defines], *flags]
    per = per or {}
    key = _hash(srcs + aux + repo_headers(), (cmd0, link, sorted(per.items())))
    d = os.path.join(BUILD, "cxx-%s-%s" % (name, key))
    out = os.path.join(d, name)
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        _prune("cxx-" + name + "-", 4)
        tmp = d + ".tmp%d" % os.getpid()
        os.makedirs(tmp)
        procs = []
        objs = []
        for s in srcs:
            o = os.path.join(tmp, os.path.basename(s) + ".o")
            objs.append(o)
            procs.append((s, subprocess.Popen(cmd0 + [*per.get(os.path.basename(s), ()), "-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        bad = ""
        for s, p in procs:
            o, _ = p.communicate()
            if p.returncode:
                bad += o[-4000:]
        if bad:
            shutil.rmtree(tmp, ignore_errors=True)
            raise CheckError("harness build failed\n" + bad)
        _run([compiler, *flags, *objs, "-o", os.path.join(tmp, name), "-pthread", *link], what="link")
        _publish(tmp, d)
    os.utime(d)
    return out


EXT = {"_minorminer": ("cc", []), "busclique": ("cc", []), "rpack": ("c", [])}


def pypkg(exts=(), opt="-O1", hook=False, flags=(), stub_subgraph=True):
    """A private copy of the minorminer package of /repo's working tree with the named extensions compiled.
    Returns the directory to put on sys.path."""
    files = _walk(os.path.join(REPO, "minorminer"), (".py", ".pyx", ".pxi", ".hpp", ".h", ".pxd"))
    files += _walk(os.path.join(REPO, "minorminer", "_extern", "rpack"), (".c", ".h", ".pxd"))
    files += repo_headers()
    files = [f for f in sorted(set(files)) if not f.endswith("_core.c")]
    sfiles = [os.path.join(VERIF, "harness", f) for f in ("rnghook.cpp", "prelude.hpp")]
    sig = (sorted(exts), opt, hook, tuple(flags), 3)
    key = _hash(files + sfiles, sig)
    d = os.path.join(BUILD, "py-%s-%s" % ("_".join(sorted(exts)) or "pure", key))
    if os.path.exists(d):
        os.utime(d)
        return d
    os.makedirs(BUILD, exist_ok=True)
    _prune("py-", 12)
    tmp = d + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    for f in files:
        rel = os.path.relpath(f, REPO)
        t = os.path.join(tmp, rel)
        os.makedirs(os.path.dirname(t), exist_ok=True)
        shutil.copyfile(f, t)
    inc = ["-I/usr/include/python3.12", "-I", "minorminer", "-I", "include"]
    defs = ["-DMINORMINER_VERIFICATION", "rnghook.cpp"] if hook else []
    if hook:
        shutil.copyfile(os.path.join(VERIF, "harness", "rnghook.cpp"), os.path.join(tmp, "rnghook.cpp"))
    shutil.copyfile(os.path.join(VERIF, "harness", "prelude.hpp"), os.path.join(tmp, "prelude.hpp"))
    flags = [*flags, "-include", "prelude.hpp"] if "-D_GLIBCXX_ASSERTIONS" in flags else flags
    procs = []
    for e in exts:
        if e == "rpack":
            base = "minorminer/_extern/rpack"
            script = ("%s -3 %s/_core.pyx -o %s/_core.c && gcc %s -fPIC -shared -w -I/usr/include/python3.12 -I%s/include %s/_core.c %s/src/*.c -o %s/_core.so"
                      % (" ".join(CYTHON), base, base, opt, base, base, base, base))
        else:
            script = ("%s --cplus -3 minorminer/%s.pyx && g++ -std=c++17 %s -g1 -fPIC -shared -w %s %s %s -include memory minorminer/%s.cpp -o minorminer/%s.so -pthread"
                      % (" ".join(CYTHON), e, opt, " ".join(inc), " ".join(defs), " ".join(flags), e, e))
        procs.append((e, subprocess.Popen(["bash", "-c", script], cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    bad = ""
    for e, p in procs:
        o, _ = p.communicate()
        if p.returncode:
            bad += "%s: %s" % (e, o[-4000:])
    if bad:
        shutil.rmtree(tmp, ignore_errors=True)
        raise CheckError("extension build failed\n" + bad)
    if "_minorminer" not in exts:
        # the package's __init__ needs the extension; a package without it gets an empty __init__
        with open(os.path.join(tmp, "minorminer", "__init__.py"), "w") as f:
            f.write("")
    _publish(tmp, d)
    return d


def parallel(*fns):
    """run builds at the same time; returns their results in order"""
    import threading
    res = [None] * len(fns)

    def go(i):
        try:
            res[i] = (fns[i](), None)
        except BaseException as e:
            res[i] = (None, e)
    ts = [threading.Thread(target=go, args=(i,)) for i in range(len(fns))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for v, e in res:
        if e:
            raise e
    return [v for v, _ in res]


def use_package(d):
    sys.dont_write_bytecode = True
    sys.path[:0] = [d]
    if SITE not in sys.path:
        sys.path.insert(1, SITE)


# --------------------------------------------------------------------------- known findings
def known_findings():
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("KNOWN property="):
                rest = l[len("KNOWN property="):]
                pid, rest = rest.split(" ", 1)
                assert rest.startswith("key=")
                key, _, desc = rest[4:].partition(" ")
                out[(pid, key)] = desc
    return out


# --------------------------------------------------------------------------- context
class Ctx:
    def __init__(self, pid, tier, seed, level):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.t0 = time.time()
        self.violations = []
        self.coverage = {}
        self.assumptions = []
        self.counters = {}
        self.samples = []
        self.known_seen = {}
        self.known = known_findings()
        self.distinct = set()
        self.data = []

    quick = property(lambda s: s.tier == "quick")

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def sample(self, s, cap=8):
        if len(self.samples) < cap:
            self.samples.append(s)

    def violation(self, msg, replay, key=None):
        if key is not None and (self.pid, key) in self.known:
            if key not in self.known_seen:
                self.known_seen[key] = msg
            return
        self.violations.append(dict(message=str(msg), key=key, replay=plain(replay)))

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def finish(self):
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(self.coverage), assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        ev["coverage"].setdefault("samples", self.samples)
        for k, v in self.counters.items():
            ev["coverage"].setdefault(k, v)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(plain(ev), f, indent=1, default=repr)
        os.replace(p + ".tmp", p)
        for k, m in self.known_seen.items():
            print("KNOWN-FINDING: property=%s %s [%s]" % (self.pid, self.known[(self.pid, k)], k))
        if self.violations:
            rd = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, self.pid + ".json")
            with open(rp, "w") as f:
                json.dump(self.violations[:50], f, indent=1, default=repr)
            for v in self.violations[:5]:
                print("violated: %s" % v["message"][:1500])
            print("%d violation(s)" % len(self.violations))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        print("%s held: %s" % (self.pid, json.dumps({k: v for k, v in ev["coverage"].items() if isinstance(v, (int, bool))})))
        return 0


# --------------------------------------------------------------------------- parallel case runner
def _cpu(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            p = f.read().rsplit(")", 1)[1].split()
        return (int(p[11]) + int(p[12])) / os.sysconf("SC_CLK_TCK")
    except OSError:
        return None


def plain(x, depth=0):
    """a copy that can be pickled and written as JSON"""
    if x is None or isinstance(x, (str, bool, float)) or type(x) is int:
        return x
    if depth > 12:
        return repr(x)
    try:
        if isinstance(x, dict):
            return {k if isinstance(k, str) else repr(k): plain(v, depth + 1) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [plain(v, depth + 1) for v in x]
        return repr(x)
    except Exception as e:
        return "unprintable %s (%s)" % (type(x).__name__, type(e).__name__)


class Result:
    """What one case reports: violations, counters, sample, distinct signatures."""
    def __init__(self):
        self.violations = []
        self.counters = {}
        self.samples = []
        self.distinct = set()
        self.data = []      # collected in ctx.data (order of completion)

    def violation(self, msg, replay=None, key=None):
        self.violations.append((str(msg), plain(replay), key))

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def sample(self, s, cap=2):
        if len(self.samples) < cap:
            self.samples.append(s)

    def nontrivial(self, sig):
        self.distinct.add(hash(sig))


_notes = mmap.mmap(-1, 1009 * 600)


def note(s):
    """what this process is doing, for the report should it crash or hang"""
    b = s.encode("utf-8", "replace")[:598]
    o = os.getpid() % 1009 * 600
    _notes[o:o + len(b) + 1] = b + b"\0"


def _noted(pid):
    o = pid % 1009 * 600
    t = _notes[o:o + 600].split(b"\0")[0].decode("utf-8", "replace")
    return "; while running %s" % t if t else ""


def run_cases(ctx, cases, fn, cpu_limit=20.0, wall_limit=120.0, jobs=None, init=None, describe=repr, crash_key=None,
              deadline=None, max_violations=40):
    """Run fn(case, Result) for every case in forked workers.  A worker that dies or exceeds the limit is a violation
    after the case has been rerun alone.  Returns the number of cases completed."""
    cases = list(cases)
    jobs = min(jobs or NCPU, max(1, len(cases)))
    nxt = mmap.mmap(-1, 8 * (jobs + 2))
    done = 0
    # dynamic distribution through a pipe of case indices
    idx_r, idx_w = os.pipe()
    nd = 4
    workers = {}
    sys.stdout.flush()
    sys.stderr.flush()

    def child(w, resfd, reqs):
        # reqs: file descriptor to read case indices from
        try:
            if init:
                init()
            while True:
                b = os.read(reqs, 4)
                if len(b) < 4:
                    break
                i = struct.unpack("i", b)[0]
                r = Result()
                try:
                    fn(cases[i], r)
                except MemoryError:
                    raise
                except Exception as e:
                    if _from_package(e):
                        r.violations.append(("unexpected exception %r in case %s\n%s" % (e, describe(cases[i]), traceback.format_exc()[-1500:]), None, None))
                    else:
                        r.violations.append(("HARNESS-EXCEPTION " + traceback.format_exc()[-3000:], None, None))
                    r.counters["harness_exceptions"] = 1
                p = pickle.dumps((i, r.violations, r.counters, r.samples, r.distinct, r.data))
                data = struct.pack("i", len(p)) + p
                while data:
                    n = os.write(resfd, data)
                    data = data[n:]
        except BaseException:
            traceback.print_exc()
            sys.stderr.flush()
            os._exit(97)
        finally:
            sys.stdout.flush()
            os._exit(0)

    class W:
        pass

    def spawn():
        w = W()
        rr, rw = os.pipe()
        qr, qw = os.pipe()
        w.pid = os.fork()
        if w.pid == 0:
            os.close(rr)
            os.close(qw)
            for o in workers.values():
                os.close(o.res)
                os.close(o.req)
            child(w, rw, qr)
        os.close(rw)
        os.close(qr)
        w.res, w.req, w.buf, w.case, w.t, w.c = rr, qw, b"", None, 0, 0
        return w

    def assign(w, i):
        w.case, w.t, w.c = i, time.time(), _cpu(w.pid) or 0
        os.write(w.req, struct.pack("i", i))

    def absorb(msg):
        nonlocal done
        i, viol, cnt, samp, dist, data = pickle.loads(msg)
        done += 1
        for m, rep, key in viol:
            if m.startswith("HARNESS-EXCEPTION"):
                raise CheckError("harness exception in case %s\n%s" % (describe(cases[i]), m))
            ctx.violation(m, rep if rep is not None else dict(case=describe(cases[i])), key)
        for k, v in cnt.items():
            ctx.count(k, v)
        for s in samp:
            ctx.sample(s)
        ctx.distinct |= dist
        ctx.data += data

    def reap(w):
        try:
            os.kill(w.pid, signal.SIGKILL)
        except OSError:
            pass
        _, st = os.waitpid(w.pid, 0)
        os.close(w.res)
        os.close(w.req)
        return st

    def alone(i, why):
        """rerun one case by itself with a longer limit"""
        w = spawn()
        assign(w, i)
        t0 = time.time()
        while True:
            rd, _, _ = select.select([w.res], [], [], 0.2)
            if rd:
                b = os.read(w.res, 1 << 20)
                if not b:
                    st = reap(w)
                    ctx.violation("crash (%s; status %s) in case %s" % (why, _st(st), describe(cases[i])) + _noted(w.pid),
                                  dict(case=describe(cases[i]), kind="crash"), crash_key(cases[i]) if crash_key else None)
                    return
                w.buf += b
                if len(w.buf) >= 4 and len(w.buf) >= 4 + struct.unpack("i", w.buf[:4])[0]:
                    absorb(w.buf[4:])
                    reap(w)
                    return
            c = _cpu(w.pid) or 0
            if c - w.c > 4 * cpu_limit or time.time() - t0 > 4 * wall_limit:
                reap(w)
                ctx.violation("no answer (%s; %.0f s cpu, %.0f s wall) in case %s" % (why, c - w.c, time.time() - t0, describe(cases[i])) + _noted(w.pid),
                              dict(case=describe(cases[i]), kind="hang"), crash_key(cases[i]) if crash_key else None)
                return

    queue = iter(range(len(cases)))
    again = []
    stopped = False

    def take():
        nonlocal stopped
        if deadline and time.time() > deadline:
            stopped = True
            return None
        if len(ctx.violations) >= max_violations:
            stopped = True
            return None
        return next(queue, None)

    for _ in range(jobs):
        i = take()
        if i is None:
            break
        w = spawn()
        assign(w, i)
        workers[w.res] = w
    last = time.time()
    while workers:
        rd, _, _ = select.select(list(workers), [], [], 0.5)
        for fd in rd:
            w = workers[fd]
            b = os.read(fd, 1 << 20)
            if not b:
                st = reap(w)
                del workers[fd]
                if w.case is not None:
                    again.append((w.case, "worker died: %s" % _st(st)))
                    i = take()
                    if i is not None and len(again) < 40:
                        w = spawn()
                        assign(w, i)
                        workers[w.res] = w
                continue
            w.buf += b
            if len(w.buf) >= 4:
                n = struct.unpack("i", w.buf[:4])[0]
                if len(w.buf) >= 4 + n:
                    m, w.buf = w.buf[4:4 + n], b""
                    w.case = None
                    absorb(m)
                    i = take()
                    if i is None:
                        os.close(w.req)
                        w.req = os.open("/dev/null", os.O_RDONLY)
                        reap(w)
                        del workers[fd]
                    else:
                        assign(w, i)
        if time.time() - last > 1:
            last = time.time()
            for fd, w in list(workers.items()):
                if w.case is None:
                    continue
                c = _cpu(w.pid)
                if (c is not None and c - w.c > cpu_limit) or time.time() - w.t > wall_limit:
                    reap(w)
                    del workers[fd]
                    again.append((w.case, "limit exceeded"))
                    i = take()
                    if i is not None and len(again) < 40:
                        w = spawn()
                        assign(w, i)
                        workers[w.res] = w
    os.close(idx_r)
    os.close(idx_w)
    for i, why in again:
        alone(i, why)
        if ctx.violations:
            break
    ctx.count("cases", done)
    if done < len(cases):
        ctx.count("cases_not_run", len(cases) - done)
    return done


def _from_package(e):
    """did the exception pass through (or start in) code of the package under test?"""
    tb = e.__traceback__
    while tb:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(BUILD) or f.startswith("minorminer/") or "/minorminer/" in f:
            return True
        tb = tb.tb_next
    return False


def _st(st):
    if os.WIFSIGNALED(st):
        return "signal %d" % os.WTERMSIG(st)
    return "exit %d" % os.WEXITSTATUS(st)
