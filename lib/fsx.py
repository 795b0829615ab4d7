"""Controlled exploration of processes and threads that share a directory, at the level of their file operations (harness/fsshim.c)."""
import ctypes, os, pickle, subprocess, sys, _thread, threading, time
import vf

SO = None


def library():
    src = os.path.join(vf.VERIF, "harness", "fsshim.c")
    key = vf._hash([src], ())
    out = os.path.join(vf.BUILD, "fsshim-%s.so" % key)
    if not os.path.exists(out):
        os.makedirs(vf.BUILD, exist_ok=True)
        tmp = out + ".tmp%d" % os.getpid()
        subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", tmp, src, "-ldl"], check=True)
        os.rename(tmp, out)
    return out


def reexec():
    """run the whole check with the library preloaded"""
    so = library()
    if os.environ.get("VF_FSSHIM") != so:
        os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, VF_FSSHIM=so, LD_PRELOAD=so))
    global L
    L = ctypes.CDLL(so)
    L.vf_log.restype = ctypes.c_char_p
    L.vf_mode.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
    L.vf_point.argtypes = [ctypes.c_char_p, ctypes.c_char_p]


class VLock:
    """stands in for threading.Lock: waiting is visible to the controller"""
    def __init__(self):
        self.l = _thread.allocate_lock()

    def acquire(self, blocking=True, timeout=-1):
        if L.vf_me() < 0:
            return self.l.acquire(blocking, timeout)
        while True:
            L.vf_point(b"tlock", b"")
            if self.l.acquire(False):
                return True
            if not blocking or timeout >= 0:
                return False
            L.vf_lockfail()

    def release(self):
        self.l.release()
        L.vf_unlock()

    def locked(self):
        return self.l.locked()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class VRLock:
    def __init__(self):
        self.l, self.owner, self.n = VLock(), None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self.owner == me:
            self.n += 1
            return True
        r = self.l.acquire(blocking, timeout)
        if r:
            self.owner, self.n = me, 1
        return r

    def release(self):
        self.n -= 1
        if not self.n:
            self.owner = None
            self.l.release()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def import_controlled(name):
    """import a module whose locks and pauses are under control"""
    import importlib, logging, concurrent.futures, multiprocessing
    time.sleep = lambda s: None
    a, b = threading.Lock, threading.RLock
    threading.Lock, threading.RLock = VLock, VRLock
    try:
        return importlib.import_module(name)
    finally:
        threading.Lock, threading.RLock = a, b


def _guard(fn):
    try:
        return ("ok", fn())
    except BaseException as e:
        import traceback
        return ("raised", "%r %s" % (e, " / ".join(traceback.format_exc().strip().split("\n")[-3:-1])))


def _child(fns, ids, w):
    """one process with a thread per function"""
    out = [None] * len(fns)
    threading.Lock, threading.RLock = VLock, VRLock
    if len(fns) == 1:
        L.vf_actor(ids[0])
        out[0] = _guard(fns[0])
        L.vf_done()
    else:
        done = [_thread.allocate_lock() for _ in fns]

        def go(k):
            L.vf_actor(ids[k])
            out[k] = _guard(fns[k])
            L.vf_done()
            done[k].release()
        for k in range(len(fns)):
            done[k].acquire()
            _thread.start_new_thread(go, (k,))
        for d in done:
            d.acquire()
    b = pickle.dumps(out)
    while b:
        b = b[os.write(w, b):]


def alone(fn):
    """run a function in a process of its own, uncontrolled; returns ("ok", value), ("raised", text) or ("died", status)"""
    return _collect([_spawn([fn], [0], off=True)])[0]


def _spawn(fns, ids, off=False):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            if off:
                b = pickle.dumps([_guard(f) for f in fns])
                while b:
                    b = b[os.write(w, b):]
            else:
                _child(fns, ids, w)
        except BaseException:
            import traceback
            traceback.print_exc()
            os._exit(98)
        os._exit(0)
    os.close(w)
    return pid, r, len(fns)


def _collect(procs, kill=False):
    out = []
    for pid, r, n in procs:
        if kill:
            os.kill(pid, 9)
        data = b""
        while True:
            b = os.read(r, 1 << 20)
            if not b:
                break
            data += b
        os.close(r)
        st = os.waitpid(pid, 0)[1]
        try:
            out += pickle.loads(data)
        except Exception:
            out += [("died", st)] * n
    return out


def log():
    a, g = ctypes.c_int(), ctypes.c_long()
    out = []
    for i in range(min(L.vf_nlog(), 4096)):
        s = L.vf_log(i, ctypes.byref(a), ctypes.byref(g)).decode("utf8", "replace")
        out.append((a.value, s, g.value))
    return out


def crash(dirname, fn, at, nbytes=0):
    """run fn in a process of its own and kill it at file operation number at (at<0: never); -> (result, log)"""
    L.vf_setup(dirname.encode(), 1)
    L.vf_mode(1, 0, at, nbytes)
    r = _collect([_spawn([fn], [0])])[0]
    g = log()
    L.vf_mode(0, -1, 0, 0)
    return r, g


def scheduled(dirname, procs, choices, limit=3000, crash=None):
    """run processes (lists of thread functions) under a schedule; -> (status, chosen, enabled, results)
    status: "ok", "deadlock", "hang", "livelock" """
    n = sum(map(len, procs))
    L.vf_setup(dirname.encode(), n)
    if crash:
        L.vf_mode(2, crash[0], crash[1], crash[2])
    else:
        L.vf_mode(2, -1, 0, 0)
    ps = []
    i = 0
    for fns in procs:
        ps.append(_spawn(fns, list(range(i, i + len(fns)))))
        i += len(fns)
    ch = (ctypes.c_int * max(1, len(choices)))(*choices)
    c, e, d = (ctypes.c_int * limit)(), (ctypes.c_int * limit)(), ctypes.c_int()
    k = L.vf_control(ch, len(choices), c, e, limit, ctypes.byref(d))
    st = {-1: "deadlock", -2: "hang", -3: "livelock"}.get(k, "ok")
    res = _collect(ps, kill=k < 0)
    g = log()
    L.vf_mode(0, -1, 0, 0)
    m = k if k >= 0 else 0
    return st, list(c[:m]), list(e[:m]), res, g


def preemptions(chosen, enabled, n=None):
    k = 0
    for i in range(1, len(chosen) if n is None else n):
        if chosen[i] != chosen[i - 1] and enabled[i] >> chosen[i - 1] & 1:
            k += 1
    return k


def explore(run, bound, shard, nshards, nact):
    """all schedules with at most `bound` preemptions; run(choices) -> (chosen, enabled); sharded by the place of the first deviation"""
    count = 0
    stack = [((), 0)]
    first = True
    while stack:
        pre, base = stack.pop()
        chosen, enabled = run(list(pre), first and shard != 0)
        if not first or shard == 0:
            count += 1
        if chosen is None:
            return count
        for i in range(base, len(chosen)):
            if first and i % nshards != shard:
                continue
            for a in range(nact):
                if a != chosen[i] and enabled[i] >> a & 1:
                    p = preemptions(chosen[:i] + [a], enabled)
                    if p <= bound:
                        stack.append((tuple(chosen[:i]) + (a,), i + 1))
        first = False
    return count
