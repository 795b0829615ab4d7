// Preloaded library: every file operation on paths below one directory is a point at which a controller decides who
// continues, or at which the process dies.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <dirent.h>
#include <sys/file.h>

#define MAXA 4
#define MAXLOG 4096
enum { OFF, CRASH, SCHED };
enum { UNUSED, RUNNING, WAITING, DONE };
struct slot {
    sem_t go;
    volatile int state, lockfail, count, pid;
    char op[16], path[64];
};
struct entry {
    int actor;
    char op[16], path[64];
    long arg;
};
struct shared {
    sem_t ctl;
    volatile int mode, n, crash_actor, crash_at;
    volatile long crash_bytes;
    volatile int nlog, nlock;
    char lockname[8][48];
    struct slot s[MAXA];
    struct entry log[MAXLOG];
};
static struct shared *S;
static char prefix[256];
static size_t plen;
static unsigned char tracked[4096];  // 1 tracked
static char names[1024][48];
static __thread int me = -1;

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, #name)

int vf_setup(const char *p, int n) {
    static int owner;
    if (!S || owner != getpid()) {  // each controlling process has its own
        owner = getpid();
        S = mmap(0, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (S == MAP_FAILED) return -1;
    }
    memset(S, 0, sizeof *S);
    sem_init(&S->ctl, 1, 0);
    S->n = n;
    S->crash_actor = -1;
    for (int i = 0; i < MAXA; i++) sem_init(&S->s[i].go, 1, 0);
    strncpy(prefix, p, sizeof prefix - 1);
    plen = strlen(prefix);
    memset(tracked, 0, sizeof tracked);
    me = -1;
    return 0;
}
void vf_mode(int mode, int crash_actor, int crash_at, long crash_bytes) {
    S->mode = mode; S->crash_actor = crash_actor; S->crash_at = crash_at; S->crash_bytes = crash_bytes;
}
int vf_count(int i) { return S->s[i].count; }
int vf_nlog(void) { return S->nlog; }
const char *vf_log(int i, int *actor, long *arg) {
    static char buf[96];
    *actor = S->log[i].actor; *arg = S->log[i].arg;
    snprintf(buf, sizeof buf, "%s %s", S->log[i].op, S->log[i].path);
    return buf;
}

static int under(const char *p) { return S && S->mode != OFF && me >= 0 && p && plen && !strncmp(p, prefix, plen); }
static int fdtracked(int fd) { return S && S->mode != OFF && me >= 0 && fd >= 0 && fd < (int)sizeof tracked && tracked[fd]; }
static const char *fdname(int fd) { return fd >= 0 && fd < 1024 ? names[fd] : ""; }
static void track(int fd, const char *p) {
    if (fd < 0 || fd >= (int)sizeof tracked) return;
    tracked[fd] = 1;
    if (fd < 1024) { const char *b = strrchr(p, '/'); snprintf(names[fd], sizeof names[fd], "%s", b ? b + 1 : p); }
}

static void wait_go(void) {
    while (sem_wait(&S->s[me].go) && errno == EINTR) {}
}
// returns the number of bytes to write before dying, -1, or -2 if the operation is to fail
static long point(const char *op, const char *path, long arg) {
    int e = errno;
    struct slot *s = &S->s[me];
    const char *b = path && strlen(path) > 40 ? path + strlen(path) - 40 : path ? path : "";
    snprintf(s->op, sizeof s->op, "%s", op);
    snprintf(s->path, sizeof s->path, "%s", b);
    if (S->mode == SCHED) {
        s->state = WAITING;
        sem_post(&S->ctl);
        wait_go();
        s->state = RUNNING;
    }
    int k = s->count++;
    int l = __sync_fetch_and_add(&S->nlog, 1);
    if (l < MAXLOG) {
        S->log[l].actor = me;
        snprintf(S->log[l].op, 16, "%s", op);
        snprintf(S->log[l].path, 64, "%s", b);
        S->log[l].arg = arg;
    }
    long r = -1;
    if (S->crash_actor == me && S->crash_at == k) {
        if (S->crash_bytes < 0) { errno = -S->crash_bytes; return -2; }  // the operation fails
        if (S->crash_bytes == 0 || strcmp(op, "write")) _exit(137);
        r = S->crash_bytes;
    }
    errno = e;
    return r;
}
static void lockname(int fd) {
    for (int i = 0; i < S->nlock && i < 8; i++) if (!strcmp(S->lockname[i], fdname(fd))) return;
    if (S->nlock < 8) snprintf(S->lockname[S->nlock++], 48, "%s", fdname(fd));
}
static int islock(int fd) {
    for (int i = 0; i < S->nlock && i < 8; i++) if (!strcmp(S->lockname[i], fdname(fd))) return 1;
    return S->nlock >= 8;
}
static void unlocked(void) { for (int i = 0; i < MAXA; i++) S->s[i].lockfail = 0; }

void vf_actor(int i) {
    me = i;
    if (S->mode == SCHED) { S->s[i].pid = getpid(); point("start", "", 0); }
}
void vf_done(void) {
    int i = me;
    me = -1;
    if (i >= 0) {
        S->s[i].state = DONE;
        unlocked();
        if (S->mode == SCHED) sem_post(&S->ctl);
    }
}
// locks that are not file locks
void vf_point(const char *op, const char *what) { if (me >= 0 && S->mode != OFF) point(op, what, 0); }
void vf_lockfail(void) { if (me >= 0) S->s[me].lockfail = 1; }
void vf_unlock(void) { if (S) unlocked(); }
int vf_me(void) { return me; }

// controller: follow choices[0..nch), then the default policy.  Records for every decision the chosen actor and the set of
// enabled ones.  Returns the number of decisions, or -1 for a deadlock, -2 for a hang, -3 for too many decisions
int vf_control(const int *choices, int nch, int *chosen, int *enabled, int max, int *died) {
    int alive = S->n, step = 0, cur = -1;
    int pending = S->n;  // actors that owe us a report
    *died = 0;
    for (;;) {
        while (pending) {
            struct timespec t;
            clock_gettime(CLOCK_REALTIME, &t);
            t.tv_nsec += 3 * 1000000L;
            if (t.tv_nsec >= 1000000000L) { t.tv_nsec -= 1000000000L; t.tv_sec++; }
            static int waited;
            if (!sem_timedwait(&S->ctl, &t)) { pending--; waited = 0; continue; }
            if (errno != ETIMEDOUT) continue;
            waited++;
            // did somebody die?
            for (int i = 0; i < S->n; i++)
                if ((S->s[i].state == RUNNING || S->s[i].state == UNUSED) && S->s[i].pid > 0) {
                    siginfo_t si; si.si_pid = 0;
                    if (!waitid(P_PID, S->s[i].pid, &si, WEXITED | WNOHANG | WNOWAIT) && si.si_pid) {
                        S->s[i].state = DONE;
                        *died |= 1 << i;
                        unlocked();
                        pending--;
                    }
                }
            if (waited > 10000) { waited = 0; return -2; }
        }
        int en = 0, left = 0;
        for (int i = 0; i < S->n; i++) {
            if (S->s[i].state != DONE) left++;
            if (S->s[i].state == WAITING && !S->s[i].lockfail) en |= 1 << i;
        }
        (void)alive;
        if (!left) return step;
        if (!en) return -1;
        if (step >= max) return -3;
        int c;
        if (step < nch && (en >> choices[step] & 1)) c = choices[step];
        else if (cur >= 0 && (en >> cur & 1)) c = cur;
        else c = __builtin_ctz(en);
        chosen[step] = c;
        enabled[step] = en;
        step++;
        cur = c;
        S->s[c].state = RUNNING;
        pending = 1;
        sem_post(&S->s[c].go);
    }
}

// ---------------------------------------------------------------- intercepted functions
#define OPENLIKE(name) \
int name(const char *p, int fl, ...) { \
    REAL(int, name, const char *, int, ...); \
    mode_t m = 0; va_list a; va_start(a, fl); if (fl & (O_CREAT | O_TMPFILE)) m = va_arg(a, mode_t); va_end(a); \
    if (!under(p)) { int fd = real(p, fl, m); if (fd >= 0 && fd < (int)sizeof tracked) tracked[fd] = 0; return fd; } \
    if (point(fl & O_TRUNC ? "truncate" : fl & O_CREAT ? "create" : "open", p, fl) == -2) return -1; \
    int fd = real(p, fl, m); track(fd, p); return fd; }
OPENLIKE(open) OPENLIKE(open64)
#define OPENAT(name) \
int name(int d, const char *p, int fl, ...) { \
    REAL(int, name, int, const char *, int, ...); \
    mode_t m = 0; va_list a; va_start(a, fl); if (fl & (O_CREAT | O_TMPFILE)) m = va_arg(a, mode_t); va_end(a); \
    if (!under(p)) { int fd = real(d, p, fl, m); if (fd >= 0 && fd < (int)sizeof tracked) tracked[fd] = 0; return fd; } \
    if (point(fl & O_TRUNC ? "truncate" : fl & O_CREAT ? "create" : "open", p, fl) == -2) return -1; \
    int fd = real(d, p, fl, m); track(fd, p); return fd; }
OPENAT(openat) OPENAT(openat64)
int close(int fd) {
    REAL(int, close, int);
    if (fdtracked(fd)) { point("close", fdname(fd), 0); tracked[fd] = 0; int l = islock(fd), r = real(fd); if (l) unlocked(); return r; }
    if (fd >= 0 && fd < (int)sizeof tracked) tracked[fd] = 0;
    return real(fd);
}
ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, write, int, const void *, size_t);
    if (!fdtracked(fd)) return real(fd, b, n);
    long k = point("write", fdname(fd), n);
    if (k == -2) return -1;
    if (k >= 0) { if ((size_t)k > n) k = n; if (real(fd, b, k)) {} _exit(137); }
    return real(fd, b, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
    if (!fdtracked(fd)) return real(fd, b, n, o);
    long k = point("write", fdname(fd), n);
    if (k == -2) return -1;
    if (k >= 0) { if ((size_t)k > n) k = n; if (real(fd, b, k, o)) {} _exit(137); }
    return real(fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    REAL(ssize_t, writev, int, const struct iovec *, int);
    if (fdtracked(fd)) point("writev", fdname(fd), n);
    return real(fd, v, n);
}
ssize_t read(int fd, void *b, size_t n) {
    REAL(ssize_t, read, int, void *, size_t);
    if (fdtracked(fd)) point("read", fdname(fd), n);
    return real(fd, b, n);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    REAL(ssize_t, pread64, int, void *, size_t, off64_t);
    if (fdtracked(fd)) point("read", fdname(fd), n);
    return real(fd, b, n, o);
}
#define TWO(name, label) int name(const char *a, const char *b) { REAL(int, name, const char *, const char *); if (under(a) || under(b)) { if (point(label, b, 0) == -2) return -1; } return real(a, b); }
TWO(rename, "rename") TWO(link, "link") TWO(symlink, "symlink")
int renameat(int d, const char *a, int e, const char *b) { REAL(int, renameat, int, const char *, int, const char *); if (under(a) || under(b)) { if (point("rename", b, 0) == -2) return -1; } return real(d, a, e, b); }
#define ONE(name, label) int name(const char *a) { REAL(int, name, const char *); if (under(a)) { if (point(label, a, 0) == -2) return -1; } return real(a); }
ONE(unlink, "unlink") ONE(rmdir, "rmdir")
int unlinkat(int d, const char *a, int f) { REAL(int, unlinkat, int, const char *, int); if (under(a)) { if (point("unlink", a, 0) == -2) return -1; } return real(d, a, f); }
int mkdir(const char *a, mode_t m) { REAL(int, mkdir, const char *, mode_t); if (under(a)) { if (point("mkdir", a, 0) == -2) return -1; } return real(a, m); }
int mkdirat(int d, const char *a, mode_t m) { REAL(int, mkdirat, int, const char *, mode_t); if (under(a)) { if (point("mkdir", a, 0) == -2) return -1; } return real(d, a, m); }
int truncate64(const char *a, off64_t n) { REAL(int, truncate64, const char *, off64_t); if (under(a)) point("truncate", a, n); return real(a, n); }
int ftruncate64(int fd, off64_t n) { REAL(int, ftruncate64, int, off64_t); if (fdtracked(fd)) point("truncate", fdname(fd), n); return real(fd, n); }
int access(const char *a, int m) { REAL(int, access, const char *, int); if (under(a)) point("stat", a, 0); return real(a, m); }
#define STAT(name) int name(const char *a, struct stat64 *s) { REAL(int, name, const char *, struct stat64 *); if (under(a)) point("stat", a, 0); return real(a, s); }
STAT(stat64) STAT(lstat64)
int fstatat64(int d, const char *a, struct stat64 *s, int f) { REAL(int, fstatat64, int, const char *, struct stat64 *, int); if (under(a)) point("stat", a, 0); return real(d, a, s, f); }
DIR *opendir(const char *a) { REAL(DIR *, opendir, const char *); if (under(a)) point("list", a, 0); return real(a); }

static int lockresult(int fd, int r, int locking) {
    lockname(fd);
    if (locking && r < 0 && (errno == EAGAIN || errno == EACCES || errno == EWOULDBLOCK)) S->s[me].lockfail = 1;
    return r;
}
int fcntl64(int fd, int cmd, ...) {
    REAL(int, fcntl64, int, int, ...);
    va_list a; va_start(a, cmd); void *p = va_arg(a, void *); va_end(a);
    if (!fdtracked(fd) || !(cmd == F_SETLK || cmd == F_SETLKW || cmd == F_OFD_SETLK || cmd == F_OFD_SETLKW)) return real(fd, cmd, p);
    struct flock *f = p;
    if (f->l_type == F_UNLCK) { point("unlock", fdname(fd), 0); int r = real(fd, cmd, p); unlocked(); return r; }
    int wait = cmd == F_SETLKW || cmd == F_OFD_SETLKW;
    int try = cmd == F_SETLKW ? F_SETLK : cmd == F_OFD_SETLKW ? F_OFD_SETLK : cmd;
    for (;;) {
        point("lock", fdname(fd), 0);
        int r = lockresult(fd, real(fd, S->mode == SCHED ? try : cmd, p), 1);
        if (r >= 0 || !wait || S->mode != SCHED || !(errno == EAGAIN || errno == EACCES)) return r;
    }
}
int flock(int fd, int op) {
    REAL(int, flock, int, int);
    if (!fdtracked(fd)) return real(fd, op);
    if (op & LOCK_UN) { point("unlock", fdname(fd), 0); int r = real(fd, op); unlocked(); return r; }
    for (;;) {
        point("lock", fdname(fd), 0);
        int r = lockresult(fd, real(fd, S->mode == SCHED ? op | LOCK_NB : op), 1);
        if (r >= 0 || (op & LOCK_NB) || S->mode != SCHED || errno != EWOULDBLOCK) return r;
    }
}
int lockf64(int fd, int op, off64_t n) {
    REAL(int, lockf64, int, int, off64_t);
    if (!fdtracked(fd)) return real(fd, op, n);
    if (op == F_ULOCK) { point("unlock", fdname(fd), 0); int r = real(fd, op, n); unlocked(); return r; }
    for (;;) {
        point("lock", fdname(fd), 0);
        int r = lockresult(fd, real(fd, op == F_LOCK && S->mode == SCHED ? F_TLOCK : op, n), op == F_LOCK || op == F_TLOCK);
        if (r >= 0 || op != F_LOCK || S->mode != SCHED || !(errno == EAGAIN || errno == EACCES)) return r;
    }
}
