// The scheduler and the race detector (compiled without instrumentation).
#include "sched.hpp"
#undef async
#undef future
#undef mutex
#undef launch
#undef thread
#undef condition_variable
#include <dlfcn.h>
#include <execinfo.h>

namespace vfs {
Fiber fib[MAXF];
int cur = 0, nfib = 1;
bool active = false;
long region = 0, target = -1, points = 0;
std::vector<Choice> trail;
size_t depth = 0;
int preempt_bound = 2, preempts = 0;
std::string problem;
static int live = 0;
void (*on_deadlock)() = nullptr;

void wrong(const std::string &w) { if (problem.empty()) problem = w; }

static std::array<bool, MAXF> runnable() {
    std::array<bool, MAXF> r{};
    for (int i = 0; i < nfib; i++) r[i] = fib[i].used && !fib[i].done && !fib[i].waits;
    return r;
}
static void switch_to(int f) {
    if (f == cur) return;
    int o = cur;
    cur = f;
    swapcontext(&fib[o].ctx, &fib[f].ctx);
}
static void report_deadlock() {
    wrong("deadlock: every thread waits");
    if (on_deadlock) on_deadlock();
    abort();
}
// choose the next fiber; stay: the running one may go on
static void pick(bool stay) {
    auto r = runnable();
    std::vector<int> opt;
    if (stay && r[cur]) opt.push_back(cur);
    for (int i = 0; i < nfib; i++) if (r[i] && !(stay && i == cur)) opt.push_back(i);
    if (opt.empty()) report_deadlock();
    points++;
    int n = opt.size();
    bool can_stay = stay && r[cur];
    if (can_stay && preempts >= preempt_bound) n = 1;
    int k = 0;
    if (region == target && n > 1) {
        if (depth < trail.size()) k = trail[depth].pick;
        else trail.push_back({n, 0, can_stay});
        if (k >= n) { wrong("HARNESS: schedule diverged"); k = 0; }
        depth++;
    }
    if (can_stay && k > 0) preempts++;
    switch_to(opt[k]);
}
void point(const char *) { if (active) pick(true); }
void block(const void *o, int kind) {
    fib[cur].waits = o;
    fib[cur].waitkind = kind;
    pick(false);
}
void wake(const void *o, int kind, bool all) {
    for (int i = 0; i < nfib; i++)
        if (fib[i].used && fib[i].waits == o && fib[i].waitkind == kind) {
            fib[i].waits = nullptr;
            if (!all) return;
        }
}
void acquire(Clock &c) { for (int i = 0; i < MAXF; i++) fib[cur].vc[i] = std::max(fib[cur].vc[i], c[i]); }
void release(Clock &c) {
    for (int i = 0; i < MAXF; i++) c[i] = std::max(c[i], fib[cur].vc[i]);
    fib[cur].vc[cur]++;
}
void mlock(int &owner, Clock &vc, const void *m) {
    point("lock");
    while (owner >= 0) {
        if (owner == cur) wrong("a thread locks a mutex it already holds");
        block(m, 1);
    }
    owner = cur;
    acquire(vc);
}
bool mtrylock(int &owner, Clock &vc) {
    point("try_lock");
    if (owner >= 0) return false;
    owner = cur;
    acquire(vc);
    return true;
}
void munlock(int &owner, Clock &vc, const void *m) {
    if (owner != cur) wrong("a thread unlocks a mutex it does not hold");
    release(vc);
    owner = -1;
    wake(m, 1, true);
}
void begin_process() { std::thread([] {}).join(); }
static void forget(const void *p, size_t n);
static void clear_shadow();
static void entry(int f) {
    fib[f].body();
    fib[f].body = nullptr;
    fib[f].done = true;
    wake(&fib[f], 2, true);
    pick(false);
    abort();
}
int spawn(std::function<void()> b) {
    int f = 1;
    while (f < MAXF && fib[f].used) f++;
    if (f == MAXF) { wrong("HARNESS: too many threads"); b(); return -1; }
    if (!active) {
        active = true;
        region++;
        preempts = 0;
        clear_shadow();
        fib[0].used = true;
        fib[cur].vc[cur]++;
    }
    live++;
    nfib = std::max(nfib, f + 1);
    Fiber &F = fib[f];
    if (!F.stack) F.stack = (char *)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    F.used = true;
    F.done = F.joined = false;
    F.waits = nullptr;
    F.body = std::move(b);
    uint32_t old = F.vc[f];
    F.vc = fib[cur].vc;
    F.vc[f] = std::max(F.vc[f], old) + 1;
    fib[cur].vc[cur]++;
    getcontext(&F.ctx);
    F.ctx.uc_stack.ss_sp = F.stack;
    F.ctx.uc_stack.ss_size = STACK;
    F.ctx.uc_link = nullptr;
    makecontext(&F.ctx, (void (*)())entry, 1, f);
    point("spawn");
    return f;
}
void join(int f) {
    if (f < 0) return;
    while (!fib[f].done) block(&fib[f], 2);
    acquire(fib[f].vc);
    fib[f].used = false;
    if (--live == 0) active = false;
}
void reset() {
    for (int i = 1; i < MAXF; i++) fib[i].used = false;
    cur = 0; nfib = 1; active = false; region = 0; depth = 0; points = 0; live = 0; preempts = 0;
    fib[0].used = true; fib[0].done = false; fib[0].waits = nullptr;
    problem.clear();
}

// ------------------------------------------------------------------ race detection
struct Cell { uintptr_t a; uint32_t gen; uint32_t w; uint8_t wt, wm; void *wpc; uint32_t r[MAXF]; uint8_t rm[MAXF]; };
enum { CELLS = 1 << 15 };
static Cell *cells = (Cell *)mmap(nullptr, sizeof(Cell) * CELLS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
static uint32_t gen = 1;
static size_t ncell = 0;
unsigned long watched = 0;
static void clear_shadow() { gen++; ncell = 0; }
static Cell *cell(uintptr_t a, bool make) {
    size_t h = (a * 0x9E3779B97F4A7C15ULL) >> 49;
    for (;; h = (h + 1) & (CELLS - 1)) {
        Cell &c = cells[h];
        if (c.gen != gen) {
            if (!make) return nullptr;
            if (++ncell > CELLS * 3 / 4) { wrong("HARNESS: shadow memory full"); clear_shadow(); return cell(a, make); }
            memset(&c, 0, sizeof c);
            c.gen = gen;
            c.a = a;
            return &c;
        }
        if (c.a == a) return &c;
    }
}
static void forget(const void *p, size_t n) {
    if (!active) return;
    uintptr_t a = (uintptr_t)p >> 2, e = ((uintptr_t)p + n + 3) >> 2;
    for (; a < e; a++)
        if (Cell *c = cell(a, false)) { c->w = 0; memset(c->r, 0, sizeof c->r); }
}
static void race(const char *k, void *pc, void *pc2, int other) {
    if (!problem.empty()) return;
    char b[200];
    snprintf(b, sizeof b, "data race: %s by thread %d at %p unordered with thread %d at %p", k, cur, pc, other, pc2);
    wrong(b);
}
void access(const void *p, size_t n, bool write, void *pc) {
    if (!active) return;
    Fiber &F = fib[cur];
    if (F.stack && (char *)p >= F.stack && (char *)p < F.stack + STACK) return;   // own stack
    uintptr_t x = (uintptr_t)p, e = x + n;
    watched++;
    for (uintptr_t a = x >> 2; a <= (e - 1) >> 2; a++) {
        uintptr_t lo = std::max(x, a << 2), hi = std::min(e, (a + 1) << 2);
        uint8_t m = 0;
        for (uintptr_t i = lo; i < hi; i++) m |= 1 << (i & 3);
        Cell &c = *cell(a, true);
        if (c.w && c.wt != cur && (c.wm & m) && F.vc[c.wt] < c.w) race(write ? "write after write" : "read after write", pc, c.wpc, c.wt);
        if (write) {
            for (int t = 0; t < nfib; t++)
                if (t != cur && c.r[t] && (c.rm[t] & m) && F.vc[t] < c.r[t]) race("write after read", pc, nullptr, t);
            c.w = F.vc[cur];
            c.wt = cur;
            c.wm = m;
            c.wpc = pc;
        } else {
            c.r[cur] = F.vc[cur];
            c.rm[cur] |= m;
        }
    }
}
static std::map<const volatile void *, Clock> *atoms;
void atomic_op(const volatile void *p) {
    if (!active) return;
    point("atomic");
    if (!atoms) atoms = new std::map<const volatile void *, Clock>;
    auto &c = (*atoms)[p];
    acquire(c);
    release(c);
}
}  // namespace vfs

// fresh memory has no history
static inline void *vf_alloc(size_t n) {
    void *p = malloc(n ? n : 1);
    if (!p) abort();
    if (vfs::active) vfs::forget(p, n);
    return p;
}
void *operator new(size_t n) { return vf_alloc(n); }
void *operator new[](size_t n) { return vf_alloc(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }

#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void *p) { vfs::access(p, n, false, PC); } \
    void __tsan_write##n(void *p) { vfs::access(p, n, true, PC); } \
    void __tsan_unaligned_read##n(void *p) { vfs::access(p, n, false, PC); } \
    void __tsan_unaligned_write##n(void *p) { vfs::access(p, n, true, PC); } \
    void __tsan_read_write##n(void *p) { vfs::access(p, n, false, PC); vfs::access(p, n, true, PC); } \
    void __tsan_unaligned_read_write##n(void *p) { vfs::access(p, n, false, PC); vfs::access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { if (n) vfs::access(p, n, false, PC); }
void __tsan_write_range(void *p, size_t n) { if (n) vfs::access(p, n, true, PC); }
void __tsan_vptr_update(void **p, void *) { vfs::access(p, 8, true, PC); }
void __tsan_vptr_read(void **p) { vfs::access(p, 8, false, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { if (n) { vfs::access(s, n, false, PC); vfs::access(d, n, true, PC); } return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { if (n) { vfs::access(s, n, false, PC); vfs::access(d, n, true, PC); } return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { if (n) vfs::access(d, n, true, PC); return memset(d, c, n); }
#define AT(b, T) \
    T __tsan_atomic##b##_load(const volatile T *a, int) { vfs::atomic_op(a); return __atomic_load_n(a, 5); } \
    void __tsan_atomic##b##_store(volatile T *a, T v, int) { vfs::atomic_op(a); __atomic_store_n(a, v, 5); } \
    T __tsan_atomic##b##_exchange(volatile T *a, T v, int) { vfs::atomic_op(a); return __atomic_exchange_n(a, v, 5); } \
    T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int) { vfs::atomic_op(a); return __atomic_fetch_add(a, v, 5); } \
    T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int) { vfs::atomic_op(a); return __atomic_fetch_sub(a, v, 5); } \
    T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int) { vfs::atomic_op(a); return __atomic_fetch_and(a, v, 5); } \
    T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int) { vfs::atomic_op(a); return __atomic_fetch_or(a, v, 5); } \
    T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int) { vfs::atomic_op(a); return __atomic_fetch_xor(a, v, 5); } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) { vfs::atomic_op(a); return __atomic_compare_exchange_n(a, e, v, 0, 5, 5); } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *e, T v, int, int) { vfs::atomic_op(a); return __atomic_compare_exchange_n(a, e, v, 0, 5, 5); } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T e, T v, int, int) { vfs::atomic_op(a); __atomic_compare_exchange_n(a, &e, v, 0, 5, 5); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
