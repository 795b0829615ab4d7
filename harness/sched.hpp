// A controlled scheduler: std::async, std::future, std::thread, std::mutex and std::condition_variable on fibers, with a
// systematic choice at every synchronisation operation and vector-clock race detection from -fsanitize=thread callbacks.
#pragma once
#include <ucontext.h>
#include <sys/mman.h>
#include <algorithm>
#include <array>
#include <atomic>
#include <bitset>
#include <fstream>
#include <iomanip>
#include <numeric>
#include <cmath>
#include <ratio>
#include <stdexcept>
#include <iterator>
#include <thread>
#include <cassert>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <future>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <queue>
#include <random>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace vfs {
enum { MAXF = 24, STACK = 128 * 1024 };
typedef std::array<uint32_t, MAXF> Clock;
struct Fiber {
    ucontext_t ctx;
    char *stack = nullptr;
    std::function<void()> body;
    bool used = false, done = false, joined = false;
    const void *waits = nullptr;     // blocked on this object (mutex or fiber), else runnable
    int waitkind = 0;                // 1 mutex, 2 fiber, 3 condition
    Clock vc{};
};
extern Fiber fib[MAXF];
extern int cur, nfib;
extern bool active;                  // more than one fiber exists: choices are made and accesses are watched
extern long region;                  // regions entered so far in this execution
struct Choice { int n, pick; bool preempt_possible; };
extern long target;                  // the region whose choices are explored
extern std::vector<Choice> trail;    // choices of the target region
extern size_t depth;
extern int preempt_bound, preempts;
extern long points;
extern std::string problem;          // first thing found wrong in this execution
void wrong(const std::string &w);
void reset();
int spawn(std::function<void()> f);
void point(const char *what);        // a scheduling point of the running fiber
void block(const void *o, int kind);
void wake(const void *o, int kind, bool all);
void join(int f);
void acquire(Clock &c);
void release(Clock &c);
void mlock(int &owner, Clock &vc, const void *m);
bool mtrylock(int &owner, Clock &vc);
void munlock(int &owner, Clock &vc, const void *m);
void cvwait(const void *c);
extern void (*on_deadlock)();
extern unsigned long watched;
void begin_process();
}  // namespace vfs

namespace std {
class vf_mutex {
  public:
    int owner = -1;
    vfs::Clock vc{};
    vf_mutex() {}
    vf_mutex(const vf_mutex &) = delete;
    void lock() { vfs::mlock(owner, vc, this); }
    bool try_lock() { return vfs::mtrylock(owner, vc); }
    void unlock() { vfs::munlock(owner, vc, this); }
};
class vf_condition_variable {
  public:
    vfs::Clock vc{};
    template <typename L> void wait(L &l) {
        l.unlock();
        vfs::block(this, 3);
        l.lock();
    }
    template <typename L, typename P> void wait(L &l, P p) {
        while (!p()) wait(l);
    }
    void notify_one() { vfs::point("notify"); vfs::wake(this, 3, false); }
    void notify_all() { vfs::point("notify"); vfs::wake(this, 3, true); }
};
enum class vf_launch { vf_async = 1, deferred = 2 };
inline constexpr vf_launch operator|(vf_launch a, vf_launch b) { return vf_launch(int(a) | int(b)); }

template <typename R> struct vf_state {
    int f = -1;
    exception_ptr ex;
    struct none {};
    typename conditional<is_void<R>::value, none, R>::type val{};
    bool deferred = false;
    function<void()> later;
};
template <typename R> class vf_future {
    vf_state<R> *s = nullptr;
    void finish() {
        if (s) {
            if (s->deferred) { if (s->later) { auto g = std::move(s->later); s->later = nullptr; g(); } }
            else if (s->f >= 0) { vfs::join(s->f); s->f = -1; }
        }
    }
  public:
    vf_future() {}
    explicit vf_future(vf_state<R> *x) : s(x) {}
    vf_future(vf_future &&o) { std::swap(s, o.s); }
    vf_future &operator=(vf_future &&o) {
        if (s && !s->deferred) finish();   // the last future of std::async waits
        delete s;
        s = o.s;
        o.s = nullptr;
        return *this;
    }
    ~vf_future() { if (s && !s->deferred) finish(); delete s; }
    bool valid() const { return s != nullptr; }
    void wait() { vfs::point("wait"); finish(); }
    R get() {
        vfs::point("get");
        finish();
        std::unique_ptr<vf_state<R>> t(s);
        s = nullptr;
        if (t->ex) rethrow_exception(t->ex);
        if constexpr (!is_void<R>::value) return std::move(t->val);
    }
};
template <typename F, typename... A> auto vf_async(vf_launch pol, F f, A... a) -> vf_future<typename invoke_result<F, A...>::type> {
    typedef typename invoke_result<F, A...>::type R;
    auto s = new vf_state<R>();
    auto body = [s, f, a...]() mutable {
        try {
            if constexpr (is_void<R>::value) f(a...);
            else s->val = f(a...);
        } catch (...) { s->ex = current_exception(); }
    };
    if (pol == vf_launch::deferred) { s->deferred = true; s->later = body; }
    else s->f = vfs::spawn(body);
    return vf_future<R>(s);
}
template <typename F, typename... A, typename = typename enable_if<!is_same<typename decay<F>::type, vf_launch>::value>::type> auto vf_async(F f, A... a) {
    return vf_async(vf_launch::vf_async, f, a...);
}
class vf_thread {
    int f = -1;
  public:
    vf_thread() {}
    template <typename F, typename... A> explicit vf_thread(F g, A... a) : f(vfs::spawn([g, a...]() mutable { g(a...); })) {}
    vf_thread(vf_thread &&o) : f(o.f) { o.f = -1; }
    vf_thread &operator=(vf_thread &&o) { std::swap(f, o.f); return *this; }
    ~vf_thread() { if (f >= 0) vfs::wrong("a joinable thread is destroyed"); }
    bool joinable() const { return f >= 0; }
    void join() { vfs::point("join"); vfs::join(f); f = -1; }
    static unsigned hardware_concurrency() { return 4; }
};
}  // namespace std
#define async vf_async
#define future vf_future
#define mutex vf_mutex
#define launch vf_launch
#define thread vf_thread
#define condition_variable vf_condition_variable
