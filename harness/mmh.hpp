// Common parts of the heuristic-embedder harnesses: random-draw control, problem files, the independent oracle.
#pragma once
#include <sys/time.h>
#include <signal.h>
#include <unistd.h>
#include <bitset>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

// ------------------------------------------------------------------ random draws
static uint64_t g_pos = 0;          // draws so far in this execution
static int g_ndev = 0;              // deviations of this execution
static uint64_t g_devpos[4], g_devval[4];
extern "C" uint64_t minorminer_verification_draw(uint64_t v) {
    uint64_t p = g_pos++;
    for (int i = 0; i < g_ndev; i++)
        if (g_devpos[i] == p) return g_devval[i];
    return v;
}
// replacement values: they steer a uniform choice among n<=6 alternatives to each of them
static std::vector<uint64_t> alternatives(int k) {
    static const double f12[] = {0.0, 1 / 6., 1 / 5., 1 / 4., 1 / 3., 2 / 5., 1 / 2., 3 / 5., 2 / 3., 3 / 4., 4 / 5., 5 / 6.};
    static const double f6[] = {0.0, 1 / 5., 1 / 3., 1 / 2., 2 / 3., 5 / 6.};
    static const double f3[] = {0.0, 2 / 5., 5 / 6.};
    const double *f = k >= 12 ? f12 : k >= 6 ? f6 : f3;
    int n = k >= 12 ? 12 : k >= 6 ? 6 : 3;
    std::vector<uint64_t> r;
    for (int i = 0; i < n; i++) r.push_back((uint64_t)(f[i] * 18446744073709551616.0) + 0x0123456789ABCULL);
    return r;
}

// ------------------------------------------------------------------ problems
typedef std::bitset<256> Mask;
typedef std::map<int, std::vector<int>> Chainmap;
struct Problem {
    std::string id;
    int nS = 0, nT = 0;
    std::vector<std::pair<int, int>> eS, eT;
    std::map<std::string, double> opt;
    Chainmap fixed, init, restr;
    std::string line;
    // derived
    std::vector<Mask> nbr;
    double get(const char *k, double d) const {
        auto i = opt.find(k);
        return i == opt.end() ? d : i->second;
    }
};

static std::vector<std::string> split(const std::string &s, char c) {
    std::vector<std::string> r;
    std::string t;
    std::stringstream ss(s);
    while (std::getline(ss, t, c)) r.push_back(t);
    return r;
}
static std::vector<std::pair<int, int>> read_edges(const std::string &s) {
    std::vector<std::pair<int, int>> r;
    std::stringstream ss(s);
    int a, b;
    while (ss >> a >> b) r.push_back({a, b});
    return r;
}
static Chainmap read_chains(const std::string &s) {
    Chainmap r;
    for (auto &x : split(s, ';')) {
        auto i = x.find(':');
        if (i == std::string::npos) continue;
        auto &v = r[atoi(x.c_str())];
        std::stringstream ss(x.substr(i + 1));
        int q;
        while (ss >> q) v.push_back(q);
    }
    return r;
}
// id|nS|S edges|nT|T edges|opts|fixed|init|restrict
static Problem read_problem(const std::string &line) {
    Problem P;
    P.line = line;
    auto f = split(line + "|", '|');
    f.resize(9);
    P.id = f[0];
    P.nS = atoi(f[1].c_str());
    P.eS = read_edges(f[2]);
    P.nT = atoi(f[3].c_str());
    P.eT = read_edges(f[4]);
    for (auto &o : split(f[5], ' ')) {
        auto i = o.find('=');
        if (i != std::string::npos) P.opt[o.substr(0, i)] = atof(o.c_str() + i + 1);
    }
    P.fixed = read_chains(f[6]);
    P.init = read_chains(f[7]);
    P.restr = read_chains(f[8]);
    P.nbr.assign(P.nT, Mask());
    for (auto &e : P.eT)
        if (e.first != e.second) P.nbr[e.first].set(e.second), P.nbr[e.second].set(e.first);
    return P;
}

// ------------------------------------------------------------------ oracle
struct Judged {
    bool valid = true;       // a minor embedding
    bool semivalid = true;   // chains non-empty, connected; edges coupled or shared
    int fill = 0;            // most chains on one target node
    std::string why, semiwhy;
    int longest = 0, numlongest = 0;
};
static bool connected(const Problem &P, const Mask &m) {
    if (m.none()) return false;
    Mask seen, front;
    int s = m._Find_first();
    seen.set(s);
    std::vector<int> st{s};
    while (st.size()) {
        int q = st.back();
        st.pop_back();
        Mask n = P.nbr[q] & m & ~seen;
        for (int x = n._Find_first(); x < 256; x = n._Find_next(x)) seen.set(x), st.push_back(x);
    }
    return seen == m;
}
static Mask around(const Problem &P, const Mask &m) {
    Mask r;
    for (int x = m._Find_first(); x < 256; x = m._Find_next(x)) r |= P.nbr[x];
    return r;
}
static Judged judge(const Problem &P, const std::vector<std::vector<int>> &chains) {
    Judged J;
    auto bad = [&](bool semi, const std::string &w) {
        if (J.valid) J.why = w;
        J.valid = false;
        if (semi) {
            if (J.semivalid) J.semiwhy = w;
            J.semivalid = false;
        }
    };
    if ((int)chains.size() != P.nS) {
        bad(true, "number of chains is " + std::to_string(chains.size()));
        return J;
    }
    std::vector<Mask> m(P.nS);
    std::vector<int> use(P.nT, 0);
    for (int v = 0; v < P.nS; v++) {
        for (int q : chains[v]) {
            if (q < 0 || q >= P.nT) {
                bad(true, "chain of " + std::to_string(v) + " has the non-node " + std::to_string(q));
                return J;
            }
            if (m[v].test(q)) bad(true, "chain of " + std::to_string(v) + " repeats " + std::to_string(q));
            else {
                m[v].set(q);
                J.fill = std::max(J.fill, ++use[q]);
                if (use[q] > 1) bad(false, "node " + std::to_string(q) + " is in several chains");
            }
        }
        if (chains[v].empty()) bad(true, "chain of " + std::to_string(v) + " is empty");
        else if (!connected(P, m[v])) bad(true, "chain of " + std::to_string(v) + " is not connected");
        int n = m[v].count();
        if (n > J.longest) J.longest = n, J.numlongest = 1;
        else if (n == J.longest) J.numlongest++;
    }
    for (auto &e : P.eS) {
        if (e.first == e.second) continue;
        if ((around(P, m[e.first]) & m[e.second]).none()) {
            bool shared = (m[e.first] & m[e.second]).any();
            bad(!shared, "source edge " + std::to_string(e.first) + "-" + std::to_string(e.second) + " is not represented");
        }
    }
    return J;
}
static std::string show(const std::vector<std::vector<int>> &chains) {
    std::string s = "{";
    for (size_t v = 0; v < chains.size(); v++) {
        s += (v ? ", " : "") + std::to_string(v) + ":[";
        for (size_t i = 0; i < chains[v].size(); i++) s += (i ? "," : "") + std::to_string(chains[v][i]);
        s += "]";
    }
    return s + "}";
}

// ------------------------------------------------------------------ crash and hang reporting
static char g_case[8192] = "";
static volatile uint64_t g_ticks = 0;   // bumped once per execution
static uint64_t g_lasttick = ~0ULL;
static int g_stuck = 0, g_hanglimit = 8;
static void say(const char *s) { (void)!write(1, s, strlen(s)); }
static void on_crash(int sig) {
    char b[64];
    snprintf(b, sizeof b, "\nCRASH signal %d ", sig);
    say(b);
    say(g_case);
    say("\n");
    _exit(90);
}
static void on_timer(int) {
    if (g_ticks == g_lasttick) {
        if (++g_stuck >= g_hanglimit) {
            say("\nHANG ");
            say(g_case);
            say("\n");
            _exit(91);
        }
    } else
        g_stuck = 0, g_lasttick = g_ticks;
}
static void install_guards() {
    static char stack[1 << 16];
    stack_t ss;
    memset(&ss, 0, sizeof ss);
    ss.ss_sp = stack;
    ss.ss_size = sizeof stack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_crash;
    sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) sigaction(s, &sa, nullptr);
    sa.sa_handler = on_timer;
    sa.sa_flags = SA_RESTART;
    sigaction(SIGVTALRM, &sa, nullptr);
    struct itimerval it = {{1, 0}, {1, 0}};
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
static uint64_t fnv(uint64_t h, uint64_t x) {
    h ^= x;
    h *= 0x100000001b3ULL;
    return h ^ (h >> 29);
}
static std::map<std::string, uint64_t> g_stat;
static int g_nviol = 0;
static void violation(const std::string &what, const std::string &extra = "") {
    if (g_nviol++ < 20) {
        std::string s = "\nVIOL " + what + " @@ " + g_case + (extra.size() ? " ## " + extra : "") + "\n";
        for (size_t i = 1; i + 1 < s.size(); i++)
            if (s[i] == '\n') s[i] = ' ';
        say(s.c_str());
    }
}
static void print_stats() {
    for (auto &k : g_stat) printf("STAT %s %llu\n", k.first.c_str(), (unsigned long long)k.second);
    fflush(stdout);
}
