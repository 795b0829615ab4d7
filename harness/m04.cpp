// Every schedule (up to a preemption bound) of every fork-join region of multi-threaded embedding runs.
// usage: m04 FILE nshards shard mode bound seeds [only-id]      mode: explore | print
#include "mmh.hpp"
#ifndef VF_REAL
#include "sched.hpp"
#endif
#include "find_embedding/find_embedding.hpp"
using namespace find_embedding;

class Quiet : public LocalInteraction {
    void displayOutputImpl(int, const string &) const override {}
    void displayErrorImpl(int, const string &) const override {}
    bool timedOutImpl(const find_embedding::clock::time_point) const override { return false; }
    bool cancelledImpl() const override { return false; }
};
struct Outcome {
    int success = -1;
    std::string thrown;
    std::vector<std::vector<int>> chains;
    uint64_t draws = 0, hash = 0;
};
static Outcome run_once(const Problem &P, uint64_t seed) {
    g_ticks++;
    g_pos = 0;
    Outcome r;
    graph::input_graph S, T;
    optional_parameters o;
    for (auto &e : P.eS) S.push_back(e.first, e.second);
    for (int v = 0; v < P.nS; v++) S.push_back(v, v);
    for (auto &e : P.eT) T.push_back(e.first, e.second);
    for (int v = 0; v < P.nT; v++) T.push_back(v, v);
    o.localInteractionPtr.reset(new Quiet());
    o.seed(seed);
    o.timeout = 1e8;
    o.tries = P.get("tries", 1);
    o.max_no_improvement = P.get("mni", 1);
    o.inner_rounds = P.get("rounds", 1);
    o.chainlength_patience = P.get("clp", 1);
    o.max_fill = P.get("fill", numeric_limits<int>::max());
    o.return_overlap = P.get("overlap", 0);
    o.skip_initialization = P.get("skip", 0);
    o.threads = P.get("threads", 2);
    o.fixed_chains = P.fixed;
    o.initial_chains = P.init;
    o.restrict_chains = P.restr;
    try {
        r.success = findEmbedding(S, T, o, r.chains);
    } catch (const std::exception &e) {
        r.thrown = e.what();
    }
    r.draws = g_pos;
    r.hash = fnv(fnv(1469598103934665603ULL, r.success + 2), r.draws);
    for (auto &c : r.chains) {
        r.hash = fnv(r.hash, 0xABCD);
        for (int q : c) r.hash = fnv(r.hash, q + 1);
    }
    for (char c : r.thrown) r.hash = fnv(r.hash, c);
    return r;
}
static void set_case(const Problem &P, uint64_t seed, const std::string &extra) {
    snprintf(g_case, sizeof g_case, "%s ; seed=%llu %s", P.line.c_str(), (unsigned long long)seed, extra.c_str());
}

#ifndef VF_REAL
static std::string schedule() {
    std::string s = "region " + std::to_string(vfs::target) + " choices";
    for (auto &c : vfs::trail) s += " " + std::to_string(c.pick) + "/" + std::to_string(c.n);
    return s;
}
static void one(const Problem &P, uint64_t seed, long target, Outcome &o) {
    vfs::reset();
    vfs::target = target;
    o = run_once(P, seed);
    g_stat["executions"]++;
    if (vfs::problem.size()) {
        if (vfs::problem.compare(0, 7, "HARNESS") == 0) {
            printf("%s\n", vfs::problem.c_str());
            fflush(stdout);
            _exit(2);
        }
        violation(vfs::problem, schedule());
    }
}
static void explore(const Problem &P, uint64_t seed, long maxregion) {
    Outcome base, o;
    vfs::trail.clear();
    set_case(P, seed, "first schedule");
    one(P, seed, -1, base);
    long R = vfs::region;
    g_stat["points"] += vfs::points;
    g_stat["regions"] += R;
    if (R == 0) g_stat["runs_without_threads"]++;
    g_stat["max_regions"] = std::max<uint64_t>(g_stat["max_regions"], R);
    if (base.success > 0) {
        g_stat["embeddings"]++;
        Judged J = judge(P, base.chains);
        if (!J.valid && !P.get("overlap", 0)) violation("invalid embedding: " + J.why, show(base.chains));
    } else if (base.success == 0) g_stat["not_embedded"]++;
    else g_stat["raised"]++;
    uint64_t most = 0, runs0 = g_stat["schedules"];
    for (long r = 1; r <= std::min(R, maxregion) && g_nviol < 3; r++) {
        g_stat["regions_explored"]++;
        vfs::trail.clear();
        uint64_t n = 0;
        for (;;) {
            vfs::depth = 0;
            set_case(P, seed, schedule());
            one(P, seed, r, o);
            n++;
            g_stat["schedules"]++;
            bool nontrivial = false;
            for (auto &c : vfs::trail) nontrivial |= c.pick > 0;
            g_stat["nondefault"] += nontrivial;
            if (o.hash != base.hash)
                violation("the result depends on the schedule: " + (o.thrown.size() ? o.thrown : show(o.chains)) + " instead of " + (base.thrown.size() ? base.thrown : show(base.chains)), schedule());
            g_stat["max_choices"] = std::max<uint64_t>(g_stat["max_choices"], vfs::trail.size());
            while (vfs::trail.size() && vfs::trail.back().pick + 1 >= vfs::trail.back().n) vfs::trail.pop_back();
            if (vfs::trail.empty() || g_nviol) break;
            vfs::trail.back().pick++;
        }
        most = std::max(most, n);
    }
    if (R > maxregion) g_stat["regions_beyond_bound"] += R - maxregion;
    g_stat["max_schedules_of_a_region"] = std::max(g_stat["max_schedules_of_a_region"], most);
    g_stat["watched_accesses"] = vfs::watched;
    if (g_stat["samples"]++ < 2) printf("SAMPLE %s ; seed %llu: %ld regions, %llu schedules, every one gives %s\n", P.line.c_str(), (unsigned long long)seed, R, (unsigned long long)(g_stat["schedules"] - runs0), base.thrown.size() ? base.thrown.c_str() : show(base.chains).c_str());
}
static void stuck() {
    violation("deadlock: every thread waits", schedule());
    print_stats();
    _exit(92);
}
#endif

int main(int argc, char **argv) {
    if (argc < 7) return 2;
    std::ifstream in(argv[1]);
    int nsh = atoi(argv[2]), sh = atoi(argv[3]);
    std::string mode = argv[4], only = argc > 7 ? argv[7] : "";
    int bound = atoi(argv[5]), seeds = atoi(argv[6]);
    if (getenv("MMH_HANG")) g_hanglimit = atoi(getenv("MMH_HANG"));
    long maxregion = getenv("M04_REGIONS") ? atol(getenv("M04_REGIONS")) : 1000000;
    install_guards();
#ifndef VF_REAL
    vfs::begin_process();
    vfs::preempt_bound = bound;
    vfs::on_deadlock = stuck;
#endif
    std::string line;
    for (long n = 0; std::getline(in, line);) {
        if (line.empty() || line[0] == '#') continue;
        Problem P = read_problem(line);
        for (int s = 0; s < seeds; s++) {
            if (n++ % nsh != sh && only.empty()) continue;
            if (only.size() && P.id != only) continue;
            if (mode == "print") {
                set_case(P, 100 + s, "print");
                Outcome o;
#ifdef VF_REAL
                o = run_once(P, 100 + s);
#else
                vfs::trail.clear();
                one(P, 100 + s, -1, o);
#endif
                printf("OUT %s %d %016llx\n", P.id.c_str(), s, (unsigned long long)o.hash);
            }
#ifndef VF_REAL
            else
                explore(P, 100 + s, P.get("regions", maxregion));
#endif
        }
    }
    print_stats();
    return 0;
}
