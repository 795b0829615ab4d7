// Exploration of the heuristic embedder: every problem of a file, every random-draw deviation up to a bound.
// usage: mmh FILE nshards shard mode dev alts seeds [only-id]
#include "mmh.hpp"
#include "find_embedding/find_embedding.hpp"
using namespace find_embedding;

static uint64_t g_checkpos, g_gap;   // draws made up to the last stop check, and the most between two of them
static void checked() {
    if (g_pos > g_checkpos && g_pos - g_checkpos > g_gap) g_gap = g_pos - g_checkpos;
    g_checkpos = g_pos;
}
static long g_checks, g_fire_at;   // stop checks so far; fire at this one (-1 never)
static int g_fire_kind;            // 1 timeout, 2 cancel
class Quiet : public LocalInteraction {
    void displayOutputImpl(int, const string &) const override {}
    void displayErrorImpl(int, const string &) const override {}
    bool timedOutImpl(const find_embedding::clock::time_point) const override { return g_fire_kind == 1 && g_fire_at >= 0 && g_checks - 1 >= g_fire_at; }
    bool cancelledImpl() const override { checked(); return g_checks++ == g_fire_at && g_fire_kind == 2; }
};

// The same with the library's own clock test, on a virtual clock: every reading of the clock takes one second.
static long g_clock = -1;   // -1: real time, -2: time stands still
class QuietClock : public LocalInteraction {
    void displayOutputImpl(int, const string &) const override {}
    void displayErrorImpl(int, const string &) const override {}
    bool cancelledImpl() const override { checked(); g_checks++; return false; }
};
#include <sys/syscall.h>
extern "C" int clock_gettime(clockid_t c, struct timespec *ts) noexcept {
    if (g_clock == -1) return syscall(SYS_clock_gettime, c, ts);
    ts->tv_sec = 1000000 + (g_clock == -2 ? 0 : g_clock++);
    ts->tv_nsec = 0;
    return 0;
}

static void set_case(const Problem &P, uint64_t seed, const char *extra = "") {
    int n = snprintf(g_case, sizeof g_case, "%s ; seed=%llu", P.line.c_str(), (unsigned long long)seed);
    for (int i = 0; i < g_ndev && n < (int)sizeof g_case - 200; i++)
        n += snprintf(g_case + n, sizeof g_case - n, " draw[%llu]=%llu", (unsigned long long)g_devpos[i], (unsigned long long)g_devval[i]);
    if (n < (int)sizeof g_case - 200) snprintf(g_case + n, sizeof g_case - n, " %s", extra);
}

static void fill(const Problem &P, graph::input_graph &S, graph::input_graph &T, optional_parameters &o, uint64_t seed) {
    for (auto &e : P.eS) S.push_back(e.first, e.second);
    for (int v = 0; v < P.nS; v++) S.push_back(v, v);
    for (auto &e : P.eT) T.push_back(e.first, e.second);
    for (int v = 0; v < P.nT; v++) T.push_back(v, v);
    o.localInteractionPtr.reset(new Quiet());
    o.seed(seed);
    o.timeout = 1e8;
    o.tries = P.get("tries", 10);
    o.max_no_improvement = P.get("mni", 10);
    o.inner_rounds = P.get("rounds", numeric_limits<int>::max());
    o.chainlength_patience = P.get("clp", 10);
    o.max_fill = P.get("fill", numeric_limits<int>::max());
    if (P.get("beta", 0)) o.max_beta = P.get("beta", 0);
    o.return_overlap = P.get("overlap", 0);
    o.skip_initialization = P.get("skip", 0);
    o.interactive = P.get("interactive", 0);
    o.threads = P.get("threads", 1);
    o.verbose = P.get("verbose", 0);
    o.fixed_chains = P.fixed;
    o.initial_chains = P.init;
    o.restrict_chains = P.restr;
}

struct Outcome {
    int success = -1;   // -1: threw
    std::string thrown;
    std::vector<std::vector<int>> chains;
    uint64_t draws = 0, hash = 0;
    void sum() {
        hash = fnv(1469598103934665603ULL, success + 2);
        for (auto &c : chains) {
            hash = fnv(hash, 0xABCD);
            for (int q : c) hash = fnv(hash, q + 1);
        }
        for (char c : thrown) hash = fnv(hash, c);
    }
};

static Outcome run_once(const Problem &P, uint64_t seed) {
    g_ticks++;
    g_pos = 0;
    g_checks = 0;
    g_checkpos = g_gap = 0;
    Outcome o;
    graph::input_graph S, T;
    optional_parameters par;
    fill(P, S, T, par, seed);
    try {
        o.success = findEmbedding(S, T, par, o.chains);
    } catch (const BadInitializationException &e) {
        o.thrown = "BadInitialization";
    } catch (const ProblemCancelledException &e) {
        o.thrown = "Cancelled";
    } catch (const minorminer::MinorMinerException &e) {
        o.thrown = std::string("MinorMiner: ") + e.what();
    } catch (const std::exception &e) {
        o.thrown = std::string("std: ") + e.what();
    }
    o.draws = g_pos;
    o.sum();
    g_stat["executions"]++;
    g_stat["draws"] += o.draws;
    return o;
}

// constraints that hold for every result that has chains
static void check_constraints(const Problem &P, const std::vector<std::vector<int>> &chains, bool restrict_hard) {
    for (auto &f : P.fixed) {
        std::set<int> a(f.second.begin(), f.second.end()), b(chains[f.first].begin(), chains[f.first].end());
        if (a != b) violation("fixed chain of " + std::to_string(f.first) + " changed", show(chains));
        for (int v = 0; v < P.nS; v++)
            if (!P.fixed.count(v))
                for (int q : chains[v])
                    if (a.count(q)) violation("chain of " + std::to_string(v) + " uses a fixed node", show(chains));
    }
    if (restrict_hard)
        for (auto &r : P.restr) {
            if (r.second.empty() || P.fixed.count(r.first)) continue;
            // the constraint is soft towards neighbours: a path between two chains may use what either may use
            std::set<int> a(r.second.begin(), r.second.end());
            bool free_neighbour = false;
            for (auto &e : P.eS) {
                int w = e.first == r.first ? e.second : e.second == r.first ? e.first : -1;
                if (w < 0 || w == r.first) continue;
                auto i = P.restr.find(w);
                if (P.fixed.count(w) || i == P.restr.end() || i->second.empty()) free_neighbour = true;
                else a.insert(i->second.begin(), i->second.end());
            }
            if (free_neighbour) continue;
            g_stat["restrictions_checked"]++;
            for (int q : chains[r.first])
                if (!a.count(q)) violation("chain of " + std::to_string(r.first) + " leaves its restriction", show(chains));
        }
}

static std::unordered_set<uint64_t> g_outcomes;
static std::set<std::string> g_sampled;
static void examine(const Problem &P, const Outcome &o) {
    bool mayfail = P.get("mayfail", 0);
    bool overlap = P.get("overlap", 0);
    uint64_t h = fnv(std::hash<std::string>()(P.id), o.hash);
    if (g_outcomes.insert(h).second && o.success > 0) g_stat["distinct_embeddings"]++;
    if (o.success < 0) {
        g_stat["threw"]++;
        if (o.thrown != "BadInitialization" || !mayfail) violation("unexpected exception " + o.thrown);
        return;
    }
    if (o.success) {
        g_stat["successes"]++;
        Judged J = judge(P, o.chains);
        if (!J.valid) {
            violation("success reported but " + J.why, show(o.chains));
            if ((int)o.chains.size() != P.nS) return;
        }
        check_constraints(P, o.chains, true);
        if (P.get("skip", 0)) {
            int l = P.get("startlen", 0), n = P.get("startnum", 0);
            if (l && (J.longest > l || (J.longest == l && J.numlongest > n)))
                violation("improvement made it worse: longest " + std::to_string(l) + "x" + std::to_string(n) + " -> " +
                                  std::to_string(J.longest) + "x" + std::to_string(J.numlongest),
                          show(o.chains));
        }
    } else {
        g_stat["failures"]++;
        if (P.get("mustsucceed", 0)) violation("a start that is a valid embedding was not accepted as success", show(o.chains));
    }
    if (overlap) {
        Judged J = judge(P, o.chains);
        if (!J.semivalid) violation("overlapped result is not semi-valid: " + J.semiwhy, show(o.chains));
        if (J.valid != (bool)o.success && J.semivalid) violation("validity flag is wrong", show(o.chains));
        int f = P.get("fill", 1000);
        if (J.fill > f && (int)o.chains.size() == P.nS) violation("max_fill exceeded: " + std::to_string(J.fill), show(o.chains));
        if ((int)o.chains.size() == P.nS) check_constraints(P, o.chains, false);
        if (!J.valid && J.semivalid) g_stat["semivalid_results"]++;
    } else if (!o.success && o.chains.size())
        violation("no success but a non-empty result", show(o.chains));
}

// The result does not mention draws that were never made, so equal prefixes replay equally: checked by running twice.
static void explore(const Problem &P, int dev, const std::vector<uint64_t> &alts, int nseeds, uint64_t maxpos) {
    for (int s = 0; s < nseeds; s++) {
        uint64_t seed = 1000003ULL * (s + 1) + 17;
        g_ndev = 0;
        set_case(P, seed);
        Outcome base = run_once(P, seed);
        examine(P, base);
        Outcome again = run_once(P, seed);
        if (again.hash != base.hash || again.draws != base.draws) violation("two identical executions differ", show(base.chains) + " vs " + show(again.chains));
        if (dev < 1) continue;
        uint64_t n = std::min(base.draws, maxpos);
        if (n < base.draws) g_stat["draws_beyond_cap"] += base.draws - n;
        for (uint64_t p = 0; p < n; p++)
            for (uint64_t a : alts) {
                g_ndev = 1;
                g_devpos[0] = p;
                g_devval[0] = a;
                set_case(P, seed);
                Outcome o = run_once(P, seed);
                examine(P, o);
                if (dev < 2) continue;
                uint64_t n2 = std::min(o.draws, maxpos);
                for (uint64_t p2 = p + 1; p2 < n2; p2++)
                    for (uint64_t a2 : alts) {
                        g_ndev = 2;
                        g_devpos[1] = p2;
                        g_devval[1] = a2;
                        set_case(P, seed);
                        examine(P, run_once(P, seed));
                    }
            }
        g_ndev = 0;
    }
    g_stat["problems"]++;
    if (g_sampled.size() < 2) {
        g_sampled.insert(P.id);
        g_ndev = 0;
        printf("SAMPLE %s -> %s\n", P.line.c_str(), show(run_once(P, 1000020).chains).c_str());
    }
}

// ------------------------------------------------------------------ M08: improve what was found, again and again
static void improve_rounds(const Problem &P0, int dev, const std::vector<uint64_t> &alts, int nseeds, uint64_t maxpos) {
    Problem P1 = P0;
    P1.opt["clp"] = 0;
    int rounds = P0.get("rounds_", 3);
    for (int s = 0; s < nseeds; s++) {
        g_ndev = 0;
        set_case(P1, 7919ULL * (s + 1));
        Outcome o = run_once(P1, 7919ULL * (s + 1));
        if (o.success <= 0) continue;
        std::vector<std::vector<int>> at = o.chains;
        for (int r = 0; r < rounds; r++) {
            Problem P = P0;
            for (int v = 0; v < P.nS; v++) P.init[v] = at[v];
            Judged J = judge(P, at);
            P.opt["skip"] = P.opt["mustsucceed"] = 1;
            P.opt["startlen"] = J.longest;
            P.opt["startnum"] = J.numlongest;
            uint64_t seed = 104729ULL * (s + 1) + r;
            std::string extra = "start=" + show(at);
            g_ndev = 0;
            set_case(P, seed, extra.c_str());
            Outcome base = run_once(P, seed);
            examine(P, base);
            g_stat["improvement_rounds"]++;
            uint64_t n = dev ? std::min(base.draws, maxpos) : 0;
            for (uint64_t p = 0; p < n; p++)
                for (uint64_t a : alts) {
                    g_ndev = 1;
                    g_devpos[0] = p;
                    g_devval[0] = a;
                    set_case(P, seed, extra.c_str());
                    examine(P, run_once(P, seed));
                }
            g_ndev = 0;
            if (base.success <= 0) break;
            at = base.chains;
        }
    }
    g_stat["problems"]++;
}

// ------------------------------------------------------------------ M03: stop at every check
static void interrupt_everywhere(const Problem &P0, int nseeds) {
    for (int s = 0; s < nseeds; s++) {
        uint64_t seed = 1000003ULL * (s + 1) + 17;
        for (int overlap = 0; overlap < 2; overlap++)
            for (int kind = 1; kind <= 3; kind++)
                for (int interactive = 0; interactive < (kind == 2 ? 2 : 1); interactive++) {
                    Problem P = P0;
                    P.opt["overlap"] = overlap;
                    P.opt["interactive"] = interactive;
                    g_fire_kind = 0;
                    g_fire_at = -1;
                    set_case(P, seed);
                    Outcome full = run_once(P, seed);
                    long total = g_checks;
                    checked();
                    // a stop is noticed only at a check: the work between two checks is one pass, whatever its outcome
                    uint64_t pass = 20 * (P.nS + P.nT);
                    g_stat["max_gap_percent"] = std::max<uint64_t>(g_stat["max_gap_percent"], 100 * g_gap / pass);
                    if (g_gap > pass) violation("the search makes " + std::to_string(g_gap) + " random draws without looking for a timeout or an interrupt");
                    if (full.success < 0) break;
                    for (long k = 0; k < total; k++) {
                        char ex[80];
                        snprintf(ex, sizeof ex, "stop=%s check=%ld overlap=%d interactive=%d", kind == 1 ? "timeout" : kind == 2 ? "cancel" : "clock", k, overlap, interactive);
                        set_case(P, seed, ex);
                        g_ticks++;
                        g_pos = 0;
                        g_checks = 0;
                        g_fire_kind = kind;
                        g_fire_at = k;
                        graph::input_graph S, T;
                        optional_parameters par;
                        fill(P, S, T, par, seed);
                        if (kind == 3) {
                            par.localInteractionPtr.reset(new QuietClock());
                            par.timeout = k + 0.5;
                            g_clock = 0;
                        }
                        pathfinder_wrapper pf(S, T, par);
                        std::vector<std::vector<int>> chains;
                        int success = -1;
                        bool cancelled = false;
                        try {
                            success = pf.heuristicEmbedding();
                        } catch (const ProblemCancelledException &) {
                            cancelled = true;
                        } catch (const std::exception &e) {
                            violation(std::string("unexpected exception after a stop: ") + e.what());
                        }
                        if (kind == 3) g_clock = -2;
                        g_stat["stops"]++;
                        long after = g_checks;
                        if (after <= k && kind != 3) violation("the stop was never delivered (schedule diverged)");
                        if (after > k + 1) g_stat["stop_then_continued"]++;
                        // what matters: after the stop was noticed, no further pass may be started more than a bounded number of times
                        if (after > k + 2) violation("the search went on after the stop: " + std::to_string(after - k - 1) + " more checks");
                        bool expect_cancel = kind == 2 && !interactive;
                        if (cancelled != expect_cancel) violation(cancelled ? "a stop that should return normally raised" : "an interrupt was swallowed");
                        if (!cancelled) {
                            if (overlap || success) {
                                chains.resize(P.nS);
                                for (int v = 0; v < P.nS; v++) pf.get_chain(v, chains[v]);
                                Judged J = judge(P, chains);
                                if (success && !J.valid) violation("interrupted search reports success but " + J.why, show(chains));
                                if (success) g_stat["valid_after_stop"]++;
                                if (!success && overlap) {
                                    bool empty = true;
                                    for (auto &c : chains) empty &= c.empty();
                                    if (!empty && !J.semivalid) violation("interrupted overlapped result is not semi-valid: " + J.semiwhy, show(chains));
                                    if (!empty && J.valid) violation("interrupted overlapped result is valid but its flag is false", show(chains));
                                    g_stat[empty ? "empty_overlap_results" : "semivalid_after_stop"]++;
                                }
                            }
                        }
                        // the object stays usable (the virtual clock stands still: no time passes)
                        g_fire_kind = 0;
                        g_fire_at = -1;
                        g_checks = 0;
                        try {
                            int ok = pf.heuristicEmbedding();
                            chains.assign(P.nS, {});
                            for (int v = 0; v < P.nS; v++) pf.get_chain(v, chains[v]);
                            Judged J = judge(P, chains);
                            if (ok && !J.valid) violation("search after an interrupted one: success but " + J.why, show(chains));
                            if (!ok && full.success && P.get("easy", 0)) violation("search after an interrupted one fails", show(chains));
                            if (!ok && !J.semivalid) violation("search after an interrupted one: not semi-valid: " + J.semiwhy, show(chains));
                            g_stat[ok ? "rerun_ok" : "rerun_failed"]++;
                        } catch (const std::exception &e) {
                            violation(std::string("search after an interrupted one raised ") + e.what());
                        }
                        g_stat["executions"] += 2;
                        g_clock = -1;
                    }
                }
    }
    g_stat["problems"]++;
}

// ------------------------------------------------------------------ M06: sequences of miner calls
struct Miner {
    graph::input_graph S, T;
    optional_parameters par;
    std::unique_ptr<pathfinder_wrapper> pf;
    bool quickpassed = false;
    Miner(const Problem &P, uint64_t seed) {
        fill(P, S, T, par, seed);
        pf.reset(new pathfinder_wrapper(S, T, par));
    }
    std::vector<std::vector<int>> chains(int n) {
        std::vector<std::vector<int>> c(n);
        for (int v = 0; v < n; v++) pf->get_chain(v, c[v]);
        return c;
    }
};
struct QP {
    int strategy;   // >=0 VARORDER; -1 explicit forward, -2 explicit backward, -3 explicit with a missing and a repeated variable
    int clb, ob;
    bool ls, clear;
    double beta;
};
static std::vector<QP> g_qps;
static void op_sequences(const Problem &P, int depth, uint64_t seed, const std::vector<Chainmap> &starts) {
    int nq = g_qps.size(), ns = starts.size();
    int nops = 1 + nq + ns;
    std::vector<int> seq;
    // stateless search: every sequence of length `depth` is executed from a fresh object, every step is checked
    // (the checks of a shared prefix are only performed once)
    std::vector<int> prev;
    std::function<void()> go = [&]() {
        Miner M(P, seed);
        g_pos = 0;
        std::vector<std::vector<int>> before, result;
        bool have_result = false;
        std::string desc = "ops:";
        for (size_t i = 0; i < seq.size(); i++) {
            int op = seq[i];
            bool last = i + 1 == seq.size();
            desc += " " + std::to_string(op);
            if (last) {
                g_ticks++;
                set_case(P, seed, desc.c_str());
            }
            if (op == 0) {
                int ok;
                try {
                    ok = M.pf->heuristicEmbedding();
                } catch (const BadInitializationException &) {
                    if (last && !P.get("mayfail", 0)) violation("search raised BadInitialization");
                    continue;
                }
                if (last) {
                    g_stat["searches"]++;
                    auto c = M.chains(P.nS);
                    if (ok) {
                        Judged J = judge(P, c);
                        if (!J.valid) violation("success but " + J.why, show(c));
                        check_constraints(P, c, false);
                        g_stat["successes"]++;
                    } else if (P.get("easy", 0))
                        violation("search on an easy problem fails after other calls", show(c));
                    if (seq.size() == 1) {
                        Outcome f = run_once(P, seed);
                        if (f.success != ok || (ok && f.chains != c)) violation("first search differs from the function", show(c) + " vs " + show(f.chains));
                    }
                }
            } else if (op <= nq) {
                QP q = g_qps[op - 1];
                bool clear = q.clear || !M.quickpassed;
                M.quickpassed = true;
                try {
                    std::vector<int> vo;
                    if (q.strategy < 0) {
                        for (int v = 0; v < P.nS; v++) vo.push_back(q.strategy == -2 ? P.nS - 1 - v : v);
                        if (q.strategy == -3) vo[0] = vo.back();
                        M.pf->quickPass(vo, q.clb, q.ob, q.ls, clear, q.beta);
                    } else
                        M.pf->quickPass((VARORDER)q.strategy, q.clb, q.ob, q.ls, clear, q.beta);
                    if (last) {
                        g_stat["quickpasses"]++;
                        auto c = M.chains(P.nS);
                        int placed = 0;
                        std::vector<Mask> m(P.nS);
                        std::vector<int> use(P.nT, 0);
                        for (int v = 0; v < P.nS; v++) {
                            for (int x : c[v]) {
                                if (x < 0 || x >= P.nT || m[v].test(x)) {
                                    violation("greedy pass: bad chain", show(c));
                                    return;
                                }
                                m[v].set(x);
                                use[x]++;
                            }
                            placed += m[v].any();
                            // a variable that this pass did not visit keeps what the caller supplied
                            bool supplied = q.strategy == -3 && v == 0 && std::any_of(seq.begin(), seq.end(), [&](int o) { return o > nq; });
                            if (m[v].any() && !supplied && !connected(P, m[v])) violation("greedy pass: chain of " + std::to_string(v) + " is not connected", show(c));
                        }
                        g_stat["placed_chains"] += placed;
                        // every variable was visited in this pass and nothing was placed before it, or the pass before obeyed the same bounds
                        bool fresh = clear && P.init.empty() && !(seq.size() > 1 && std::any_of(seq.begin(), seq.end(), [&](int o) { return o > nq; }));
                        // a pass that visits every variable obeys its bound whatever was there before: the last chain to take a node saw the others
                        bool kept = q.strategy != VARORDER_KEEP || std::any_of(seq.begin(), seq.end() - 1, [&](int o) { return o >= 1 && o <= nq && g_qps[o - 1].strategy >= 0 && g_qps[o - 1].strategy != VARORDER_KEEP; });
                        if (fresh || (q.strategy != -3 && kept)) {
                            g_stat["bounds_checked"]++;
                            for (int x = 0; x < P.nT; x++)
                                if (use[x] > 1 + q.ob) violation("greedy pass: overlap bound exceeded at node " + std::to_string(x), show(c));
                        }
                        bool all = q.strategy != -3;
                        if (all && q.clb > 0)
                            for (int v = 0; v < P.nS; v++)
                                if (!P.fixed.count(v) && (int)m[v].count() > q.clb) violation("greedy pass: chain-length bound exceeded by " + std::to_string(v), show(c));
                        for (auto &e : P.eS)
                            if (e.first != e.second && m[e.first].any() && m[e.second].any() && !(P.fixed.count(e.first) && P.fixed.count(e.second)) && (all || fresh))
                                if ((around(P, m[e.first]) & m[e.second]).none() && (m[e.first] & m[e.second]).none())
                                    violation("greedy pass: placed neighbours " + std::to_string(e.first) + "," + std::to_string(e.second) + " are not linked", show(c));
                        for (auto &f : P.fixed) {
                            Mask a;
                            for (int x : f.second) a.set(x);
                            if (a != m[f.first]) violation("greedy pass: fixed chain changed", show(c));
                            for (int v = 0; v < P.nS; v++)
                                if (v != f.first && (m[v] & a).any()) violation("greedy pass: fixed node used by another chain", show(c));
                        }
                    }
                } catch (const BadInitializationException &) {
                    if (last && q.strategy != VARORDER_KEEP) violation("greedy pass raised BadInitialization");
                }
            } else {
                auto st = starts[op - 1 - nq];
                try {
                    M.pf->set_initial_chains(st);
                } catch (const minorminer::MinorMinerException &) {   // hints in another component of the target are refused
                    g_stat["refused_hints"]++;
                }
            }
        }
        // state identity: what is observable now plus the random state
        if (seq.size()) {
            auto c = M.chains(P.nS);
            uint64_t h = fnv(std::hash<std::string>()(P.id), g_pos);
            for (auto &x : c) {
                h = fnv(h, 77);
                for (int q : x) h = fnv(h, q);
            }
            if (g_outcomes.insert(h).second) g_stat["states"]++;
            g_stat["transitions"]++;
            if ((int)seq.size() == depth) g_stat["traces"]++;
        }
    };
    std::function<void(int)> rec = [&](int d) {
        if (seq.size()) go();
        if (d == 0) return;
        for (int o = 0; o < nops; o++) {
            seq.push_back(o);
            rec(d - 1);
            seq.pop_back();
        }
    };
    rec(depth);
    g_stat["problems"]++;
}

int main(int argc, char **argv) {
    if (argc < 8) return 2;
    std::ifstream in(argv[1]);
    int nsh = atoi(argv[2]), sh = atoi(argv[3]);
    std::string mode = argv[4];
    int dev = atoi(argv[5]), nalt = atoi(argv[6]), seeds = atoi(argv[7]);
    std::string only = argc > 8 ? argv[8] : "";
    uint64_t maxpos = getenv("MMH_MAXPOS") ? atoll(getenv("MMH_MAXPOS")) : 100000;
    if (getenv("MMH_HANG")) g_hanglimit = atoi(getenv("MMH_HANG"));
    install_guards();
    g_fire_at = -1;
    auto alts = alternatives(nalt);
    std::string line;
    for (long n = 0; std::getline(in, line);) {
        if (line.empty() || line[0] == '#') continue;
        if (n++ % nsh != sh && only.empty()) continue;
        Problem P = read_problem(line);
        if (only.size() && P.id != only) continue;
        if (mode == "explore")
            explore(P, P.get("dev", dev), alts, P.get("seeds", seeds), maxpos);
        else if (mode == "improve")
            improve_rounds(P, dev, alts, seeds, maxpos);
        else if (mode == "interrupt")
            interrupt_everywhere(P, seeds);
        else if (mode == "ops") {
            for (int s : {(int)VARORDER_SHUFFLE, (int)VARORDER_DFS, (int)VARORDER_BFS, (int)VARORDER_PFS, (int)VARORDER_RPFS, (int)VARORDER_KEEP}) g_qps.clear();
            g_qps = {{VARORDER_RPFS, 0, 0, false, true, 1e64}, {VARORDER_PFS, 2, 1, true, false, 1e64}, {VARORDER_DFS, 0, 1, false, false, 1.5},
                     {VARORDER_BFS, 1, 0, true, true, 1e64},   {VARORDER_KEEP, 0, 0, false, false, 1e64}, {VARORDER_SHUFFLE, 0, 2, true, false, 2.0},
                     {-1, 0, 0, false, true, 1e64},            {-2, 3, 0, true, false, 1e64},           {-3, 0, 1, false, false, 1e64}};
            std::vector<Chainmap> starts;
            starts.push_back({});
            {   // a valid embedding found by another object, and a faulty hint
                Outcome o = run_once(P, 4242);
                Chainmap c;
                if (o.success > 0)
                    for (int v = 0; v < P.nS; v++)
                        if (!P.fixed.count(v)) c[v] = o.chains[v];
                starts.push_back(c);
                Chainmap d;
                if (P.fixed.empty()) d[0] = {P.nT - 1, 0};
                else
                    for (int v = 0; v < P.nS; v++)
                        if (!P.fixed.count(v) && c.count(v)) { d[v] = c[v]; break; }
                starts.push_back(d);
            }
            for (int s = 0; s < seeds; s++) op_sequences(P, dev, 77 + s, starts);
        }
    }
    print_stats();
    return 0;
}
