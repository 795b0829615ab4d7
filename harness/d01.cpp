// Explicit-state exploration of find_embedding::chain: every legal operation in every reachable state of a few chains.
// usage: d01 nodes "a b a b ..." nchains maxdepth maxstates options(f freeze, a assign)
#include "mmh.hpp"
#include "find_embedding/util.hpp"
#include "find_embedding/chain.hpp"
using namespace find_embedding;

static int N, K;
static bool g_freeze, g_assign;
static std::vector<std::vector<int>> adj;
static bool adjacent(int a, int b) { return std::find(adj[a].begin(), adj[a].end(), b) != adj[a].end(); }

struct Op { int k, c, d, a, b; std::vector<int> path; };
static std::string name(const Op &o) {
    static const char *n[] = {"set_root", "add_leaf", "trim_leaf", "trim_branch", "link", "unlink", "tear_out", "steal", "link_path", "freeze", "thaw", "assign", "adopt"};
    std::string s = std::string(n[o.k]) + "(" + std::to_string(o.c) + "," + std::to_string(o.d) + "," + std::to_string(o.a) + "," + std::to_string(o.b);
    for (int q : o.path) s += " " + std::to_string(q);
    return s + ")";
}
struct Problem1 {   // what steal asks of the embedding problem
    int refuse;
    int accepts_qubit(int, int q) { return !(refuse >> q & 1); }
};
struct World {
    vector<int> w;
    vector<chain> ch;
    frozen_chain frz;
    World() : w(N, 0) { ch.reserve(K); for (int c = 0; c < K; c++) ch.emplace_back(w, c); }
    World(const World &) = delete;
};
// what can be seen of the state
struct View {
    std::vector<std::map<int, std::pair<int, int>>> data;   // node -> parent, refs
    std::vector<std::vector<int>> link;
    std::vector<int> w;
    int frozen = -1;
    bool operator==(const View &o) const { return data == o.data && link == o.link && w == o.w; }
    std::string key() const {
        std::string s(1, 'a' + frozen + 1);
        for (int c = 0; c < K; c++) {
            for (auto &x : data[c]) s += char('A' + x.first), s += char('A' + x.second.first);
            s += '|';
            for (int l : link[c]) s += char('A' + l + 1);
            s += '/';
        }
        return s;
    }
};
static View look(World &W) {
    View v;
    v.data.resize(K);
    v.link.assign(K, std::vector<int>(K));
    for (int c = 0; c < K; c++) {
        size_t n = 0;
        for (auto &q : W.ch[c]) v.data[c][q] = {W.ch[c].parent(q), W.ch[c].refcount(q)}, n++;
        if (n != W.ch[c].size() || n != v.data[c].size()) violation("size() disagrees with iteration");
        for (int q = 0; q < N; q++)
            if ((W.ch[c].count(q) != 0) != (v.data[c].count(q) != 0)) violation("count() disagrees with iteration");
        for (int d = 0; d < K; d++) v.link[c][d] = W.ch[c].get_link(d);
        if (W.ch[c].label != c) violation("label changed");
    }
    v.w = W.w;
    return v;
}
// membership, parents, reference counts, links and usage agree
static void invariants(World &W, const View &v) {
    std::vector<int> use(N, 0);
    for (int c = 0; c < K; c++) {
        std::map<int, int> refs;
        for (auto &x : v.data[c]) {
            use[x.first]++;
            refs[x.second.first]++;
            if (!v.data[c].count(x.second.first)) return violation("the parent of a node is not in the chain");
            if (x.second.first != x.first && !adjacent(x.first, x.second.first)) violation("a parent is not a neighbour");
            int y = x.first, n = 0;
            while (v.data[c].at(y).first != y && n++ <= N) y = v.data[c].at(y).first;
            if (n > N) return violation("parents form a cycle");
        }
        for (int d = 0; d < K; d++)
            if (v.link[c][d] >= 0) {
                refs[v.link[c][d]]++;
                if (!v.data[c].count(v.link[c][d])) return violation("a link points outside the chain");
                if (d != c && v.link[d][c] < 0) violation("a link has no partner");
                if (d != c && v.link[d][c] >= 0 && v.link[c][d] != v.link[d][c] && !adjacent(v.link[c][d], v.link[d][c])) violation("linked nodes are neither adjacent nor equal");
            }
        for (auto &x : v.data[c])
            if (refs[x.first] != x.second.second) violation("reference count of node " + std::to_string(x.first) + " is " + std::to_string(x.second.second) + ", referenced " + std::to_string(refs[x.first]) + " times");
        if (W.ch[c].run_diagnostic() != 0) violation("run_diagnostic reports an error");
    }
    for (int q = 0; q < N; q++)
        if (use[q] != v.w[q]) violation("usage count of node " + std::to_string(q) + " is " + std::to_string(v.w[q]) + ", used by " + std::to_string(use[q]));
}
static bool is_tree(const View &v, int c) {
    int roots = 0;
    for (auto &x : v.data[c]) roots += x.first == x.second.first;
    return roots == 1 && v.link[c][c] >= 0 && v.data[c].at(v.link[c][c]).first == v.link[c][c];
}

// ------------------------------------------------------------------ legal operations of a state
static std::vector<Op> legal(const View &v) {
    std::vector<Op> r;
    int only = v.frozen;   // while a chain is frozen only that chain is rebuilt
    for (int c = 0; c < K; c++) {
        auto &D = v.data[c];
        if (only >= 0 && c != only) continue;
        bool bare = true;
        for (int d = 0; d < K; d++) bare &= v.link[c][d] < 0;
        if (D.empty() && bare) {
            for (int q = 0; q < N; q++) r.push_back({0, c, 0, q, 0, {}});
            if (only < 0 && g_assign)
                for (int m = 1; m < 1 << N; m++)
                    for (int twice : {0, 1}) r.push_back({11, c, 0, m, twice, {}});
        }
        for (auto &x : D) {
            int p = x.first;
            for (int q : adj[p])
                if (!D.count(q)) r.push_back({1, c, 0, q, p, {}});
                else if (D.at(q).first == q && v.link[c][c] >= 0 && v.link[c][c] != q) {   // adopt a loose node
                    int y = p, n = 0;
                    while (y != q && D.at(y).first != y && n++ < N) y = D.at(y).first;
                    if (y != q) r.push_back({12, c, 0, p, q, {}});
                }
            r.push_back({2, c, 0, p, 0, {}});
            r.push_back({3, c, 0, p, 0, {}});
        }
        if (D.size()) r.push_back({6, c, 0, 0, 0, {}});
        bool zero = false;
        for (auto &x : D) zero |= x.second.second == 0;
        for (int d = 0; d < K; d++) {
            if (d == c || v.data[d].empty() || D.empty()) continue;
            if (v.link[c][d] < 0 && v.link[d][c] < 0) {
                for (auto &x : D)
                    for (auto &y : v.data[d])
                        if (x.first == y.first || adjacent(x.first, y.first)) r.push_back({4, c, d, x.first, y.first, {}});
                if (!zero && is_tree(v, c))
                    for (auto &x : D) {   // all simple paths from x to the other chain
                        std::vector<int> path{x.first};
                        std::function<void()> rec = [&]() {
                            int q = path.back();
                            if (v.data[d].count(q)) { r.push_back({8, c, d, x.first, 0, path}); return; }
                            for (int n : adj[q])
                                if (std::find(path.begin(), path.end(), n) == path.end()) { path.push_back(n); rec(); path.pop_back(); }
                        };
                        rec();
                    }
            } else if (v.link[c][d] >= 0 && v.link[d][c] >= 0) {
                r.push_back({5, c, d, 0, 0, {}});
                if (only < 0)
                    for (int sz = 0; sz <= 3; sz++)
                        for (int m : {0, 1, 1 << (N - 1)}) r.push_back({7, c, d, sz, m, {}});
            }
        }
        if (only < 0 && D.size() && g_freeze) r.push_back({9, c, 0, 0, 0, {}});
        if (only == c && D.empty() && bare) r.push_back({10, c, 0, 0, 0, {}});
    }
    return r;
}
static int g_ret;
static void apply(World &W, const Op &o) {
    auto &C = W.ch[o.c];
    switch (o.k) {
        case 0: C.set_root(o.a); break;
        case 1: C.add_leaf(o.a, o.b); break;
        case 2: g_ret = C.trim_leaf(o.a); break;
        case 3: g_ret = C.trim_branch(o.a); break;
        case 4: C.set_link(o.d, o.a); W.ch[o.d].set_link(o.c, o.b); break;
        case 5: g_ret = C.drop_link(o.d); if (W.ch[o.d].drop_link(o.c) < 0) g_ret = -2; break;
        case 6: C.clear(); for (int d = 0; d < K; d++) if (d != o.c) W.ch[d].drop_link(o.c); break;
        case 7: { Problem1 ep{o.b}; C.steal(W.ch[o.d], ep, o.a); break; }
        case 8: {
            vector<int> par(N, -1);
            for (size_t i = 0; i + 1 < o.path.size(); i++) par[o.path[i]] = o.path[i + 1];
            C.link_path(W.ch[o.d], o.a, par);
            break;
        }
        case 9: g_ret = C.freeze(W.ch, W.frz); break;
        case 10: C.thaw(W.ch, W.frz); break;
        case 11: { vector<int> q; for (int i = 0; i < N; i++) if (o.a >> i & 1) q.push_back(i); if (o.b) q.push_back(q[0]); C = q; C.set_link(o.c, q[0]); break; }
        case 12: C.adopt(o.a, o.b); break;
    }
}
static std::set<int> nodes(const View &v, int c) {
    std::set<int> s;
    for (auto &x : v.data[c]) s.insert(x.first);
    return s;
}
static void refresh(View &e, int c) {   // recompute reference counts and usage of the expected state
    for (auto &x : e.data[c]) x.second.second = 0;
    for (auto &x : e.data[c]) e.data[c].at(x.second.first).second++;
    for (int d = 0; d < K; d++) if (e.link[c][d] >= 0) e.data[c].at(e.link[c][d]).second++;
}
static void use(View &e) {
    std::fill(e.w.begin(), e.w.end(), 0);
    for (auto &D : e.data) for (auto &x : D) e.w[x.first]++;
}
static int trim1(View &e, int c, int q) {
    auto &D = e.data[c];
    refresh(e, c);
    if (D.at(q).second) return q;
    int p = D.at(q).first;
    D.erase(q);
    return p;
}
// the operation's contract
static void contract(const View &b, const Op &o, const View &a, const View *before_freeze) {
    View e = b;
    int c = o.c, d = o.d;
    auto same = [&](const View &x) { if (!(x == a)) violation("state after " + name(o) + " is not the specified one"); };
    auto finish = [&]() { for (int i = 0; i < K; i++) refresh(e, i); use(e); same(e); };
    switch (o.k) {
        case 0: e.data[c][o.a] = {o.a, 0}; e.link[c][c] = o.a; return finish();
        case 1: e.data[c][o.a] = {o.b, 0}; return finish();
        case 2: { int r = trim1(e, c, o.a); if (r != g_ret) violation("trim_leaf returns " + std::to_string(g_ret) + " instead of " + std::to_string(r)); return finish(); }
        case 3: {
            int q = o.a, p;
            while ((p = trim1(e, c, q)) != q) q = p;
            if (q != g_ret) violation("trim_branch returns " + std::to_string(g_ret) + " instead of " + std::to_string(q));
            return finish();
        }
        case 4: e.link[c][d] = o.a; e.link[d][c] = o.b; return finish();
        case 5: if (g_ret != e.link[c][d]) violation("drop_link returns the wrong node"); e.link[c][d] = e.link[d][c] = -1; return finish();
        case 6: e.data[c].clear(); for (int i = 0; i < K; i++) e.link[c][i] = e.link[i][c] = -1; return finish();
        case 9: {
            if (g_ret != (int)e.data[c].size()) violation("freeze returns the wrong size");
            e.data[c].clear();
            for (int i = 0; i < K; i++) e.link[c][i] = e.link[i][c] = -1;
            return finish();
        }
        case 10: return same(*before_freeze);
        case 11: for (int i = 0; i < N; i++) if (o.a >> i & 1) { e.data[c][i] = {i, 0}; if (e.link[c][c] < 0) e.link[c][c] = i; } return finish();
        case 12: e.data[c][o.b].first = o.a; return finish();
    }
    // steal and link_path: nothing else changes, both stay trees, the chains are linked
    for (int i = 0; i < K; i++) {
        if (i != c && i != d && (a.data[i] != b.data[i])) violation(name(o) + " changes a third chain");
        for (int j = 0; j < K; j++)
            if (!(i == c && j == d) && !(i == d && j == c) && a.link[i][j] != b.link[i][j]) violation(name(o) + " moves another link");
    }
    if (a.link[c][d] < 0 || a.link[d][c] < 0) return violation(name(o) + " leaves the chains unlinked");
    for (int x : {c, d})
        if (is_tree(b, x) && !is_tree(a, x)) violation(name(o) + " breaks a tree");
    auto bc = nodes(b, c), bd = nodes(b, d), ac = nodes(a, c), ad = nodes(a, d);
    if (o.k == 8) {
        if (bd != ad) violation("link_path changes the other chain");
        std::set<int> path(o.path.begin(), o.path.end());
        for (int q : bc) if (!ac.count(q)) violation("link_path loses a node of the chain");
        for (int q : ac) if (!bc.count(q) && (!path.count(q) || bd.count(q))) violation("link_path adds a node off the path");
        int n = o.path.size();
        if (a.link[d][c] != o.path[n - 1]) violation("link_path links to the wrong node of the other chain");
        if (a.link[c][d] != o.path[n > 1 ? n - 2 : 0]) violation("link_path links from the wrong node");
        // every added node is needed
        for (auto &x : a.data[c]) if (!bc.count(x.first) && x.second.second == 0) violation("link_path leaves a useless node");
    } else {
        for (int q : ad) if (!bd.count(q)) violation("steal gives a node to the other chain");
        for (int q : ac) if (!bc.count(q) && !bd.count(q)) violation("steal invents a node");
        for (int q : ac) if (!bc.count(q) && (o.b >> q & 1)) violation("steal takes a refused node");
        for (int q : ac) if (!bc.count(q) && ad.count(q)) violation("steal leaves a stolen node behind");
        bool overlapped = false;
        for (int q : bc) overlapped |= bd.count(q) > 0;
        // an overlapped chain may cut its way back to a node it shares
        if (!overlapped) for (int q : bd) if (!ad.count(q) && !ac.count(q)) violation("steal loses a node");
        if (!overlapped) for (int q : bc) if (!ac.count(q)) violation("steal loses an own node");
        if (o.a && ac.size() > bc.size() && (int)ac.size() > o.a) violation("steal exceeds the size bound");
        // it goes on as far as it may
        int p = a.link[d][c];
        bool stop = (o.a && (int)ac.size() >= o.a) || (o.b >> p & 1) || a.data[d].at(p).second > 1;
        if (!stop) violation("steal stops early");
    }
}

int main(int argc, char **argv) {
    if (argc < 6) return 2;
    N = atoi(argv[1]);
    adj.resize(N);
    for (auto &e : read_edges(argv[2])) adj[e.first].push_back(e.second), adj[e.second].push_back(e.first);
    K = atoi(argv[3]);
    int maxdepth = atoi(argv[4]);
    size_t maxstates = atol(argv[5]);
    std::string opts = argc > 6 ? argv[6] : "fa";
    g_freeze = opts.find('f') != std::string::npos;
    g_assign = opts.find('a') != std::string::npos;
    install_guards();
    struct Node { int from; Op op; View v; int depth, frozen_at; };
    std::vector<Node> S;
    std::unordered_map<std::string, int> seen;
    auto trace = [&](int i) {
        std::vector<Op> t;
        for (; S[i].from >= 0; i = S[i].from) t.push_back(S[i].op);
        std::reverse(t.begin(), t.end());
        return t;
    };
    {
        World W;
        S.push_back({-1, {}, look(W), 0, -1});
        seen[S[0].v.key()] = 0;
    }
    bool complete = true;
    int full_depth = 1000;
    uint64_t kinds[13] = {0};
    for (size_t i = 0; i < S.size() && !g_nviol; i++) {
        if (S[i].depth >= maxdepth) { complete = false; full_depth = std::min(full_depth, maxdepth); break; }
        auto ops = legal(S[i].v);
        auto t = trace(i);
        for (auto &o : ops) {
            g_ticks++;
            {
                std::string s = std::string(argv[1]) + " nodes, edges " + argv[2] + ":";
                for (auto &x : t) s += " " + name(x);
                s += " " + name(o);
                snprintf(g_case, sizeof g_case, "%s", s.c_str());
            }
            World W;
            for (auto &x : t) apply(W, x);
            apply(W, o);
            kinds[o.k]++;
            View a = look(W);
            a.frozen = o.k == 9 ? o.c : o.k == 10 ? -1 : S[i].v.frozen;
            g_stat["transitions"]++;
            invariants(W, a);
            int fa = o.k == 9 ? (int)i : o.k == 10 ? -1 : S[i].frozen_at;
            contract(S[i].v, o, a, S[i].frozen_at >= 0 ? &S[S[i].frozen_at].v : nullptr);
            if (g_nviol) break;
            // copying onto chains with other contents
            {
                World X;
                for (auto &x : t) apply(X, x);
                X.ch = W.ch;
                View c = look(X);
                if (!(c == a)) violation("a copy differs from the original");
                W.ch = W.ch;
            }
            // a different frozen chain makes a different state
            std::string k = a.key();
            if (fa >= 0) k += "#" + S[fa].v.key();
            if (!seen.count(k)) {
                if (S.size() >= maxstates) { complete = false; full_depth = std::min(full_depth, S[i].depth); continue; }
                seen[k] = S.size();
                S.push_back({(int)i, o, a, S[i].depth + 1, fa});
            }
        }
    }
    g_stat["states"] = S.size();
    {   // maximal traces: states from which no new state was found
        std::vector<char> inner(S.size(), 0);
        for (auto &x : S) if (x.from >= 0) inner[x.from] = 1;
        g_stat["maximal_traces"] = std::count(inner.begin(), inner.end(), 0);
    }
    g_stat["max_depth"] = S.back().depth;
    g_stat["closed_spaces"] = complete;
    g_stat["max_full_depth"] = complete ? S.back().depth : full_depth;
    static const char *kn[] = {"set_root", "add_leaf", "trim_leaf", "trim_branch", "link", "unlink", "tear_out", "steal", "link_path", "freeze", "thaw", "assign", "adopt"};
    for (int k = 0; k < 13; k++) g_stat[std::string("op_") + kn[k]] = kinds[k];
    snprintf(g_case, sizeof g_case, "none");
    {
        auto t = trace(S.size() - 1);
        std::string s;
        for (auto &x : t) s += " " + name(x);
        printf("SAMPLE %s nodes [%s], %d chains: last state reached by%s\n", argv[1], argv[2], K, s.c_str());
    }
    print_stats();
    return 0;
}
