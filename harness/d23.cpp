// D02: every interleaving of pushes and pops of the pairing queue.  D03: every small multigraph through the component decomposition.
// usage: d23 queue KEYS LEN nshards shard | d23 perm N nshards shard | d23 comps N nshards shard
#include "mmh.hpp"
#include "find_embedding/util.hpp"
#include "find_embedding/pairing_queue.hpp"
#include "find_embedding/graph.hpp"
#include <limits>
using namespace find_embedding;
static long nsh, sh, leaf;

// ------------------------------------------------------------------ queue
template <typename P, typename Tag> static P key_of(int k) {
    static const P one = 1;
    return k == 0 ? P(0) : k == 1 ? one : k == 2 ? P(2) : std::numeric_limits<P>::max();
}
struct Step { int key, dirt; };   // key < 0: pop, -2: reset
template <typename P, typename Tag> static void play(const std::vector<Step> &s, bool drain) {
    typedef priority_node<P, Tag> N;
    int pushes = 0, since = 0;
    for (auto &x : s) {
        if (x.key >= 0) since++;
        if (x.key == -2) since = 0;
        pushes = std::max(pushes, since);
    }
    pairing_queue<N> q0(std::max(pushes, 1));
    pairing_queue<N> *q = &q0;
    struct E { P d; int r, id; };
    std::vector<E> m;
    bool max = std::is_same<Tag, max_heap_tag>::value;
    auto best = [&]() {
        size_t b = 0;
        for (size_t i = 1; i < m.size(); i++) {
            bool less = m[i].d < m[b].d || (m[i].d == m[b].d && m[i].r < m[b].r), more = m[i].d > m[b].d || (m[i].d == m[b].d && m[i].r > m[b].r);
            if (max ? more : less) b = i;
        }
        return b;
    };
    int id = 0;
    auto look = [&]() {
        if (q->empty() != m.empty()) return violation(q->empty() ? "the queue is empty too early" : "the queue is not empty after everything was removed"), false;
        if (m.empty()) return true;
        N t = q->top();
        size_t b = best();
        if (t.dist != m[b].d || t.dirt != m[b].r) { violation("the first entry is not the least one"); return false; }
        for (auto &e : m) if (e.id == t.node && e.d == t.dist && e.r == t.dirt) return true;
        violation("the queue yields an entry that was not inserted or was already removed");
        return false;
    };
    auto pop = [&]() {
        int n = q->top().node;
        q->pop();
        for (size_t i = 0; i < m.size(); i++) if (m[i].id == n) { m.erase(m.begin() + i); break; }
    };
    if (!look()) return;
    for (auto &x : s) {
        if (x.key == -2) { q->reset(); m.clear(); }
        else if (x.key < 0) pop();
        else { P d = key_of<P, Tag>(x.key); q->emplace(id, x.dirt, d); m.push_back({d, x.dirt, id}); id++; }
        if (!look()) return;
    }
    pairing_queue<N> q1(std::move(q0));   // moving keeps the content
    q = &q1;
    if (!look()) return;
    if (drain) while (m.size()) { pop(); if (!look()) return; }
    g_stat["sequences"]++;
}
static void show_case(const std::vector<Step> &s, const char *t) {
    std::string r = t;
    for (auto &x : s) r += x.key == -2 ? " reset" : x.key < 0 ? " pop" : " push(" + std::to_string(x.key) + "," + std::to_string(x.dirt) + ")";
    snprintf(g_case, sizeof g_case, "%s", r.c_str());
}
static void all_types(const std::vector<Step> &s, int pops) {
    g_ticks++;
    show_case(s, "min-heap");
    play<int64_t, min_heap_tag>(s, true);
    if (pops >= 2) g_stat["interleaved"]++;
    show_case(s, "max-heap");
    play<int, max_heap_tag>(s, true);
}
static void queue(int keys, int len) {
    std::vector<Step> s;
    std::function<void(int, int, int)> rec = [&](int live, int pops, int resets) {
        if (g_nviol > 10) return;
        if ((int)s.size() == len) {
            if (leaf++ % nsh == sh) all_types(s, pops);
            return;
        }
        for (int k = 0; k < keys; k++) { s.push_back({k / 2, k % 2}); rec(live + 1, pops, resets); s.pop_back(); }
        if (live) { s.push_back({-1, 0}); rec(live - 1, pops + 1, resets); s.pop_back(); }
        if (live && !resets) { s.push_back({-2, 0}); rec(0, pops, 1); s.pop_back(); }
    };
    rec(0, 0, 0);
}
// all orders of n distinct priorities with all push/pop patterns
static void perm(int n) {
    std::vector<int> p(n);
    for (int i = 0; i < n; i++) p[i] = i;
    std::vector<std::vector<int>> pat;
    std::vector<int> cur;
    std::function<void(int, int)> rec = [&](int pushed, int live) {
        if (pushed == n) { pat.push_back(cur); return; }
        cur.push_back(1); rec(pushed + 1, live + 1); cur.pop_back();
        if (live) { cur.push_back(0); rec(pushed, live - 1); cur.pop_back(); }
    };
    rec(0, 0);
    do {
        if (leaf++ % nsh != sh) continue;
        for (auto &c : pat) {
            std::vector<Step> s;
            int k = 0, pops = 0;
            for (int x : c) if (x) { s.push_back({p[k] >= 3 ? 1 : p[k], p[k]}); k++; } else s.push_back({-1, 0}), pops++;
            g_ticks++;
            show_case(s, "min-heap");
            play<int64_t, min_heap_tag>(s, true);
            if (pops >= 2) g_stat["interleaved"]++;
            if (g_nviol > 10) return;
        }
    } while (std::next_permutation(p.begin(), p.end()));
}

// ------------------------------------------------------------------ components
struct Opened : public std::vector<std::pair<int, int>> {};
static void one_graph(int n, const std::vector<std::pair<int, int>> &E, const std::vector<int> &res, bool loops) {
    g_ticks++;
    {
        std::string s = std::to_string(n) + " nodes, edges";
        for (auto &e : E) s += " " + std::to_string(e.first) + "-" + std::to_string(e.second);
        s += ", reserved";
        for (int i = 0; i < n; i++) if (res[i]) s += " " + std::to_string(i);
        snprintf(g_case, sizeof g_case, "%s", s.c_str());
    }
    vector<int> A, B;
    graph::input_graph g;
    if (loops) for (auto &e : E) g.push_back(e.first, e.second);
    else {
        for (auto &e : E) A.push_back(e.first), B.push_back(e.second);
        g = graph::input_graph(n, A, B);
    }
    if ((int)g.num_nodes() != n || g.num_edges() != E.size()) return violation("the input graph has the wrong size");
    for (size_t i = 0; i < E.size(); i++) if (g.a(i) != E[i].first || g.b(i) != E[i].second) return violation("the input graph lost an edge");
    graph::components c(g, res);
    // reference components
    std::vector<int> id(n);
    for (int i = 0; i < n; i++) id[i] = i;
    for (bool ch = true; ch;) {
        ch = false;
        for (auto &e : E) { int m = std::min(id[e.first], id[e.second]); if (id[e.first] != m || id[e.second] != m) id[e.first] = id[e.second] = m, ch = true; }
    }
    std::map<int, std::set<int>> comps;
    for (int i = 0; i < n; i++) comps[id[i]].insert(i);
    if (c.size() != comps.size()) return violation("number of components is " + std::to_string(c.size()));
    std::vector<int> seen(n, 0);
    size_t last = 1000;
    g_stat["components"] += c.size();
    g_stat["evaluations"]++;
    if (c.size() > 1 && std::count(res.begin(), res.end(), 1)) g_stat["nontrivial"]++;
    size_t edges = 0;
    for (size_t k = 0; k < c.size(); k++) {
        auto nodes = c.nodes(k);
        std::set<int> s(nodes.begin(), nodes.end());
        if (s.size() != nodes.size()) return violation("a component repeats a node");
        if (nodes.empty() || comps[id[nodes[0]]] != s) return violation("a component is not a connected component");
        for (int x : nodes) if (seen[x]++) return violation("a node is in two components");
        if (nodes.size() > last) return violation("components are not in order of decreasing size");
        last = nodes.size();
        size_t nr = 0;
        for (int x : nodes) nr += res[x];
        if (c.num_reserved(k) != nr) return violation("number of reserved nodes is wrong");
        for (size_t i = 0; i < nodes.size(); i++) if ((res[nodes[i]] != 0) != (i >= nodes.size() - nr)) return violation("reserved nodes are not last");
        auto &cg = c.component_graph(k);
        bool hasedge = false;
        std::multiset<std::pair<int, int>> want, got;
        for (auto &e : E) if (s.count(e.first)) want.insert(std::minmax(e.first, e.second)), hasedge = true;
        for (size_t i = 0; i < cg.num_edges(); i++) {
            if (cg.a(i) < 0 || cg.b(i) < 0 || cg.a(i) >= (int)nodes.size() || cg.b(i) >= (int)nodes.size()) return violation("an edge of a component leaves it");
            got.insert(std::minmax(nodes[cg.a(i)], nodes[cg.b(i)]));
        }
        if (want != got) return violation("the edges of a component are not those of the graph");
        edges += cg.num_edges();
        // translations
        std::vector<int> all(nodes.size()), back, fwd;
        for (size_t i = 0; i < all.size(); i++) all[i] = i;
        c.from_component(k, all, back);
        if (back != std::vector<int>(nodes.begin(), nodes.end())) return violation("from_component disagrees with nodes()");
        if (!c.into_component(k, back, fwd) || fwd != all) return violation("into_component does not invert from_component");
        for (int x = -1; x <= n; x++) {
            std::vector<int> in{x}, out;
            bool inside = s.count(x);
            if (c.into_component(k, in, out) != inside) return violation("into_component is wrong about node " + std::to_string(x));
            if (s.size()) {
                std::vector<int> in2{nodes[0], x}, out2;
                if (c.into_component(k, in2, out2) != inside) return violation("into_component is wrong about a list with node " + std::to_string(x));
            }
        }
        if (!hasedge) continue;   // an isolated node without a self-loop has no component graph
        if (c.size(k) != nodes.size()) return violation("size of a component is wrong");
        auto nb = c.component_neighbors(k);
        if (nb.size() != nodes.size()) return violation("component_neighbors has the wrong length");
        for (size_t i = 0; i < nodes.size(); i++) {
            std::set<int> w, x(nb[i].begin(), nb[i].end());
            if (x.size() != nb[i].size()) return violation("a neighbour list has duplicates");
            for (auto &e : E) {
                int o = e.first == nodes[i] ? e.second : e.second == nodes[i] ? e.first : -1;
                if (o >= 0 && o != nodes[i] && !res[o]) w.insert(std::find(nodes.begin(), nodes.end(), o) - nodes.begin());
            }
            if (w != x) return violation("neighbours of node " + std::to_string(nodes[i]) + " in its component are wrong");
        }
    }
    if (edges != E.size()) return violation("edges were lost");
    // plain, source and sink neighbour lists of the graph, with a relabeling
    std::vector<int> rel(n);
    for (int i = 0; i < n; i++) rel[i] = (i + 1) % n;
    auto check = [&](const char *what, const std::vector<std::vector<int>> &nb, int mode, bool relabeled) {
        if ((int)nb.size() != n) return violation(std::string(what) + ": wrong length");
        for (int i = 0; i < n; i++) {
            std::set<int> w;
            for (auto &e : E)
                for (int f = 0; f < 2; f++) {
                    int a = f ? e.second : e.first, b = f ? e.first : e.second;
                    if (a != i || b == i) continue;
                    if (mode == 1 && res[b]) continue;
                    if (mode == 2 && res[a]) continue;
                    w.insert(relabeled ? rel[b] : b);
                }
            auto &v = nb[relabeled ? rel[i] : i];
            std::set<int> x(v.begin(), v.end());
            if (x.size() != v.size() || x != w) return violation(std::string(what) + ": neighbours of " + std::to_string(i) + " are wrong");
        }
    };
    check("get_neighbors", g.get_neighbors(), 0, false);
    check("get_neighbors_sources", g.get_neighbors_sources(res), 1, false);
    check("get_neighbors_sinks", g.get_neighbors_sinks(res), 2, false);
    check("get_neighbors, relabeled", g.get_neighbors(rel), 0, true);
    check("get_neighbors_sources, relabeled", g.get_neighbors_sources(res, rel), 1, true);
    check("get_neighbors_sinks, relabeled", g.get_neighbors_sinks(res, rel), 2, true);
    // filtered to one component
    std::vector<int> mask(n);
    for (int i = 0; i < n; i++) mask[i] = id[i] == id[0];
    auto nb = g.get_neighbors(rel, mask), full = g.get_neighbors(rel);
    for (int i = 0; i < n; i++) if (nb[rel[i]] != (mask[i] ? full[rel[i]] : std::vector<int>())) return violation("masked neighbours of " + std::to_string(i) + " are wrong");
}
static void comps(int n) {
    std::vector<std::pair<int, int>> pairs;
    for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) pairs.push_back({a, b});
    for (long m = 0; m < 1L << pairs.size(); m++) {
        if (leaf++ % nsh != sh) continue;
        for (int v = 0; v < 4; v++) {   // presentation: plain; reversed ends; doubled; rotated order, self-loops at every node as the callers do
            std::vector<std::pair<int, int>> E;
            for (size_t i = 0; i < pairs.size(); i++)
                if (m >> i & 1) {
                    auto e = pairs[i];
                    if (v == 1 || (v == 2 && i % 2) || (v == 3 && i % 3 == 1)) std::swap(e.first, e.second);
                    E.push_back(e);
                    if (v == 2 && i % 2) E.push_back({e.second, e.first});
                }
            if (v == 1) std::reverse(E.begin(), E.end());
            if (v == 3 && E.size()) std::rotate(E.begin(), E.begin() + E.size() / 2, E.end());
            if (v >= 2) for (int i = 0; i < n; i++) E.push_back({i, i});
            for (int r = 0; r < 1 << n; r++) {
                if ((n >= 6 && v != 3 && __builtin_popcount(r) > 1) || (n >= 7 && (v != 3 || __builtin_popcount(r) > 1))) continue;
                std::vector<int> res(n);
                for (int i = 0; i < n; i++) res[i] = r >> i & 1;
                one_graph(n, E, res, v >= 2);
                if (g_nviol > 10) return;
            }
        }
    }
}

// deep union-find trees: blocks merged pairwise level by level, every choice of the joined nodes in the last two levels
static void tournament(int n) {
    std::vector<std::pair<int, int>> E;
    int vary = n / 4;
    std::function<void(int, int)> rec = [&](int size, int at) {
        if (size >= n) {
            for (int v = 0; v < 4; v++) {
                if (leaf++ % nsh != sh) continue;
                auto F = E;
                if (v & 1) std::reverse(F.begin(), F.end());
                if (v & 2) for (auto &e : F) e = {n - 1 - e.second, n - 1 - e.first};
                for (int i = 0; i < n; i++) F.push_back({i, i});
                std::vector<int> res(n, 0);
                res[leaf % n] = 1;
                one_graph(n, F, res, true);
                auto G = F;   // two components: the last join is left out
                G.erase(G.begin() + (v & 1 ? 0 : n - 2));
                one_graph(n, G, res, true);
            }
            return;
        }
        if (at >= n) return rec(size * 2, 0);
        int c = size >= vary ? size : 1;
        for (int a = 0; a < c; a++)
            for (int b = 0; b < c; b++) {
                if (g_nviol > 10) return;
                E.push_back({at + (size >= vary ? a : 0), at + size + (size >= vary ? b : (size - 1))});
                rec(size, at + 2 * size);
                E.pop_back();
            }
    };
    rec(1, 0);
}

int main(int argc, char **argv) {
    if (argc < 5) return 2;
    std::string m = argv[1];
    nsh = atol(argv[argc - 2]);
    sh = atol(argv[argc - 1]);
    install_guards();
    if (m == "queue") queue(atoi(argv[2]), atoi(argv[3]));
    else if (m == "perm") perm(atoi(argv[2]));
    else if (m == "tournament") tournament(atoi(argv[2]));
    else comps(atoi(argv[2]));
    printf("SAMPLE %s %s: last case %s\n", argv[1], argv[2], g_case);
    print_stats();
    return 0;
}
