// Reference model: minimum cycle bases by independent algorithms, cycle/basis predicates.
#pragma once
#include "wgraph.hpp"
#include <map>
#include <unordered_map>

namespace vf {

// GF(2) eliminator over m coordinates (dynamic)
struct Elim {
    int m, words;
    std::vector<std::vector<uint64_t>> rows; // by pivot
    std::vector<int> rowOfPivot;
    int rank = 0;
    explicit Elim(int m) : m(m), words((m + 63) / 64), rowOfPivot(m, -1) {}
    // true if independent (and inserted)
    bool insert(std::vector<uint64_t> v) {
        for (int w = 0; w < words; w++) {
            while (v[w]) {
                int b = w * 64 + __builtin_ctzll(v[w]);
                if (rowOfPivot[b] < 0) { rowOfPivot[b] = (int) rows.size(); rows.push_back(v); rank++; return true; }
                auto &r = rows[rowOfPivot[b]];
                for (int k = w; k < words; k++) v[k] ^= r[k];
            }
        }
        return false;
    }
    bool insert(const std::vector<int> &edges) {
        std::vector<uint64_t> v(std::max(words, 1), 0);
        for (int e : edges) v[e >> 6] ^= 1ULL << (e & 63);
        return insert(v);
    }
};
struct Elim64 {
    uint64_t piv[64]; uint64_t used = 0; int rank = 0;
    bool insert(uint64_t v) {
        while (v) {
            int b = __builtin_ctzll(v);
            if (!(used >> b & 1)) { piv[b] = v; used |= 1ULL << b; rank++; return true; }
            v ^= piv[b];
        }
        return false;
    }
};

// "" if `c` (edge ids) is one simple cycle of g, else the reason
inline std::string simple_cycle_error(const WGraph &g, const std::vector<int> &c) {
    if (c.empty()) return "empty cycle";
    std::vector<int> ids(c);
    std::sort(ids.begin(), ids.end());
    for (size_t i = 0; i < ids.size(); i++) {
        if (ids[i] < 0 || ids[i] >= g.m()) return "edge that is not an edge of the input graph";
        if (i && ids[i] == ids[i - 1]) return "repeated edge in cycle";
    }
    static thread_local std::vector<int> deg, p;
    deg.assign(g.n, 0); p.resize(g.n);
    for (int id : c) { int u = g.e[id].u, v = g.e[id].v; p[u] = u; p[v] = v; deg[u]++; deg[v]++; }
    auto f = [&](int x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; };
    int verts = 0, comps;
    for (int x = 0; x < g.n; x++) if (deg[x]) { verts++; if (deg[x] != 2) return "vertex of degree " + std::to_string(deg[x]) + " in cycle"; }
    comps = verts;
    for (int id : c) { int a = f(g.e[id].u), b = f(g.e[id].v); if (a != b) { p[a] = b; comps--; } }
    if (comps != 1) return "cycle is not connected (several disjoint cycles)";
    return "";
}

// all simple cycles as bitmasks (m<=64), by DFS from smallest vertex
inline void all_cycles(const WGraph &g, std::vector<uint64_t> &out) {
    std::vector<std::vector<std::pair<int,int>>> adj(g.n);
    for (int i = 0; i < g.m(); i++) { adj[g.e[i].u].push_back({g.e[i].v, i}); adj[g.e[i].v].push_back({g.e[i].u, i}); }
    std::vector<char> on(g.n, 0);
    int s, first;
    std::function<void(int, uint64_t, int)> dfs = [&](int x, uint64_t mask, int len) {
        for (auto &pr : adj[x]) {
            int y = pr.first;
            if (y == s) { if (len >= 2 && pr.second > first) out.push_back(mask | 1ULL << pr.second); continue; }
            if (y < s || on[y]) continue;
            on[y] = 1;
            dfs(y, mask | 1ULL << pr.second, len + 1);
            on[y] = 0;
        }
    };
    // each cycle found from its smallest vertex, in the direction whose first edge id < closing edge id
    for (s = 0; s < g.n; s++) {
        on[s] = 1;
        for (auto &pr : adj[s]) {
            if (pr.first < s) continue;
            first = pr.second;
            on[pr.first] = 1;
            dfs(pr.first, 1ULL << first, 1);
            on[pr.first] = 0;
        }
        on[s] = 0;
    }
}

template<class T> struct Mcb { T weight = T(); int dim = 0; std::vector<T> sorted; };

template<class T> inline T conv(double w) { return (T) w; }

// Exhaustive oracle: greedy (matroid) over ALL simple cycles.  Topology cache makes re-weighting cheap.
struct BruteOracle {
    uint64_t key = 0; bool have = false;
    std::vector<uint64_t> cyc;
    void prepare(const WGraph &g) {
        uint64_t h = mix(99, g.n);
        for (auto &e : g.e) h = mix(h, ((uint64_t) e.u << 32) | (uint32_t) e.v);
        if (have && h == key) return;
        key = h; have = true; cyc.clear();
        all_cycles(g, cyc);
    }
    template<class T> Mcb<T> mcb(const WGraph &g) {
        prepare(g);
        std::vector<std::pair<T, uint64_t>> a;
        a.reserve(cyc.size());
        for (uint64_t c : cyc) {
            T w = T();
            for (uint64_t x = c; x; x &= x - 1) w += conv<T>(g.e[__builtin_ctzll(x)].w);
            a.push_back({w, c});
        }
        std::sort(a.begin(), a.end());
        Mcb<T> r; r.dim = dim(g);
        Elim64 el;
        for (auto &p : a) {
            if (el.rank == r.dim) break;
            if (el.insert(p.second)) { r.weight += p.first; r.sorted.push_back(p.first); }
        }
        if (el.rank != r.dim) { fprintf(stderr, "oracle error: rank\n"); abort(); }
        return r;
    }
};

// Polynomial oracle: Horton with lexicographic perturbation (w, hash-weight) so that shortest
// paths are unique; all (vertex, edge) candidates, greedy GF(2).
struct HortonOracle {
    template<class T> static Mcb<T> mcb(const WGraph &g) {
        struct D { T w; unsigned __int128 p; bool operator<(const D &o) const { return w < o.w || (w == o.w && p < o.p); } };
        int n = g.n, m = g.m();
        std::vector<T> w(m); std::vector<unsigned __int128> pw(m);
        for (int i = 0; i < m; i++) {
            w[i] = conv<T>(g.e[i].w);
            pw[i] = (unsigned __int128) mix(mix(7, i), 31) << 16 | (mix(mix(13, i), 5) & 0xffff);
        }
        std::vector<std::vector<std::pair<int,int>>> adj(n);
        for (int i = 0; i < m; i++) { adj[g.e[i].u].push_back({g.e[i].v, i}); adj[g.e[i].v].push_back({g.e[i].u, i}); }
        struct C { T w; int root, e; };
        std::vector<C> cands;
        std::vector<std::vector<int>> pred(n, std::vector<int>(n, -1));
        for (int s = 0; s < n; s++) {
            std::vector<D> d(n); std::vector<char> st(n, 0); // 0 none 1 seen 2 done
            std::vector<int> first(n, -1);
            d[s] = D{T(), 0}; st[s] = 1;
            // heap-free when small, priority queue otherwise
            std::vector<std::pair<D,int>> heap; auto cmp = [](const std::pair<D,int> &a, const std::pair<D,int> &b) { return b.first < a.first; };
            heap.push_back({d[s], s});
            while (!heap.empty()) {
                std::pop_heap(heap.begin(), heap.end(), cmp); auto t = heap.back(); heap.pop_back();
                int x = t.second; if (st[x] == 2) continue; st[x] = 2;
                for (auto &pr : adj[x]) {
                    int y = pr.first; if (st[y] == 2) continue;
                    D nd{d[x].w + w[pr.second], d[x].p + pw[pr.second]};
                    if (!st[y] || nd < d[y]) {
                        d[y] = nd; st[y] = 1; pred[s][y] = pr.second; first[y] = x == s ? y : first[x];
                        heap.push_back({nd, y}); std::push_heap(heap.begin(), heap.end(), cmp);
                    }
                }
            }
            for (int i = 0; i < m; i++) {
                int u = g.e[i].u, v = g.e[i].v;
                if (st[u] != 2 || st[v] != 2) continue;
                if (pred[s][u] == i || pred[s][v] == i) continue;
                if (u != s && v != s && first[u] == first[v]) continue;
                cands.push_back(C{d[u].w + d[v].w + w[i], s, i});
            }
        }
        std::stable_sort(cands.begin(), cands.end(), [](const C &a, const C &b) { return a.w < b.w; });
        Mcb<T> r; r.dim = dim(g);
        Elim el(m);
        for (auto &c : cands) {
            if (el.rank == r.dim) break;
            std::vector<uint64_t> v(std::max(el.words, 1), 0);
            v[c.e >> 6] ^= 1ULL << (c.e & 63);
            for (int x : {g.e[c.e].u, g.e[c.e].v}) while (x != c.root) {
                int pe = pred[c.root][x]; v[pe >> 6] ^= 1ULL << (pe & 63);
                x = g.e[pe].u == x ? g.e[pe].v : g.e[pe].u;
            }
            if (el.insert(v)) { r.weight += c.w; r.sorted.push_back(c.w); }
        }
        if (el.rank != r.dim) { fprintf(stderr, "oracle error: horton rank\n"); abort(); }
        return r;
    }
};

// picks the exhaustive oracle when it is cheap
struct Oracle {
    BruteOracle brute;
    template<class T> Mcb<T> mcb(const WGraph &g) {
        if (g.m() <= 64 && (g.n <= 6 || dim(g) <= 9)) return brute.mcb<T>(g);
        return HortonOracle::mcb<T>(g);
    }
};

} // namespace vf
