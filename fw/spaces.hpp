// Input state spaces: exhaustive and structured generators of presentations.
#pragma once
#include "wgraph.hpp"
#include "oracle.hpp"
#include <set>
#include <map>

namespace vf {

typedef std::function<void(const WGraph&)> EmitG;

// every labelled simple graph on n vertices with every assignment of weights from W;
// edges inserted in lexicographic pair order
inline void labelled(int n, const std::vector<double> &W, const EmitG &emit) {
    std::vector<std::pair<int,int>> pr;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) pr.push_back({i, j});
    int K = (int) pr.size();
    std::vector<int> d(K, 0);
    WGraph g; g.n = n;
    while (true) {
        g.e.clear();
        for (int i = 0; i < K; i++) if (d[i]) g.add(pr[i].first, pr[i].second, W[d[i] - 1]);
        emit(g);
        int i = 0;
        while (i < K && d[i] == (int) W.size()) d[i++] = 0;
        if (i == K) break;
        d[i]++;
    }
}
// every assignment of weights from W to the edges of a fixed graph
inline void weightings(const WGraph &g0, const std::vector<double> &W, const EmitG &emit) {
    WGraph g = g0;
    std::vector<int> d(g.m(), 0);
    while (true) {
        for (int i = 0; i < g.m(); i++) g.e[i].w = W[d[i]];
        emit(g);
        int i = 0;
        while (i < g.m() && d[i] == (int) W.size() - 1) d[i++] = 0;
        if (i == g.m()) break;
        d[i]++;
    }
}

// non-isomorphic graphs on exactly n vertices (unit weights), canonical by exhaustive refinement
struct NonIso {
    typedef std::vector<uint32_t> Adj; // adjacency bitmasks
    static std::vector<uint64_t> canon(const Adj &a) {
        int n = (int) a.size();
        // vertex invariant: degree, sorted neighbour degrees, triangles
        std::vector<std::vector<int>> inv(n);
        std::vector<int> col(n);
        for (int i = 0; i < n; i++) col[i] = __builtin_popcount(a[i]);
        for (int it = 0; it < 3; it++) {
            std::map<std::vector<int>, int> id;
            for (int i = 0; i < n; i++) {
                std::vector<int> s; for (int j = 0; j < n; j++) if (a[i] >> j & 1) s.push_back(col[j]);
                std::sort(s.begin(), s.end());
                int tri = 0; for (int j = 0; j < n; j++) if (a[i] >> j & 1) tri += __builtin_popcount(a[i] & a[j]);
                s.push_back(tri); s.insert(s.begin(), col[i]);
                inv[i] = s; id[s] = 0;
            }
            int k = 0; for (auto &p : id) p.second = k++;
            for (int i = 0; i < n; i++) col[i] = id[inv[i]];
        }
        std::vector<int> ord(n); std::iota(ord.begin(), ord.end(), 0);
        std::sort(ord.begin(), ord.end(), [&](int x, int y) { return col[x] < col[y]; });
        std::vector<int> slotcol(n); for (int i = 0; i < n; i++) slotcol[i] = col[ord[i]];
        // branch and bound: choose vertex for position 0.., key = rows of lower triangle, minimise lexicographically
        std::vector<uint32_t> best, cur; bool hb = false;
        std::vector<int> perm; std::vector<char> used(n, 0);
        std::function<void(int, int)> rec = [&](int pos, int state) { // state 0: equal to best so far, -1: already smaller
            if (pos == n) { if (!hb || state < 0) { best = cur; hb = true; } return; }
            for (int v = 0; v < n; v++) if (!used[v] && col[v] == slotcol[pos]) {
                uint32_t row = 0; for (int j = 0; j < pos; j++) if (a[v] >> perm[j] & 1) row |= 1u << j;
                int st = state;
                if (hb && st == 0) { if (row > best[pos]) continue; if (row < best[pos]) st = -1; }
                if (!hb) st = -1;
                used[v] = 1; perm.push_back(v); cur.push_back(row);
                rec(pos + 1, st);
                used[v] = 0; perm.pop_back(); cur.pop_back();
                if (hb && state < 0) { // best may have been updated to share our prefix
                    bool eq = true; for (int j = 0; j < pos && eq; j++) eq = cur[j] == best[j];
                    if (eq) state = 0;
                }
            }
        };
        rec(0, 0);
        std::vector<uint64_t> key; for (int i = 0; i < n; i++) key.push_back(((uint64_t) slotcol[i] << 32) | best[i]);
        return key;
    }
    static std::vector<Adj> generate(int n) {
        std::vector<Adj> cur{Adj{}};
        for (int k = 1; k <= n; k++) {
            std::set<std::vector<uint64_t>> seen; std::vector<Adj> nxt;
            for (auto &a : cur) for (uint32_t s = 0; s < (1u << (k - 1)); s++) {
                Adj b = a; b.push_back(s);
                for (int j = 0; j < k - 1; j++) if (s >> j & 1) b[j] |= 1u << (k - 1);
                if (seen.insert(canon(b)).second) nxt.push_back(b);
            }
            cur.swap(nxt);
        }
        return cur;
    }
    static WGraph graph(const Adj &a) {
        WGraph g; g.n = (int) a.size();
        for (int i = 0; i < g.n; i++) for (int j = i + 1; j < g.n; j++) if (a[i] >> j & 1) g.add(i, j, 1);
        return g;
    }
};
inline std::vector<WGraph> noniso(int n) {
    std::vector<WGraph> r;
    for (auto &a : NonIso::generate(n)) r.push_back(NonIso::graph(a));
    return r;
}

// ---- structured families ------------------------------------------------------------
namespace fam {
inline WGraph complete(int n) { WGraph g; g.n = n; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) g.add(i, j); return g; }
inline WGraph bipartite(int a, int b) { WGraph g; g.n = a + b; for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) g.add(i, a + j); return g; }
inline WGraph cycle(int n) { WGraph g; g.n = n; for (int i = 0; i < n; i++) g.add(i, (i + 1) % n); return g; }
inline WGraph path(int n) { WGraph g; g.n = n; for (int i = 0; i + 1 < n; i++) g.add(i, i + 1); return g; }
inline WGraph star(int n) { WGraph g; g.n = n; for (int i = 1; i < n; i++) g.add(0, i); return g; }
inline WGraph grid(int a, int b) { WGraph g; g.n = a * b; for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) { if (j + 1 < b) g.add(i * b + j, i * b + j + 1); if (i + 1 < a) g.add(i * b + j, (i + 1) * b + j); } return g; }
inline WGraph torus(int a, int b) { WGraph g; g.n = a * b; for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) { g.add(i * b + j, i * b + (j + 1) % b); g.add(i * b + j, ((i + 1) % a) * b + j); } return g; }
inline WGraph hypercube(int d) { WGraph g; g.n = 1 << d; for (int i = 0; i < g.n; i++) for (int b = 0; b < d; b++) if (!(i >> b & 1)) g.add(i, i | 1 << b); return g; }
inline WGraph wheel(int n) { WGraph g = cycle(n); g.n = n + 1; for (int i = 0; i < n; i++) g.add(n, i); return g; }
inline WGraph prism(int n) { WGraph g; g.n = 2 * n; for (int i = 0; i < n; i++) { g.add(i, (i + 1) % n); g.add(n + i, n + (i + 1) % n); g.add(i, n + i); } return g; }
inline WGraph moebius(int n) { WGraph g = cycle(2 * n); for (int i = 0; i < n; i++) g.add(i, i + n); return g; }
inline WGraph gpetersen(int n, int k) { WGraph g; g.n = 2 * n; for (int i = 0; i < n; i++) { g.add(i, (i + 1) % n); g.add(i, n + i); } std::set<std::pair<int,int>> s; for (int i = 0; i < n; i++) { int a = n + i, b = n + (i + k) % n; if (s.insert({std::min(a, b), std::max(a, b)}).second) g.add(a, b); } return g; }
inline WGraph circulant(int n, std::vector<int> js) { WGraph g; g.n = n; std::set<std::pair<int,int>> s; for (int j : js) for (int i = 0; i < n; i++) { int a = i, b = (i + j) % n; if (a != b && s.insert({std::min(a, b), std::max(a, b)}).second) g.add(a, b); } return g; }
inline WGraph theta(int a, int b, int c) { // three internally disjoint paths of a,b,c edges between 0 and 1
    WGraph g; g.n = 2;
    for (int L : {a, b, c}) { int prev = 0; for (int i = 1; i < L; i++) { int x = g.n++; g.add(prev, x); prev = x; } g.add(prev, 1); }
    return g;
}
inline WGraph join(const WGraph &a, const WGraph &b) { WGraph g = a; for (auto &e : b.e) g.add(e.u + a.n, e.v + a.n, e.w); g.n += b.n; return g; }
inline WGraph isolated(WGraph g, int k) { g.n += k; return g; }
inline WGraph isolated_front(const WGraph &a, int k) { WGraph g; g.n = a.n + k; for (auto &e : a.e) g.add(e.u + k, e.v + k, e.w); return g; }
inline WGraph bridged(const WGraph &a, const WGraph &b, double w = 3) { WGraph g = join(a, b); g.add(0, a.n, w); return g; }
inline WGraph shared(const WGraph &a, const WGraph &b) { // share vertex 0
    WGraph g = a; for (auto &e : b.e) g.add(e.u ? e.u - 1 + a.n : 0, e.v ? e.v - 1 + a.n : 0, e.w); g.n += b.n - 1; return g; }
inline WGraph pendant(WGraph g, int len) { int prev = g.n / 2; for (int i = 0; i < len; i++) { int x = g.n++; g.add(prev, x, 2); prev = x; } return g; }
// tree + t chords at fixed stride
inline WGraph binary_tree(int n) { WGraph g; g.n = n; for (int i = 1; i < n; i++) g.add((i - 1) / 2, i); return g; }

inline WGraph reweight(WGraph g, int mode) {
    for (int i = 0; i < g.m(); i++) {
        auto &e = g.e[i];
        switch (mode) {
        case 0: e.w = 1; break;
        case 1: e.w = 1 + i % 3; break;
        case 2: e.w = 1 + i; break;                                 // all distinct, ascending
        case 3: e.w = g.m() - i; break;                             // distinct, descending
        case 4: e.w = 1 + (mix(mix(3, e.u), e.v) & 3); break;       // scattered ties
        case 5: e.w = 1 + (mix(mix(5, e.u), e.v) % 1000); break;    // scattered, mostly distinct
        case 6: e.w = 1 + (i & 1) * 0.5; break;                     // dyadic
        case 7: e.w = (i % 5 == 0) ? 1000000.0 : 1 + i % 2; break;  // mixed magnitude
        case 8: e.w = 1 + ((mix(mix(9, e.u), e.v) & 1) ? std::ldexp(1.0, -30) : 0); break; // near ties
        case 9: e.w = 1.0 + std::abs(e.u - e.v); break;             // metric-like, many ties between path sums
        }
    }
    return g;
}
} // namespace fam

// renumber vertices by pi (new label of old v = pi[v])
inline WGraph relabel(const WGraph &a, const std::vector<int> &pi) { WGraph g; g.n = a.n; for (auto &e : a.e) g.add(pi[e.u], pi[e.v], e.w); return g; }
inline WGraph reversed_edges(const WGraph &a) { WGraph g = a; std::reverse(g.e.begin(), g.e.end()); return g; }
inline WGraph flipped(const WGraph &a, int mode) { WGraph g = a; for (int i = 0; i < g.m(); i++) if (mode == 0 || (mode == 1 && i % 2 == 0)) std::swap(g.e[i].u, g.e[i].v); return g; }
inline std::vector<int> reversal(int n) { std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = n - 1 - i; return p; }
inline std::vector<int> stridep(int n, int s) { std::vector<int> p(n); if (n <= 2) return reversal(n); while (std::__gcd(n, s) != 1) s++; for (int i = 0; i < n; i++) p[i] = (int) ((long long) i * s % n); return p; }
inline WGraph permute_edges(const WGraph &a, const std::vector<int> &pi) { WGraph g; g.n = a.n; g.e.resize(a.m()); for (int i = 0; i < a.m(); i++) g.e[pi[i]] = a.e[i]; return g; }

// fixed structured corpus.  level 0: small/medium, 1: bigger, 2: large
inline std::vector<std::pair<std::string, WGraph>> corpus(int level) {
    using namespace fam;
    std::vector<std::pair<std::string, WGraph>> r;
    auto add = [&](std::string s, const WGraph &g) { r.push_back({s, g}); };
    if (level == 0) {
        add("empty", WGraph());
        for (int n : {1, 2, 9}) { WGraph g; g.n = n; add("iso" + std::to_string(n), g); }
        for (int n : {7, 8, 9}) add("K" + std::to_string(n), complete(n));
        for (int a = 2; a <= 5; a++) for (int b = a; b <= 5; b++) add("K" + std::to_string(a) + "," + std::to_string(b), bipartite(a, b));
        for (int n : {3, 4, 7, 12, 33}) add("C" + std::to_string(n), cycle(n));
        add("path20", path(20)); add("star20", star(20)); add("bintree31", binary_tree(31));
        for (int n : {4, 5, 6, 9}) add("wheel" + std::to_string(n), wheel(n));
        for (int n : {3, 4, 5, 6}) { add("prism" + std::to_string(n), prism(n)); add("moebius" + std::to_string(n), moebius(n)); }
        add("petersen", gpetersen(5, 2)); add("gp7_2", gpetersen(7, 2)); add("gp8_3", gpetersen(8, 3)); add("desargues", gpetersen(10, 3));
        for (int a = 2; a <= 4; a++) for (int b = a; b <= 5; b++) add("grid", grid(a, b));
        add("torus33", torus(3, 3)); add("torus34", torus(3, 4)); add("torus44", torus(4, 4));
        add("Q3", hypercube(3)); add("Q4", hypercube(4));
        for (auto t : {std::vector<int>{1, 2, 2}, {2, 2, 2}, {2, 2, 3}, {1, 3, 3}, {2, 3, 4}, {3, 3, 3}, {1, 4, 5}, {4, 4, 4}}) add("theta", theta(t[0], t[1], t[2]));
        add("circ8_12", circulant(8, {1, 2})); add("circ9_124", circulant(9, {1, 2, 4})); add("circ11_13", circulant(11, {1, 3})); add("circ13_15", circulant(13, {1, 5}));
        add("K4+K4", join(complete(4), complete(4))); add("K4.K5", shared(complete(4), complete(5))); add("K4-K4", bridged(complete(4), complete(4)));
        add("K5+C5+iso", isolated(join(complete(5), cycle(5)), 3)); add("iso+K5+path", join(isolated_front(complete(5), 3), path(4)));
        add("3C4", join(join(cycle(4), cycle(4)), cycle(4))); add("pendQ3", pendant(hypercube(3), 4)); add("forest", join(path(5), join(star(6), binary_tree(7))));
        add("P+tree", join(gpetersen(5, 2), binary_tree(7)));
    } else if (level == 1) {
        add("K12", complete(12)); add("K14", complete(14)); add("K6,6", bipartite(6, 6)); add("K4,9", bipartite(4, 9));
        add("grid7x7", grid(7, 7)); add("grid3x24", grid(3, 24)); add("torus5x5", torus(5, 5)); add("torus6x7", torus(6, 7));
        add("Q5", hypercube(5)); add("wheel40", wheel(40)); add("prism36", prism(36)); add("moebius33", moebius(33)); add("gp24_5", gpetersen(24, 5));
        add("circ40", circulant(40, {1, 6})); add("circ67", circulant(67, {1, 2})); add("C300", cycle(300)); add("path300", path(300)); add("bintree255", binary_tree(255));
        WGraph t = binary_tree(63); for (int i = 31; i + 1 < 63; i += 2) t.add(i, i + 1, 1); add("leafcycles63", t);
        WGraph u; for (int i = 0; i < 12; i++) u = join(u, cycle(3 + i % 4)); add("12cycles", u);
        WGraph v; for (int i = 0; i < 8; i++) v = join(v, complete(4)); add("8K4", v); add("iso70+K5", isolated_front(complete(5), 70));
        add("theta20", theta(20, 21, 22)); add("pendK9", pendant(complete(9), 60));
    } else {
        add("Q6", hypercube(6)); add("Q7", hypercube(7)); add("grid16x17", grid(16, 17)); add("K24", complete(24)); add("torus12x12", torus(12, 12)); add("circ130", circulant(130, {1, 11})); add("gp140_3", gpetersen(140, 3)); add("K30", complete(30));
        add("K10,12", bipartite(10, 12)); add("wheel270", wheel(270)); add("prism150", prism(150));
    }
    return r;
}

} // namespace vf
