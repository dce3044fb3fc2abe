// The input state spaces shared by the graph checks.
#pragma once
#include "runner.hpp"
#include "spaces.hpp"

namespace vf {

struct InputSpaces {
    std::vector<WGraph> n6, n7, n8;   // non-isomorphic representatives
    std::vector<std::pair<std::string, WGraph>> c0, c1, c2;
    void prepare(int maxn) {
        if (maxn >= 6) n6 = noniso(6);
        if (maxn >= 7) n7 = noniso(7);
        if (maxn >= 8) n8 = noniso(8);
        c0 = corpus(0); c1 = corpus(1); c2 = corpus(2);
    }
    static void both(Worker &w, const WGraph &g) {
        Case c; c.g = g;
        c.ptr = 'a'; w.visit(c, std::max(1, g.m()));
        if (g.m() > 1) { c.ptr = 'd'; w.visit(c, 1); }
    }
    // all labelled graphs up to n vertices
    static void small(Worker &w, int n, const std::vector<double> &W) {
        char b[64]; snprintf(b, sizeof b, "labelled n=%d |W|=%zu", n, W.size()); w.space(b);
        labelled(n, W, [&](const WGraph &g) { both(w, g); });
    }
    void classes(Worker &w, const std::vector<WGraph> &reps, const std::vector<double> &W, const char *name, int maxm = 99) {
        w.space(name);
        for (auto &r : reps) {
            if (r.m() > maxm) continue;
            weightings(r, W, [&](const WGraph &g) { both(w, g); });
        }
    }
    // all insertion orders x all address orders (small m)
    static void presentations(Worker &w, int n, const std::vector<double> &W, int maxm_perm, int maxm_both) {
        char b[64]; snprintf(b, sizeof b, "presentations n=%d |W|=%zu", n, W.size()); w.space(b);
        labelled(n, W, [&](const WGraph &g) {
            int m = g.m(); if (m < 2 || m > maxm_perm) return;
            std::vector<int> pi(m); std::iota(pi.begin(), pi.end(), 0);
            do {
                Case c; c.g = g; c.ptr = 'p'; c.perm = pi;      // address order
                w.visit(c);
                Case d; d.g = permute_edges(g, pi); d.ptr = 'a'; // insertion order
                w.visit(d);
                if (m <= maxm_both) {
                    std::vector<int> po(m); std::iota(po.begin(), po.end(), 0);
                    do { Case f; f.g = d.g; f.ptr = 'p'; f.perm = po; w.visit(f); } while (std::next_permutation(po.begin(), po.end()));
                }
            } while (std::next_permutation(pi.begin(), pi.end()));
            for (int mask = 1; mask < (1 << m); mask++) {          // stored orientations
                Case c; c.g = g; for (int i = 0; i < m; i++) if (mask >> i & 1) std::swap(c.g.e[i].u, c.g.e[i].v);
                w.visit(c);
            }
        });
    }
    // structured corpus x weight patterns x a few presentations
    static void corpus_space(Worker &w, const std::vector<std::pair<std::string, WGraph>> &cs, const std::vector<int> &modes, const char *name, int maxm = 1 << 30, bool allpres = true) {
        w.space(name);
        for (auto &p : cs) {
            if (p.second.m() > maxm) continue;
            for (int mode : modes) {
                WGraph g = fam::reweight(p.second, mode);
                both(w, g);
                if (!allpres) continue;
                both(w, relabel(g, reversal(g.n)));
                both(w, relabel(g, stridep(g.n, std::max(2, g.n / 3))));
                both(w, flipped(reversed_edges(g), 1));
                if (g.m() > 2) both(w, permute_edges(g, stridep(g.m(), std::max(2, g.m() / 3 + 1))));
            }
        }
    }
};

} // namespace vf
