// Oracles that judge the output of a minimum-cycle-basis entry point.
#pragma once
#include "wgraph.hpp"
#include "oracle.hpp"
#include "built.hpp"

namespace vf {

inline std::string show(const std::vector<std::vector<int>> &cs, size_t lim = 8) {
    std::string s;
    for (size_t i = 0; i < cs.size() && i < lim; i++) { s += '['; for (size_t j = 0; j < cs[i].size(); j++) { if (j) s += ' '; s += std::to_string(cs[i][j]); } s += ']'; }
    return s;
}

// C01: exactly d simple cycles of distinct input edges, linearly independent
inline std::string basis_error(const WGraph &g, int d, const Out &o) {
    if (o.threw) return "threw: " + o.what;
    for (size_t i = 0; i < o.cycles.size(); i++) {
        std::string e = simple_cycle_error(g, o.cycles[i]);
        if (!e.empty()) return "cycle #" + std::to_string(i) + ": " + e + "; cycles " + show(o.cycles);
    }
    if ((int) o.cycles.size() != d) return "emitted " + std::to_string(o.cycles.size()) + " cycles, cycle space dimension is " + std::to_string(d) + "; cycles " + show(o.cycles);
    if (g.m() <= 64) {
        Elim64 el;
        for (auto &c : o.cycles) { uint64_t x = 0; for (int e : c) x ^= 1ULL << e; if (!el.insert(x)) return "emitted cycles are linearly dependent over GF(2); cycles " + show(o.cycles); }
    } else {
        Elim el(g.m());
        for (auto &c : o.cycles) if (!el.insert(c)) return "emitted cycles are linearly dependent over GF(2)";
    }
    return "";
}

template<class T> inline T cycle_weight(const WGraph &g, const std::vector<int> &c) { T w = T(); for (int e : c) w += conv<T>(g.e[e].w); return w; }

inline bool ids_ok(const WGraph &g, const Out &o) { for (auto &c : o.cycles) for (int e : c) if (e < 0 || e >= g.m()) return false; return true; }

// C02: returned value = emitted weight = optimum; sorted cycle weights = those of any minimum basis
inline std::string optimum_error(const WGraph &g, const Mcb<double> &opt, const Out &o) {
    char b[256];
    if (o.threw) return "threw: " + o.what;
    if (!ids_ok(g, o)) return "emitted cycle uses an edge that is not an edge of the input graph";
    std::vector<double> ws; double sum = 0;
    for (auto &c : o.cycles) { double w = cycle_weight<double>(g, c); ws.push_back(w); sum += w; }
    if (sum != o.ret) { snprintf(b, sizeof b, "returned %.17g but the emitted cycles weigh %.17g", o.ret, sum); return b; }
    if (o.ret != opt.weight) { snprintf(b, sizeof b, "returned %.17g, minimum cycle basis weight is %.17g", o.ret, opt.weight); return b + ("; cycles " + show(o.cycles)); }
    std::sort(ws.begin(), ws.end());
    if (ws != opt.sorted) return "sorted cycle weights differ from those of a minimum cycle basis; cycles " + show(o.cycles);
    return "";
}

inline uint64_t hash_out(const Out &o) {
    uint64_t h = mix(5, bits(o.ret));
    for (auto &c : o.cycles) { uint64_t x = 0; for (int e : c) x ^= mix(17, e); h = mix(h, x); }
    return h;
}

inline bool integral_int(const WGraph &g) { double s = 0; for (auto &e : g.e) { if (e.w != std::floor(e.w)) return false; s += e.w; } return s < 2147483647.0; }

} // namespace vf
