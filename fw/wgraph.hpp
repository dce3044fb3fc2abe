// Plain weighted-graph presentation + case text encoding.  No parmcb / boost here.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include <algorithm>
#include <numeric>
#include <cmath>
#include <stdexcept>

namespace vf {

struct WEdge { int u, v; double w; };

struct WGraph {
    int n = 0;
    std::vector<WEdge> e;
    int m() const { return (int) e.size(); }
    void add(int u, int v, double w = 1) { e.push_back(WEdge{u, v, w}); }
};

// A case: graph presentation + address order of edge descriptors + free parameters.
//   ptr: 'a' addresses ascend in insertion order, 'd' descend, 'p' explicit permutation, 'm' plain malloc
struct Case {
    WGraph g;
    char ptr = 'a';
    std::vector<int> perm; // perm[i] = address rank of edge i, for ptr=='p'
    std::string tag;       // free parameters, no ';'
};

inline void put_num(std::string &s, double w) {
    char b[64];
    if (w == std::floor(w) && std::fabs(w) < 1e15) {
        long long x = (long long) w;
        char *p = b + 63; *p = 0; bool neg = x < 0; if (neg) x = -x;
        do { *--p = '0' + x % 10; x /= 10; } while (x);
        if (neg) *--p = '-';
        s += p;
    } else {
        snprintf(b, sizeof b, "%a", w);
        s += b;
    }
}

inline std::string encode(const WGraph &g) {
    std::string s;
    s.reserve(16 + 10 * g.e.size());
    put_num(s, g.n);
    s += ' ';
    for (size_t i = 0; i < g.e.size(); i++) {
        if (i) s += ',';
        put_num(s, g.e[i].u); s += '-'; put_num(s, g.e[i].v); s += ':'; put_num(s, g.e[i].w);
    }
    return s;
}

inline std::string encode(const Case &c) {
    std::string s = encode(c.g);
    s += ';'; s += c.ptr;
    for (size_t i = 0; i < c.perm.size(); i++) { if (i) s += ','; put_num(s, c.perm[i]); }
    s += ';'; s += c.tag;
    return s;
}

inline Case decode(const std::string &s) {
    Case c;
    const char *p = s.c_str();
    char *q;
    c.g.n = (int) strtol(p, &q, 10); p = q;
    while (*p == ' ') p++;
    while (*p && *p != ';') {
        WEdge e;
        e.u = (int) strtol(p, &q, 10); if (*q != '-') throw std::runtime_error("bad case " + s); p = q + 1;
        e.v = (int) strtol(p, &q, 10); if (*q != ':') throw std::runtime_error("bad case " + s); p = q + 1;
        e.w = strtod(p, &q); p = q;
        if (*p == ',') p++;
        c.g.e.push_back(e);
    }
    if (*p == ';') {
        p++;
        if (*p && *p != ';') c.ptr = *p++;
        while (*p && *p != ';') { c.perm.push_back((int) strtol(p, &q, 10)); p = q; if (*p == ',') p++; }
        if (*p == ';') c.tag = p + 1;
    }
    return c;
}

inline uint64_t mix(uint64_t h, uint64_t x) {
    h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL; h ^= h >> 32;
    return h;
}
inline uint64_t bits(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
inline uint64_t hash_str(const std::string &s) {
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
    return mix(h, s.size());
}
inline uint64_t hash_case(const Case &c) {
    uint64_t h = mix(0x1234567, c.g.n);
    for (auto &e : c.g.e) { h = mix(h, ((uint64_t) e.u << 32) | (uint32_t) e.v); h = mix(h, bits(e.w)); }
    h = mix(h, c.ptr);
    for (int x : c.perm) h = mix(h, x + 77);
    if (!c.tag.empty()) h = mix(h, hash_str(c.tag));
    return h;
}

inline int components(const WGraph &g, std::vector<int> *comp = nullptr) {
    std::vector<int> p(g.n);
    std::iota(p.begin(), p.end(), 0);
    std::function<int(int)> f = [&](int x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; };
    int c = g.n;
    for (auto &e : g.e) { int a = f(e.u), b = f(e.v); if (a != b) { p[a] = b; c--; } }
    if (comp) { comp->resize(g.n); for (int i = 0; i < g.n; i++) (*comp)[i] = f(i); }
    return c;
}
inline int dim(const WGraph &g) { return g.m() - g.n + components(g); }

} // namespace vf
