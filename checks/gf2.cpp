// C17: SpVecGF2 against dense bit vectors.
//  (a) explicit-state search over register files (real objects), every operation of the alphabet in every state;
//  (b) every operation history up to a depth, replayed from scratch without state merging;
//  (c) every pair of vectors of a dimension; structured long vectors.
#include <runner.hpp>
#include <parmcb/spvecgf2.hpp>
#include <deque>
#include <unordered_map>
#include <limits>
using namespace vf;

template<class U> struct Emb { std::vector<U> at; };
template<class U> Emb<U> emb(int kind, int D) {
    Emb<U> e; U mx = std::numeric_limits<U>::max();
    for (int i = 0; i < D; i++) {
        switch (kind) {
        case 0: e.at.push_back((U) i); break;
        case 1: e.at.push_back((U) (i * 7 + 3)); break;
        case 2: e.at.push_back((U) (mx - (U) (D - 1 - i))); break;
        default: e.at.push_back(i < D / 2 ? (U) i : (U) (mx / 2 + (U) i)); break;
        }
    }
    return e;
}
template<class U> struct Machine {
    typedef parmcb::SpVecGF2<U> V; typedef uint64_t M;
    int D; Emb<U> e; std::string err;
    Machine(int D, int kind) : D(D), e(emb<U>(kind, D)) {}
    std::set<U> set_of(M m) const { std::set<U> s; for (int i = 0; i < D; i++) if (m >> i & 1) s.insert(e.at[i]); return s; }
    std::string see(const V &v, M m) const {
        std::vector<U> want, got; for (int i = 0; i < D; i++) if (m >> i & 1) want.push_back(e.at[i]);
        for (auto it = v.begin(); it != v.end(); ++it) got.push_back(*it);
        if (got != want) { std::string s = "lists"; for (auto x : got) s += " " + std::to_string((unsigned long long) x); s += ", expected"; for (auto x : want) s += " " + std::to_string((unsigned long long) x); return s; }
        if (v.size() != want.size()) return "size() is " + std::to_string((unsigned long long) v.size()) + ", expected " + std::to_string(want.size());
        return "";
    }
    static int par(M x) { return __builtin_popcountll(x) & 1; }
    // ---- alphabet over R registers
    struct Op { char k; int i, j, l; M s; };
    std::vector<Op> alphabet(int R, bool sets) const {
        std::vector<Op> a;
        for (int i = 0; i < R; i++) {
            for (int c = 0; c < D; c++) a.push_back({'u', i, c, 0, 0});
            if (sets) for (M s = 0; s < ((M) 1 << D); s++) a.push_back({'s', i, 0, 0, s});
            a.push_back({'z', i, 0, 0, 0}); a.push_back({'d', i, 0, 0, 0});
            for (int j = 0; j < R; j++) { a.push_back({'+', i, j, 0, 0}); a.push_back({'=', i, j, 0, 0}); a.push_back({'c', i, j, 0, 0}); if (i != j) { a.push_back({'m', i, j, 0, 0}); a.push_back({'M', i, j, 0, 0}); } }
            for (int j = 0; j < R; j++) for (int l = 0; l < R; l++) a.push_back({'p', i, j, l, 0});
        }
        return a;
    }
    static std::string show(const std::vector<Op> &h) { std::string s; for (auto &o : h) s += std::string(1, o.k) + std::to_string(o.i) + "," + std::to_string(o.j) + "," + std::to_string(o.l) + "," + std::to_string(o.s) + " "; return s; }
    struct St { std::vector<V> r; std::vector<M> m; std::vector<char> known; };
    // moved-from registers are unspecified until assigned: operations reading them are not legal in this model
    bool legal(const St &s, const Op &o) const {
        switch (o.k) { case '+': return s.known[o.i] && s.known[o.j]; case '=': case 'c': case 'm': case 'M': return s.known[o.j]; case 'p': return s.known[o.j] && s.known[o.l]; default: return true; }
    }
    void step(St &s, const Op &o) {
        switch (o.k) {
        case 'u': s.r[o.i] = V(e.at[o.j]); s.m[o.i] = (M) 1 << o.j; s.known[o.i] = 1; break;
        case 's': { std::set<U> t = set_of(o.s); V v(t); s.r[o.i] = v; s.m[o.i] = o.s; s.known[o.i] = 1; break; }
        case 'z': s.r[o.i].clear(); s.m[o.i] = 0; s.known[o.i] = 1; break;
        case 'd': { V v; s.r[o.i] = v; s.m[o.i] = 0; s.known[o.i] = 1; break; }
        case '+': { V &x = (s.r[o.i] += s.r[o.j]); if (&x != &s.r[o.i]) err = "+= does not return *this"; s.m[o.i] ^= s.m[o.j]; break; }
        case '=': { V &x = (s.r[o.i] = s.r[o.j]); if (&x != &s.r[o.i]) err = "= does not return *this"; s.m[o.i] = s.m[o.j]; s.known[o.i] = 1; break; }
        case 'c': { V v(s.r[o.j]); std::string q = see(v, s.m[o.j]); if (!q.empty()) err = "copy " + q; s.r[o.i] = v; s.m[o.i] = s.m[o.j]; s.known[o.i] = 1; break; }
        case 'm': { s.r[o.i] = std::move(s.r[o.j]); s.m[o.i] = s.m[o.j]; s.known[o.i] = 1; s.known[o.j] = 0; break; }
        case 'M': { V v(std::move(s.r[o.j])); std::string q = see(v, s.m[o.j]); if (!q.empty()) err = "move-constructed vector " + q; s.r[o.i] = v; s.m[o.i] = s.m[o.j]; s.known[o.i] = 1; s.known[o.j] = 0; break; }
        case 'p': { V v = s.r[o.j] + s.r[o.l]; M x = s.m[o.j] ^ s.m[o.l]; s.r[o.i] = v; s.m[o.i] = x; s.known[o.i] = 1; break; }
        }
    }
    // invariant on one state: contents, sizes, all products
    std::string inv(const St &s, bool products, uint64_t &checks) const {
        for (size_t i = 0; i < s.r.size(); i++) if (s.known[i]) { std::string q = see(s.r[i], s.m[i]); if (!q.empty()) return "register " + std::to_string(i) + " " + q; }
        if (products) for (size_t i = 0; i < s.r.size(); i++) if (s.known[i]) {
            for (size_t j = 0; j < s.r.size(); j++) if (s.known[j]) { checks++; int g = s.r[i] * s.r[j]; if (g != par(s.m[i] & s.m[j])) return "product r" + std::to_string(i) + " * r" + std::to_string(j) + " is " + std::to_string(g); }
            for (M t = 0; t < ((M) 1 << D); t++) { checks++; std::set<U> ss = set_of(t); int g = s.r[i] * ss; if (g != par(s.m[i] & t)) return "product r" + std::to_string(i) + " * index set is " + std::to_string(g); }
        }
        return "";
    }
    St init(int R) const { St s; s.r.resize(R); s.m.assign(R, 0); s.known.assign(R, 1); return s; }
};

struct H : Harness {
    bool thorough = false;
    void prepare(const Options &o) override { thorough = o.thorough(); dedupe_off = true; }
    bool dedupe_off;
    template<class U> void bfs(Worker &w, int D, int R, int kind) {
        typedef Machine<U> K; K k(D, kind); typedef typename K::St St; typedef typename K::Op Op;
        auto key = [&](const St &s) { std::vector<uint64_t> v; for (size_t i = 0; i < s.r.size(); i++) v.push_back(s.known[i] ? s.m[i] : ~(uint64_t) 0); return v; };
        std::map<std::vector<uint64_t>, std::pair<std::vector<uint64_t>, Op>> parent;
        std::deque<St> q; St s0 = k.init(R); q.push_back(s0); parent[key(s0)] = {{}, Op{'i', 0, 0, 0, 0}};
        auto A = k.alphabet(R, true);
        while (!q.empty()) {
            St s = q.front(); q.pop_front();
            for (auto &o : A) {
                if (!k.legal(s, o)) continue;
                St t; t.r = s.r; t.m = s.m; t.known = s.known;
                k.step(t, o); w.count("transitions"); w.count("executions");
                auto kk = key(t); bool isnew = !parent.count(kk);
                uint64_t chk = 0; std::string e = k.err.empty() ? k.inv(t, isnew, chk) : k.err;
                w.count("product_checks", chk);
                if (!e.empty()) { // reconstruct the history
                    std::vector<Op> h{o}; auto c = key(s); while (parent[c].second.k != 'i') { h.insert(h.begin(), parent[c].second); c = parent[c].first; }
                    w.fail("differs-from-dense", "after " + K::show(h) + ": " + e); return;
                }
                if (isnew) { parent[kk] = {key(s), o}; q.push_back(t); w.count("states"); }
            }
        }
    }
    template<class U> void hist(Worker &w, int D, int R, int kind, int depth, int first, int second) {
        typedef Machine<U> K; K k(D, kind); typedef typename K::St St; typedef typename K::Op Op;
        auto A = k.alphabet(R, false);
        std::vector<Op> h(depth);
        std::vector<int> idx(depth, 0); idx[0] = first; idx[1] = second;
        if (first >= (int) A.size() || second >= (int) A.size()) return;
        while (true) {
            St s = k.init(R); bool ok = true; uint64_t chk = 0;
            for (int i = 0; i < depth && ok; i++) { h[i] = A[idx[i]]; if (!k.legal(s, h[i])) { ok = false; break; } k.step(s, h[i]); }
            if (ok) {
                w.count("executions"); w.count("transitions", depth); w.count("histories");
                std::string e = k.err.empty() ? k.inv(s, true, chk) : k.err; w.count("product_checks", chk);
                if (!e.empty()) { w.fail("differs-from-dense", "after " + K::show(h) + ": " + e); return; }
            }
            int i = depth - 1;
            while (i >= 2 && ++idx[i] == (int) A.size()) idx[i--] = 0;
            if (i < 2) break;
        }
    }
    template<class U> void pairs(Worker &w, int D, int kind, int lo, int hi) {
        typedef Machine<U> K; typedef typename K::V V; K k(D, kind);
        for (int a = lo; a < hi; a++) {
            V va(k.set_of(a));
            for (int b = 0; b < (1 << D); b++) {
                std::set<U> sb = k.set_of(b); V vb(sb);
                std::string e; V sum = va + vb; V acc(va); acc += vb;
                e = k.see(sum, a ^ b); if (e.empty()) e = k.see(acc, a ^ b);
                if (e.empty()) e = k.see(va, a); if (e.empty()) e = k.see(vb, b);
                if (e.empty() && va * vb != K::par(a & b)) e = "product is " + std::to_string(va * vb);
                if (e.empty() && va * sb != K::par(a & b)) e = "product with an index set is " + std::to_string(va * sb);
                w.count("executions"); w.count("transitions", 4); w.count("states");
                if (!e.empty()) { w.fail("differs-from-dense", "vectors " + std::to_string(a) + " and " + std::to_string(b) + ": " + e); return; }
            }
        }
    }
    // long vectors: arithmetic progressions, dense model as vector<char>
    template<class U> void longs(Worker &w, int N, int p) {
        auto mk = [&](int start, int step, int len) { std::set<U> s; for (int i = 0; i < len; i++) { long x = start + (long) i * step; if (x < N) s.insert((U) x); } return s; };
        std::vector<std::set<U>> pats;
        for (int st : {0, 1, 2, 31, 32, 63, 64, N / 2}) for (int step : {1, 2, 3, 7, 64}) for (int len : {1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, N}) pats.push_back(mk(st, step, len));
        if (p >= (int) pats.size()) return;
        parmcb::SpVecGF2<U> a(pats[p]);
        for (auto &q : pats) {
            parmcb::SpVecGF2<U> b(q); std::vector<U> want; int common = 0;
            std::set_symmetric_difference(pats[p].begin(), pats[p].end(), q.begin(), q.end(), std::back_inserter(want));
            for (auto x : q) common += pats[p].count(x);
            parmcb::SpVecGF2<U> c = a + b, d(a); d += b;
            std::vector<U> g1(c.begin(), c.end()), g2(d.begin(), d.end());
            w.count("executions"); w.count("transitions", 4); w.count("states");
            if (g1 != want || g2 != want || c.size() != want.size()) { w.fail("sum", "long vectors: sum differs"); return; }
            if (a * b != (common & 1) || a * q != (common & 1) || b * a != (common & 1)) { w.fail("product", "long vectors: product differs"); return; }
            parmcb::SpVecGF2<U> e = d; e += b; if (std::vector<U>(e.begin(), e.end()) != std::vector<U>(a.begin(), a.end())) { w.fail("cancel", "a + b + b != a"); return; }
        }
    }
    template<class U> void dispatch(Worker &w, std::istringstream &s, const std::string &kind) {
        int a, b, c, d, e, f;
        if (kind == "bfs") { s >> a >> b >> c; bfs<U>(w, a, b, c); }
        else if (kind == "hist") { s >> a >> b >> c >> d >> e >> f; hist<U>(w, a, b, c, d, e, f); }
        else if (kind == "pairs") { s >> a >> b >> c >> d; pairs<U>(w, a, b, c, d); }
        else if (kind == "longs") { s >> a >> b; longs<U>(w, a, b); }
    }
    void check(Worker &w, const Case &c) override {
        std::istringstream s(c.tag); std::string kind, ty; s >> kind >> ty;
        w.sub(c.tag);
        if (ty == "size_t") dispatch<std::size_t>(w, s, kind); else if (ty == "int") dispatch<int>(w, s, kind); else if (ty == "u8") dispatch<unsigned short>(w, s, kind);
        w.sample(kind, c.tag);
        w.counters["states"]--; // the runner counted the chunk itself
        w.counters["chunks"]++;
    }
    void go(Worker &w, const std::string &t) { Case c; c.tag = t; w.visit(c, 0); }
    void enumerate(Worker &w) override {
        auto S = [](int x) { return std::to_string(x); };
        for (const char *ty : {"size_t", "int", "u8"}) for (int kind = 0; kind < 4; kind++) {
            go(w, std::string("bfs ") + ty + " 3 2 " + S(kind));
            go(w, std::string("bfs ") + ty + " 2 3 " + S(kind));
            if (thorough) { go(w, std::string("bfs ") + ty + " 5 2 " + S(kind)); go(w, std::string("bfs ") + ty + " 3 3 " + S(kind)); }
            else go(w, std::string("bfs ") + ty + " 4 2 " + S(kind));
            int D = thorough ? 10 : 8, step = thorough ? 16 : 32;
            for (int lo = 0; lo < (1 << D); lo += step) go(w, std::string("pairs ") + ty + " " + S(D) + " " + S(kind) + " " + S(lo) + " " + S(lo + step));
        }
        int n = (int) Machine<std::size_t>(2, 0).alphabet(2, false).size();
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) go(w, "hist size_t 2 2 0 " + S(thorough ? 5 : 4) + " " + S(i) + " " + S(j));
        if (thorough) { n = (int) Machine<std::size_t>(3, 0).alphabet(2, false).size(); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) go(w, "hist size_t 3 2 2 4 " + S(i) + " " + S(j)); }
        for (int p = 0; p < 8 * 5 * 18; p++) { go(w, "longs size_t 300 " + S(p)); if (thorough) go(w, "longs int 1200 " + S(p)); }
    }
};
int main(int argc, char **argv) { H h; return run_main(argc, argv, h); }
