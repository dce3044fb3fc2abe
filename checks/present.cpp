// C08: the reported weight is a function of the weighted graph.  No oracle: every presentation of a graph reachable by the listed
// transformations (alone, and two in a row on the smallest graphs) is run and its value compared with the value the transformation predicts.
// Default: sequential and TBB entry points.  VF_MPI: the MPI entry points on the in-process MPI, against the sequential ones.
#include <judge.hpp>
#include <inputs.hpp>
#include <builtl.hpp>
#ifdef VF_MPI
#include <vsched.hpp>
#include <vmpi.hpp>
#else
#include <tbb/global_control.h>
#endif
using namespace vf;
namespace vf {
#define DECL(a) void a##_d(const Built<double>&, Out&); void a##_i(const Built<int>&, Out&);
DECL(mcb_sva_signed) DECL(mcb_sva_fvs_trees) DECL(mcb_sva_iso_trees)
#ifdef VF_MPI
DECL(mcb_sva_signed_mpi) DECL(mcb_sva_fvs_trees_mpi) DECL(mcb_sva_fvs_trees_tbb_mpi) DECL(mcb_sva_iso_trees_mpi) DECL(mcb_sva_iso_trees_tbb_mpi)
#else
DECL(mcb_sva_signed_tbb) DECL(mcb_sva_fvs_trees_tbb) DECL(mcb_sva_iso_trees_tbb)
#ifdef HAVE_LIST
void mcb_sva_signed_l(const BuiltL&, Out&);
#ifdef HAVE_LISTTBB
void mcb_sva_signed_tbb_l(const BuiltL&, Out&);
#endif
#endif
#endif
}
struct Alg { const char *name; bool mpi; void (*d)(const Built<double>&, Out&); void (*i)(const Built<int>&, Out&); void (*l)(const BuiltL&, Out&); };
#define A(a, m) {#a, m, a##_d, a##_i, nullptr}
static const std::vector<Alg> ALGS = {
    A(mcb_sva_signed, false), A(mcb_sva_fvs_trees, false), A(mcb_sva_iso_trees, false),
#ifdef VF_MPI
    A(mcb_sva_signed_mpi, true), A(mcb_sva_fvs_trees_mpi, true), A(mcb_sva_iso_trees_mpi, true), A(mcb_sva_fvs_trees_tbb_mpi, true), A(mcb_sva_iso_trees_tbb_mpi, true)
#else
    A(mcb_sva_signed_tbb, false), A(mcb_sva_fvs_trees_tbb, false), A(mcb_sva_iso_trees_tbb, false),
#ifdef HAVE_LIST
    {"mcb_sva_signed<listS>", false, nullptr, nullptr, mcb_sva_signed_l},
#ifdef HAVE_LISTTBB
    {"mcb_sva_signed_tbb<listS>", false, nullptr, nullptr, mcb_sva_signed_tbb_l},
#endif
#endif
#endif
};

// ---- presentations reached so far: graph, address order, predicted value = mul * ref + add ------------------------------
struct Pres { WGraph g; char ptr = 'a'; std::vector<int> perm; double mul = 1, add = 0; std::string how; };
typedef std::function<void(const Pres&)> EmitP;
typedef std::function<double(const WGraph&)> Value;

static Pres with(const Pres &p, const WGraph &g, const std::string &how) { Pres q = p; q.g = g; if (g.m() != p.g.m()) { q.perm.clear(); if (q.ptr == 'p') q.ptr = 'd'; } q.how += (q.how.empty() ? "" : ", ") + how; return q; }
static std::string str(const std::vector<int> &p) { std::string s; for (size_t i = 0; i < p.size() && i < 8; i++) s += std::to_string(p[i]); return s; }
static std::vector<int> by(const WGraph &g, int what) { // vertex numberings from the structure: position of each vertex
    std::vector<int> ord;
    if (what < 2) { std::vector<int> deg(g.n, 0); for (auto &e : g.e) deg[e.u]++, deg[e.v]++; ord.resize(g.n); std::iota(ord.begin(), ord.end(), 0); std::stable_sort(ord.begin(), ord.end(), [&](int a, int b) { return what ? deg[a] > deg[b] : deg[a] < deg[b]; }); }
    else { // breadth first (2) or depth first (3) from the last vertex
        std::vector<std::vector<int>> adj(g.n); for (auto &e : g.e) adj[e.u].push_back(e.v), adj[e.v].push_back(e.u);
        std::vector<char> in(g.n, 0);
        for (int r = g.n - 1; r >= 0; r--) { std::vector<int> q{r}; size_t h = 0; while (h < q.size()) { int v; if (what == 2) v = q[h++]; else { v = q.back(); q.pop_back(); } if (in[v]) continue; in[v] = 1; ord.push_back(v); for (int x : adj[v]) if (!in[x]) q.push_back(x); } }
    }
    std::vector<int> p(g.n); for (int i = 0; i < g.n; i++) p[ord[i]] = i; return p;
}
static std::vector<int> rotation(int n, int k) { std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = (i + k) % n; return p; }
static std::vector<int> weight_order(const WGraph &g, bool desc) { std::vector<int> o(g.m()), p(g.m()); std::iota(o.begin(), o.end(), 0); std::stable_sort(o.begin(), o.end(), [&](int a, int b) { return desc ? g.e[a].w > g.e[b].w : g.e[a].w < g.e[b].w; }); for (int i = 0; i < g.m(); i++) p[o[i]] = i; return p; }
static WGraph to_front(WGraph g, int k) { std::rotate(g.e.begin(), g.e.end() - k, g.e.end()); return g; }   // the last k edges inserted first
static WGraph last_first(const WGraph &g, int k) { return relabel(g, rotation(g.n, k)); }                   // the last k vertices numbered first
static WGraph insert_iso(const WGraph &a, int at, int k) { WGraph g; g.n = a.n + k; for (auto &e : a.e) g.add(e.u >= at ? e.u + k : e.u, e.v >= at ? e.v + k : e.v, e.w); return g; }
static WGraph interleave(const WGraph &a, const WGraph &b) {
    std::vector<int> pa(a.n), pb(b.n); int k = 0;
    for (int i = 0; i < std::max(a.n, b.n); i++) { if (i < b.n) pb[i] = k++; if (i < a.n) pa[i] = k++; }
    WGraph g; g.n = k; for (int i = 0; i < std::max(a.m(), b.m()); i++) { if (i < b.m()) g.add(pb[b.e[i].u], pb[b.e[i].v], b.e[i].w); if (i < a.m()) g.add(pa[a.e[i].u], pa[a.e[i].v], a.e[i].w); }
    return g;
}
static WGraph subdivide(const WGraph &a, int i, double first) { WGraph g = a; int x = g.n++; g.e.push_back(WEdge{x, g.e[i].v, g.e[i].w - first}); g.e[i].v = x; g.e[i].w = first; return g; }
static std::vector<WGraph> partners() { WGraph t = fam::reweight(fam::theta(1, 2, 3), 1); return { fam::cycle(3), fam::reweight(fam::complete(4), 1), fam::cycle(6), t, fam::reweight(fam::gpetersen(5, 2), 4) }; }

// detail 2: everything (tiny graphs), 1: all vertices / edges one at a time, 0: a few of each
static void transforms(const Pres &p, int detail, double ref, const Value &value, const EmitP &emit) {
    const WGraph &g = p.g; int n = g.n, m = g.m();
    auto relab = [&](const std::vector<int> &pi, const std::string &h) { emit(with(p, relabel(g, pi), h)); };
    auto redge = [&](const std::vector<int> &pi, const std::string &h) { emit(with(p, permute_edges(g, pi), h)); };
    std::vector<int> vs, es;                 // the vertices / edges singled out
    if (detail) { for (int i = 0; i < n; i++) vs.push_back(i); for (int i = 0; i < m; i++) es.push_back(i); }
    else { for (int i : {0, n / 2, n - 1}) if (i >= 0 && i < n && std::find(vs.begin(), vs.end(), i) == vs.end()) vs.push_back(i); for (int i : {0, m / 3, m / 2, m - 1}) if (i >= 0 && i < m && std::find(es.begin(), es.end(), i) == es.end()) es.push_back(i); }
    emit(with(p, g, "as is"));
    for (char c : {'d', 'm', 'p'}) { Pres q = with(p, g, std::string("addresses ") + c); q.ptr = c; q.perm.clear(); if (c == 'p') { if (m < 3) continue; q.perm = stridep(m, std::max(2, m / 2)); } emit(q); }
    if (n > 1) {
        if (detail == 2 && n <= 5) { std::vector<int> pi(n); std::iota(pi.begin(), pi.end(), 0); while (std::next_permutation(pi.begin(), pi.end())) relab(pi, "vertices " + str(pi)); }
        else { relab(reversal(n), "vertices reversed"); relab(rotation(n, 1), "vertices rotated"); relab(rotation(n, n - 1), "vertices rotated back"); relab(stridep(n, std::max(2, n / 3)), "vertices strided"); for (int k = 0; k < 4; k++) relab(by(g, k), "vertices by structure " + std::to_string(k)); }
    }
    if (m > 1) {
        if (detail == 2 && m <= 5) { std::vector<int> pi(m); std::iota(pi.begin(), pi.end(), 0); while (std::next_permutation(pi.begin(), pi.end())) redge(pi, "edges " + str(pi)); }
        else { redge(reversal(m), "edges reversed"); redge(rotation(m, 1), "edges rotated"); redge(stridep(m, std::max(2, m / 3)), "edges strided"); redge(weight_order(g, false), "edges by weight"); redge(weight_order(g, true), "edges by descending weight"); }
        emit(with(p, relabel(permute_edges(g, reversal(m)), reversal(n)), "vertices and edges reversed"));
    }
    if (m) { emit(with(p, flipped(g, 0), "endpoints swapped")); emit(with(p, flipped(g, 1), "every other edge swapped")); }
    for (int at : std::set<int>{0, n / 2, n}) emit(with(p, insert_iso(g, at, 1), "isolated vertex " + std::to_string(at)));
    emit(with(p, insert_iso(g, 0, 3), "3 isolated vertices first")); if (detail < 2) emit(with(p, insert_iso(g, n / 2, 66), "66 isolated vertices"));
    for (int v : vs) for (int len : {1, 3}) {
        double w = len == 1 ? 1 : 1024; WGraph h = g; int prev = v; for (int i = 0; i < len; i++) { int x = h.n++; h.add(prev, x, w); prev = x; }
        std::string s = "path of " + std::to_string(len) + " at " + std::to_string(v);
        emit(with(p, h, s)); emit(with(p, to_front(last_first(h, len), len), s + ", numbered and inserted first"));
        if (detail == 2) { emit(with(p, to_front(h, len), s + ", inserted first")); emit(with(p, last_first(h, len), s + ", numbered first")); }
    }
    if (n) { WGraph h = g; WGraph t = fam::binary_tree(7); int o = h.n; h.n += 7; for (auto &e : t.e) h.add(e.u + o, e.v + o, 2); h.add(n - 1, o, 1); emit(with(p, h, "binary tree hung in")); emit(with(p, relabel(h, reversal(h.n)), "binary tree hung in, reversed")); }
    std::vector<int> comp; int nc = components(g, &comp);
    if (nc > 1) {   // bridges between components
        int done = 0;
        for (int u = 0; u < n; u++) for (int v = u + 1; v < n; v++) if (comp[u] != comp[v] && (detail == 2 || done < 6)) { done++; WGraph h = g; h.add(u, v, done % 2 ? 1 : 64); std::string s = "bridge " + std::to_string(u) + "-" + std::to_string(v); emit(with(p, h, s)); emit(with(p, to_front(h, 1), s + " inserted first")); }
        WGraph h = g; std::set<int> joined{comp[0]}; for (int v = 1; v < n; v++) if (joined.insert(comp[v]).second) h.add(v, 0, 2); emit(with(p, h, "all components bridged")); emit(with(p, to_front(h, nc - 1), "all components bridged first"));
    }
    auto unions = [&](const WGraph &h, double v, const std::string &s) {
        auto go = [&](const WGraph &x, const std::string &t) { Pres q = with(p, x, s + t); q.add = p.add + v; emit(q); };
        go(fam::join(g, h), " after"); go(fam::join(h, g), " before"); go(interleave(g, h), " interleaved");
        WGraph b = fam::join(g, h); if (n && h.n) { b.add(0, n, 1); go(b, " after, bridged"); go(to_front(b, 1), " after, bridged first"); }
    };
    auto ps = partners(); int np = detail == 2 ? 4 : detail == 1 ? 3 : 2;
    for (int i = 0; i < np; i++) { int k = detail ? i : i * 2 + 2; WGraph h = ps[k]; if (p.mul != 1) break; unions(h, value(h), "union with partner " + std::to_string(k)); }
    if (detail && p.mul == 1 && p.add == 0) unions(g, ref, "union with itself");
    for (int i : es) {
        double w = g.e[i].w; std::vector<double> firsts;
        if (w == std::floor(w) && w >= 2) { firsts.push_back(1); if (w > 2) firsts.push_back(w - 1); } else { firsts.push_back(w / 2); firsts.push_back(w / 4); }
        for (double f : firsts) {
            WGraph h = subdivide(g, i, f); std::string s = "edge " + std::to_string(i) + " subdivided";
            emit(with(p, h, s)); emit(with(p, to_front(last_first(h, 1), 1), s + ", numbered and inserted first"));
            if (detail == 2) { emit(with(p, last_first(h, 1), s + ", numbered first")); emit(with(p, to_front(h, 1), s + ", inserted first")); }
        }
    }
    if (m && m <= 150) { WGraph h = g; for (int i = 0; i < m; i++) h = subdivide(h, i, h.e[i].w / 2); emit(with(p, h, "all edges subdivided")); emit(with(p, relabel(reversed_edges(h), reversal(h.n)), "all edges subdivided, reversed"));
        if (m <= 40) h = g; for (int i = 0; i < m && m <= 40; i++) for (int k = 0; k < 3; k++) h = subdivide(h, i, h.e[i].w / 2); if (m <= 40) emit(with(p, h, "all edges subdivided 3 times")); }
    for (int k : {-40, -3, -1, 1, 5, 12, 300, -300}) { Pres q = with(p, g, "scaled by 2^" + std::to_string(k)); for (auto &e : q.g.e) e.w = std::ldexp(e.w, k); q.mul = std::ldexp(p.mul, k); q.add = std::ldexp(p.add, k); emit(q); }
}

struct H : Harness {
    InputSpaces sp; bool thorough = false;
    std::map<uint64_t, double> memo;
#ifndef VF_MPI
    std::unique_ptr<tbb::global_control> gc;
#endif
    void prepare(const Options &o) override { thorough = o.thorough(); sp.prepare(o.replay.empty() ? 7 : 0); }
    static Case as_case(const Pres &p) { Case c; c.g = p.g; c.ptr = p.ptr; c.perm = p.perm; return c; }
    // the value reported by one entry point
    bool run(Worker &w, const Pres &p, const Alg &a, bool ints, uint64_t salt, double &ret, std::string &err) {
        Case c = as_case(p); Out o; w.count("executions");
        try {
            if (!a.mpi) {
                if (a.l) { if (c.ptr == 'm') c.ptr = 'a'; BuiltL b(c); a.l(b, o); }
                else if (ints) { Built<int> b(c); a.i(b, o); } else { Built<double> b(c); a.d(b, o); }
                ret = o.ret;
            }
#ifdef VF_MPI
            else {
                vmpi::Config cf; cf.size = 1 + salt % 4; if (salt % 64 == 5) cf.size = p.g.m() + 2; if (cf.size > 40) cf.size = 40; cf.eager = salt >> 8 & 1; cf.order = salt >> 9 & 1; cf.base = (salt >> 10) % 4;
                vs::X.reset(); vs::X.policy = (salt >> 12) % 8; vs::X.maxdev = 0; vs::X.plans = vs::X.yields = false; vs::X.begin();
                std::vector<Out> outs(cf.size);
                auto go = [&](auto tag, auto f) {
                    typedef typename std::decay<decltype(*tag)>::type B;
                    std::vector<std::unique_ptr<B>> gs;
                    for (int r = 0; r < cf.size; r++) { Case k = c; if (r % 2 && (salt >> 15 & 1)) { k.ptr = k.ptr == 'd' ? 'a' : 'd'; k.perm.clear(); } gs.emplace_back(new B(k)); }
                    err = vmpi::run(cf, [&](int r) { f(*gs[r], outs[r]); });
                    while (!gs.empty()) gs.pop_back();
                };
                if (ints) go((Built<int>*) nullptr, a.i); else go((Built<double>*) nullptr, a.d);
                ret = outs[0].ret;
                if (!err.empty() && err.find("not modelled") == std::string::npos) { err = "on " + std::to_string(cf.size) + " ranks: " + err; return true; }
                if (!err.empty()) { w.count("not_modelled"); err.clear(); return false; }
            }
#endif
        } catch (const std::exception &e) { err = std::string("threw ") + e.what(); } catch (...) { err = "threw"; }
        return true;
    }
    double reference(Worker &w, const WGraph &g) { // memoised: the first entry point on the graph as given
        uint64_t h = mix(99, g.n); for (auto &e : g.e) { h = mix(h, (uint64_t) e.u << 32 | (uint32_t) e.v); h = mix(h, bits(e.w)); }
        auto it = memo.find(h); if (it != memo.end()) return it->second;
        if (memo.size() > 4000) memo.clear();
        Pres p; p.g = g; double r = 0; std::string err; w.sub("reference"); run(w, p, ALGS[0], false, 0, r, err);
        if (!err.empty()) { w.fail("exception", std::string(ALGS[0].name) + " " + err); r = std::nan(""); }
        return memo[h] = r;
    }
    // every: all entry points on this presentation, otherwise `few` of them in rotation
    void compare(Worker &w, const Pres &p, double ref, int few, uint64_t idx) {
        bool ints = integral_int(p.g); double want = p.mul * ref + p.add; int na = (int) ALGS.size();
        if (ints) { double t = 0; for (auto &e : p.g.e) t += e.w; if (t * 2 > 2e9) ints = false; }
        uint64_t salt = mix(hash_str(p.how), idx);
        for (int k = 0; k < na; k++) {
            if (few < na && !((k + idx) % na < (uint64_t) few)) continue;
            for (int ty = 0; ty < (ints && !ALGS[k].l ? 2 : 1); ty++) {
                if (ty == 1 && few < na && (idx + k) % 3) continue;
                char b[190]; snprintf(b, sizeof b, "%s%s on: %s", ALGS[k].name, ty ? "<int>" : "", p.how.c_str()); w.sub(b);
                double r = 0; std::string err;
                if (!run(w, p, ALGS[k], ty, salt + k, r, err)) continue;
                if (!err.empty()) { w.fail("exception", err); continue; }
                if (r != want) { snprintf(b, sizeof b, "reports %.17g, the value of the same weighted graph is %.17g (%.17g for the graph as given)", r, want, ref); w.fail("presentation-dependent", std::string(b) + "; presentation " + encode(as_case(p)).substr(0, 200)); }
            }
        }
        if (p.g.n >= 100) w.count("presentations_with_100_vertices_or_more");
        w.maxima["max_n"] = std::max(w.maxima["max_n"], (double) p.g.n); w.maxima["max_dim"] = std::max(w.maxima["max_dim"], (double) dim(p.g));
        w.count("presentations"); w.distinct("presentations", hash_case(as_case(p)));
        w.counters["transitions"]++; w.slot->t0 = now();
    }
    static int singles(const WGraph &g) { int k = 0; Pres p; p.g = g; transforms(p, 0, 0, [](const WGraph&) { return 0.0; }, [&](const Pres&) { k++; }); return k; }
    // tag: "L<k>" the k-th transformation only, a few entry points; otherwise detail digit and number of entry points per presentation
    void check(Worker &w, const Case &c) override {
#ifndef VF_MPI
        if (!gc) gc.reset(new tbb::global_control(tbb::global_control::max_allowed_parallelism, 2));
#endif
        Pres p; p.g = c.g; double ref = reference(w, c.g); if (std::isnan(ref)) return;
        Value value = [&](const WGraph &h) { return reference(w, h); };
        std::string tag = c.tag.empty() ? "19" : c.tag;
        struct Tm { Worker &w; double t = now(); ~Tm() { w.maxima["slowest_case_s"] = std::max(w.maxima["slowest_case_s"], now() - t); w.counters["ms:" + w.curspace] += (uint64_t) ((now() - t) * 1000); } } tm{w};
        if (tag[0] == 'L') { int k = atoi(tag.c_str() + 1), i = 0; transforms(p, 0, ref, value, [&](const Pres &q) { if (i++ == k) compare(w, q, ref, k == 0 ? 99 : thorough ? 3 : 1, k); w.slot->t0 = now(); }); return; }
        int detail = tag[0] - '0', few = tag[1] - '0'; bool twice = tag.size() > 2; uint64_t idx = hash_case(c) % 64;
        if (few == 9) few = 99;
        transforms(p, detail, ref, value, [&](const Pres &q) { compare(w, q, ref, q.how == "as is" ? 99 : few, idx++); });
        if (twice) transforms(p, 1, ref, value, [&](const Pres &q) { if (q.how == "as is") return; transforms(q, 0, ref, value, [&](const Pres &r) { compare(w, r, ref, 1, idx++); }); w.slot->t0 = now(); });
        if (dim(c.g) > 0) w.sample(w.curspace, w.curspace + ": " + encode(c).substr(0, 120));
    }
    void tagged(Worker &w, const WGraph &g, const char *tag) { Case c; c.g = g; c.tag = tag; w.visit(c, 0); }
    void corp(Worker &w, const std::vector<std::pair<std::string, WGraph>> &cs, std::vector<int> modes, const char *name, int maxm, const char *tag) {
        w.space(name);
        for (auto &p : cs) if (p.second.m() <= maxm && (p.second.n < 299 || p.second.m() > 300 || thorough)) for (int m : modes) {
            WGraph g = fam::reweight(p.second, m);
            if (tag && g.n < 60) { tagged(w, g, tag); continue; }
            int k = singles(g); for (int i = 0; i < k; i++) tagged(w, g, ("L" + std::to_string(i)).c_str());
        }
    }
    // fixed pseudo-random sparse graphs: a path plus chords
    static WGraph sparse(int n, int chords, uint64_t s) { WGraph g = fam::path(n); std::set<std::pair<int,int>> in; for (uint64_t i = 0; (int) in.size() < chords; i++) { int u = mix(s, 2 * i) % n, v = mix(s, 2 * i + 1) % n; if (u > v) std::swap(u, v); if (v - u > 1 && in.insert({u, v}).second) g.add(u, v); } return g; }
    void enumerate(Worker &w) override {
#ifdef VF_MPI
        const int scale = 1;
#else
        const int scale = 0;
#endif
        std::vector<std::pair<std::string, WGraph>> big;
        for (auto &p : sp.c2) big.push_back(p);
        big.push_back({"sparse200+120", sparse(200, 120, 7)}); big.push_back({"sparse300+80", sparse(300, 80, 8)}); big.push_back({"grid12x20", fam::grid(12, 20)});
        if (thorough) { big.push_back({"sparse500+200", sparse(500, 200, 9)}); big.push_back({"grid20x26", fam::grid(20, 26)}); big.push_back({"K36", fam::complete(36)}); big.push_back({"torus16x16", fam::torus(16, 16)}); big.push_back({"gp300_7", fam::gpetersen(300, 7)}); }
        if (thorough) corp(w, big, scale ? std::vector<int>{4} : std::vector<int>{0, 4, 9, 2, 8}, "large", 1 << 30, nullptr);
        else corp(w, big, {4}, "large", scale ? 250 : 420, nullptr);
        corp(w, sp.c1, thorough ? std::vector<int>{0, 1, 2, 4, 6, 8, 9} : std::vector<int>{4}, "medium", scale && !thorough ? 70 : 1 << 30, "02");
        corp(w, sp.c0, thorough ? std::vector<int>{0, 1, 2, 3, 4, 6, 7, 8, 9} : std::vector<int>{0, 1, 9}, "small", scale && !thorough ? 30 : 1 << 30, thorough ? "19" : "12");
        auto lab = [&](int n, std::vector<double> W, const char *tag) { char b[80]; snprintf(b, sizeof b, "labelled n=%d |W|=%zu detail %s", n, W.size(), tag); w.space(b); labelled(n, W, [&](const WGraph &g) { tagged(w, g, tag); }); };
        for (int n = 0; n <= 3; n++) lab(n, {1, 2, 3}, "29x");
        std::vector<WGraph> n4 = noniso(4), n5 = noniso(5);
        auto cls = [&](const std::vector<WGraph> &reps, std::vector<double> W, const char *name, const char *tag, int maxm = 99) { w.space(std::string(name) + " detail " + tag); for (auto &r : reps) if (r.m() <= maxm) weightings(r, W, [&](const WGraph &g) { tagged(w, g, tag); }); };
        if (thorough) cls(n4, {1, 2}, "classes n=4 W={1,2}", "29x"); else { cls(n4, {1}, "classes n=4", "22x"); cls(n4, {1, 2}, "classes n=4 W={1,2}", "22"); }
        cls(n4, {1, 2, 3}, "classes n=4 W={1,2,3}", scale ? "12" : "22");
        cls(n5, {1, 2}, "classes n=5 W={1,2}", scale ? "01" : "12", scale ? 7 : 99);
        cls(sp.n6, {1}, "classes n=6", scale ? "01" : "12");
        if (!scale) cls(sp.n7, {1}, "classes n=7", "01");
        if (thorough) {
            lab(4, {1, 2, 3}, "29"); cls(n5, {1}, "classes n=5", "29x"); cls(n5, {1, 1 + std::ldexp(1.0, -30)}, "classes n=5 near ties", "12");
            cls(n5, {1, 2}, "classes n=5 W={1,2}", "29"); cls(sp.n6, {1, 2}, "classes n=6 W={1,2}", "02", 11); cls(sp.n7, {1}, "classes n=7", "12");
            if (!scale) { cls(n5, {1, 2, 3}, "classes n=5 W={1,2,3}", "12", 9); cls(noniso(8), {1}, "classes n=8", "01"); }
        }
    }
};
int main(int argc, char **argv) { H h; return run_main(argc, argv, h); }
