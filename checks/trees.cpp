// C12 (-DPROP=12): shortest-path trees of every source of every presentation: exactness, labels, mutual consistency.
// C14 (-DPROP=14): candidate collections of every presentation: soundness, nesting, sufficiency.
#include <judge.hpp>
#include <inputs.hpp>
#include <parmcb/parmcb.hpp>
using namespace vf;

template<class W> struct Ctx {
    typedef typename Built<W>::Graph Graph; typedef typename Built<W>::Edge Edge;
    typedef decltype(boost::get(boost::edge_weight, std::declval<const Graph&>())) WM;
    typedef parmcb::SPTree<Graph, WM> Tree;
};

struct H : Harness {
    InputSpaces sp; Oracle oracle; bool thorough;
    void prepare(const Options &o) override { thorough = o.thorough(); sp.prepare(o.replay.empty() ? (thorough ? 8 : 7) : 0); }

    // edge ids from v up to the root, vertices visited (v first, root last); "" or an error
    template<class W> std::string root_path(const Built<W> &bg, const WGraph &g, const typename Ctx<W>::Tree &t, int v, std::vector<int> &edges, std::vector<int> &verts) {
        edges.clear(); verts.clear(); verts.push_back(v);
        int src = (int) t.source();
        auto nd = t.node(v);
        int guard = 0;
        while (true) {
            if (!nd) return "path leaves the tree at vertex " + std::to_string(v);
            if ((int) nd->vertex() != v) return "node of vertex " + std::to_string(v) + " claims vertex " + std::to_string((int) nd->vertex());
            if (!nd->has_pred()) { if (v != src) return "vertex " + std::to_string(v) + " has no predecessor but is not the source"; return ""; }
            if (v == src) return "the source has a predecessor";
            int e = bg.idof(nd->pred());
            if (e < 0) return "predecessor is not an edge of the graph";
            if (g.e[e].u == v) v = g.e[e].v; else if (g.e[e].v == v) v = g.e[e].u; else return "predecessor edge is not incident to its vertex";
            edges.push_back(e); verts.push_back(v);
            if (++guard > g.n) return "predecessor edges contain a cycle";
            nd = t.node(v);
        }
    }
#if PROP == 12
    template<class W> void one(Worker &w, const Case &c) {
        const WGraph &g = c.g; int n = g.n; char b[256];
        Built<W> bg(c);
        auto wm = boost::get(boost::edge_weight, (const typename Ctx<W>::Graph&) bg.g);
        typename boost::property_map<typename Ctx<W>::Graph, boost::vertex_index_t>::type im = boost::get(boost::vertex_index, bg.g);
        std::vector<typename Ctx<W>::Tree> trees;
        for (int s = 0; s < n; s++) trees.emplace_back(s, (const typename Ctx<W>::Graph&) bg.g, im, wm, s);
        w.count("executions", n);
        std::vector<std::vector<int>> verts(n * n);
        std::vector<int> edges;
        std::vector<std::vector<std::pair<int,int>>> adj(n);
        for (int i = 0; i < g.m(); i++) { adj[g.e[i].u].push_back({g.e[i].v, i}); adj[g.e[i].v].push_back({g.e[i].u, i}); }
        for (int s = 0; s < n; s++) {
            if ((int) trees[s].source() != s) { w.fail("source", "tree reports another source"); return; }
            // reference distances: Bellman-Ford style relaxation to a fixpoint
            std::vector<double> d(n, HUGE_VAL); d[s] = 0;
            std::vector<int> q{s}; std::vector<char> in(n, 0); in[s] = 1;
            for (size_t h = 0; h < q.size(); h++) { int x = q[h]; in[x] = 0; for (auto &p : adj[x]) { double nd = d[x] + g.e[p.second].w; if (nd < d[p.first]) { d[p.first] = nd; if (!in[p.first]) { in[p.first] = 1; q.push_back(p.first); } } } }
            for (int v = 0; v < n; v++) {
                auto nd = trees[s].node(v);
                if (!nd) { if (d[v] != HUGE_VAL) { snprintf(b, sizeof b, "source %d: vertex %d is reachable but has no node", s, v); w.fail("missing", b); return; } continue; }
                if (d[v] == HUGE_VAL) { snprintf(b, sizeof b, "source %d: vertex %d is unreachable but has a node", s, v); w.fail("unreachable", b); return; }
                if ((double) nd->weight() != d[v]) { snprintf(b, sizeof b, "source %d: vertex %d reported at distance %.17g, true distance %.17g", s, v, (double) nd->weight(), d[v]); w.fail("distance", b); return; }
                std::string err = root_path<W>(bg, g, trees[s], v, edges, verts[s * n + v]);
                if (!err.empty()) { w.fail("tree", "source " + std::to_string(s) + ": " + err); return; }
                double len = 0; for (int e : edges) len += g.e[e].w;
                if (len != d[v]) { snprintf(b, sizeof b, "source %d: root path of %d has length %.17g, distance is %.17g", s, v, len, d[v]); w.fail("path-length", b); return; }
                if (v != s) {
                    int child = verts[s * n + v][verts[s * n + v].size() - 2];
                    if ((int) trees[s].first(v) != child) { snprintf(b, sizeof b, "source %d: first(%d) = %d but the path leaves the root through %d", s, v, (int) trees[s].first(v), child); w.fail("first", b); return; }
                }
            }
        }
        for (int s = 0; s < n; s++) for (int v = 0; v < n; v++) {
            auto &p = verts[s * n + v]; // v ... s
            if (p.empty()) continue;
            w.count("ordered_pairs");
            auto &r = verts[v * n + s]; // s ... v
            if (r.size() != p.size() || !std::equal(p.begin(), p.end(), r.rbegin())) { snprintf(b, sizeof b, "path %d->%d is not the reverse of path %d->%d", s, v, v, s); w.fail("reverse", b); return; }
            // suffix after the first step; with tree prefixes this gives every sub-path by induction
            if (p.size() >= 3) {
                int x = p[p.size() - 2];
                auto &q = verts[x * n + v];
                if (q.size() + 1 != p.size() || !std::equal(q.begin(), q.end(), p.begin())) { snprintf(b, sizeof b, "sub-path %d->%d of path %d->%d is not the chosen path", x, v, s, v); w.fail("sub-path", b); return; }
            }
        }
    }
#else
    struct Cand { int root; std::vector<int> edges; double w; };
    template<class Builder, class W> bool collect_cands(Worker &w, const Built<W> &bg, const Case &c, const char *name, std::vector<Cand> &out) {
        const WGraph &g = c.g; char b[256];
        auto wm = boost::get(boost::edge_weight, (const typename Ctx<W>::Graph&) bg.g);
        std::vector<typename Ctx<W>::Tree> trees;
        std::vector<parmcb::CandidateCycle<typename Ctx<W>::Graph, typename Ctx<W>::WM>> cycles;
        Builder builder;
        builder((const typename Ctx<W>::Graph&) bg.g, wm, trees, cycles);
        w.count("executions");
        std::vector<int> e1, e2, v1, v2;
        for (auto &cc : cycles) {
            if (cc.tree() >= trees.size()) { w.fail("tree-id", std::string(name) + ": candidate names a tree that does not exist"); return false; }
            auto &t = trees[cc.tree()];
            int e = bg.idof(cc.edge());
            if (e < 0) { w.fail("foreign", std::string(name) + ": candidate edge is not an edge of the graph"); return false; }
            std::string err = root_path<W>(bg, g, t, g.e[e].u, e1, v1);
            if (err.empty()) err = root_path<W>(bg, g, t, g.e[e].v, e2, v2);
            if (!err.empty()) { w.fail("tree", std::string(name) + ": " + err); return false; }
            Cand cd; cd.root = (int) t.source();
            cd.edges = e1; cd.edges.insert(cd.edges.end(), e2.begin(), e2.end());
            if (std::find(cd.edges.begin(), cd.edges.end(), e) != cd.edges.end()) { w.fail("tree-edge", std::string(name) + ": closing edge is a tree edge of its own paths"); return false; }
            cd.edges.push_back(e);
            std::set<int> vs(v1.begin(), v1.end()); int common = 0; for (int x : v2) common += vs.count(x);
            if (common != 1) { w.fail("paths-meet", std::string(name) + ": the root paths of candidate (root " + std::to_string(cd.root) + ", edge " + std::to_string(e) + ") meet outside the root"); return false; }
            err = simple_cycle_error(g, cd.edges);
            if (!err.empty()) { w.fail("not-simple", std::string(name) + ": " + err); return false; }
            double x = 0; for (int i : cd.edges) x += g.e[i].w;
            cd.w = (double) cc.weight();
            if (cd.w != x) { snprintf(b, sizeof b, "%s: candidate (root %d, edge %d) records weight %.17g, the cycle weighs %.17g", name, cd.root, e, cd.w, x); w.fail("weight", b); return false; }
            std::sort(cd.edges.begin(), cd.edges.end());
            out.push_back(std::move(cd));
        }
        w.count((std::string("candidates_") + name).c_str(), out.size());
        return true;
    }
    void sufficient(Worker &w, const WGraph &g, const char *name, std::vector<Cand> &cs, const Mcb<double> &opt) {
        std::vector<const Cand*> o; for (auto &c : cs) o.push_back(&c);
        std::stable_sort(o.begin(), o.end(), [](const Cand *a, const Cand *b) { return a->w < b->w; });
        Elim el(std::max(1, g.m())); double sum = 0; char b[200];
        for (auto *c : o) if (el.rank < opt.dim && el.insert(c->edges)) sum += c->w;
        if (el.rank != opt.dim) { snprintf(b, sizeof b, "%s collection spans dimension %d of %d", name, el.rank, opt.dim); w.fail("insufficient", b); }
        else if (sum != opt.weight) { snprintf(b, sizeof b, "greedy over the %s collection weighs %.17g, the minimum is %.17g", name, sum, opt.weight); w.fail("insufficient", b); }
    }
    template<class W> void one(Worker &w, const Case &c) {
        typedef typename Ctx<W>::Graph G; typedef typename Ctx<W>::WM WM;
        Mcb<double> opt = oracle.mcb<double>(c.g);
        Built<W> bg(c);
        std::vector<Cand> ho, fv, is;
        if (!collect_cands<parmcb::detail::HortonCyclesBuilder<G, WM>>(w, bg, c, "Horton", ho)) return;
        if (!collect_cands<parmcb::detail::FVSCyclesBuilder<G, WM>>(w, bg, c, "FVS", fv)) return;
        if (!collect_cands<parmcb::detail::ISOCyclesBuilder<G, WM>>(w, bg, c, "isometric", is)) return;
        std::set<std::pair<int, std::vector<int>>> hs;
        for (auto &x : ho) hs.insert({x.root, x.edges});
        for (auto &x : fv) if (!hs.count({x.root, x.edges})) { w.fail("not-nested", "FVS candidate (root " + std::to_string(x.root) + ") is not a Horton candidate"); return; }
        for (auto &x : is) if (!hs.count({x.root, x.edges})) { w.fail("not-nested", "isometric candidate (root " + std::to_string(x.root) + ") is not a Horton candidate"); return; }
        sufficient(w, c.g, "Horton", ho, opt); sufficient(w, c.g, "FVS", fv, opt); sufficient(w, c.g, "isometric", is, opt);
    }
#endif
    void check(Worker &w, const Case &c) override {
        w.sub("double"); one<double>(w, c);
        if (integral_int(c.g)) { w.sub("int"); one<int>(w, c); }
        if (dim(c.g) > 0) w.sample(w.curspace, w.curspace + ": " + encode(c));
    }
    void enumerate(Worker &w) override {
        double e30 = 1 + std::ldexp(1.0, -30);
        InputSpaces::corpus_space(w, sp.c2, thorough ? std::vector<int>{0, 1, 4, 9} : std::vector<int>{0}, "corpus large", thorough ? 450 : 200, false);
        InputSpaces::corpus_space(w, sp.c1, thorough ? std::vector<int>{0, 1, 4, 5, 6, 9} : std::vector<int>{0, 4, 9}, "corpus medium", thorough ? 1 << 30 : 220, thorough);
        InputSpaces::corpus_space(w, sp.c0, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}, "corpus small", thorough ? 1 << 30 : 60);
        for (int n = 0; n <= 3; n++) InputSpaces::small(w, n, {1, 2, 3, 4});
        InputSpaces::small(w, 4, {1, 2, 3});
        InputSpaces::small(w, 4, {1, e30, 2});
        InputSpaces::small(w, 5, {1, 2});
        InputSpaces::presentations(w, 4, {1}, 6, 4);
        sp.classes(w, sp.n6, {1, 2}, "classes n=6 W={1,2}", thorough ? 15 : 9);
        sp.classes(w, sp.n7, {1}, "classes n=7 unit");
        if (thorough) {
            sp.classes(w, sp.n8, {1}, "classes n=8 unit");
            InputSpaces::presentations(w, 5, {1}, 6, 4);
            InputSpaces::small(w, 4, {1, 2, 3, 4, 5, 7});
            InputSpaces::small(w, 5, {1, 2, 3});
            InputSpaces::small(w, 6, {1});
            sp.classes(w, sp.n7, {1, 2}, "classes n=7 W={1,2}", 13);
            sp.classes(w, sp.n6, {1, 2, 3}, "classes n=6 W={1,2,3}", 10);
        }
    }
};
int main(int argc, char **argv) { H h; return run_main(argc, argv, h); }
