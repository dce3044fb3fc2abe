// C15: the graph handed to the exact phase, observed through an exact-algorithm functor of ours, and the dropped
// edges, observed through the emitted cycles.
#include <judge.hpp>
#include <inputs.hpp>
#include <parmcb/parmcb.hpp>
using namespace vf;

struct Seen { bool called = false; int n = -1; std::vector<WEdge> e; } static seen;
template<class Graph> struct Observer { // stands in for the exact algorithm: records its input, emits nothing
    template<class WM, class O> typename boost::property_traits<WM>::value_type operator()(const Graph &s, const WM &wm, O) {
        seen.called = true; seen.n = (int) boost::num_vertices(s); seen.e.clear();
        auto ep = boost::edges(s);
        for (auto it = ep.first; it != ep.second; ++it) seen.e.push_back(WEdge{(int) boost::source(*it, s), (int) boost::target(*it, s), (double) wm[*it]});
        return 0;
    }
};
struct H : Harness {
    InputSpaces sp; bool thorough;
    void prepare(const Options &o) override { thorough = o.thorough(); sp.prepare(o.replay.empty() ? 7 : 0); }
    template<class W> void one(Worker &w, const Case &c, size_t k) {
        typedef typename Built<W>::Graph Graph; typedef typename Built<W>::Edge Edge; typedef typename Built<W>::WM WM;
        const WGraph &g = c.g;
        char b[200]; snprintf(b, sizeof b, "spanner<%s> k=%zu", std::is_same<W, int>::value ? "int" : "double", k); w.sub(b);
        Out o; seen = Seen();
        {
            Built<W> bg(c);
            std::list<std::list<Edge>> cycles;
            WM wm = boost::get(boost::edge_weight, bg.g);
            try {
                parmcb::detail::BaseApproxSpannerAlgorithm<Graph, WM, Observer<Graph>, false> algo(bg.g, wm, boost::get(boost::vertex_index, bg.g), k);
                algo.run(std::back_inserter(cycles));
            } catch (const std::exception &e) { w.fail("threw", e.what()); return; } catch (...) { w.fail("threw", "exception"); return; }
            collect(bg, cycles, o);
        }
        w.count("executions");
        if (!seen.called) { w.fail("no-exact-phase", "the exact phase was not run on the spanner"); return; }
        judge(w, g, k, o);
    }
    void judge(Worker &w, const WGraph &g, size_t k, const Out &o) {
        char b[300];
        if (seen.n != g.n) { w.fail("vertices", "spanner has " + std::to_string(seen.n) + " vertices"); return; }
        std::map<std::pair<int,int>, int> eid;
        for (int i = 0; i < g.m(); i++) eid[std::minmax(g.e[i].u, g.e[i].v)] = i;
        std::vector<char> kept(g.m(), 0);
        for (auto &e : seen.e) {
            auto it = eid.find(std::minmax(e.u, e.v));
            if (it == eid.end()) { w.fail("not-a-subgraph", "spanner edge joins vertices not adjacent in the input"); return; }
            if (kept[it->second]) { w.fail("parallel", "spanner retains an edge twice"); return; }
            kept[it->second] = 1;
            if (e.w != g.e[it->second].w) { snprintf(b, sizeof b, "spanner edge %d-%d weighs %.17g, input edge weighs %.17g", e.u, e.v, e.w, g.e[it->second].w); w.fail("weights", b); return; }
        }
        // dropped edges: one emitted cycle per dropped edge (the exact phase emitted nothing)
        std::vector<char> dropped(g.m(), 0);
        for (auto &c : o.cycles) {
            int cnt = 0, last = -1;
            for (int e : c) { if (e < 0) { w.fail("foreign", "cycle of a dropped edge uses a foreign descriptor"); return; } if (!kept[e]) { cnt++; last = e; } }
            if (cnt != 1) { w.fail("dropped", "cycle built for a dropped edge contains " + std::to_string(cnt) + " dropped edges"); return; }
            if (dropped[last]) { w.fail("dropped", "edge dropped twice"); return; }
            dropped[last] = 1;
        }
        for (int i = 0; i < g.m(); i++) if (kept[i] == dropped[i]) { w.fail("partition", "edge " + std::to_string(i) + (kept[i] ? " is both retained and dropped" : " is neither retained nor dropped")); return; }
        // stretch: <= 2k-1 retained edges none heavier
        std::vector<std::vector<std::pair<int,int>>> adj(g.n);
        for (int i = 0; i < g.m(); i++) if (kept[i]) { adj[g.e[i].u].push_back({g.e[i].v, i}); adj[g.e[i].v].push_back({g.e[i].u, i}); }
        unsigned __int128 lim = 2 * (unsigned __int128) k - 1;
        auto hops = [&](int s, int t, double wmax, int skip) { // fewest retained edges of weight <= wmax, -1 unreachable
            std::vector<int> dist(g.n, -1), q{s}; dist[s] = 0;
            for (size_t i = 0; i < q.size(); i++) { int x = q[i]; if (x == t) return dist[x]; for (auto &p : adj[x]) if (p.second != skip && g.e[p.second].w <= wmax && dist[p.first] < 0) { dist[p.first] = dist[x] + 1; q.push_back(p.first); } }
            return dist[t];
        };
        for (int i = 0; i < g.m(); i++) if (!kept[i]) {
            int h = hops(g.e[i].u, g.e[i].v, g.e[i].w, -1);
            if (h < 0 || (unsigned __int128) h > lim) { snprintf(b, sizeof b, "dropped edge %d: no path of at most 2k-1 retained edges none heavier (fewest hops %d)", i, h); w.fail("stretch", b); return; }
            w.count("dropped_edges");
        }
        for (int i = 0; i < g.m(); i++) if (kept[i]) {
            int h = hops(g.e[i].u, g.e[i].v, HUGE_VAL, i);
            if (h >= 0 && (unsigned __int128) (h + 1) <= 2 * (unsigned __int128) k) { snprintf(b, sizeof b, "retained edge %d lies on a retained cycle of %d <= 2k edges", i, h + 1); w.fail("girth", b); return; }
            w.count("retained_edges");
        }
        if (seen.e.size() >= (size_t) g.n && !o.cycles.empty()) w.count("spanners_with_cycles_and_dropped_edges");
    }
    void check(Worker &w, const Case &c) override {
        std::vector<size_t> ks = {1, 2, 3};
        if (c.g.n > 8) { ks.push_back(4); ks.push_back(5); }
        ks.push_back(c.g.n + 1);
        if (c.g.n <= 5 || thorough) { ks.push_back((size_t) 1 << 62); ks.push_back((size_t) 1 << 63); ks.push_back(((size_t) 1 << 63) + 1); ks.push_back(((size_t) 1 << 63) + 2); ks.push_back(~(size_t) 0); ks.push_back(1u << 31); ks.push_back(((size_t) 1 << 31) + 1); ks.push_back(((size_t) 1 << 32) + 1); }
        bool ints = integral_int(c.g);
        for (size_t k : ks) { one<double>(w, c, k); if (ints) one<int>(w, c, k); }
        if (dim(c.g) > 0) w.sample(w.curspace, w.curspace + ": " + encode(c));
    }
    void enumerate(Worker &w) override {
        InputSpaces::corpus_space(w, sp.c1, {0, 1, 2, 3, 4, 5, 7, 8, 9}, "corpus medium", thorough ? 1 << 30 : 200, thorough);
        if (thorough) InputSpaces::corpus_space(w, sp.c2, {0, 2, 4, 9}, "corpus large", 600, false);
        InputSpaces::corpus_space(w, sp.c0, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}, "corpus small", thorough ? 1 << 30 : 60);
        for (int n = 0; n <= 3; n++) InputSpaces::small(w, n, {1, 2, 3, 4});
        InputSpaces::small(w, 4, {1, 2, 3, 4});
        InputSpaces::small(w, 5, {1, 2});
        InputSpaces::presentations(w, 4, {1, 2}, 5, 4);
        sp.classes(w, sp.n6, {1, 2}, "classes n=6 W={1,2}", thorough ? 15 : 9);
        sp.classes(w, sp.n7, {1}, "classes n=7 unit");
        if (thorough) {
            InputSpaces::small(w, 5, {1, 2, 3});
            sp.classes(w, sp.n7, {1, 2}, "classes n=7 W={1,2}", 13);
            InputSpaces::small(w, 6, {1});
            sp.classes(w, sp.n6, {1, 2, 3}, "classes n=6 W={1,2,3}", 10);
        }
    }
};
int main(int argc, char **argv) { H h; return run_main(argc, argv, h); }
