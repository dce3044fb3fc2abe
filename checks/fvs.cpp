// C13: greedy_fvs on every presentation of the bounded space.
#include <judge.hpp>
#include <inputs.hpp>
#include <parmcb/parmcb.hpp>
using namespace vf;
struct H : Harness {
    InputSpaces sp; bool thorough;
    void prepare(const Options &o) override { thorough = o.thorough(); sp.prepare(o.replay.empty() ? 8 : 0); }
    void check(Worker &w, const Case &c) override {
        const WGraph &g = c.g;
        GraphD bg(g.n);
        for (auto &e : g.e) boost::add_edge(e.u, e.v, e.w, bg);
        std::vector<boost::graph_traits<GraphD>::vertex_descriptor> f;
        w.sub("greedy_fvs");
        parmcb::greedy_fvs(bg, std::back_inserter(f));
        w.count("executions");
        std::vector<char> in(g.n, 0);
        std::string s; for (auto v : f) s += std::to_string((long long) v) + " ";
        for (auto v : f) {
            if (v >= (size_t) g.n) { w.fail("not-a-vertex", "emitted " + s); return; }
            if (in[v]) { w.fail("twice", "vertex emitted twice: " + s); return; }
            in[v] = 1;
        }
        WGraph r; r.n = g.n; for (auto &e : g.e) if (!in[e.u] && !in[e.v]) r.e.push_back(e);
        if (dim(r) != 0) { w.fail("not-acyclic", "deleting {" + s + "} leaves a cycle"); return; }
        if (dim(g) == 0 && !f.empty()) { w.fail("forest", "emitted {" + s + "} for a forest"); return; }
        if (dim(g) == 0) w.count("forests");
        w.count("emitted_vertices", f.size());
        w.maxima["max_fvs"] = std::max(w.maxima["max_fvs"], (double) f.size());
        if (dim(g) > 0) w.sample(w.curspace, w.curspace + ": " + encode(c));
    }
    // insertion orders: adjacency order of the graph as written, reversed, strided
    void orders(Worker &w, const WGraph &g) {
        Case c; c.g = g; w.visit(c, std::max(1, g.m()));
        if (g.m() > 1) { c.g = reversed_edges(g); w.visit(c); }
        if (g.m() > 3) { c.g = permute_edges(g, stridep(g.m(), std::max(2, g.m() / 2))); w.visit(c); }
    }
    void enumerate(Worker &w) override {
        for (auto *cs : {&sp.c2, &sp.c1, &sp.c0}) {
            w.space("corpus");
            for (auto &p : *cs) {
                orders(w, p.second); orders(w, relabel(p.second, reversal(p.second.n))); orders(w, relabel(p.second, stridep(p.second.n, std::max(2, p.second.n / 3))));
                orders(w, fam::pendant(p.second, 5)); 
            }
        }
        // pendant trees hung on every vertex of every small graph
        w.space("pendant trees");
        for (auto &r : sp.n6) for (int v = 0; v < r.n; v++) for (int len = 1; len <= 3; len++) {
            WGraph g = r; int prev = v; for (int i = 0; i < len; i++) { int x = g.n++; g.add(prev, x); prev = x; } orders(w, g);
            WGraph h = r; for (int i = 0; i < len; i++) { int x = h.n++; h.add(v, x); } orders(w, h);
        }
        for (auto *ns : {&sp.n6, &sp.n7, &sp.n8}) { // several copies / unions / bridges of small graphs
            w.space("classes n=" + std::to_string((*ns)[0].n));
            for (auto &r : *ns) { orders(w, r); orders(w, relabel(r, reversal(r.n))); if (ns == &sp.n6 || thorough) { orders(w, fam::join(r, r)); orders(w, fam::bridged(r, fam::cycle(3))); } }
        }
        for (int n = 0; n <= 6; n++) { w.space("labelled n=" + std::to_string(n)); labelled(n, {1}, [&](const WGraph &g) { orders(w, g); }); }
        w.space("all insertion orders n<=4");
        for (int n = 3; n <= 4; n++) labelled(n, {1}, [&](const WGraph &g) {
            std::vector<int> pi(g.m()); std::iota(pi.begin(), pi.end(), 0);
            do { Case c; c.g = permute_edges(g, pi); w.visit(c); } while (std::next_permutation(pi.begin(), pi.end()));
        });
        w.space("all insertion orders n=5");
        for (auto &r : noniso(5)) {
            std::vector<int> pi(r.m()); std::iota(pi.begin(), pi.end(), 0);
            if (r.m() > (thorough ? 9 : 7)) continue;
            do { Case c; c.g = permute_edges(r, pi); w.visit(c); } while (std::next_permutation(pi.begin(), pi.end()));
        }
        w.space("labelled n=7");
        labelled(7, {1}, [&](const WGraph &g) { Case c; c.g = g; w.visit(c, std::max(1, g.m())); if (thorough) orders(w, g); });
        if (thorough) {
            w.space("classes n=9");
            auto n9 = noniso(9);
            for (auto &r : n9) { orders(w, r); orders(w, relabel(r, reversal(9))); }
        }
    }
};
int main(int argc, char **argv) { H h; return run_main(argc, argv, h); }
