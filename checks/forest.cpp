// C16: ForestIndex on every presentation (numbering, insertion order, address order) of the bounded space.
#include <judge.hpp>
#include <inputs.hpp>
#include <parmcb/parmcb.hpp>
using namespace vf;
struct H : Harness {
    InputSpaces sp; bool thorough;
    void prepare(const Options &o) override { thorough = o.thorough(); sp.prepare(o.replay.empty() ? 8 : 0); }
    void judge(Worker &w, const Case &c, const Built<double> &bg, const parmcb::ForestIndex<GraphD> &fi) {
        const WGraph &g = c.g; int m = g.m(); char b[200];
        int comp = components(g), d = m - g.n + comp;
        if ((long long) fi.weak_connected_components() != comp) { snprintf(b, sizeof b, "reports %lld components, there are %d", (long long) fi.weak_connected_components(), comp); w.fail("components", b); return; }
        if ((long long) fi.cycle_space_dimension() != d) { snprintf(b, sizeof b, "reports dimension %lld, it is %d", (long long) fi.cycle_space_dimension(), d); w.fail("dimension", b); return; }
        std::vector<char> used(m, 0);
        WGraph f; f.n = g.n;
        for (int i = 0; i < m; i++) {
            size_t x = fi(bg.ed[i]);
            if (x >= (size_t) m) { snprintf(b, sizeof b, "edge %d has index %zu, m = %d", i, x, m); w.fail("range", b); return; }
            if (used[x]) { snprintf(b, sizeof b, "index %zu is given to two edges", x); w.fail("not-injective", b); return; }
            used[x] = 1;
            if (bg.idof(fi(x)) != i) { snprintf(b, sizeof b, "index_to_edge(edge_to_index(edge %d)) is edge %d", i, bg.idof(fi(x))); w.fail("not-inverse", b); return; }
            // the same edge as seen from its other endpoint
            auto rev = boost::edge(g.e[i].v, g.e[i].u, bg.g);
            if (!rev.second || fi(rev.first) != x) { snprintf(b, sizeof b, "edge %d has another index when read from its other endpoint", i); w.fail("orientation", b); return; }
            bool on = fi.is_on_forest(bg.ed[i]);
            if (on != (x >= (size_t) d)) { snprintf(b, sizeof b, "edge %d has index %zu, dimension %d, but is reported %s-forest", i, x, d, on ? "on" : "off"); w.fail("is_on_forest", b); return; }
            if (x >= (size_t) d) f.e.push_back(g.e[i]);
        }
        for (int x = 0; x < m; x++) { int i = bg.idof(fi((size_t) x)); if (i < 0 || fi(bg.ed[i]) != (size_t) x) { snprintf(b, sizeof b, "edge_to_index(index_to_edge(%d)) differs", x); w.fail("not-inverse", b); return; } }
        if (dim(f) != 0) { w.fail("forest-cyclic", "the on-forest edges contain a cycle"); return; }
        if (components(f) != comp) { w.fail("forest-not-spanning", "the on-forest edges do not connect every component"); return; }
        if (d > 0 && f.m() > 0) w.count("with_both_kinds");
    }
    void check(Worker &w, const Case &c) override {
        Built<double> bg(c);
        w.sub("ForestIndex(g)");
        parmcb::ForestIndex<GraphD> fi(bg.g);
        w.count("executions");
        judge(w, c, bg, fi);
        w.sub("copy construction"); { parmcb::ForestIndex<GraphD> a(fi); judge(w, c, bg, a); }
        w.sub("assignment"); { GraphD e2(3); boost::add_edge(0, 1, e2); parmcb::ForestIndex<GraphD> a(e2); a = fi; judge(w, c, bg, a); }
        if (dim(c.g) > 0) w.sample(w.curspace, w.curspace + ": " + encode(c));
    }
    void enumerate(Worker &w) override {
        InputSpaces::corpus_space(w, sp.c2, {0}, "corpus large");
        InputSpaces::corpus_space(w, sp.c1, {0}, "corpus medium");
        InputSpaces::corpus_space(w, sp.c0, {0}, "corpus small");
        w.space("isolated-vertex-only"); for (int n = 0; n <= 40; n++) { WGraph g; g.n = n; InputSpaces::both(w, g); }
        for (int n = 0; n <= 6; n++) InputSpaces::small(w, n, {1});
        InputSpaces::presentations(w, 3, {1}, 3, 3);
        InputSpaces::presentations(w, 4, {1}, 6, thorough ? 6 : 5);
        sp.classes(w, sp.n7, {1}, "classes n=7"); sp.classes(w, sp.n8, {1}, "classes n=8");
        w.space("classes n=8 presentations");
        for (auto &r : sp.n8) { InputSpaces::both(w, relabel(r, reversal(8))); InputSpaces::both(w, reversed_edges(r)); InputSpaces::both(w, flipped(r, 0)); InputSpaces::both(w, fam::isolated_front(r, 2)); }
        if (thorough) {
            InputSpaces::presentations(w, 5, {1}, 6, 5);
            w.space("labelled n=7"); labelled(7, {1}, [&](const WGraph &g) { InputSpaces::both(w, g); });
            w.space("unions"); for (auto &r : sp.n6) for (auto &s : sp.n6) InputSpaces::both(w, fam::join(r, s));
        }
    }
};
int main(int argc, char **argv) { H h; return run_main(argc, argv, h); }
