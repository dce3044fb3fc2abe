// C05 / C06: every approximate sequential entry point, every k of the bound, every presentation of the bounded space.
#include <judge.hpp>
#include <inputs.hpp>
using namespace vf;
namespace vf {
#define DECL(a) void a##_d(const Built<double>&, size_t, int, Out&); void a##_i(const Built<int>&, size_t, int, Out&);
DECL(approx_mcb_sva_signed) DECL(approx_mcb_sva_fvs_trees) DECL(approx_mcb_sva_iso_trees)
#ifdef HAVE_MAP
#define DECLM(a) void a##_md(const Built<double>&, size_t, int, Out&);
DECLM(approx_mcb_sva_signed) DECLM(approx_mcb_sva_fvs_trees) DECLM(approx_mcb_sva_iso_trees)
#endif
}
struct Alg { const char *name; void (*d)(const Built<double>&, size_t, int, Out&); void (*i)(const Built<int>&, size_t, int, Out&); };
static const Alg ALGS[] = { {"approx_mcb_sva_signed", approx_mcb_sva_signed_d, approx_mcb_sva_signed_i}, {"approx_mcb_sva_fvs_trees", approx_mcb_sva_fvs_trees_d, approx_mcb_sva_fvs_trees_i}, {"approx_mcb_sva_iso_trees", approx_mcb_sva_iso_trees_d, approx_mcb_sva_iso_trees_i} };
#ifdef HAVE_MAP
static void (*const MALGS[])(const Built<double>&, size_t, int, Out&) = { approx_mcb_sva_signed_md, approx_mcb_sva_fvs_trees_md, approx_mcb_sva_iso_trees_md };
#endif

struct H : Harness {
    InputSpaces sp; Oracle oracle; bool thorough;
    void prepare(const Options &o) override { thorough = o.thorough(); sp.prepare(o.replay.empty() ? (thorough ? 7 : 7) : 0); }
    void judge(Worker &w, const WGraph &g, int d, size_t k, const Mcb<double> &opt, const Out &o) {
        w.count("executions");
        if (k == 0) {
#if PROP == 6
            if (!o.threw) w.fail("k0-accepted", "k = 0 was not rejected");
            else if (!o.cycles.empty()) w.fail("k0-emitted", "k = 0 was rejected after emitting " + std::to_string(o.cycles.size()) + " cycles");
#endif
            return;
        }
        char b[300];
#if PROP == 5
        std::string err = basis_error(g, d, o);
        if (!err.empty()) { w.fail("not-a-basis", err); return; }
        double sum = 0; for (auto &c : o.cycles) sum += cycle_weight<double>(g, c);
        if (sum != o.ret) { snprintf(b, sizeof b, "returned %.17g but the emitted cycles weigh %.17g", o.ret, sum); w.fail("wrong-weight", b + ("; cycles " + show(o.cycles))); }
#else
        if (o.threw) { w.fail("threw", "threw: " + o.what); return; }
        if (!ids_ok(g, o)) { w.fail("foreign", "emitted cycle uses an edge that is not an edge of the input graph"); return; }
        double sum = 0; for (auto &c : o.cycles) sum += cycle_weight<double>(g, c);
        double f = 2.0 * (double) k - 1;
        // one basis element per dimension is needed for the weight to be that of a basis
        if ((int) o.cycles.size() != d) { w.fail("not-a-basis", "emitted " + std::to_string(o.cycles.size()) + " cycles, dimension " + std::to_string(d)); return; }
        if (sum > f * opt.weight) { snprintf(b, sizeof b, "emitted weight %.17g exceeds (2k-1) x optimum = %g x %.17g", sum, f, opt.weight); w.fail("bound", b + ("; cycles " + show(o.cycles))); }
        if (sum < opt.weight) { snprintf(b, sizeof b, "emitted weight %.17g is below the optimum %.17g", sum, opt.weight); w.fail("below-optimum", b); }
        if (o.ret > f * opt.weight || o.ret < opt.weight) { snprintf(b, sizeof b, "returned weight %.17g outside [%.17g, %g x optimum]", o.ret, opt.weight, f); w.fail("returned", b); }
        if (k > 1 && sum > opt.weight) w.count("executions_above_optimum");
#endif
        if (d > 0) w.count("executions_with_cycles");
    }
    void check(Worker &w, const Case &c) override {
        const WGraph &g = c.g; int d = dim(g);
        Mcb<double> opt;
#if PROP == 6
        opt = oracle.mcb<double>(g);
#endif
        bool ints = integral_int(g);
        std::vector<size_t> ks = {1, 2, 3};
        if (g.n > 8) ks.push_back(4);
        ks.push_back(g.n + 1);
        if (PROP == 6) ks.push_back(0);
        if (g.n <= 5 || thorough) { ks.push_back((size_t) 1 << 63); ks.push_back(((size_t) 1 << 63) + 1); ks.push_back(~(size_t) 0); ks.push_back((size_t) 1 << 62); }
        if (thorough && g.n > 8) { ks.push_back(5); ks.push_back(6); ks.push_back(10); }
        bool slots = w.replaying || thorough || (hash_case(c) >> 50) % 4 == 0, maps = w.replaying || thorough || (hash_case(c) >> 50) % 4 == 1;
        for (size_t k : ks) for (int a = 0; a < 3; a++) {
            char b[96];
            snprintf(b, sizeof b, "%s<double> k=%zu", ALGS[a].name, k); w.sub(b);
            { Built<double> bg(c); Out o; ALGS[a].d(bg, k, 0, o); judge(w, g, d, k, opt, o); }
            if (ints) { snprintf(b, sizeof b, "%s<int> k=%zu", ALGS[a].name, k); w.sub(b); Built<int> bg(c); Out o; ALGS[a].i(bg, k, 0, o); judge(w, g, d, k, opt, o); }
            if (slots) { snprintf(b, sizeof b, "%s<double> k=%zu, positional output iterator", ALGS[a].name, k); w.sub(b); Built<double> bg(c); Out o; ALGS[a].d(bg, k, 1, o); judge(w, g, d, k, opt, o); }
#ifdef HAVE_MAP
            if (maps) { snprintf(b, sizeof b, "%s<double> k=%zu, caller-owned weight map", ALGS[a].name, k); w.sub(b); Built<double> bg(c); Out o; MALGS[a](bg, k, 0, o); judge(w, g, d, k, opt, o); }
#endif
        }
        if (d > 0) w.sample(w.curspace, w.curspace + ": " + encode(c));
    }
    void enumerate(Worker &w) override {
        if (thorough) {
            InputSpaces::corpus_space(w, sp.c2, {0, 4}, "corpus large", 600, false);
            InputSpaces::corpus_space(w, sp.c1, {0, 1, 2, 3, 4, 5, 9}, "corpus medium");
        } else InputSpaces::corpus_space(w, sp.c1, {0, 4, 9}, "corpus medium", 120, false);
        InputSpaces::corpus_space(w, sp.c0, thorough ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9} : std::vector<int>{0, 2, 4, 9}, "corpus small", thorough ? 1 << 30 : 40);
        for (int n = 0; n <= 3; n++) InputSpaces::small(w, n, {1, 2, 3, 4});
        InputSpaces::small(w, 4, {1, 2, 3});
        InputSpaces::small(w, 5, {1});
        InputSpaces::presentations(w, 4, {1}, 6, thorough ? 5 : 4);
        sp.classes(w, sp.n6, {1}, "classes n=6 unit");
        sp.classes(w, sp.n6, {1, 2}, "classes n=6 W={1,2}", thorough ? 15 : 7);
        sp.classes(w, sp.n7, {1}, "classes n=7 unit");
        if (thorough) {
            InputSpaces::small(w, 4, {1, 2, 3, 5});
            InputSpaces::small(w, 5, {1, 2});
            InputSpaces::small(w, 4, {1, 1000000, 1.5});
            InputSpaces::presentations(w, 4, {1, 2}, 5, 0);
            sp.classes(w, sp.n6, {1, 3}, "classes n=6 W={1,3}", 10);
            sp.classes(w, sp.n7, {1, 2}, "classes n=7 W={1,2}", 10);
            InputSpaces::small(w, 5, {1, 2, 3});
            InputSpaces::small(w, 6, {1});
        }
    }
};
int main(int argc, char **argv) { H h; return run_main(argc, argv, h); }
