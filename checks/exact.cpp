// C01 / C02: every exact sequential entry point on every presentation of the bounded input space.
#include <judge.hpp>
#include <inputs.hpp>
using namespace vf;
namespace vf {
#define DECL(a) void a##_d(const Built<double>&, Out&); void a##_i(const Built<int>&, Out&);
DECL(mcb_sva_signed) DECL(mcb_sva_fvs_trees) DECL(mcb_sva_iso_trees)
}
struct Alg { const char *name; void (*d)(const Built<double>&, Out&); void (*i)(const Built<int>&, Out&); };
static const Alg ALGS[] = { {"mcb_sva_signed", mcb_sva_signed_d, mcb_sva_signed_i}, {"mcb_sva_fvs_trees", mcb_sva_fvs_trees_d, mcb_sva_fvs_trees_i}, {"mcb_sva_iso_trees", mcb_sva_iso_trees_d, mcb_sva_iso_trees_i} };

struct H : Harness {
    InputSpaces sp; Oracle oracle; bool thorough;
    void prepare(const Options &o) override { thorough = o.thorough(); sp.prepare(o.replay.empty() ? 8 : 0); }
    template<class W> void one(Worker &w, const Case &c, void (*f)(const Built<W>&, Out&), const char *name, const char *wt, int d, const Mcb<double> &opt) {
        char b[64]; snprintf(b, sizeof b, "%s<%s>", name, wt); w.sub(b);
        Out o;
        {
            Built<W> bg(c);
            try { f(bg, o); } catch (const std::exception &e) { o.threw = true; o.what = e.what(); } catch (...) { o.threw = true; o.what = "non-std exception"; }
        }
        std::string err;
#if PROP == 1
        err = basis_error(c.g, d, o);
        if (!err.empty()) w.fail("not-a-basis", err);
#else
        err = optimum_error(c.g, opt, o);
        if (!err.empty()) w.fail("not-optimal", err);
#endif
        w.count("executions");
        if (d > 0) w.count("executions_with_cycles");
        if (w.slot->cases % 64 == 0) w.distinct("outcomes(1/64)", hash_out(o));
    }
    void check(Worker &w, const Case &c) override {
        int d = dim(c.g);
        Mcb<double> opt;
#if PROP == 2
        opt = oracle.mcb<double>(c.g);
#endif
        bool ints = integral_int(c.g);
        for (auto &a : ALGS) {
            one<double>(w, c, a.d, a.name, "double", d, opt);
            if (ints) one<int>(w, c, a.i, a.name, "int", d, opt);
        }
        if (d > 0 && w.samples.size() < 12) w.sample(w.curspace, w.curspace + ": " + encode(c));
        if (d >= c.g.n) w.count("states_with_dim>=n");
        w.maxima["max_dim"] = std::max(w.maxima["max_dim"], (double) d);
        w.maxima["max_m"] = std::max(w.maxima["max_m"], (double) c.g.m());
    }
    void enumerate(Worker &w) override {
        double e30 = 1 + std::ldexp(1.0, -30);
        if (thorough) {
            InputSpaces::corpus_space(w, sp.c2, {0, 1, 2, 5, 9}, "corpus large", 1 << 30, false);
            InputSpaces::corpus_space(w, sp.c1, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}, "corpus medium");
        } else {
            InputSpaces::corpus_space(w, sp.c2, {0, 4}, "corpus large", 270, false);
            InputSpaces::corpus_space(w, sp.c1, {0, 4, 9}, "corpus medium", 1 << 30, false);
        }
        InputSpaces::corpus_space(w, sp.c0, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}, "corpus small", thorough ? 1 << 30 : 60);
        for (int n = 0; n <= 3; n++) InputSpaces::small(w, n, {1, 2, 3, 4});
        InputSpaces::small(w, 4, {1, 2, 3});
        InputSpaces::small(w, 5, {1, 2});
        InputSpaces::presentations(w, 4, {1}, 6, 5);
        InputSpaces::presentations(w, 4, {1, 2}, 5, 0);
        sp.classes(w, sp.n6, {1}, "classes n=6 unit"); 
        sp.classes(w, sp.n6, {1, 2}, "classes n=6 W={1,2}", thorough ? 15 : 9);
        sp.classes(w, sp.n7, {1}, "classes n=7 unit");
        InputSpaces::small(w, 4, {1, e30, 2});
        if (thorough) {
            InputSpaces::small(w, 4, {1, 2, 3, 4, 5, 7});
            InputSpaces::small(w, 4, {1, 1000000, 1.5, e30});
            InputSpaces::presentations(w, 4, {1, 2}, 6, 5);
            InputSpaces::presentations(w, 5, {1}, 6, 5);
            sp.classes(w, sp.n8, {1}, "classes n=8 unit");
            sp.classes(w, sp.n6, {1, e30}, "classes n=6 near ties");
            sp.classes(w, sp.n7, {1, 2}, "classes n=7 W={1,2}", 13);
            sp.classes(w, sp.n6, {1, 2, 3}, "classes n=6 W={1,2,3}", 10);
            InputSpaces::small(w, 6, {1});
            InputSpaces::small(w, 5, {1, 2, 3});
            InputSpaces::small(w, 5, {2, e30, 1});
            InputSpaces::small(w, 6, {1, 2});
        }
    }
};
int main(int argc, char **argv) { H h; return run_main(argc, argv, h); }
