// C09: exact entry points (sequential and TBB) on weights whose sums are rounded, judged in exact fixed-point arithmetic.
#include <judge.hpp>
#include <inputs.hpp>
#include <tbb/global_control.h>
using namespace vf;
namespace vf {
#define DECL(a) void a##_d(const Built<double>&, Out&);
DECL(mcb_sva_signed) DECL(mcb_sva_fvs_trees) DECL(mcb_sva_iso_trees) DECL(mcb_sva_signed_tbb) DECL(mcb_sva_fvs_trees_tbb) DECL(mcb_sva_iso_trees_tbb)
// every double in [2^-10, 2^10] is a multiple of 2^-62
template<> inline __int128 conv<__int128>(double w) { return (__int128) std::ldexp(w, 62); }
}
struct Alg { const char *name; void (*d)(const Built<double>&, Out&); };
static const Alg SEQ[] = { {"mcb_sva_signed", mcb_sva_signed_d}, {"mcb_sva_fvs_trees", mcb_sva_fvs_trees_d}, {"mcb_sva_iso_trees", mcb_sva_iso_trees_d} };
static const Alg PAR[] = { {"mcb_sva_signed_tbb", mcb_sva_signed_tbb_d}, {"mcb_sva_fvs_trees_tbb", mcb_sva_fvs_trees_tbb_d}, {"mcb_sva_iso_trees_tbb", mcb_sva_iso_trees_tbb_d} };

// weight patterns; all values are inside [1e-3, 1e3]
static WGraph dec(WGraph g, int mode) {
    for (int i = 0; i < g.m(); i++) {
        auto &e = g.e[i]; uint64_t h = mix(mix(91 + mode, std::min(e.u, e.v)), std::max(e.u, e.v));
        switch (mode) {
        case 0: e.w = 0.1; break;
        case 1: e.w = (1 + i % 3) * 0.1; break;
        case 2: e.w = (1 + (h & 3)) * 0.1; break;
        case 3: e.w = (1 + h % 9) / 1000.0; break;
        case 4: e.w = (1 + h % 99) / 100.0; break;
        case 5: e.w = 1.0 / (1 + h % 7); break;
        case 6: e.w = (h % 5 == 0) ? 999.9 : (1 + h % 3) * 0.001; break;
        case 7: e.w = (h & 1) ? 0.3 : 0.1 + 0.2; break;                    // one-ulp ties
        case 8: e.w = std::sqrt(2.0 + h % 40); break;
        case 9: e.w = 0.1 * (1 + std::abs(e.u - e.v)); break;               // metric: many equal-length paths
        case 10: e.w = 0.7; break;
        case 11: e.w = std::min(1000.0, std::pow(1.1, (double) (h % 60))) ; break;
        case 12: e.w = (h % 3 == 0) ? 1000.0 / 3 : (h % 3 == 1) ? 0.001 : 2.0 / 3; break;
        case 13: e.w = 0.1 * (1 + (i & 1)); break;
        case 14: { double x = 1 + (double) ((h >> 3) % 1000003) / 1000003.0; e.w = std::ldexp(x, (int) (h % 19) - 9); } break;
        }
    }
    return g;
}
static const int NMODES = 15;

struct H : Harness {
    InputSpaces sp; Oracle oracle; bool thorough, tbb_init = false;
    void prepare(const Options &o) override { thorough = o.thorough(); sp.prepare(o.replay.empty() ? 8 : 0); }
    void one(Worker &w, const Case &c, const Alg &a, int d, const Mcb<__int128> &opt) {
        w.sub(a.name);
        Out o;
        {
            Built<double> bg(c);
            try { a.d(bg, o); } catch (const std::exception &e) { o.threw = true; o.what = e.what(); } catch (...) { o.threw = true; o.what = "non-std exception"; }
        }
        w.count("executions");
        std::string err = basis_error(c.g, d, o);
        if (!err.empty()) { w.fail("not-a-basis", err); return; }
        __int128 sum = 0;
        for (auto &cy : o.cycles) sum += cycle_weight<__int128>(c.g, cy);
        long double S = (long double) sum, O = (long double) opt.weight, R = std::ldexp((long double) o.ret, 62);
        char b[200];
        if (!(std::fabs(R - S) <= 1e-9L * S)) { snprintf(b, sizeof b, "returned %.17g but the emitted cycles weigh %.17Lg", o.ret, std::ldexp(S, -62)); w.fail("weight-mismatch", b); return; }
        long double rel = d ? (S - O) / O : 0;
        if (rel < 0) { w.fail("oracle", "emitted basis lighter than the oracle's optimum"); return; }
        if (rel > 1e-9L) { snprintf(b, sizeof b, "emitted basis weighs %.17Lg, the minimum is %.17Lg (relative error %.3Lg)", std::ldexp(S, -62), std::ldexp(O, -62), rel); w.fail("not-optimal", b + ("; cycles " + show(o.cycles))); }
        if (rel > 0) w.count("executions_off_optimum_within_tolerance");
        if (R != S) w.count("executions_with_rounded_result");
        w.maxima["max_relative_excess"] = std::max(w.maxima["max_relative_excess"], (double) rel);
    }
    std::unique_ptr<tbb::global_control> gc;
    void check(Worker &w, const Case &c) override {
        if (!gc) gc.reset(new tbb::global_control(tbb::global_control::max_allowed_parallelism, 2));
        int d = dim(c.g);
        for (auto &e : c.g.e) if (!(e.w >= 1e-3 && e.w <= 1e3)) { w.fail("oracle", "weight outside the domain"); return; }
        Mcb<__int128> opt = oracle.mcb<__int128>(c.g);
        for (auto &a : SEQ) one(w, c, a, d, opt);
        if (d > 0 && (c.ptr == 'a' || thorough) && (c.g.n >= 6 || w.slot->cases % 8 == 0)) for (auto &a : PAR) one(w, c, a, d, opt);
        if (d > 0) w.sample(w.curspace, w.curspace + ": " + encode(c));
        w.maxima["max_dim"] = std::max(w.maxima["max_dim"], (double) d);
    }
    void corp(Worker &w, const std::vector<std::pair<std::string, WGraph>> &cs, const char *name, int maxm, int nmodes, bool all) {
        w.space(name);
        for (auto &p : cs) {
            if (p.second.m() > maxm) continue;
            for (int mode = 0; mode < nmodes; mode++) {
                WGraph g = dec(p.second, mode);
                InputSpaces::both(w, g);
                if (!all) continue;
                InputSpaces::both(w, relabel(g, reversal(g.n)));
                InputSpaces::both(w, flipped(reversed_edges(g), 1));
                InputSpaces::both(w, relabel(g, stridep(g.n, std::max(2, g.n / 3))));
            }
        }
    }
    void cls(Worker &w, const std::vector<WGraph> &reps, const char *name, std::vector<int> modes) {
        w.space(name);
        for (auto &r : reps) for (int mode : modes) { WGraph g = dec(r, mode); InputSpaces::both(w, g); if (r.n <= 6 || thorough) InputSpaces::both(w, relabel(g, reversal(g.n))); }
    }
    void enumerate(Worker &w) override {
        corp(w, sp.c0, "corpus small", thorough ? 1 << 30 : 60, NMODES, true);
        corp(w, sp.c1, "corpus medium", thorough ? 1 << 30 : 130, thorough ? NMODES : 5, thorough);
        if (thorough) corp(w, sp.c2, "corpus large", 400, 5, false);
        InputSpaces::small(w, 4, {0.1, 0.2, 0.3});
        InputSpaces::small(w, 4, {0.1, 0.3, 0.1 + 0.2});
        InputSpaces::small(w, 4, {0.001, 0.007, 999.9});
        InputSpaces::small(w, 5, {0.1, 0.2});
        InputSpaces::small(w, 5, {0.7});
        sp.classes(w, sp.n6, {0.1, 0.2}, "classes n=6 W={.1,.2}", thorough ? 15 : 10);
        sp.classes(w, sp.n6, {0.3, 0.1 + 0.2}, "classes n=6 W={.3,.1+.2}", thorough ? 13 : 8);
        std::vector<int> all; for (int i = 0; i < NMODES; i++) all.push_back(i);
        cls(w, sp.n6, "classes n=6 x 15 patterns", all);
        cls(w, sp.n7, "classes n=7 x 15 patterns", all);
        if (thorough) {
            cls(w, sp.n8, "classes n=8 x 15 patterns", all);
            InputSpaces::small(w, 5, {0.1, 0.2, 0.3});
            InputSpaces::small(w, 5, {0.1, 0.3, 0.1 + 0.2});
            sp.classes(w, sp.n6, {0.1, 0.2, 0.3}, "classes n=6 W={.1,.2,.3}", 10);
            sp.classes(w, sp.n7, {0.1, 0.2}, "classes n=7 W={.1,.2}", 12);
        } else cls(w, sp.n8, "classes n=8 patterns 0,2,7", {0, 2, 7});
    }
};
int main(int argc, char **argv) { H h; return run_main(argc, argv, h); }
