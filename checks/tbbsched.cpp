// C03: the TBB entry points under the controlled scheduler.
//  default build  - explores schedules (base policies x choice sequences with at most D deviations), judges every outcome
//  VF_RACE        - instrumented build: one execution per base policy with logically parallel tasks kept apart; reports conflicting accesses
//  VF_REAL        - the real runtime, several worker counts
#include <judge.hpp>
#include <inputs.hpp>
#ifndef VF_REAL
#include <vsched.hpp>
#else
#include <tbb/global_control.h>
#endif
using namespace vf;
namespace vf {
#define DECL(a) void a##_d(const Built<double>&, Out&); void a##_i(const Built<int>&, Out&);
DECL(mcb_sva_signed_tbb) DECL(mcb_sva_fvs_trees_tbb) DECL(mcb_sva_iso_trees_tbb)
#define DECLA(a) void a##_d(const Built<double>&, size_t, int, Out&); void a##_i(const Built<int>&, size_t, int, Out&);
DECLA(approx_mcb_sva_signed_tbb) DECLA(approx_mcb_sva_fvs_trees_tbb) DECLA(approx_mcb_sva_iso_trees_tbb)
}
struct Alg { const char *name; void (*d)(const Built<double>&, Out&); void (*i)(const Built<int>&, Out&); };
static const Alg ALGS[] = { {"mcb_sva_signed_tbb", mcb_sva_signed_tbb_d, mcb_sva_signed_tbb_i}, {"mcb_sva_fvs_trees_tbb", mcb_sva_fvs_trees_tbb_d, mcb_sva_fvs_trees_tbb_i}, {"mcb_sva_iso_trees_tbb", mcb_sva_iso_trees_tbb_d, mcb_sva_iso_trees_tbb_i} };
struct AAlg { const char *name; void (*d)(const Built<double>&, size_t, int, Out&); void (*i)(const Built<int>&, size_t, int, Out&); };
static const AAlg AALGS[] = { {"approx_mcb_sva_signed_tbb", approx_mcb_sva_signed_tbb_d, approx_mcb_sva_signed_tbb_i}, {"approx_mcb_sva_fvs_trees_tbb", approx_mcb_sva_fvs_trees_tbb_d, approx_mcb_sva_fvs_trees_tbb_i}, {"approx_mcb_sva_iso_trees_tbb", approx_mcb_sva_iso_trees_tbb_d, approx_mcb_sva_iso_trees_tbb_i} };

#ifndef VF_REAL
namespace vf { int control(int); int outcome(int); }
static void selftest() {
    using vs::X; char b[120];
#ifdef VF_RACE
    vs::mon_enabled = true; X.fine = true; X.policy = 1;
    for (int c : {0, 1, 2, 3, 4, 10, 11, 12, 13, 14, 15, 16, 17}) {
        vs::mon_reset(); vs::det_begin(); control(c); vs::det_end();
        bool r = !vs::mon_report().empty();
        if (r != (c >= 10)) { fprintf(stderr, "self-test: monitor control %d: %s\n", c, r ? vs::mon_report().c_str() : "race not reported"); exit(7); }
    }
    vs::mon_reset(); vs::mon_enabled = false; X.fine = false;
#else
    int want[] = {4, 24, 4, 0};
    for (int c = 0; c < 3; c++) {
        std::set<int> seen; X.reset(); X.policy = 0; X.maxdev = 3;
        do { X.begin(); vs::det_begin(); int r = outcome(c); vs::det_end(); seen.insert(r); } while (X.next());
        if ((int) seen.size() < want[c]) { snprintf(b, sizeof b, "self-test: explorer control %d reached %zu outcomes of %d\n", c, seen.size(), want[c]); fputs(b, stderr); exit(7); }
    }
    X.reset();
#endif
}
#else
static void selftest() {}
#endif
struct H : Harness {
    InputSpaces sp; Oracle oracle; bool thorough;
#ifdef VF_REAL
    std::unique_ptr<tbb::global_control> gc;
#endif
    void prepare(const Options &o) override { selftest(); thorough = o.thorough(); sp.prepare(o.replay.empty() ? 7 : 0); }
    std::string judge(const WGraph &g, int d, size_t k, const Mcb<double> &opt, const Out &o) {
        std::string err = basis_error(g, d, o);
        if (!err.empty()) return err;
        if (k == 0) return optimum_error(g, opt, o);
        char b[200]; double sum = 0; for (auto &c : o.cycles) sum += cycle_weight<double>(g, c);
        if (sum != o.ret) { snprintf(b, sizeof b, "returned %.17g but the emitted cycles weigh %.17g", o.ret, sum); return b; }
        double f = 2.0 * k - 1;
        if (sum > f * opt.weight || sum < opt.weight) { snprintf(b, sizeof b, "basis weight %.17g outside [optimum, (2k-1) x optimum], k=%zu, optimum %.17g", sum, k, opt.weight); return b; }
        return "";
    }
    template<class F> void explore(Worker &w, const Case &c, int D, const std::string &name, size_t k, int d, const Mcb<double> &opt, const F &run) {
#ifdef VF_REAL
        static const int procs[] = {1, 2, 3, 8};
        for (int p : procs) {
            if (p == 3 && !thorough) continue;
            gc.reset(); gc.reset(new tbb::global_control(tbb::global_control::max_allowed_parallelism, p));
            w.sub(name + " real TBB, parallelism " + std::to_string(p));
            Out o; run(o); w.count("executions");
            std::string err = judge(c.g, d, k, opt, o);
            if (!err.empty()) w.fail("contract", err);
        }
#else
        using vs::X;
        uint64_t execs = 0;
        static const int POL[] = {0, 1, 2, 3, 4, 5, 6, 7};
        for (int pol : POL) {
#ifdef VF_RACE
            if (pol != 1 && pol != 2 && pol != 5) continue;
            if (pol != 1 && c.g.m() > 12 && !thorough) continue;
            vs::mon_enabled = true; X.fine = true;
#endif
            for (int pass = 0; pass < 2; pass++) { // the complete set with one deviation, then two deviations up to a cap
            if (pass == 1 && !(D == 2 && (pol == 0 || thorough))) continue;
            X.reset(); X.policy = pol; X.maxdev = pass ? 2 : std::min(D, 1);
            bool more = true; uint64_t before = execs, cap = pass ? (thorough ? 200000 : 5000) : ~0ull;
            while (more) {
                X.begin(); vs::mon_reset();
                Out o;
                snprintf(w.slot->sub, sizeof w.slot->sub, "%s (schedule policy=%d, execution %llu)", name.c_str(), pol, (unsigned long long) execs);
                vs::det_begin(); run(o); vs::det_end();
                execs++; X.executions++;
                w.distinct("schedules(1/16)", (execs & 15) ? 1 : mix(mix(hash_case(c), hash_str(name)), hash_str(X.text())));
                std::string race = vs::mon_report(), err;
                if (!race.empty()) { w.sub(name + " [" + X.text().substr(0, 120) + "]"); w.fail("race", race); }
                err = judge(c.g, d, k, opt, o);
                if (!err.empty()) { w.sub(name + " [" + X.text().substr(0, 150) + "]"); w.fail("contract", err); }
                if (w.casefails > 3) return;
                w.maxima["max_choice_points"] = std::max(w.maxima["max_choice_points"], (double) X.trace.size());
                more = X.maxdev > 0 && X.next();
                if (execs - before > cap) { w.count("cases_schedule_cap_reached"); more = false; }
                if ((execs & 1023) == 0) w.slot->t0 = now();
            }
            }
        }
        w.count("executions", execs); w.counter("executions in " + w.curspace) += execs;
        w.counter("transitions") += X.points; X.points = 0;
#endif
    }
    void check(Worker &w, const Case &c) override {
        int d = dim(c.g), D = 0; bool ints = false; size_t kmax = 2;
        if (c.tag.size() >= 2 && c.tag[0] == 'D') D = c.tag[1] - '0';
        ints = integral_int(c.g) && c.g.n <= 4;
        Mcb<double> opt = oracle.mcb<double>(c.g);
        for (auto &a : ALGS) {
            explore(w, c, D, std::string(a.name) + "<double>", 0, d, opt, [&](Out &o) { Built<double> bg(c); try { a.d(bg, o); } catch (const std::exception &e) { o.threw = true; o.what = e.what(); } catch (...) { o.threw = true; o.what = "?"; } });
            if (ints) explore(w, c, std::min(D, 1), std::string(a.name) + "<int>", 0, d, opt, [&](Out &o) { Built<int> bg(c); try { a.i(bg, o); } catch (const std::exception &e) { o.threw = true; o.what = e.what(); } catch (...) { o.threw = true; o.what = "?"; } });
        }
        for (size_t k = 1; k <= kmax + (c.g.n > 5); k++) for (auto &a : AALGS) {
            explore(w, c, c.g.m() > 7 ? std::min(D, 1) : D, std::string(a.name) + "<double> k=" + std::to_string(k), k, d, opt, [&](Out &o) { Built<double> bg(c); a.d(bg, k, 0, o); });
        }
        if (d > 0) w.sample(w.curspace, w.curspace + ": " + encode(c));
#ifdef VF_RACE
        w.counters["monitored_accesses"] = vs::mon_accesses();
#endif
    }
    void tagged(Worker &w, const WGraph &g, const char *tag, bool desc = false) { Case c; c.g = g; c.tag = tag; w.visit(c, 0); if (desc && g.m() > 1) { c.ptr = 'd'; w.visit(c, 0); } }
    void weighted(Worker &w, const std::vector<WGraph> &reps, const std::vector<double> &W, const char *name, const char *tag, int maxm) {
        w.space(std::string(name) + " " + tag);
        for (auto &r : reps) { if (r.m() > maxm || dim(r) == 0) continue; weightings(r, W, [&](const WGraph &g) { tagged(w, g, tag); }); }
    }
    void corp(Worker &w, const std::vector<std::pair<std::string, WGraph>> &cs, std::vector<int> modes, const char *name, const char *tag, int maxm) {
        w.space(std::string(name) + " " + tag);
        for (auto &p : cs) if (p.second.m() <= maxm) for (int m : modes) tagged(w, fam::reweight(p.second, m), tag, true);
    }
    void enumerate(Worker &w) override {
        std::vector<WGraph> n4 = noniso(4), n5 = noniso(5);
#ifdef VF_RACE
        corp(w, sp.c1, {4}, "corpus medium", "D0", thorough ? 140 : 60);
        corp(w, sp.c0, {0, 4, 9}, "corpus small", "D0", thorough ? 1 << 30 : 40);
        w.space("labelled"); for (int n = 0; n <= 3; n++) labelled(n, {1, 2}, [&](const WGraph &g) { tagged(w, g, "D0", true); });
        labelled(4, {1, 2}, [&](const WGraph &g) { tagged(w, g, "D0", true); });
        weighted(w, n5, {1, 2}, "classes n=5 W={1,2}", "D0", thorough ? 10 : 8);
        weighted(w, sp.n6, {1}, "classes n=6", "D0", 15);
        if (thorough) { weighted(w, sp.n7, {1}, "classes n=7", "D0", 21); weighted(w, sp.n6, {1, 2}, "classes n=6 W={1,2}", "D0", 9); }
#elif defined(VF_REAL)
        corp(w, sp.c1, {0, 4, 9}, "corpus medium", "D0", thorough ? 200 : 130);
        if (thorough) corp(w, sp.c2, {0, 4}, "corpus large", "D0", 600);
        corp(w, sp.c0, {0, 1, 2, 4, 9}, "corpus small", "D0", 1 << 30);
        w.space("labelled"); for (int n = 0; n <= 4; n++) labelled(n, {1, 2}, [&](const WGraph &g) { tagged(w, g, "D0", true); });
        weighted(w, sp.n6, {1}, "classes n=6", "D0", 15);
        weighted(w, sp.n7, {1}, "classes n=7", "D0", 21);
        if (thorough) weighted(w, sp.n6, {1, 2}, "classes n=6 W={1,2}", "D0", 10);
#else
        corp(w, sp.c1, thorough ? std::vector<int>{0, 4, 9} : std::vector<int>{4}, "corpus medium", "D0", thorough ? 200 : 90);
        corp(w, sp.c0, {0, 1, 4, 9}, "corpus small", "D0", 1 << 30);
        corp(w, sp.c0, {0, 4}, "corpus small", "D1", thorough ? 30 : 13);
        w.space("labelled D1"); for (int n = 0; n <= 3; n++) labelled(n, {1, 2, 3}, [&](const WGraph &g) { tagged(w, g, "D2", true); });
        labelled(4, {1, 2}, [&](const WGraph &g) { tagged(w, g, "D1", thorough); });
        weighted(w, n4, {1, 2}, "classes n=4 W={1,2}", "D2", 6);
        weighted(w, n5, {1}, "classes n=5", "D1", 10);
        weighted(w, n5, {1, 2}, "classes n=5 W={1,2}", "D1", thorough ? 10 : 6);
        weighted(w, n5, {1, 2}, "classes n=5 W={1,2}", "D0", 10);
        weighted(w, sp.n6, {1}, "classes n=6", thorough ? "D1" : "D0", 15);
        weighted(w, sp.n6, {1, 2}, "classes n=6 W={1,2}", "D0", thorough ? 11 : 8);
        weighted(w, sp.n7, {1}, "classes n=7", "D0", 21);
        if (thorough) {
            w.space("labelled n=4 |W|=3 D1"); labelled(4, {1, 2, 3}, [&](const WGraph &g) { tagged(w, g, "D1", true); });
            weighted(w, n5, {1}, "classes n=5", "D2", 7);
        }
#endif
    }
};
int main(int argc, char **argv) { H h; return run_main(argc, argv, h); }
