// C04: the MPI entry points with every rank a fiber of one process.
// Explored per graph: communicator size x per-rank address layouts x completion mode and rank order x combination order of every
// reduction x partitions inside the ranks (base policies, and choices on the smallest graphs).
#include <judge.hpp>
#include <inputs.hpp>
#include <builtl.hpp>
#include <vsched.hpp>
#include <vmpi.hpp>
using namespace vf;
namespace vf {
#define DECL(a) void a##_d(const Built<double>&, Out&); void a##_i(const Built<int>&, Out&);
DECL(mcb_sva_signed_mpi) DECL(mcb_sva_fvs_trees_mpi) DECL(mcb_sva_fvs_trees_tbb_mpi) DECL(mcb_sva_iso_trees_mpi) DECL(mcb_sva_iso_trees_tbb_mpi)
#ifdef HAVE_LIST
void mcb_sva_signed_mpi_l(const BuiltL&, Out&);
#endif
int mpi_control(int which, int P, std::string &err);
}
struct Alg { const char *name; void (*d)(const Built<double>&, Out&); void (*i)(const Built<int>&, Out&); };
#define A(a) {#a, a##_d, a##_i}
static const Alg ALGS[] = { A(mcb_sva_signed_mpi), A(mcb_sva_fvs_trees_mpi), A(mcb_sva_fvs_trees_tbb_mpi), A(mcb_sva_iso_trees_mpi), A(mcb_sva_iso_trees_tbb_mpi) };
typedef std::vector<std::vector<int>> Layouts;   // per rank: address order of the edges (empty: ascending)

static void selftest() {
    for (int P = 1; P <= 4; P++) for (int w = 0; w < 8; w++) for (int eager = 0; eager < 2; eager++) {
        vmpi::conf.eager = eager; std::string e; mpi_control(w, P, e);
        bool want = w >= 3 && P > 1;
        if (want != !e.empty()) { fprintf(stderr, "self-test: control program %d on %d ranks: %s\n", w, P, e.empty() ? "no error reported" : e.c_str()); exit(7); }
    }
    size_t want[] = {1, 2, 12, 120};
    for (int n = 1; n <= 4; n++) if (vmpi::combine_plans(n, true).size() != want[n - 1]) { fprintf(stderr, "self-test: combination orders\n"); exit(7); }
}
struct H : Harness {
    InputSpaces sp; Oracle oracle; bool thorough = false;
    void prepare(const Options &o) override { selftest(); thorough = o.thorough(); sp.prepare(o.replay.empty() ? 7 : 0); }
    std::string judge(const WGraph &g, int d, const Mcb<double> &opt, const std::vector<Out> &o) {
        std::string e = basis_error(g, d, o[0]);
        if (e.empty()) e = optimum_error(g, opt, o[0]);
        if (!e.empty()) return "rank 0: " + e;
        for (size_t r = 1; r < o.size(); r++) if (!o[r].cycles.empty()) return "rank " + std::to_string(r) + " emits " + std::to_string(o[r].cycles.size()) + " cycles";
        return "";
    }
    static std::string describe(const vmpi::Config &cf, const Layouts &L) {
        std::string s = "P=" + std::to_string(cf.size) + (cf.eager ? " eager" : " sync") + (cf.order ? " desc" : " asc") + " base=" + std::to_string(cf.base) + " layouts=";
        for (auto &p : L) { s += p.empty() ? "a" : ""; for (size_t i = 0; i < p.size() && i < 8; i++) s += (i ? "," : "") + std::to_string(p[i]); s += '/'; }
        return s.substr(0, 110);
    }
    template<class B, class F> bool one(Worker &w, const Case &c, const char *name, const vmpi::Config &cf, const Layouts &L, int policy, int dev, bool plans, int d, const Mcb<double> &opt, const F &alg) {
        using vs::X; X.reset(); X.policy = policy; X.maxdev = dev; X.plans = plans; X.yields = plans;
        bool more = true; int fails = 0; uint64_t n = 0;
        std::string head = std::string(name) + " " + describe(cf, L) + " policy=" + std::to_string(policy);
        while (more) {
            X.begin(); w.sub(head);
            std::vector<Out> outs(cf.size); std::string err;
            {
                std::vector<std::unique_ptr<B>> gs;
                for (int r = 0; r < cf.size; r++) { Case k; k.g = c.g; const auto &p = L[r % L.size()]; if (!p.empty()) { k.ptr = 'p'; k.perm = p; } gs.emplace_back(new B(k)); }
                err = vmpi::run(cf, [&](int r) { alg(*gs[r], outs[r]); });
                while (!gs.empty()) gs.pop_back();
            }
            n++;
            if (err.empty()) err = judge(c.g, d, opt, outs);
            if (!err.empty()) {
                if (err.find("not modelled") != std::string::npos) { w.count("not_modelled"); return true; }
                w.sub((head + " " + X.text()).substr(0, 190)); w.fail(err.find("rank 0:") == 0 ? "contract" : "protocol", err); if (++fails > 2) break;
            }
            w.distinct("configurations(1/8)", (n & 7) != 1 ? 1 : mix(mix(hash_case(c), hash_str(head)), hash_str(X.text())));
            more = cf.explore && dev > 0 && X.next();
            if ((n & 255) == 0) w.slot->t0 = now();
        }
        w.count("executions", n); w.counters["transitions"] += X.points; X.points = 0;
        w.counters["collectives"] = vmpi::n_collectives; w.counters["reductions"] = vmpi::n_reduces;
        w.maxima["max_ranks"] = std::max(w.maxima["max_ranks"], (double) cf.size);
        return fails == 0;
    }
    static std::vector<int> rot(int m, int k) { std::vector<int> p(m); for (int i = 0; i < m; i++) p[i] = (i + k) % std::max(1, m); return p; }
    static std::vector<int> rev(int m) { std::vector<int> p(m); for (int i = 0; i < m; i++) p[i] = m - 1 - i; return p; }
    static std::vector<int> zig(int m) { std::vector<int> p(m); for (int i = 0; i < m; i++) p[i] = i % 2 ? m / 2 + i / 2 + (m % 2) : i / 2; return p; }
    // tag: level digit; 0 corpus, 1 base, 2 all layout pairs, 3 choices inside the ranks
    void check(Worker &w, const Case &c) override {
        int d = dim(c.g), m = c.g.m(), n = c.g.n, level = c.tag.empty() ? 1 : c.tag[0] - '0';
        Mcb<double> opt = oracle.mcb<double>(c.g); bool ints = integral_int(c.g);
        std::vector<std::vector<int>> base = {{}, rev(m), rot(m, m / 2), zig(m)};
        auto everything = [&](const char *name, auto tag, const auto &alg, bool shallow) {
            typedef typename std::decay<decltype(*tag)>::type B;
            auto go = [&](int P, const Layouts &L, bool eager, int order, int b, bool explore, int pol, int dev, bool plans) {
                vmpi::Config cf; cf.size = P; cf.eager = eager; cf.order = order; cf.base = b; cf.explore = explore;
                if (w.casefails < 3) one<B>(w, c, name, cf, L, pol, dev, plans, d, opt, alg);
            };
            uint64_t hsh = hash_case(c); int rr = (int) (hsh % 8);
            std::vector<int> all; for (int p = 1; p <= std::min(n + 1, 10); p++) all.push_back(p); all.push_back(16); all.push_back(m + n + 1);
            std::vector<int> Ps = level == 0 ? all : std::vector<int>{1, 2, 3, 4, 5, 6, 8, n * m + 1};
            if (level == 0 && m > 60) Ps = {2, 3, 5, 7, 24};
            if (shallow) Ps = {1, 2, 3, m + 1};
            for (int P : Ps) {
                if (P > 70) P = 70;
                for (int mode = 0; mode < 2; mode++) {
                    int pol = (rr + P + mode * 3) % 8, b = (P + mode + rr) % 4;
                    go(P, {{}}, mode, mode, b, false, pol, 0, false);
                    if (P > 1 && m > 1) { go(P, {{}, base[1]}, mode, !mode, (b + 1) % 4, false, (pol + 1) % 8, 0, false); if (!shallow) go(P, {base[3], base[2], {}, base[1]}, mode, mode, (b + 2) % 4, false, (pol + 5) % 8, 0, false); }
                    if (P > 1 && m > 1 && level >= 1) go(P, {base[1], {}, base[2]}, mode, mode, (b + 3) % 4, false, (pol + 2) % 8, 0, false);
                }
            }
            if (shallow) return;
            // every combination order, one reduction at a time, then two
            if (level >= 1 && d > 0) for (int P = 2; P <= (thorough ? 4 : 3); P++) go(P, {{}, base[1]}, false, 0, 0, true, rr, level >= 2 && P == 2 ? 2 : 1, false);
            if (level == 0 && m <= 40) go(3, {{}, base[1]}, true, 1, 0, true, rr, 1, false);
            // partitions inside the ranks
            if (level >= 3) for (int pol : {0, 1, 3, 7}) go(2, {{}, base[1]}, pol & 1, 0, 1, true, pol, 1, true);
            if (level >= 2 && m > 1) { // address layouts: all pairs of orders (m <= 3), every order of one rank against the basic ones
                std::vector<std::vector<int>> all; std::vector<int> p(m); std::iota(p.begin(), p.end(), 0);
                if (m <= 5) do all.push_back(p); while (std::next_permutation(p.begin(), p.end()));
                for (auto &x : all) { go(2, {{}, x}, true, 0, 0, false, rr, 0, false); go(2, {x, {}}, true, 1, 1, false, rr, 0, false); }
                if (m <= 3 || (m <= 4 && thorough)) for (auto &x : all) for (auto &y : all) { go(2, {x, y}, false, 0, 0, false, rr, 0, false); }
                if (m <= 3) for (auto &x : all) for (auto &y : all) for (auto &z : all) go(3, {x, y, z}, true, 0, 2, false, rr, 0, false);
                for (auto &x : base) for (auto &y : base) for (auto &z : base) go(3, {x, y, z}, false, 1, 3, false, (rr + 1) % 8, 0, false);
            }
        };
        for (auto &a : ALGS) {
            everything(a.name, (Built<double>*) nullptr, [&](const Built<double> &b, Out &o) { a.d(b, o); }, false);
            if (ints && level > 0) everything((std::string(a.name) + "<int>").c_str(), (Built<int>*) nullptr, [&](const Built<int> &b, Out &o) { a.i(b, o); }, true);
        }
#ifdef HAVE_LIST
        everything("mcb_sva_signed_mpi<listS>", (BuiltL*) nullptr, [&](const BuiltL &b, Out &o) { mcb_sva_signed_mpi_l(b, o); }, level == 0);
#endif
        if (d > 0) w.sample(w.curspace, w.curspace + ": " + encode(c));
    }
    void tagged(Worker &w, const WGraph &g, const char *tag) { Case c; c.g = g; c.tag = tag; w.visit(c, 0); }
    void weighted(Worker &w, const std::vector<WGraph> &reps, const std::vector<double> &W, const char *name, const char *tag, int maxm) {
        w.space(std::string(name) + " level " + tag);
        for (auto &r : reps) { if (r.m() > maxm || dim(r) == 0) continue; weightings(r, W, [&](const WGraph &g) { tagged(w, g, tag); }); }
    }
    void corp(Worker &w, const std::vector<std::pair<std::string, WGraph>> &cs, std::vector<int> modes, const char *name, int maxm) {
        w.space(name);
        for (auto &p : cs) if (p.second.m() <= maxm) for (int m : modes) { WGraph g = fam::reweight(p.second, m); tagged(w, g, "0"); if (g.n <= 9 && (g.m() >= 2 * g.n || thorough)) { tagged(w, relabel(g, reversal(g.n)), "0"); tagged(w, relabel(g, stridep(g.n, std::max(2, g.n / 3))), "0"); } }
    }
    void enumerate(Worker &w) override {
        std::vector<WGraph> n4 = noniso(4), n5 = noniso(5);
        corp(w, sp.c1, thorough ? std::vector<int>{0, 4, 9} : std::vector<int>{4}, "corpus medium", thorough ? 200 : 60);
        corp(w, sp.c0, thorough ? std::vector<int>{0, 1, 4, 9} : std::vector<int>{0, 4, 9}, "corpus small", 1 << 30);
        w.space("labelled n<=3 level 3"); for (int n = 0; n <= 3; n++) labelled(n, {1, 2, 3}, [&](const WGraph &g) { tagged(w, g, "3"); });
        weighted(w, n4, {1, 2}, "classes n=4 W={1,2}", "2", 6);
        weighted(w, n5, {1}, "classes n=5", "2", thorough ? 10 : 7);
        weighted(w, n5, {1, 2}, "classes n=5 W={1,2}", "1", thorough ? 10 : 6);
        w.space("labelled n=4"); labelled(4, {1}, [&](const WGraph &g) { tagged(w, g, "1"); });
        weighted(w, sp.n6, {1}, "classes n=6", thorough ? "1" : "0", 15);
        if (thorough) { labelled(4, {1, 2}, [&](const WGraph &g) { tagged(w, g, "1"); }); weighted(w, n4, {1, 2, 3}, "classes n=4 W={1,2,3}", "3", 6); weighted(w, sp.n7, {1}, "classes n=7", "0", 14); weighted(w, sp.n6, {1, 2}, "classes n=6 W={1,2}", "0", 8); }
    }
};
int main(int argc, char **argv) { H h; return run_main(argc, argv, h); }
