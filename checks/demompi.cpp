// C11: the MPI demo with every rank a fiber: files x options x number of processes x completion mode x rank order x combination orders.
#include "demos.hpp"
#include <judge.hpp>
#include <inputs.hpp>
#include <vsched.hpp>
#include <vmpi.hpp>
using namespace vf;
namespace vf { int mpi_demo(int argc, char **argv); }
typedef std::vector<std::string> Args;
struct H : Harness {
    InputSpaces sp; Oracle oracle; bool thorough = false; int fd = -1; std::string path;
    void prepare(const Options &o) override { thorough = o.thorough(); if (o.replay.empty()) sp.prepare(6); }
    struct Capture { // both streams, restored with default formatting
        std::ostringstream o, e; std::streambuf *so, *se;
        Capture() : so(std::cout.rdbuf(o.rdbuf())), se(std::cerr.rdbuf(e.rdbuf())) { reset(); }
        ~Capture() { std::cout.rdbuf(so); std::cerr.rdbuf(se); reset(); }
        static void reset() { std::ios d(nullptr); std::cout.copyfmt(d); std::cerr.copyfmt(d); std::cout.clear(); std::cerr.clear(); }
    };
    bool one(Worker &w, const Case &c, const Args &a, const vmpi::Config &cf, int policy, int dev, const Violations &v, double opt) {
        using vs::X; X.reset(); X.policy = policy; X.maxdev = dev; X.plans = false; X.yields = false;
        std::string head = "P=" + std::to_string(cf.size) + (cf.eager ? " eager" : " sync") + (cf.order ? " desc" : " asc") + " base=" + std::to_string(cf.base); for (auto &x : a) head += " " + x;
        bool more = true; uint64_t n = 0; int fails = 0;
        while (more) {
            X.begin(); w.sub(head);
            std::vector<int> rc(cf.size, -1); std::string err, out, diag;
            {
                Capture cap;
                err = vmpi::run(cf, [&](int r) {
                    std::vector<std::string> s{"mcb-dimacs-mpi"}; s.insert(s.end(), a.begin(), a.end()); s.push_back("--input-file=" + path);
                    std::vector<char*> p; for (auto &x : s) p.push_back(&x[0]); p.push_back(nullptr);
                    rc[r] = mpi_demo((int) s.size(), p.data());
                });
                out = cap.o.str(); diag = cap.e.str();
            }
            n++;
            if (err.find("not modelled") != std::string::npos) { w.count("not_modelled"); return true; }
            std::string what; bool aborted = err.find("abort(") != std::string::npos && err.find("abort(0)") == std::string::npos;
            if (v.any()) {
                if (!err.empty() && !aborted) what = "rejected file: " + err;
                else if (!aborted) for (int r = 0; r < cf.size; r++) if (rc[r] == 0) { what = "rejected file: rank " + std::to_string(r) + " ends with status 0"; break; }
                if (what.empty() && diag.empty() && out.empty()) what = "rejected file: no diagnostic";
                if (what.empty() && ran_algorithm(out)) what = "rejected file: an algorithm ran";
            } else {
                if (!err.empty()) what = "valid file: " + err;
                for (int r = 0; what.empty() && r < cf.size; r++) if (rc[r] != 0) what = "valid file: rank " + std::to_string(r) + " ends with status " + std::to_string(rc[r]);
                auto ws = printed_weights(out);
                if (what.empty() && ws.empty()) what = "valid file: no weight printed";
                for (auto &x : ws) if (what.empty() && !equals_weight(x, opt)) { char b[120]; snprintf(b, sizeof b, "printed weight %s, the minimum cycle basis weighs %.17g", x.c_str(), opt); what = b; }
            }
            if (!what.empty()) { w.sub((head + " " + X.text()).substr(0, 190)); w.fail("demo", what); if (++fails > 1) break; }
            more = cf.explore && dev > 0 && X.next();
            if ((n & 63) == 0) w.slot->t0 = now();
        }
        w.count("executions", n); w.counters["transitions"] += X.points; X.points = 0;
        w.maxima["max_ranks"] = std::max(w.maxima["max_ranks"], (double) cf.size);
        return fails == 0;
    }
    void check(Worker &w, const Case &c) override {
        int style = 0, level = 0; sscanf(c.tag.c_str(), "%d %d", &style, &level);
        if (fd < 0) { fd = memfd_create("file", 0); path = "/proc/self/fd/" + std::to_string(fd); }
        std::string t = dimacs_text(c.g, style); if (ftruncate(fd, 0) || pwrite(fd, t.data(), t.size(), 0) < 0) {}
        Violations v = violations(c.g); double opt = v.any() ? 0 : oracle.mcb<double>(c.g).weight;
        std::vector<Args> opts{{}, {"--signed=false", "--fvstrees=true"}, {"--signed=false", "--isotrees=true"}};
        if (level) { opts.push_back({"--verbose"}); opts.push_back({"--printcycles"}); opts.push_back({"--signed=false"}); opts.push_back({"--signed=false", "--fvstrees=true", "-v", "--printcycles"}); }
        uint64_t h = hash_case(c);
        for (auto &a : opts) for (int P : {1, 2, 3, 4, 5, 7}) for (int mode = 0; mode < 2; mode++) for (int order = 0; order < 2; order++) {
            vmpi::Config cf; cf.size = P; cf.eager = mode; cf.order = order; cf.base = (h + P + mode) % 4;
            if (!one(w, c, a, cf, (h + P) % 8, 0, v, opt) && w.casefails > 2) return;
            if (level && P == 3 && !v.any() && dim(c.g)) { cf.explore = true; if (!one(w, c, a, cf, h % 8, 1, v, opt) && w.casefails > 2) return; }
        }
        w.count(v.any() ? "rejected_files" : "accepted_files");
        if (!v.any() && opt > 0) w.sample(w.curspace, w.curspace + ": " + encode(c));
    }
    void put(Worker &w, const WGraph &g, int style, int level) { Case c; c.g = g; c.tag = std::to_string(style) + " " + std::to_string(level); w.visit(c, 0); }
    void enumerate(Worker &w) override {
        int sty = 0;
        w.space("rejected files");
        auto multis = [&](int n, int m, const std::vector<double> &W) {
            std::vector<WEdge> A; for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) for (double x : W) A.push_back({u, v, x});
            WGraph g; g.n = n;
            std::function<void(int, size_t)> rec = [&](int k, size_t from) { if (violations(g).any()) put(w, g, sty++ % 3, 0); if (!k) return; for (size_t i = from; i < A.size(); i++) { g.e.push_back(A[i]); rec(k - 1, i); g.e.pop_back(); } };
            rec(m, 0);
        };
        multis(1, 2, {1, 0, -2}); multis(2, 2, {1, 0, -1}); multis(3, 2, {1, -0.5}); if (thorough) { multis(3, 3, {1, 0}); multis(2, 3, {1, 0, -1}); }
        WGraph k5 = fam::complete(5);
        for (int kind = 0; kind < 5; kind++) for (int pos : {0, 4, 9}) { WGraph g = k5; WEdge e = g.e[pos]; if (kind < 3) g.e.insert(g.e.begin() + pos, kind == 0 ? WEdge{e.u, e.u, 1} : kind == 1 ? WEdge{e.v, e.u, 2} : e); else g.e[pos].w = kind == 3 ? 0 : -1; put(w, g, pos % 3, 1); }
        w.space("accepted files");
        for (int n = 0; n <= 4; n++) for (auto &r : noniso(n)) put(w, r, sty++ % 3, 1);
        for (auto &r : noniso(4)) weightings(r, {1, 2}, [&](const WGraph &g) { if (dim(g)) put(w, g, sty++ % 3, thorough); });
        for (auto &r : noniso(5)) if (dim(r)) { WGraph g = r; for (int i = 0; i < g.m(); i++) g.e[i].w = 0.25 * (1 + (i * 5) % 7); put(w, g, sty++ % 3, 1); }
        for (double W : {1234567.0, 100000.25, 99999999.0, 123456789012.0, 1e15 - 1}) { WGraph g = fam::cycle(3); g.e[0].w = W; put(w, g, 0, 0); put(w, fam::join(g, fam::cycle(4)), 0, 0); }
        for (auto &p : sp.c0) if (p.second.m() <= (thorough ? 60 : 24)) put(w, fam::reweight(p.second, 4), sty++ % 3, 0);
    }
};
int main(int argc, char **argv) { H h; return run_main(argc, argv, h); }
