// C20: every sequence of calls up to a depth, each from a fresh process; the model is the last value set.
// Case tag: actions separated by ','.  aN / bN: set N from one of two translation units, tN: set N on another thread,
// L0..L5: library call, p: parallel loop of the caller, g: a control object of the caller comes and goes.
#include <runner.hpp>
#include <judge.hpp>
#include <built.hpp>
#include <tbbrec.hpp>
#include <tbb/tbb.h>
#include <thread>
using namespace vf;
namespace vf {
#define DECL(a) void a##_d(const Built<double>&, Out&);
DECL(mcb_sva_signed_tbb) DECL(mcb_sva_fvs_trees_tbb) DECL(mcb_sva_iso_trees_tbb)
#undef DECL
#define DECL(a) void a##_d(const Built<double>&, size_t, int, Out&);
DECL(approx_mcb_sva_signed_tbb) DECL(approx_mcb_sva_fvs_trees_tbb) DECL(approx_mcb_sva_iso_trees_tbb)
void set_from_a(size_t); void set_from_b(size_t);
}
static size_t active() { return tbb::global_control::active_value(tbb::global_control::max_allowed_parallelism); }
struct H : Harness {
    bool thorough = false; Case kcase; size_t deflt = 0;
    void prepare(const Options &o) override { thorough = o.thorough(); WGraph g; g.n = 9; for (int u = 0; u < 9; u++) for (int v = u + 1; v < 9; v++) if ((u * v + u) % 3) g.add(u, v, 1 + (u + v) % 4); kcase.g = g; }
    static std::vector<std::string> split(const std::string &s) { std::vector<std::string> r; std::stringstream ss(s); std::string x; while (std::getline(ss, x, ',')) r.push_back(x); return r; }
    // in the child; returns "" or the violation
    std::string play(const std::vector<std::string> &seq, uint64_t &samples) {
        size_t limit = 0, nsets = 0; Built<double> b(kcase);
        auto look = [&](const char *when, size_t v, const std::string &a) -> std::string { return limit && v != limit ? std::string("allowed parallelism ") + when + " " + a + " is " + std::to_string(v) + ", last set to " + std::to_string(limit) : std::string(); };
        rec_reset();
        for (auto &a : seq) {
            size_t n = a.size() > 1 ? atol(a.c_str() + 1) : 0; std::string e;
            RecTotals r0 = rec_totals();
            if (a[0] == 'a') { set_from_a(n); limit = n; nsets++; }
            else if (a[0] == 'b') { set_from_b(n); limit = n; nsets++; }
            else if (a[0] == 't') { std::thread([&] { set_from_a(n); }).join(); limit = n; nsets++; }
            else if (a[0] == 'g') { size_t x; { tbb::global_control gc(tbb::global_control::max_allowed_parallelism, 1); x = active(); } if (limit && x != 1) return "a control object of the caller has no effect"; }
            else {
                if (a[0] == 'L') rec_reset();
                Out o;
                switch (a[0] == 'L' ? n : 99) {
                case 0: mcb_sva_signed_tbb_d(b, o); break; case 1: mcb_sva_fvs_trees_tbb_d(b, o); break; case 2: mcb_sva_iso_trees_tbb_d(b, o); break;
                case 3: approx_mcb_sva_signed_tbb_d(b, 2, 0, o); break; case 4: approx_mcb_sva_fvs_trees_tbb_d(b, 2, 0, o); break; case 5: approx_mcb_sva_iso_trees_tbb_d(b, 2, 0, o); break;
                default: tbb::parallel_for(0, 64, [](int) { std::this_thread::yield(); });
                }
                RecTotals t = rec_totals(); if (a[0] == 'L') samples += t.count;
                if (a[0] == 'L' && limit && t.count) {
                    e = look("during", t.lo, a); if (e.empty()) e = look("during", t.hi, a);
                    if (e.empty() && nsets == 1 && seq[0][0] != 'L' && seq[0][0] != 'p' && t.threads > limit) e = std::to_string(t.threads) + " threads took part in " + a + ", limit " + std::to_string(limit);
                    if (!e.empty()) return e;
                }
            }
            e = look("after", active(), a); if (!e.empty()) return e;
            if (a[0] != 'L') { size_t v = 0; std::thread([&] { v = active(); }).join(); e = look("on another thread after", v, a); if (!e.empty()) return e; }
        }
        return "";
    }
    void check(Worker &w, const Case &c) override {
        std::vector<std::string> seq = split(c.tag);
        w.sub("set_global_tbb_concurrency");
        int p[2]; if (pipe(p)) { w.fail("harness", "pipe"); return; }
        pid_t pid = fork();   // the runtime is never touched before this point
        if (!pid) {
            close(p[0]); uint64_t s = 0; std::string e;
            try { e = play(seq, s); } catch (const std::exception &x) { e = std::string("exception ") + x.what(); }
            std::string m = std::to_string(s) + " " + e; if (write(p[1], m.data(), m.size())) {}
            _exit(0);
        }
        close(p[1]); std::string m; char b[512]; ssize_t k; while ((k = ::read(p[0], b, sizeof b)) > 0) m.append(b, k);
        close(p[0]); int st; waitpid(pid, &st, 0);
        w.count("executions");
        if (m.empty() || !WIFEXITED(st)) { w.fail("crash", "the sequence ends with status " + std::to_string(st)); return; }
        size_t sp = m.find(' '); w.counters["samples_in_library_calls"] += atoll(m.c_str());
        if (sp + 1 < m.size()) { w.fail("limit", m.substr(sp + 1)); return; }
        w.sample(c.tag.substr(0, 1), c.tag);
    }
    void seqs(Worker &w, const std::vector<std::string> &A, int depth) {
        std::function<void(int, const std::string&)> rec = [&](int k, const std::string &s) {
            if (w.stopping() || w.capped) return;
            if (!s.empty()) { Case c; c.tag = s; w.visit(c); }
            if (k) for (auto &a : A) rec(k - 1, s.empty() ? a : s + "," + a);
        };
        rec(depth, "");
    }
    void enumerate(Worker &w) override {
        std::vector<std::string> all, mid, low{"a1", "b1", "a2", "b4", "t3", "L0"};
        w.space("depth 2, every n up to 64");
        for (int n = 1; n <= 64; n++) { all.push_back("a" + std::to_string(n)); if (n <= 20) { all.push_back("b" + std::to_string(n)); if (n <= 8) all.push_back("t" + std::to_string(n)); } }
        for (auto x : {"L0", "L1", "L2", "L3", "L4", "L5", "p", "g"}) all.push_back(x);
        seqs(w, all, 2);
        w.space("depth 3");
        for (auto x : {"a1", "a2", "a3", "a8", "a16", "b1", "b2", "b5", "t2", "t7", "L0", "L1", "L2", "L3", "L4", "L5", "p", "g"}) mid.push_back(x);
        seqs(w, mid, 3);
        w.space("depth 4"); seqs(w, low, thorough ? 6 : 4);
        if (thorough) { w.space("depth 4, more actions"); std::vector<std::string> m2{"a1", "a2", "a8", "b1", "b3", "b9", "t2", "L0", "L2", "L4", "p", "g"}; seqs(w, m2, 4); }
        w.space("large n before any parallel work");
        for (long n : {65l, 100l, 127l, 128l, 200l, 255l, 256l, 1000l, 65536l, 1000000l}) for (auto s : {"a", "b", "t"}) for (auto q : {"", ",a2", ",b1,a7"}) { Case c; c.tag = s + std::to_string(n) + q; w.visit(c); }
    }
};
int main(int argc, char **argv) { H h; return run_main(argc, argv, h); }
