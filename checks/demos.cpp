// C11 (PROP=11): every file of the bounded space through every demo program and option combination, one process each.
// C20 (PROP=20): the same programs linked with a recorder of TBB's allowed parallelism.
// Case: graph of the file; tag = "<style> <level> <part> <parts>": the slice of the option product.
#include "demos.hpp"
#include <judge.hpp>
#include <inputs.hpp>
using namespace vf;
#ifndef PROP
#define PROP 11
#endif
typedef std::vector<std::string> Args;
static std::string join(const Args &a) { std::string s; for (auto &x : a) s += x + " "; return s; }
struct H : Harness {
    InputSpaces sp; Oracle oracle; bool thorough = false; std::string dir; int fo = -1, fe = -1; std::string file, rec;
    void prepare(const Options &o) override {
        thorough = o.thorough(); if (o.replay.empty()) sp.prepare(6);
        char b[4096]; ssize_t k = readlink("/proc/self/exe", b, sizeof b - 1); b[k] = 0; dir = std::string(b).substr(0, std::string(b).rfind('/'));
    }
    void files(const Case &c, int style) {
        if (fo < 0) { fo = memfd_create("out", 0); fe = memfd_create("err", 0); file = dir + "/f" + std::to_string(getpid()) + ".txt"; rec = dir + "/r" + std::to_string(getpid()) + ".txt"; }
        std::ofstream o(file, std::ios::binary); o << dimacs_text(c.g, style);
    }
    void finish(Worker &) override { if (fo >= 0) { unlink(file.c_str()); unlink(rec.c_str()); } }
    Ran go(Worker &w, const char *prog, Args a, const Args &env = {}) {
        w.sub(std::string(prog) + " " + join(a)); w.slot->t0 = now();
        // the file is given by position first, or by either form of the option last (an optional value would take a later position)
        size_t f = hash_str(join(a)) % 3;
        a.insert(a.begin(), dir + "/" + prog);
        if (f == 0) a.insert(a.begin() + 1, file); else if (f == 1) a.push_back("--input-file=" + file); else { a.push_back("-I"); a.push_back(file); }
        w.count("executions"); w.count((std::string("runs:") + prog).c_str());
        return run_program(a, fo, fe, 25, env);
    }
    static std::string how(const Ran &r) { return r.hang ? "does not terminate" : r.sig ? "killed by signal " + std::to_string(r.status) : "exit status " + std::to_string(r.status); }
    static std::string tail(const std::string &s) { std::string t = s.substr(0, 160); for (auto &x : t) if (x == '\n') x = '|'; return t; }
    static std::vector<Args> product(const std::vector<std::vector<Args>> &dims) {
        std::vector<Args> r{{}};
        for (auto &d : dims) { std::vector<Args> n; for (auto &x : r) for (auto &o : d) { Args y = x; y.insert(y.end(), o.begin(), o.end()); n.push_back(y); } r.swap(n); }
        return r;
    }
    int part = 0, parts = 1;
    std::vector<Args> slice(const std::vector<Args> &a) { std::vector<Args> r; for (size_t i = 0; i < a.size(); i++) if ((int) ((i * 7919) % parts) == part || i == 0) r.push_back(a[i]); return r; }
    std::vector<std::vector<Args>> dims(bool approx, int level) {
        std::vector<std::vector<Args>> d;
        std::vector<Args> alg{{}, {"--signed=false", "--fvstrees=true"}, {"--signed=false"}}, par{{}, {"--parallel=false"}}, verb{{}}, pc{{}}, cores{{}}, k{{}};
        if (level >= 1) { alg.push_back({"--signed=false", "--isotrees=true"}); cores.push_back({"--cores=2"}); if (approx) k = {{}, {"--k=3"}}; }
        if (level >= 2) { alg = {}; for (auto s : {"--signed=true", "--signed=false", ""}) for (auto f : {"--fvstrees=true", "--fvstrees=false", ""}) for (auto i : {"--isotrees=true", "--isotrees=false", ""}) { Args a; for (std::string x : {s, f, i}) if (!x.empty()) a.push_back(x); alg.push_back(a); }
            par.push_back({"--parallel=true"}); verb = {{}, {"--verbose"}, {"-v"}}; pc = {{}, {"--printcycles"}}; cores = {{}, {"--cores=0"}, {"--cores=1"}, {"--cores", "3"}}; if (approx) k = {{}, {"--k=2"}, {"--k=3"}, {"--k=1000"}}; }
        return {alg, par, verb, pc, cores, k};
    }
    void check(Worker &w, const Case &c) override {
        int style = 0, level = 0; part = 0; parts = 1; sscanf(c.tag.c_str(), "%d %d %d %d", &style, &level, &part, &parts);
        files(c, style);
        Violations v = violations(c.g);
        if (PROP == 20) { knob(w, c, level); return; }
        if (v.any()) {
            for (bool approx : {false, true}) {
                auto d = dims(approx, std::min(level, 1));
                for (auto &a : product(d)) { rejected(w, approx ? "approx-mcb-dimacs" : "mcb-dimacs", a, v); if (w.casefails > 2) return; }
            }
            for (auto &a : std::vector<Args>{{}, {"-v"}}) rejected(w, "collection-stats-dimacs", a, v);
            w.count("rejected_files"); return;
        }
        double opt = oracle.mcb<double>(c.g).weight; std::string first;
        for (bool approx : {false, true}) for (auto &a : slice(product(dims(approx, level)))) {
            const char *prog = approx ? "approx-mcb-dimacs" : "mcb-dimacs"; double k = 2;
            for (auto &x : a) if (x.find("--k=") == 0) k = atof(x.c_str() + 4);
            Ran r = go(w, prog, a);
            if (r.hang || r.sig || r.status) { w.fail("exit", "valid file: " + how(r) + ": " + tail(r.err)); if (w.casefails > 2) return; continue; }
            auto ws = printed_weights(r.out);
            if (ws.size() != 1) { w.fail("report", std::to_string(ws.size()) + " weights printed: " + tail(r.out)); return; }
            if (!approx) {
                if (!equals_weight(ws[0], opt)) { char b[120]; snprintf(b, sizeof b, "printed weight %s, the minimum cycle basis weighs %.17g", ws[0].c_str(), opt); w.fail("weight", b); return; }
                if (first.empty()) first = ws[0];
                if (ws[0] != first) { w.fail("differs", "printed " + ws[0] + ", another option combination prints " + first); return; }
            } else {
                char *e; double x = strtod(ws[0].c_str(), &e);
                if (*e || x < opt * (1 - 1e-14) || x > (2 * k - 1) * opt * (1 + 1e-14)) { char b[160]; snprintf(b, sizeof b, "printed weight %s, outside [%.17g, %.17g]", ws[0].c_str(), opt, (2 * k - 1) * opt); w.fail("weight", b); return; }
            }
            w.maxima["max_seconds"] = std::max(w.maxima["max_seconds"], r.secs);
        }
        Ran r = go(w, "collection-stats-dimacs", {});
        if (r.hang || r.sig || r.status) w.fail("exit", "valid file: " + how(r) + ": " + tail(r.err));
        w.count("accepted_files");
        if (opt > 0) w.sample(w.curspace, w.curspace + ": " + encode(c));
    }
    void rejected(Worker &w, const char *prog, const Args &a, const Violations &v) {
        Ran r = go(w, prog, a);
        std::string why = std::string(v.loop ? "self-loop " : "") + (v.multi ? "parallel edges " : "") + (v.nonpos ? "non-positive weight " : "");
        if (r.hang) w.fail("hang", "file with " + why + "does not terminate");
        else if (r.sig) w.fail("exit", "file with " + why + ": " + how(r) + ": " + tail(r.err));
        else if (r.status == 0) w.fail("exit", "file with " + why + "accepted: " + tail(r.out));
        else if (r.err.empty() && r.out.empty()) w.fail("diagnostic", "file with " + why + "rejected without a diagnostic");
        else if (ran_algorithm(r.out)) w.fail("ran", "file with " + why + "rejected after running an algorithm: " + tail(r.out));
    }
    // C20: allowed parallelism seen by every entry into the TBB runtime
    void knob(Worker &w, const Case &, int level) {
        for (bool approx : {false, true}) {
            const char *prog = approx ? "approx-mcb-dimacs" : "mcb-dimacs";
            std::vector<Args> cores; for (int n : {1, 2, 3, 5, 8, 13}) { cores.push_back({"--cores=" + std::to_string(n)}); if (level) cores.push_back({"--cores", std::to_string(n)}); }
            std::vector<Args> verb{{}, {"--verbose"}}, pc{{}}, alg{{}, {"--signed=false", "--fvstrees=true"}, {"--signed=false", "--isotrees=true"}, {"--signed=false"}}, par{{}, {"--parallel=true"}}, k{{}};
            if (level) { verb = {{}, {"-v"}, {"--verbose=false"}, {"--verbose=true"}}; pc = {{}, {"--printcycles"}, {"--printcycles=false"}}; par.push_back({"-p", "true"}); alg.push_back({"--signed=true", "--fvstrees=true"}); if (approx) k = {{}, {"--k=3"}}; }
            auto all = slice(product({alg, par, verb, pc, k, cores}));
            for (auto &a : all) {
                unlink(rec.c_str());
                size_t want = 0; for (size_t i = 0; i < a.size(); i++) if (a[i].find("--cores") == 0) want = a[i].size() > 8 ? atoi(a[i].c_str() + 8) : atoi(a[i + 1].c_str());
                Ran r = go(w, prog, a, {"VF_REC=" + rec});
                if (r.hang || r.sig || r.status) { w.count("runs_without_result"); continue; }   // C11 judges that
                FILE *f = fopen(rec.c_str(), "r"); size_t n = 0, lo = 0, hi = 0, th = 0;
                if (!f || fscanf(f, "%zu %zu %zu %zu", &n, &lo, &hi, &th) != 4) { if (f) fclose(f); w.count("runs_without_record"); continue; }
                fclose(f);
                if (!n) { w.count("runs_without_parallel_work"); continue; }
                w.counters["samples"] += n; w.maxima["max_threads"] = std::max(w.maxima["max_threads"], (double) th);
                if (lo != want || hi != want) { w.fail("limit", "allowed parallelism during the run is " + std::to_string(lo) + (lo != hi ? ".." + std::to_string(hi) : "") + ", --cores asked for " + std::to_string(want)); if (w.casefails > 2) return; }
                else if (th > want) { w.fail("threads", std::to_string(th) + " threads took part, --cores asked for " + std::to_string(want)); if (w.casefails > 2) return; }
                w.sample(prog, w.slot->sub);
            }
        }
    }
    void put(Worker &w, const WGraph &g, int style, int level) {
        int n = level == 2 ? 101 : PROP == 20 ? (level ? 61 : 5) : 1;
        for (int i = 0; i < n; i++) { Case c; c.g = g; c.tag = std::to_string(style) + " " + std::to_string(level) + " " + std::to_string(i) + " " + std::to_string(n); w.visit(c); }
    }
    void enumerate(Worker &w) override {
        if (PROP == 20) {
            w.space("demo options");
            WGraph k5 = fam::complete(5), k7 = fam::complete(7);
            put(w, k5, 0, 0); if (thorough) put(w, k5, 0, 1); else put(w, fam::cycle(4), 0, 1); put(w, k7, 0, 0); put(w, fam::cycle(3), 0, 0); put(w, fam::reweight(k7, 4), 1, 0);
            for (auto &p : sp.c0) if (p.second.m() <= 30 && dim(p.second) >= 3) { if (thorough) put(w, p.second, 0, 0); }
            return;
        }
        // all option combinations
        w.space("option product");
        WGraph house; house.n = 5; house.add(0, 1, 2); house.add(1, 2, 1); house.add(2, 3, 1); house.add(3, 0, 3); house.add(0, 2, 2); house.add(1, 4, 1); house.add(4, 2, 1);
        put(w, house, 0, 2); if (thorough) put(w, fam::complete(4), 2, 2);
        put(w, fam::cycle(3), 1, thorough ? 2 : 1); put(w, house, 2, 1);
        // rejected: every multigraph with n<=2, m<=2 and n=3, m<=3 (one weight violation)
        w.space("rejected files");
        int sty = 0;
        auto multis = [&](int n, int m, const std::vector<double> &W) {
            std::vector<WEdge> A; for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) for (double x : W) A.push_back({u, v, x});
            WGraph g; g.n = n;
            std::function<void(int, size_t)> rec = [&](int k, size_t from) { if (violations(g).any()) put(w, g, sty++ % 3, 0); if (!k) return; for (size_t i = from; i < A.size(); i++) { g.e.push_back(A[i]); rec(k - 1, i); g.e.pop_back(); } };
            rec(m, 0);
        };
        multis(1, 2, {1, 0, -2}); multis(2, 2, {1, 0}); multis(3, 2, {1, -1}); multis(2, 3, {1}); if (thorough) { multis(3, 2, {1, 0, -1, 0.5}); multis(3, 3, {1}); multis(2, 3, {1, 0, -0.25}); }
        { // a violation somewhere in a larger valid file
            WGraph base = fam::complete(5);
            for (int kind = 0; kind < 7; kind++) for (int pos : {0, 4, 9}) {
                WGraph g = base; WEdge e = g.e[pos]; WEdge bad = kind == 0 ? WEdge{e.u, e.u, 1} : kind == 1 ? WEdge{e.v, e.u, 2} : WEdge{e.u, e.v, 3};
                if (kind <= 2) { g.e.push_back(bad); put(w, g, pos % 3, 1); std::rotate(g.e.begin(), g.e.end() - 1, g.e.end()); put(w, g, 1, 0); continue; }
                g.e[pos].w = kind == 3 ? 0 : kind == 4 ? -1 : kind == 5 ? -0.5 : -1e-9; put(w, g, pos % 3, 0);
                if (kind == 4) { g.e.push_back(WEdge{2, 2, 1}); put(w, g, 0, 0); g.e.push_back(WEdge{0, 1, 1}); put(w, g, 0, 0); }
            }
        }
        // accepted
        w.space("accepted files");
        WGraph e0; put(w, e0, 0, 0); WGraph e1; e1.n = 1; put(w, e1, 1, 0); e1.n = 4; put(w, e1, 0, 0);
        for (int n = 1; n <= 4; n++) for (auto &r : noniso(n)) { put(w, r, sty++ % 3, 0); }
        for (auto &r : noniso(4)) weightings(r, {1, 2}, [&](const WGraph &g) { if (dim(g)) put(w, g, sty++ % 3, 0); });
        for (auto &r : noniso(5)) if (dim(r)) { WGraph g = r; for (int i = 0; i < g.m(); i++) g.e[i].w = 0.25 * (1 + (i * 5) % 7); put(w, g, sty++ % 3, 0); }
        // weights the report has to show exactly
        for (double W : {1234567.0, 12345678.0, 100000.25, 1048576.5, 99999999.0, 123456789012.0, 1e13 + 1, 0.0009765625, 1e6, 1e15 - 1}) { WGraph g = fam::cycle(3); g.e[0].w = W; put(w, g, 0, 0); put(w, g, 1, 0); WGraph h = fam::join(g, fam::cycle(4)); put(w, h, 0, 0); }
        for (auto *cs : {&sp.c0, &sp.c1}) for (auto &p : *cs) if (p.second.m() <= (thorough ? 200 : 60)) { put(w, fam::reweight(p.second, 4), sty++ % 3, 0); if (thorough) put(w, p.second, sty++ % 3, 1); }
    }
};
int main(int argc, char **argv) { H h; return run_main(argc, argv, h); }
