// Forked, sharded, crash- and hang-safe exhaustive runner.
#pragma once
#include "wgraph.hpp"
#include <map>
#include <set>
#include <fstream>
#include <sstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>

namespace vf {

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

inline std::string jstr(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

struct HashSet64 { // open addressing, 0 reserved
    std::vector<uint64_t> t; size_t cnt = 0; bool zero = false;
    HashSet64() : t(1 << 12, 0) {}
    bool insert(uint64_t h) {
        if (!h) { bool r = !zero; zero = true; return r; }
        if (cnt * 2 > t.size()) { std::vector<uint64_t> o(t.size() * 2, 0); o.swap(t); for (uint64_t x : o) if (x) { size_t i = x & (t.size() - 1); while (t[i]) i = (i + 1) & (t.size() - 1); t[i] = x; } }
        size_t i = h & (t.size() - 1);
        while (t[i]) { if (t[i] == h) return false; i = (i + 1) & (t.size() - 1); }
        t[i] = h; cnt++; return true;
    }
};

struct Slot {
    volatile double t0;       // start of the running case, 0 = idle
    volatile uint64_t cases;
    char sub[192];
    char text[1 << 16];
};
struct Shared { volatile int stop; volatile int nfail; Slot slot[16]; };

struct Options {
    std::string tier = "quick", out, replay;
    int workers = 8; long seed = 1; double deadline = 1e9, casetime = 40; int maxfail = 6; std::string only;
    bool thorough() const { return tier == "thorough"; }
};

class Worker;
struct Harness {
    virtual ~Harness() {}
    virtual void prepare(const Options &) {}          // once, before forking
    virtual void enumerate(Worker &w) = 0;            // calls w.visit(case)
    virtual void check(Worker &w, const Case &c) = 0; // calls w.fail on violation
    virtual void finish(Worker &) {}                  // per worker, at the end
};

class Worker {
public:
    int id = 0, nw = 1; Options opt; Harness *h = nullptr; Shared *sh = nullptr; Slot *slot = nullptr;
    bool dedupe = true, replaying = false, capped = false;
    std::map<std::string, uint64_t> counters;
    std::map<std::string, double> maxima;
    std::map<std::string, HashSet64> sets;
    std::vector<std::string> samples; std::set<std::string> samplekeys;
    std::vector<std::string> fails; // json
    HashSet64 seen;
    std::string curspace;
    uint64_t *pStates = nullptr, *pTrans = nullptr, *pSpace = nullptr;
    double tstart = now();
    const Case *cur = nullptr; int casefails = 0;

    void space(const std::string &name) { curspace = name; pSpace = &counters["space:" + name]; }
    bool stopping() { return sh->stop || sh->nfail >= opt.maxfail; }
    bool expired() { if (now() - tstart > opt.deadline) { if (!capped) { capped = true; counters["capped_in:" + curspace]++; } return true; } return false; }
    uint64_t &counter(const std::string &s) { return counters[s]; }
    void count(const char *s, uint64_t d = 1) { counters[s] += d; }
    void distinct(const char *s, uint64_t hsh) { sets[s].insert(hsh); }
    void sample(const std::string &key, const std::string &s) { if (samples.size() < 12 && samplekeys.insert(key).second) samples.push_back(s.size() > 220 ? s.substr(0, 220) + "..." : s); }
    void sub(const char *s) { size_t k = std::min(strlen(s), sizeof slot->sub - 1); memcpy(slot->sub, s, k); slot->sub[k] = 0; }
    void sub(const std::string &s) { sub(s.c_str()); }

    bool mine(uint64_t hsh) { return (hsh >> 17) % nw == (uint64_t) id; }
    void visit(const Case &c, uint64_t trans = 1) {
        if (stopping() || capped) return;
        uint64_t hsh = hash_case(c);
        if (!mine(hsh)) return;
        counters["transitions"] += trans;
        if (dedupe && !seen.insert(hsh)) return;
        if ((slot->cases & 63) == 0 && expired()) return;
        counters["states"]++;
        if (pSpace) ++*pSpace;
        run(c);
    }
    void run(const Case &c) {
        cur = &c; casefails = 0;
        std::string t = encode(c);
        { size_t k = std::min(t.size(), sizeof slot->text - 1); memcpy(slot->text, t.data(), k); slot->text[k] = 0; }
        slot->sub[0] = 0;
        slot->t0 = now();
        try { h->check(*this, c); }
        catch (const std::exception &e) { fail("exception", std::string("uncaught ") + e.what()); }
        catch (...) { fail("exception", "uncaught non-std exception"); }
        slot->t0 = 0; slot->cases = slot->cases + 1;
        cur = nullptr;
    }
    void fail(const std::string &kind, const std::string &detail) {
        if (++casefails > 4) return;
        __sync_fetch_and_add(&sh->nfail, 1);
        std::string t = cur ? encode(*cur) : std::string(slot->text);
        fails.push_back("{\"case\":" + jstr(t) + ",\"sub\":" + jstr(slot->sub) + ",\"kind\":" + jstr(kind) + ",\"detail\":" + jstr(detail) + ",\"space\":" + jstr(curspace) + "}");
        if (replaying) { printf("FAIL kind=%s sub=%s detail=%s\n", kind.c_str(), slot->sub, detail.c_str()); fflush(stdout); }
        else flush();
    }
    void flush() {
        std::string p = opt.out + ".w" + std::to_string(id);
        std::ofstream o(p + ".tmp");
        for (auto &f : fails) o << "F " << f << "\n";
        for (auto &c : counters) o << "C " << c.second << " " << c.first << "\n";
        for (auto &c : maxima) o << "M " << c.second << " " << c.first << "\n";
        for (auto &c : sets) o << "C " << c.second.cnt + c.second.zero << " distinct:" << c.first << "\n";
        for (auto &s : samples) o << "S " << jstr(s) << "\n";
        o << "X " << (capped ? 1 : 0) << "\n";
        o.close();
        rename((p + ".tmp").c_str(), p.c_str());
    }
};

inline int run_main(int argc, char **argv, Harness &h) {
    Options o;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") o.tier = val(); else if (a == "--out") o.out = val(); else if (a == "--seed") o.seed = atol(val().c_str());
        else if (a == "--workers") o.workers = atoi(val().c_str()); else if (a == "--deadline") o.deadline = atof(val().c_str());
        else if (a == "--casetime") o.casetime = atof(val().c_str()); else if (a == "--replay") o.replay = val(); else if (a == "--only") o.only = val();
        else { fprintf(stderr, "bad option %s\n", a.c_str()); return 3; }
    }
    if (o.workers > 16) o.workers = 16;
    Shared *sh = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    h.prepare(o);
    if (!o.replay.empty()) {
        std::ifstream in(o.replay); std::string line; std::getline(in, line);
        Worker w; w.opt = o; w.h = &h; w.sh = sh; w.slot = &sh->slot[0]; w.replaying = true; w.opt.maxfail = 1 << 30;
        w.run(decode(line));
        printf("replay %s: %s\n", w.fails.empty() ? "clean" : "FAILED", line.c_str());
        return w.fails.empty() ? 0 : 1;
    }
    double T0 = now();
    std::vector<pid_t> pid(o.workers);
    fflush(stdout); fflush(stderr);
    for (int i = 0; i < o.workers; i++) {
        unlink((o.out + ".w" + std::to_string(i)).c_str());
        pid[i] = fork();
        if (pid[i] == 0) {
            Worker w; w.id = i; w.nw = o.workers; w.opt = o; w.h = &h; w.sh = sh; w.slot = &sh->slot[i];
            if (!freopen((o.out + ".log" + std::to_string(i)).c_str(), "w", stdout)) {}
            int rc = 0;
            try { h.enumerate(w); h.finish(w); }
            catch (const std::exception &e) { fprintf(stderr, "worker error: %s\n", e.what()); rc = 9; }
            w.flush();
            fflush(nullptr);
            _exit(rc);
        }
    }
    std::vector<std::string> extra; int broken = 0, alive = o.workers;
    std::vector<bool> done(o.workers, false);
    while (alive > 0) {
        for (int i = 0; i < o.workers; i++) {
            if (done[i]) continue;
            int st; pid_t r = waitpid(pid[i], &st, WNOHANG);
            Slot &s = sh->slot[i];
            const double t0 = s.t0; // read once: the worker clears and sets it concurrently
            if (r == pid[i]) {
                done[i] = true; alive--;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
                if (s.t0 != 0) {
                    std::string why = WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit status " + std::to_string(WEXITSTATUS(st));
                    extra.push_back("{\"case\":" + jstr(s.text) + ",\"sub\":" + jstr(s.sub) + ",\"kind\":\"crash\",\"detail\":" + jstr("process ended with " + why) + "}");
                    __sync_fetch_and_add(&sh->nfail, 1);
                    sh->stop = 1;
                } else { broken++; fprintf(stderr, "worker %d ended abnormally, status %x\n", i, st); }
            } else if (t0 != 0 && now() - t0 > o.casetime && s.t0 == t0) {
                kill(pid[i], SIGKILL); waitpid(pid[i], &st, 0);
                done[i] = true; alive--;
                extra.push_back("{\"case\":" + jstr(s.text) + ",\"sub\":" + jstr(s.sub) + ",\"kind\":\"hang\",\"detail\":\"case still running after " + std::to_string((int) o.casetime) + " s\"}");
                __sync_fetch_and_add(&sh->nfail, 1);
                sh->stop = 1;
            }
        }
        usleep(5000);
    }
    std::map<std::string, uint64_t> cnt; std::map<std::string, double> mx; std::vector<std::string> fails(extra), samples; int capped = 0;
    for (int i = 0; i < o.workers; i++) {
        std::string p = o.out + ".w" + std::to_string(i);
        std::ifstream in(p); std::string line; int ns = 0;
        while (std::getline(in, line)) {
            if (line[0] == 'F') fails.push_back(line.substr(2));
            else if (line[0] == 'C') { std::istringstream ss(line.substr(2)); uint64_t v; ss >> v; std::string k; std::getline(ss, k); cnt[k.substr(1)] += v; }
            else if (line[0] == 'M') { std::istringstream ss(line.substr(2)); double v; ss >> v; std::string k; std::getline(ss, k); k = k.substr(1); mx[k] = std::max(mx.count(k) ? mx[k] : v, v); }
            else if (line[0] == 'S') { if (ns++ < 3 && samples.size() < 12) samples.push_back(line.substr(2)); }
            else if (line[0] == 'X') capped |= line[2] == '1';
        }
        unlink(p.c_str()); 
    }
    std::ofstream out(o.out);
    out << "{\"wall\":" << now() - T0 << ",\"broken\":" << broken << ",\"capped\":" << (capped || sh->stop ? "true" : "false") << ",\"counters\":{";
    bool f = true; for (auto &c : cnt) { out << (f ? "" : ",") << jstr(c.first) << ":" << c.second; f = false; }
    out << "},\"maxima\":{"; f = true; for (auto &c : mx) { out << (f ? "" : ",") << jstr(c.first) << ":" << c.second; f = false; }
    out << "},\"failures\":["; f = true; for (auto &x : fails) { out << (f ? "" : ",") << x; f = false; }
    out << "],\"samples\":["; f = true; for (auto &x : samples) { out << (f ? "" : ",") << x; f = false; }
    out << "]}\n";
    out.close();
    if (broken) return 3;
    return fails.empty() ? 0 : 1;
}

} // namespace vf
