// DIMACS files, running a demo program, reading what it printed.
#pragma once
#include <runner.hpp>
#include <oracle.hpp>
#include <spaces.hpp>
#include <fcntl.h>
namespace vf {
inline std::string dimacs_text(const WGraph &g, int style) { // 0 plain, 1 comments / a-lines / omitted unit weights / no final newline, 2 blanks and CRLF
    std::string s; char b[128];
    if (style == 1) s += "c generated\n# e 9 9 9\n";
    snprintf(b, sizeof b, style == 2 ? "p sp %d  %d\r\n" : style == 1 ? "p col %d %d\n" : "p edge %d %d\n", g.n, g.m()); s += b;
    for (int i = 0; i < g.m(); i++) {
        auto &e = g.e[i];
        snprintf(b, sizeof b, style == 2 ? "%c  %d\t%d" : "%c %d %d", style == 0 || (style == 1 && i % 2) ? 'e' : 'a', e.u + 1, e.v + 1); s += b;
        if (!(style == 1 && e.w == 1)) { if (e.w == std::floor(e.w) && std::fabs(e.w) < 1e15) snprintf(b, sizeof b, style == 2 ? " %.1f" : " %.0f", e.w); else snprintf(b, sizeof b, " %.17g", e.w); s += b; }
        if (style == 1 && i + 1 == g.m()) break;
        s += style == 2 ? "\r\n" : "\n";
        if (style == 1 && i % 3 == 0) s += "c\n";
    }
    return s;
}
struct Violations { bool loop = false, multi = false, nonpos = false; bool any() const { return loop || multi || nonpos; } };
inline Violations violations(const WGraph &g) {
    Violations v; std::set<std::pair<int,int>> s;
    for (auto &e : g.e) { if (e.u == e.v) v.loop = true; else if (!s.insert({std::min(e.u, e.v), std::max(e.u, e.v)}).second) v.multi = true; if (e.w <= 0) v.nonpos = true; }
    return v;
}
struct Ran { int status = -1; bool hang = false, sig = false; std::string out, err; double secs = 0; };
inline std::string slurp(int fd) { std::string s; char b[4096]; lseek(fd, 0, SEEK_SET); ssize_t k; while ((k = ::read(fd, b, sizeof b)) > 0) s.append(b, k); return s; }
inline Ran run_program(const std::vector<std::string> &args, int fo, int fe, double limit, const std::vector<std::string> &env = {}) {
    Ran r; if (ftruncate(fo, 0) || ftruncate(fe, 0)) {}
    lseek(fo, 0, SEEK_SET); lseek(fe, 0, SEEK_SET);
    double t0 = now();
    pid_t p = fork();
    if (!p) {
        setpgid(0, 0); dup2(fo, 1); dup2(fe, 2); int nul = open("/dev/null", O_RDONLY); dup2(nul, 0);
        rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
        for (auto &e : env) putenv(strdup(e.c_str()));
        std::vector<char*> a; for (auto &x : args) a.push_back(strdup(x.c_str())); a.push_back(nullptr);
        execv(a[0], a.data()); _exit(126);
    }
    int st = 0; useconds_t step = 200;
    for (;;) {
        pid_t q = waitpid(p, &st, WNOHANG);
        if (q == p) break;
        if (now() - t0 > limit) { kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); r.hang = true; break; }
        usleep(step); if (step < 5000) step += step / 2;
    }
    r.secs = now() - t0; r.sig = WIFSIGNALED(st); r.status = r.sig ? WTERMSIG(st) : WEXITSTATUS(st); r.out = slurp(fo); r.err = slurp(fe);
    return r;
}
// every "MCB weight = X" printed
inline std::vector<std::string> printed_weights(const std::string &out) {
    std::vector<std::string> v; const std::string key = "MCB weight = ";
    for (size_t p = out.find(key); p != std::string::npos; p = out.find(key, p + 1)) { size_t q = p + key.size(), e = out.find_first_of(" \n\r\t", q); v.push_back(out.substr(q, e == std::string::npos ? e : e - q)); }
    return v;
}
inline bool ran_algorithm(const std::string &out) { return out.find("MCB weight") != std::string::npos || out.find("cycles:") != std::string::npos || out.find("total cycles") != std::string::npos || out.find("MCB cycles") != std::string::npos; }
inline bool equals_weight(const std::string &s, double w) { char *e; double x = strtod(s.c_str(), &e); return *s.c_str() && !*e && std::fabs(x - w) <= 1e-14 * std::fabs(w); }
}
