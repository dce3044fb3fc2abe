// Conformance of the scheduler model: traces of the real oneTBB runtime must be executions of the model.
#include <vsched.hpp>
#include <wgraph.hpp>
#include <tbb/tbb.h>
#include <atomic>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <map>
#include <mutex>
#include <set>
#include <thread>

struct Part { bool ident = true; size_t lo = 0, hi = 0; std::string text; bool open = false; };
static std::atomic<int> bad(0); static std::string why; static std::mutex mu;
static void err(const std::string &s) { std::lock_guard<std::mutex> l(mu); if (!bad++) why = s; }
static void spin(int k) { volatile int x = 0; for (int i = 0; i < k * 400; i++) x = x + i; }

int main(int argc, char **argv) {
    std::string out; bool thorough = false;
    for (int i = 1; i < argc; i++) { if (!strcmp(argv[i], "--out")) out = argv[++i]; else if (!strcmp(argv[i], "--tier")) thorough = !strcmp(argv[++i], "thorough"); }
    std::map<int, std::set<std::string>> rp, fp;
    for (int n = 1; n <= 5; n++) { for (auto &s : vs::reduce_plan_texts(n)) rp[n].insert(s); if (n <= 4) for (auto &s : vs::for_plan_texts(n)) fp[n].insert(s); }
    uint64_t traces = 0, exact = 0; std::set<std::string> distinct;
    int reps = thorough ? 1500 : 250;
    for (int par : {1, 2, 4, 8}) {
        tbb::global_control gc(tbb::global_control::max_allowed_parallelism, par);
        for (size_t n : {1, 2, 3, 4, 5, 6, 7, 9, 16, 33, 100, 1000}) for (int rep = 0; rep < (n > 50 ? reps / 10 + 1 : reps); rep++) {
            { // parallel_reduce
                Part r = tbb::parallel_reduce(tbb::blocked_range<size_t>(0, n), Part(),
                    [&](const tbb::blocked_range<size_t> &q, Part v) {
                        if (q.empty()) err("empty sub-range");
                        if (v.ident) { v.ident = false; v.lo = q.begin(); v.text = "("; v.open = true; }
                        else if (v.hi != q.begin()) err("accumulation over non-adjacent sub-ranges");
                        else if (!v.open) { v.text += "("; v.open = true; } // accumulating onto a joined value
                        v.hi = q.end(); v.text += std::to_string(q.begin()) + "-" + std::to_string(q.end()) + ",";
                        spin(1 + (int) ((q.begin() * 7 + rep) % 23));
                        return v;
                    },
                    [&](const Part &a, const Part &b) {
                        if (a.ident || b.ident) { err("join with an identity"); return a.ident ? b : a; }
                        if (a.hi != b.lo) err("join of non-neighbours");
                        Part c; c.ident = false; c.lo = a.lo; c.hi = b.hi; c.open = false;
                        c.text = "[" + a.text + (a.open ? ")" : "") + " " + b.text + (b.open ? ")" : "") + "]";
                        return c;
                    });
                if (r.open) r.text += ")";
                if (r.ident || r.lo != 0 || r.hi != n) err("range not covered");
                if (n <= 5) { if (rp[(int) n].count(r.text)) exact++; else err("trace not in the model: " + r.text); }
                traces++; if (r.text.size() < 400) distinct.insert(r.text);
            }
            { // parallel_for + concurrent_vector::push_back
                tbb::concurrent_vector<std::pair<size_t, size_t>> v; // (task begin, index)
                std::vector<std::pair<size_t, size_t>> order; std::mutex m; std::vector<std::atomic<int>> cover(n);
                for (auto &c : cover) c = 0;
                tbb::parallel_for(tbb::blocked_range<size_t>(0, n), [&](const tbb::blocked_range<size_t> &q) {
                    { std::lock_guard<std::mutex> l(m); order.push_back({q.begin(), q.end()}); }
                    for (size_t i = q.begin(); i != q.end(); ++i) { cover[i]++; spin(1 + (int) ((i * 5 + rep) % 17)); v.push_back({q.begin(), i}); }
                });
                for (auto &c : cover) if (c != 1) err("index not covered exactly once");
                if (v.size() != n) err("push_back lost an element");
                std::map<size_t, size_t> last; for (auto &p : v) { if (last.count(p.first) && last[p.first] >= p.second) err("push_backs of one task out of order"); last[p.first] = p.second; }
                std::string t; for (auto &p : order) t += std::to_string(p.first) + "-" + std::to_string(p.second) + ",";
                if (n <= 4) { if (fp[(int) n].count(t)) exact++; else err("trace not in the model: " + t); }
                traces++; if (t.size() < 400) distinct.insert("F" + t);
            }
        }
    }
    if (tbb::parallel_reduce(tbb::blocked_range<size_t>(0, 0), 7, [](const tbb::blocked_range<size_t>&, int) { return 1; }, [](int, int) { return 2; }) != 7) err("empty range does not yield the identity");
    std::ofstream o(out);
    o << "{\"traces\":" << traces << ",\"in_enumerated_plans\":" << exact << ",\"distinct\":" << distinct.size() << ",\"bad\":" << bad.load() << ",\"why\":\"" << why << "\",\"samples\":[";
    int k = 0; for (auto &s : distinct) if (s.size() > 12 && k < 4) o << (k++ ? "," : "") << "\"" << s.substr(0, 120) << "\"";
    o << "]}\n";
    return bad ? 1 : 0;
}
