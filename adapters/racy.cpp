// Positive and negative controls of the access monitor and of the schedule explorer.
#include <tbb/parallel_for.h>
#include <tbb/parallel_reduce.h>
#include <tbb/concurrent_vector.h>
#include <tbb/spin_mutex.h>
#include <atomic>
#include <list>
#include <memory>
#include <set>
#include <vector>
typedef tbb::blocked_range<size_t> R;
namespace vf {
int control(int which) {
    size_t n = 6; std::vector<int> a(n, 0); int total = 0; std::atomic<int> at(0); std::set<int> s; tbb::spin_mutex m; tbb::concurrent_vector<int> cv; std::shared_ptr<int> sp = std::make_shared<int>(3);
    std::vector<double> shared(4, 0.0); std::vector<bool> bits(n, false);
    switch (which) {
    case 0: tbb::parallel_for(R(0, n), [&](const R &r) { for (size_t i = r.begin(); i != r.end(); ++i) a[i] = (int) i; }); break;
    case 1: tbb::parallel_for(R(0, n), [&](const R &r) { for (size_t i = r.begin(); i != r.end(); ++i) at += (int) i; }); break;
    case 2: tbb::parallel_for(R(0, n), [&](const R &r) { for (size_t i = r.begin(); i != r.end(); ++i) { tbb::spin_mutex::scoped_lock l(m); total += (int) i; } }); break;
    case 3: tbb::parallel_for(R(0, n), [&](const R &r) { for (size_t i = r.begin(); i != r.end(); ++i) { std::shared_ptr<int> q = sp; cv.push_back(*q); std::set<int> mine{1, 2}; std::vector<double> d(5, 1.0); } }); break;
    case 4: total = tbb::parallel_reduce(R(0, n), 0, [&](const R &r, int v) { for (size_t i = r.begin(); i != r.end(); ++i) v += a[i]; return v; }, std::plus<int>()); a[0] = total; break;
    // racy from here on
    case 10: tbb::parallel_for(R(0, n), [&](const R &r) { for (size_t i = r.begin(); i != r.end(); ++i) total += (int) i; }); break;
    case 11: tbb::parallel_for(R(0, n), [&](const R &r) { for (size_t i = r.begin(); i != r.end(); ++i) s.insert((int) i); }); break;
    case 12: tbb::parallel_for(R(0, n), [&](const R &r) { for (size_t i = r.begin(); i != r.end(); ++i) std::fill(shared.begin(), shared.end(), 0.0); }); break;
    case 13: tbb::parallel_for(R(0, n), [&](const R &r) { for (size_t i = r.begin(); i != r.end(); ++i) a[i] = i ? a[i - 1] + 1 : 0; }); break;
    case 14: total = tbb::parallel_reduce(R(0, n), 0, [&](const R &r, int v) { for (size_t i = r.begin(); i != r.end(); ++i) if (v >= shared[0]) shared[0] = v; return v; }, [&](int x, int y) { return x + y; }); break;
    case 15: tbb::parallel_for(R(0, n), [&](const R &r) { for (size_t i = r.begin(); i != r.end(); ++i) bits[i] = true; }); break;
    case 16: total = tbb::parallel_reduce(R(0, n), 0, [&](const R &r, int v) { return v + (int) r.size(); }, [&](int x, int y) { a[0]++; return x + y; }); break;
    case 17: tbb::parallel_for(R(0, n), [&](const R &r) { for (size_t i = r.begin(); i != r.end(); ++i) { std::shared_ptr<int> q = sp; sp.reset(new int(4)); } }); break;
    }
    return total;
}
// schedule-dependent outcomes the explorer has to reach: identity counted per run, order of concurrent appends
int outcome(int which) {
    size_t n = 4; tbb::concurrent_vector<int> u, v;
    switch (which) {
    case 0: return tbb::parallel_reduce(R(0, n), 1, [&](const R &r, int x) { return x + (int) r.size(); }, std::plus<int>()); // 5..8 by number of runs
    case 1: tbb::parallel_for(R(0, n), [&](const R &r) { for (size_t i = r.begin(); i != r.end(); ++i) u.push_back((int) i); }); { int x = 0; for (size_t i = 0; i < n; i++) x = x * 4 + u[i]; return x; }
    case 2: tbb::parallel_for(R(0, 2), [&](const R &r) { for (size_t i = r.begin(); i != r.end(); ++i) { u.push_back((int) i); v.push_back((int) i); } }); return u[0] * 8 + u[1] * 4 + v[0] * 2 + v[1];
    default: return tbb::parallel_reduce(R(0, n), std::string(), [&](const R &r, std::string x) { for (size_t i = r.begin(); i != r.end(); ++i) x += (char) ('a' + i); return x; }, [](const std::string &a, const std::string &b) { return "(" + a + b + ")"; }).size() * 1000 + 0;
    }
}
}
