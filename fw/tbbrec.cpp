// Samples TBB's allowed parallelism at every entry of parallel work into the TBB runtime (link with --wrap for each name).
// Included by a harness, or linked into a demo where the totals are written to $VF_REC at exit.
#include <tbb/tbb.h>
#include <atomic>
#include <mutex>
#include <set>
#include <thread>
#include <cstdio>
#include <cstdlib>
#include "tbbrec.hpp"
namespace vf {
namespace {
std::mutex mx; std::set<std::thread::id> &tids() { static auto *s = new std::set<std::thread::id>; return *s; }
std::atomic<size_t> lo{~size_t(0)}, hi{0}, cnt{0};
void thread() { std::lock_guard<std::mutex> l(mx); tids().insert(std::this_thread::get_id()); }
void sample() {
    size_t v = tbb::global_control::active_value(tbb::global_control::max_allowed_parallelism);
    size_t x = lo; while (v < x && !lo.compare_exchange_weak(x, v)) {}
    x = hi; while (v > x && !hi.compare_exchange_weak(x, v)) {}
    cnt++; thread();
}
struct AtExit {
    ~AtExit() {
        const char *p = getenv("VF_REC"); if (!p) return;
        if (FILE *f = fopen(p, "w")) { fprintf(f, "%zu %zu %zu %zu\n", (size_t) cnt, (size_t) lo, (size_t) hi, tids().size()); fclose(f); }
    }
} at_exit;
}
RecTotals rec_totals() { std::lock_guard<std::mutex> l(mx); return RecTotals{cnt, lo, hi, tids().size()}; }
void rec_reset() { std::lock_guard<std::mutex> l(mx); tids().clear(); lo = ~size_t(0); hi = 0; cnt = 0; }
}
#define W(sym, params, args) extern "C" void __real_##sym params; extern "C" void __wrap_##sym params { vf::sample(); __real_##sym args; }
W(_ZN3tbb6detail2r116execute_and_waitERNS0_2d14taskERNS2_18task_group_contextERNS2_12wait_contextES6_, (void *a, void *b, void *c, void *d), (a, b, c, d))
W(_ZN3tbb6detail2r15spawnERNS0_2d14taskERNS2_18task_group_contextE, (void *a, void *b), (a, b))
W(_ZN3tbb6detail2r15spawnERNS0_2d14taskERNS2_18task_group_contextEt, (void *a, void *b, unsigned short c), (a, b, c))
W(_ZN3tbb6detail2r14waitERNS0_2d112wait_contextERNS2_18task_group_contextE, (void *a, void *b), (a, b))
W(_ZN3tbb6detail2r17executeERNS0_2d115task_arena_baseERNS2_13delegate_baseE, (void *a, void *b), (a, b))
W(_ZN3tbb6detail2r17enqueueERNS0_2d14taskEPNS2_15task_arena_baseE, (void *a, void *b), (a, b))
W(_ZN3tbb6detail2r17enqueueERNS0_2d14taskERNS2_18task_group_contextEPNS2_15task_arena_baseE, (void *a, void *b, void *c), (a, b, c))
W(_ZN3tbb6detail2r117parallel_pipelineERNS0_2d118task_group_contextEmRKNS2_11filter_nodeE, (void *a, size_t b, void *c), (a, b, c))
extern "C" void *__real__ZN3tbb6detail2r18allocateERPNS0_2d117small_object_poolEmRKNS2_14execution_dataE(void *a, size_t b, void *c);
extern "C" void *__wrap__ZN3tbb6detail2r18allocateERPNS0_2d117small_object_poolEmRKNS2_14execution_dataE(void *a, size_t b, void *c) { vf::thread(); return __real__ZN3tbb6detail2r18allocateERPNS0_2d117small_object_poolEmRKNS2_14execution_dataE(a, b, c); }
