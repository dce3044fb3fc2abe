#include "vsched.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <sys/mman.h>
#include <pthread.h>
#include <malloc.h>

extern "C" char __libc_single_threaded;

namespace vs {

Explorer X;

bool Explorer::next() {
    std::vector<int> nz(trace.size() + 1, 0);
    for (size_t i = 0; i < trace.size(); i++) nz[i + 1] = nz[i] + (trace[i].first != 0);
    for (size_t i = trace.size(); i-- > 0;) {
        if (trace[i].first + 1 < trace[i].second && nz[i] + 1 <= maxdev) {
            prefix.resize(i + 1);
            for (size_t j = 0; j < i; j++) prefix[j] = trace[j].first;
            prefix[i] = trace[i].first + 1;
            return true;
        }
    }
    return false;
}
std::string Explorer::text() const {
    std::string s = "policy=" + std::to_string(policy) + " choices=";
    for (auto &t : trace) { s += std::to_string(t.first); s += '.'; }
    while (s.size() > 2 && s.compare(s.size() - 2, 2, "0.") == 0) s.resize(s.size() - 2);
    return s;
}
void Explorer::parse(const std::string &s) {
    reset();
    size_t p = s.find("policy="); if (p != std::string::npos) policy = atoi(s.c_str() + p + 7);
    p = s.find("choices="); if (p == std::string::npos) return;
    for (p += 8; p < s.size() && isdigit((unsigned char) s[p]);) { prefix.push_back(atoi(s.c_str() + p)); while (p < s.size() && isdigit((unsigned char) s[p])) p++; if (p < s.size() && s[p] == '.') p++; }
}
int choose(int n) {
    Unmonitored u;
    if (n <= 1) return 0;
    size_t i = X.trace.size();
    int c = i < X.prefix.size() ? X.prefix[i] : 0;
    if (c >= n) { fprintf(stderr, "vsched: replay divergence (choice %d of %d)\n", c, n); abort(); }
    X.trace.push_back({c, n});
    X.points++;
    return c;
}

// ---- plans ----
static std::vector<std::vector<int>> compositions(int n) { // all lists of ends
    std::vector<std::vector<int>> r;
    for (int m = 0; m < (1 << (n - 1)); m++) { std::vector<int> e; for (int i = 0; i < n - 1; i++) if (m >> i & 1) e.push_back(i + 1); e.push_back(n); r.push_back(e); }
    return r;
}
// every evaluation of [lo, hi): accumulate a last chunk onto an evaluation of the rest, or join two evaluations
typedef std::vector<RNode> Nodes;
static void append(Nodes &t, const Nodes &o) { int off = (int) t.size(); for (RNode x : o) { if (x.base >= 0) x.base += off; if (x.l >= 0) { x.l += off; x.r += off; } t.push_back(x); } }
static const std::vector<Nodes> &all_nodes(int lo, int hi) {
    static std::map<std::pair<int, int>, std::vector<Nodes>> cache;
    auto it = cache.find({lo, hi});
    if (it != cache.end()) return it->second;
    std::vector<Nodes> r;
    for (int k = lo; k < hi; k++) {
        if (k == lo) { RNode x; x.start = lo; x.ends.push_back(hi); r.push_back({x}); continue; }
        for (auto &t : all_nodes(lo, k)) {
            Nodes u = t;
            if (!u.back().join()) u.back().ends.push_back(hi);
            else { RNode x; x.base = (int) u.size() - 1; x.start = k; x.ends.push_back(hi); u.push_back(x); }
            r.push_back(u);
        }
        for (auto &a : all_nodes(lo, k)) for (auto &b : all_nodes(k, hi)) {
            Nodes u = a; int la = (int) u.size() - 1; append(u, b); RNode j; j.l = la; j.r = (int) u.size() - 1; u.push_back(j);
            r.push_back(u);
        }
    }
    return cache[{lo, hi}] = r;
}
static ReducePlan from_runs(const std::vector<int> &ends, int treekind, int chunk) {
    ReducePlan p; int b = 0;
    for (int e : ends) { RNode x; x.start = b; if (chunk > 0) for (int y = b + chunk; y < e; y += chunk) x.ends.push_back(y); x.ends.push_back(e); p.nodes.push_back(x); b = e; }
    int k = (int) p.nodes.size();
    auto join = [&](int l, int r) { RNode j; j.l = l; j.r = r; p.nodes.push_back(j); return (int) p.nodes.size() - 1; };
    if (k > 1) {
        if (treekind == 0) { std::function<int(int, int)> bal = [&](int lo, int hi) { if (hi - lo == 1) return lo; int m = (lo + hi) / 2; int a = bal(lo, m), c = bal(m, hi); return join(a, c); }; bal(0, k); }
        else if (treekind == 1) { int acc = 0; for (int i = 1; i < k; i++) acc = join(acc, i); }
        else { int acc = k - 1; for (int i = k - 2; i >= 0; i--) acc = join(i, acc); }
    }
    return p;
}
// joined value of the first part, then accumulation of the rest onto it
static ReducePlan onto_join(int c1, int c2, int n) {
    ReducePlan p = from_runs({c1, c2}, 0, 0); RNode x; x.base = (int) p.nodes.size() - 1; x.start = c2; x.ends.push_back(n); p.nodes.push_back(x); return p;
}
static std::vector<int> steps(int n, int s) { std::vector<int> e; for (int x = s; x < n; x += s) e.push_back(x); e.push_back(n); return e; }
static ReducePlan base_reduce(int n, int policy) {
    switch (policy) {
    case 0: return from_runs({n}, 0, 0);
    case 1: return from_runs(steps(n, 1), 0, 0);
    case 2: return from_runs(steps(n, 1), 1, 0);
    case 3: { auto p = from_runs(steps(n, 1), 2, 0); p.rev = true; return p; }
    case 4: return n > 1 ? from_runs({n / 2, n}, 0, 0) : from_runs({n}, 0, 0);
    case 5: return from_runs(steps(n, 3), 0, 2);
    case 6: return from_runs({n}, 0, 1);
    default: { auto p = n > 2 ? onto_join(1, n / 2 > 1 ? n / 2 : 2, n) : from_runs(steps(n, 1), 0, 0); p.rev = true; return p; }
    }
}
static const size_t LARGE = 24;
struct RP { std::vector<ReducePlan> v; };
static RP &reduce_plans(int n, int policy) {
    static std::map<std::pair<int, int>, RP> cache;
    auto it = cache.find({n, policy});
    if (it != cache.end()) return it->second;
    RP &r = cache[{n, policy}];
    r.v.push_back(base_reduce(n, policy));
    if (n <= 5) {
        for (auto &t : all_nodes(0, n)) { ReducePlan p; p.nodes = t; r.v.push_back(p); }
    } else {
        for (int p = 0; p < 8; p++) if (p != policy) r.v.push_back(base_reduce(n, p));
        std::vector<int> cuts; for (int c = 1; c < n; c++) if (n <= (int) LARGE || c <= 3 || c >= n - 3 || c == n / 2 || c == n / 4 || c == 3 * n / 4) cuts.push_back(c);
        for (int c : cuts) { r.v.push_back(from_runs({c, n}, 0, 0)); ReducePlan q = from_runs({n}, 0, 0); q.nodes[0].ends = {c, n}; r.v.push_back(q); }
        for (int c : cuts) if (c + 1 < n) { r.v.push_back(onto_join(c, c + 1, n)); if (c > 1) r.v.push_back(onto_join(1, c, n)); r.v.push_back(from_runs({c, c + 1, n}, 1, 0)); r.v.push_back(from_runs({c, c + 1, n}, 2, 0)); }
    }
    return r;
}
static ForPlan for_plan(std::vector<int> ends, int kind) {
    ForPlan p; p.ends = ends; int k = (int) ends.size();
    for (int i = 0; i < k; i++) p.order.push_back(kind == 1 ? k - 1 - i : i);
    if (kind == 2) { p.order.clear(); for (int i = 1; i < k; i += 2) p.order.push_back(i); for (int i = 0; i < k; i += 2) p.order.push_back(i); }
    return p;
}
static ForPlan base_for(int n, int policy) {
    switch (policy) {
    case 0: return for_plan({n}, 0);
    case 1: return for_plan(steps(n, 1), 0);
    case 2: return for_plan(steps(n, 1), 1);
    case 3: return for_plan(steps(n, 1), 2);
    case 4: return n > 1 ? for_plan({n / 2, n}, 1) : for_plan({n}, 0);
    case 5: return for_plan(steps(n, 2), 2);
    case 6: return for_plan(steps(n, 3), 1);
    default: { ForPlan p = for_plan(steps(n, 1), 0); std::rotate(p.order.begin(), p.order.begin() + n / 2, p.order.end()); return p; }
    }
}
struct FP { std::vector<ForPlan> v; };
static FP &for_plans(int n, int policy) {
    static std::map<std::pair<int, int>, FP> cache;
    auto it = cache.find({n, policy});
    if (it != cache.end()) return it->second;
    FP &r = cache[{n, policy}];
    r.v.push_back(base_for(n, policy));
    if (n <= 4) {
        for (auto &e : compositions(n)) { ForPlan p = for_plan(e, 0); do r.v.push_back(p); while (std::next_permutation(p.order.begin(), p.order.end())); }
    } else {
        for (int p = 0; p < 8; p++) if (p != policy) r.v.push_back(base_for(n, p));
        std::vector<int> cuts; for (int c = 1; c < n; c++) if (n <= (int) LARGE || c <= 3 || c >= n - 3 || c == n / 2) cuts.push_back(c);
        for (int c : cuts) { r.v.push_back(for_plan({c, n}, 0)); r.v.push_back(for_plan({c, n}, 1)); }
        for (int c : cuts) { ForPlan p = for_plan(steps(n, 1), 0); std::swap(p.order[c], p.order[c - 1]); r.v.push_back(p); ForPlan q = for_plan(steps(n, 1), 0); std::rotate(q.order.begin(), q.order.begin() + c, q.order.begin() + c + 1); r.v.push_back(q); }
    }
    return r;
}
const ReducePlan &pick_reduce(size_t n) {
    Unmonitored u;
    if (X.fine) return reduce_plans((int) n, X.policy).v[0];
    RP &r = reduce_plans((int) n, X.policy);
    return r.v[choose(X.maxdev && X.plans ? (int) r.v.size() : 1)];
}
const ForPlan &pick_for(size_t n) {
    Unmonitored u;
    FP &r = for_plans((int) n, X.policy);
    return r.v[X.fine ? 0 : choose(X.maxdev && X.plans ? (int) r.v.size() : 1)];
}
static std::string node_text(const ReducePlan &p, int id) {
    const RNode &x = p.nodes[id];
    if (x.join()) return "[" + node_text(p, x.l) + " " + node_text(p, x.r) + "]";
    std::string s = x.base >= 0 ? node_text(p, x.base) + "(" : "("; int b = x.start;
    for (int e : x.ends) { s += std::to_string(b) + "-" + std::to_string(e) + ","; b = e; }
    return s + ")";
}
std::vector<std::string> reduce_plan_texts(int n) { std::vector<std::string> r; for (auto &p : reduce_plans(n, 0).v) r.push_back(node_text(p, (int) p.nodes.size() - 1)); return r; }
std::vector<std::string> for_plan_texts(int n) { std::vector<std::string> r; for (auto &p : for_plans(n, 0).v) { std::string s; for (int i : p.order) s += std::to_string(i ? p.ends[i - 1] : 0) + "-" + std::to_string(p.ends[i]) + ","; r.push_back(s); } return r; }
std::vector<int> pick_order(size_t n) { return pick_for(n).ends.size() == n ? std::vector<int>(pick_for(n).order) : for_plan(steps((int) n, 1), 0).order; }

// ---- fibers ----
extern "C" void vs_switch(void **from, void *to);
asm(".text\n.globl vs_switch\n.type vs_switch,@function\nvs_switch:\n"
    "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
    "movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
    "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n");
struct Fiber { void *sp = nullptr, *back = nullptr; char *stack = nullptr; size_t size = 0; std::function<void()> fn; bool done = false; Fiber *prev = nullptr; int strand = 0; };
static Fiber *cur = nullptr;
static std::map<size_t, std::vector<char*>> pool;
static void trampoline() {
    cur->fn();
    cur->done = true;
    fiber_suspend();
    abort();
}
Fiber *fiber_current() { return cur; }
Fiber *fiber_new(std::function<void()> fn, size_t size) {
    Fiber *f = new Fiber; f->fn = std::move(fn); f->size = size;
    auto &pl = pool[size];
    if (pl.empty()) {
        char *s = (char*) mmap(nullptr, size + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (s == MAP_FAILED) { perror("mmap"); abort(); }
        mprotect(s, 4096, PROT_NONE);
        f->stack = s;
    } else { f->stack = pl.back(); pl.pop_back(); }
    void **sp = (void**) (f->stack + 4096 + size);
    *--sp = nullptr; *--sp = (void*) trampoline; // return address, aligned so that rsp%16==8 at entry
    for (int i = 0; i < 6; i++) *--sp = nullptr;
    f->sp = sp;
    return f;
}
bool fiber_done(Fiber *f) { return f->done; }
void fiber_resume(Fiber *f) { f->prev = cur; cur = f; vs_switch(&f->back, f->sp); cur = f->prev; }
void fiber_suspend() { Fiber *f = cur; vs_switch(&f->sp, f->back); }
void fiber_free(Fiber *f) { pool[f->size].push_back(f->stack); delete f; }

// ---- strands ----
struct SNode { int parent, depth; bool construct; };
static std::vector<SNode> nodes(1, SNode{-1, 0, false});
static int cur_strand = 0; static int depth_constructs = 0;
bool mon_enabled = false;
static int mon_off = 0;
int strand_new(int parent, bool construct) { Unmonitored u; nodes.push_back(SNode{parent, nodes[parent].depth + 1, construct}); return (int) nodes.size() - 1; }
int strand_cur() { return cur_strand; }
static bool parallel(int a, int b) {
    if (a == b) return false;
    while (a != b) { if (nodes[a].depth >= nodes[b].depth) a = nodes[a].parent; else b = nodes[b].parent; }
    // a is the lowest common ancestor; parallel iff it is a construct (two different children of it)
    return nodes[a].construct;
}
Unmonitored::Unmonitored() { mon_off++; }
Unmonitored::~Unmonitored() { mon_off--; }

// ---- access monitor ----
struct Acc { int strand; unsigned char mask; bool write, atomic; uint64_t locks; void *pc; };
struct Cell { uintptr_t key; unsigned gen; std::vector<Acc> w, r; };
static std::vector<Cell> table; static size_t tcount = 0; static unsigned gen = 1;
static std::string race; static uint64_t accesses = 0;
static std::vector<void*> held; static std::vector<void*> quarantine; static std::vector<Fiber*> deferred;
static Cell &cell(uintptr_t k) {
    if (tcount * 2 >= table.size()) {
        std::vector<Cell> o(std::max<size_t>(1 << 12, table.size() * 2)); o.swap(table); tcount = 0;
        for (auto &c : o) if (c.key && c.gen == gen) { size_t i = (c.key * 0x9e3779b97f4a7c15ULL >> 20) & (table.size() - 1); while (table[i].key) i = (i + 1) & (table.size() - 1); table[i] = std::move(c); tcount++; }
    }
    size_t i = (k * 0x9e3779b97f4a7c15ULL >> 20) & (table.size() - 1);
    while (table[i].key && table[i].gen == gen && table[i].key != k) i = (i + 1) & (table.size() - 1);
    Cell &c = table[i];
    if (!c.key || c.gen != gen) { c.key = k; c.gen = gen; c.w.clear(); c.r.clear(); tcount++; }
    return c;
}
static uint64_t lockset() { uint64_t s = 0; for (void *l : held) s |= 1ULL << (((uintptr_t) l * 0x9e3779b97f4a7c15ULL) >> 58); return s; }
extern "C" char __executable_start;
static void hit(const Acc &a, const Acc &b, uintptr_t addr) {
    if (!race.empty()) return;
    char t[256]; snprintf(t, sizeof t, "conflicting accesses to the same %s object by logically parallel tasks %d (%s at +%#lx) and %d (%s at +%#lx)", addr > 0x7f0000000000ULL ? "stack" : "heap or global", a.strand, a.write ? "write" : "read", (unsigned long) ((char*) a.pc - &__executable_start), b.strand, b.write ? "write" : "read", (unsigned long) ((char*) b.pc - &__executable_start));
    race = t;
}
static void record(uintptr_t g, unsigned char mask, bool write, bool atomic, void *pc) {
    Cell &c = cell(g);
    Acc a{cur_strand, mask, write, atomic, held.empty() ? 0 : lockset(), pc};
    for (auto &x : c.w) if ((x.mask & mask) && !(x.atomic && atomic) && !(x.locks & a.locks) && parallel(x.strand, a.strand)) hit(x, a, g);
    if (write) for (auto &x : c.r) if ((x.mask & mask) && !(x.atomic && atomic) && !(x.locks & a.locks) && parallel(x.strand, a.strand)) hit(x, a, g);
    auto &v = write ? c.w : c.r;
    for (size_t i = v.size(); i-- > 0;) if (v[i].strand == a.strand && v[i].locks == a.locks && v[i].atomic == a.atomic) { v[i].mask |= mask; return; }
    v.push_back(a);
}
static inline void access(void *p, size_t sz, bool write, bool atomic, void *pc) {
    if (!mon_enabled || mon_off || !depth_constructs || !sz) return;
    mon_off++;
    accesses++;
    uintptr_t a = (uintptr_t) p, e = a + sz;
    while (a < e) {
        uintptr_t g = a & ~(uintptr_t) 7; unsigned lo = a - g, hi = e - g > 8 ? 8 : e - g;
        record(g, (unsigned char) (((1u << hi) - 1) & ~((1u << lo) - 1)), write, atomic, pc);
        a = g + 8;
    }
    mon_off--;
}
std::string mon_report() { return race; }
void mon_reset() { race.clear(); }
uint64_t mon_accesses() { return accesses; }
void lock_acquire(void *l) { Unmonitored u; held.push_back(l); }
void lock_release(void *l) { Unmonitored u; for (size_t i = held.size(); i-- > 0;) if (held[i] == l) { held.erase(held.begin() + i); break; } }
void misuse(const std::string &what) { Unmonitored u; if (race.empty()) race = what; }

// memory released inside a construct is not reused before its end (a real run could hold it apart)
bool mon_free(void *p) {
    if (!mon_enabled || !depth_constructs || !p || mon_off) return false;
    access(p, malloc_usable_size(p), true, false, __builtin_return_address(0));
    mon_off++; quarantine.push_back(p); mon_off--;
    return true;
}

Construct::Construct() { Unmonitored u; if (depth_constructs == 0) { nodes.resize(1); nodes[0] = SNode{-1, 0, false}; cur_strand = 0; } id = strand_new(cur_strand, true); depth_constructs++; }
Construct::~Construct() {
    Unmonitored u;
    if (--depth_constructs == 0) {
        gen++; tcount = 0;
        if (gen == 0) { table.clear(); gen = 1; }
        std::vector<void*> q; q.swap(quarantine);
        for (void *p : q) free(p);
        for (Fiber *f : deferred) fiber_free(f);
        deferred.clear();
    }
}

struct Loop { std::vector<Fiber*> runnable; size_t at; };
static std::vector<Loop*> loops;
static Fiber *yielding = nullptr; static int yield_to = -1;
void run_jobs(std::vector<Job> &jobs) {
    mon_off++;
    int saved = cur_strand; int saved_off = mon_off; std::exception_ptr err;
    std::vector<Fiber*> fs(jobs.size(), nullptr); std::vector<void*> heldsave;
    Loop lp; loops.push_back(&lp);
    std::vector<std::vector<void*>> heldv(jobs.size()); std::vector<int> offv(jobs.size(), 0);
    size_t left = jobs.size(), cursor = 0, used = 0; int want = -1;
    std::vector<size_t> live; for (size_t i = 0; i < jobs.size(); i++) live.push_back(i);
    heldsave.swap(held);
    while (!live.empty()) {
        size_t idx = want >= 0 ? (size_t) want : 0; want = -1;
        size_t j = live[idx];
        if (!fs[j]) {
            if (err) { live.erase(live.begin() + idx); continue; } // group cancelled
            Job &jb = jobs[j];
            fs[j] = fiber_new([&jb, &err] { try { jb.fn(); } catch (...) { if (!err) err = std::current_exception(); } });
        }
        lp.runnable.assign(live.size(), nullptr); lp.at = idx;
        yielding = nullptr;
        cur_strand = jobs[j].strand; held.swap(heldv[j]); mon_off = offv[j];
        fiber_resume(fs[j]);
        offv[j] = mon_off; mon_off = saved_off; held.swap(heldv[j]);
        if (fiber_done(fs[j])) {
            live.erase(live.begin() + idx);
            if (!mon_enabled) { fiber_free(fs[j]); fs[j] = nullptr; }
        } else if (yielding) want = yield_to;
    }
    heldsave.swap(held);
    loops.pop_back();
    for (auto f : fs) if (f) deferred.push_back(f); // stacks stay distinct until the outermost construct has ended
    cur_strand = saved; mon_off = saved_off - 1;
    if (err) std::rethrow_exception(err);
    (void) left; (void) cursor; (void) used;
}
// default: go on; alternatives: every other live task of the innermost group
void yield() {
    if (loops.empty() || !X.yields || X.fine || !X.maxdev) return;
    Loop *lp = loops.back(); int n = (int) lp->runnable.size();
    if (n < 2) return;
    int c = choose(n); if (c == 0) return;
    mon_off++;
    int at = (int) lp->at; yield_to = c - 1 < at ? c - 1 : c; yielding = fiber_current();
    mon_off--;
    fiber_suspend();
}
struct Init { Init() { __libc_single_threaded = 0; } } init_;
} // namespace vs

// ---- replaced allocation (address order control as in arena.cpp, plus quarantine) ----
#include "arena.hpp"
#include <new>
namespace vf {
thread_local Arena *tl_armed = nullptr;
static char *region = nullptr; static size_t off = 0; static const size_t CAP = 64u << 20;
bool arena_owned(const void *p) { return region && (const char*) p >= region && (const char*) p < region + CAP; }
char *arena_alloc(size_t bytes) {
    if (!region) region = (char*) mmap(nullptr, CAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    bytes = (bytes + 63) & ~(size_t) 63;
    if (off + bytes > CAP) abort();
    char *p = region + off; off += bytes; return p;
}
size_t arena_mark() { return off; }
void arena_release(size_t m) { off = m; }
}
// inside an execution every allocation comes from a bump region that is rewound before the next execution:
// addresses (and orders derived from them) are a function of the choice sequence, and memory released by one task is never reused by another
namespace vs {
static char *det = nullptr; static size_t detoff = 0; static bool det_on = false; static const size_t DETCAP = (size_t) 8 << 30; static size_t dethigh = 0;
void det_begin() {
    if (!det) { det = (char*) mmap(nullptr, DETCAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (det == MAP_FAILED) { perror("mmap"); abort(); } }
    if (dethigh > (64u << 20)) { madvise(det, dethigh, MADV_DONTNEED); dethigh = 0; }
    detoff = 0; det_on = true;
}
void det_end() { det_on = false; dethigh = std::max(dethigh, detoff); }
static inline void *det_alloc(size_t sz) {
    sz = (sz + 15) & ~(size_t) 15;
    if (detoff + sz + 16 > DETCAP) { fprintf(stderr, "vsched: bump region exhausted\n"); abort(); }
    char *p = det + detoff + 16; *(size_t*) (p - 8) = sz; detoff += sz + 16;
    return p;
}
static inline bool det_owned(const void *p) { return det && (const char*) p >= det && (const char*) p < det + DETCAP; }
void det_free(void *p) { if (mon_enabled && depth_constructs && !mon_off) access(p, *((size_t*) p - 1), true, false, __builtin_return_address(0)); }
}
static void *vnew(size_t sz) {
    if (vs::det_on && vs::mon_off == 0) return vs::det_alloc(sz ? sz : 1);
    void *p = malloc(sz ? sz : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void *operator new(size_t sz) {
    vf::Arena *a = vf::tl_armed;
    if (__builtin_expect(a != nullptr, 0) && sz == a->nodesz && a->next < a->n) return a->base + a->slotsz * a->order[a->next++];
    return vnew(sz);
}
void *operator new[](size_t sz) { return vnew(sz); }
static void vdel(void *p) { if (!p || vf::arena_owned(p)) return; if (vs::det_owned(p)) { vs::det_free(p); return; } if (!vs::mon_free(p)) free(p); }
void operator delete(void *p) noexcept { vdel(p); }
void operator delete[](void *p) noexcept { vdel(p); }
void operator delete(void *p, size_t) noexcept { vdel(p); }
void operator delete[](void *p, size_t) noexcept { vdel(p); }

// ---- instrumentation entry points (objects compiled with -fsanitize=thread, linked without its runtime) ----
using vs::access;
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void *p) { access(p, n, false, false, PC); } void __tsan_write##n(void *p) { access(p, n, true, false, PC); } \
    void __tsan_unaligned_read##n(void *p) { access(p, n, false, false, PC); } void __tsan_unaligned_write##n(void *p) { access(p, n, true, false, PC); } \
    void __tsan_volatile_read##n(void *p) { access(p, n, false, false, PC); } void __tsan_volatile_write##n(void *p) { access(p, n, true, false, PC); } \
    void __tsan_unaligned_volatile_read##n(void *p) { access(p, n, false, false, PC); } void __tsan_unaligned_volatile_write##n(void *p) { access(p, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, false, false, PC); }
void __tsan_write_range(void *p, size_t n) { access(p, n, true, false, PC); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) access(p, 8, true, false, PC); }
void __tsan_vptr_read(void **p) { access(p, 8, false, false, PC); }
#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T *p, int) { access((void*) p, sizeof(T), false, true, PC); return *p; } \
    void __tsan_atomic##bits##_store(volatile T *p, T v, int) { access((void*) p, sizeof(T), true, true, PC); *p = v; } \
    T __tsan_atomic##bits##_exchange(volatile T *p, T v, int) { access((void*) p, sizeof(T), true, true, PC); T o = *p; *p = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int) { access((void*) p, sizeof(T), true, true, PC); T o = *p; *p = o + v; return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int) { access((void*) p, sizeof(T), true, true, PC); T o = *p; *p = o - v; return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int) { access((void*) p, sizeof(T), true, true, PC); T o = *p; *p = o & v; return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int) { access((void*) p, sizeof(T), true, true, PC); T o = *p; *p = o | v; return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int) { access((void*) p, sizeof(T), true, true, PC); T o = *p; *p = o ^ v; return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *c, T v, int, int) { access((void*) p, sizeof(T), true, true, PC); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *c, T v, int, int) { access((void*) p, sizeof(T), true, true, PC); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T c, T v, int, int) { access((void*) p, sizeof(T), true, true, PC); T o = *p; if (o == c) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
// bulk operations of the instrumented objects (linked with --wrap)
void *__real_memcpy(void*, const void*, size_t); void *__real_memmove(void*, const void*, size_t); void *__real_memset(void*, int, size_t);
#ifdef VF_WRAP
void *__wrap_memcpy(void *d, const void *s, size_t n) { access((void*) s, n, false, false, PC); access(d, n, true, false, PC); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { access((void*) s, n, false, false, PC); access(d, n, true, false, PC); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { access(d, n, true, false, PC); return __real_memset(d, c, n); }
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { vs::lock_acquire(m); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { vs::lock_release(m); return 0; }
#endif
}

// boost::timer asks the kernel for process times on every measured section; nothing observable depends on the answer
#include <sys/times.h>
extern "C" clock_t times(struct tms *t) { if (t) *t = tms(); return 1; }
