#include "vmpi.hpp"
#include "vsched.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <map>
#include <numeric>

namespace vmpi {
Config conf; uint64_t n_collectives = 0, n_reduces = 0;
struct Ctx { std::vector<int> members; std::vector<size_t> at; std::deque<Coll> colls; std::map<std::pair<int, int>, std::deque<Message>> mail; };
static std::vector<Ctx> ctxs;
struct Rank { vs::Fiber *f = nullptr; std::function<bool()> ready; bool done = false; std::string where; };
static std::vector<Rank> ranks; static int cur = -1; static std::string error; static bool aborting = false;
static const char *NAME[] = {"broadcast", "reduce", "scatter", "gather", "all_reduce", "all_gather", "all_to_all", "barrier", "split", "scan"};

bool active() { return cur >= 0; }
int world_rank() { return cur; }
int ctx_size(int c) { return (int) ctxs[c].members.size(); }
int ctx_rank(int c) { auto &m = ctxs[c].members; for (size_t i = 0; i < m.size(); i++) if (m[i] == cur) return (int) i; return -1; }
void bad(const std::string &what) { if (error.empty()) error = "rank " + std::to_string(cur) + ": " + what; aborting = true; throw Aborted(); }
static void wait(std::function<bool()> ready, std::string where) {
    if (aborting) throw Aborted();
    if (vs::fiber_current() != ranks[cur].f) bad("message passing call inside a parallel task (not modelled)");
    if (ready()) return;
    ranks[cur].ready = std::move(ready); ranks[cur].where = std::move(where);
    vs::fiber_suspend();
    if (aborting) throw Aborted();
}
Coll &enter(int c, Kind k, int root, const char *type, const std::function<void(Coll&, int)> &put) {
    if (cur < 0) { fprintf(stderr, "vmpi: collective outside a rank\n"); abort(); }
    Ctx &x = ctxs[c]; int r = ctx_rank(c), n = (int) x.members.size(); size_t i = x.at[r]++;
    if (root < 0 || root >= n) bad("collective with root " + std::to_string(root) + " of " + std::to_string(n) + " ranks");
    n_collectives++;
    while (x.colls.size() <= i) x.colls.emplace_back();
    Coll *o = &x.colls[i];
    if (!o->started) { o->started = true; o->kind = k; o->root = root; o->type = type; o->arrived.assign(n, 0); o->data.resize(n); o->parts.resize(n); o->color.assign(n, 0); o->key.assign(n, 0); o->newctx.assign(n, -1); }
    else if (o->kind != k || o->root != root) bad(std::string("enters ") + NAME[k] + " (root " + std::to_string(root) + ") as collective " + std::to_string(i) + ", other ranks are in " + NAME[o->kind] + " (root " + std::to_string(o->root) + ")");
    else if (o->type != type) bad(std::string("enters collective ") + std::to_string(i) + " with a different data type");
    put(*o, r);
    o->arrived[r] = 1; o->narrived++;
    bool rooted_out = k == Broadcast || k == Scatter, rooted_in = k == Reduce || k == Gather;
    auto all = [o, n] { return o->narrived == n; };
    std::string where = std::string(NAME[k]) + " (collective " + std::to_string(i) + ")";
    if (conf.eager && rooted_out) { if (r != root) wait([o, root] { return o->arrived[root] != 0; }, where); }
    else if (conf.eager && rooted_in) { if (r == root) wait(all, where); }
    else wait(all, where);
    return *o;
}
std::string run(const Config &cf, const std::function<void(int)> &body) {
    conf = cf; error.clear(); aborting = false; ctxs.clear(); ranks.clear(); ctxs.resize(1); ctxs.reserve(4096);
    Ctx &w = ctxs[0]; w.at.assign(conf.size, 0); for (int i = 0; i < conf.size; i++) w.members.push_back(i);
    ranks.resize(conf.size);
    for (int i = 0; i < conf.size; i++) ranks[i].f = vs::fiber_new([&body, i] {
        try { body(i); }
        catch (const Aborted&) {}
        catch (const std::exception &e) { if (error.empty()) error = "rank " + std::to_string(i) + " throws " + e.what(); aborting = true; }
        catch (...) { if (error.empty()) error = "rank " + std::to_string(i) + " throws"; aborting = true; }
    }, 1 << 20);
    int left = conf.size;
    while (left) {
        bool moved = false;
        for (int q = 0; q < conf.size; q++) {
            int i = conf.order ? conf.size - 1 - q : q; Rank &r = ranks[i];
            if (r.done || (r.ready && !aborting && !r.ready())) continue;
            r.ready = nullptr; cur = i; moved = true;
            vs::fiber_resume(r.f);
            cur = -1;
            if (vs::fiber_done(r.f)) { r.done = true; left--; }
        }
        if (!moved) {
            if (!aborting) {
                error = "deadlock:"; for (int i = 0; i < conf.size; i++) error += " rank " + std::to_string(i) + (ranks[i].done ? " returned," : " waits in " + ranks[i].where + ",");
                error.pop_back(); aborting = true;
            } else { fprintf(stderr, "vmpi: cannot unwind\n"); abort(); }
        }
    }
    for (auto &r : ranks) vs::fiber_free(r.f);
    if (error.empty()) for (auto &x : ctxs) {
        for (size_t i = 0; i < x.colls.size() && error.empty(); i++) if (x.colls[i].narrived != (int) x.members.size()) error = std::string("collective ") + std::to_string(i) + " (" + NAME[x.colls[i].kind] + ") was entered by " + std::to_string(x.colls[i].narrived) + " of " + std::to_string(x.members.size()) + " ranks";
        for (auto &m : x.mail) if (error.empty() && !m.second.empty()) error = "a message from rank " + std::to_string(m.first.first) + " to rank " + std::to_string(m.first.second) + " is never received";
    }
    return error;
}
// ---- reduction trees ----
static void trees(const std::vector<int> &p, int lo, int hi, std::vector<std::vector<int>> &out) {
    if (hi - lo == 1) { out.push_back({p[lo]}); return; }
    for (int m = lo + 1; m < hi; m++) {
        std::vector<std::vector<int>> a, b; trees(p, lo, m, a); trees(p, m, hi, b);
        for (auto &x : a) for (auto &y : b) { auto z = x; z.insert(z.end(), y.begin(), y.end()); z.push_back(-1); out.push_back(z); }
    }
}
std::vector<int> base_combine(int n, int base, bool comm) {
    std::vector<int> z; if (n == 1) return {0};
    std::vector<int> p(n); std::iota(p.begin(), p.end(), 0);
    if (comm && base == 2) { std::reverse(p.begin(), p.end()); }
    if (comm && base == 3) { std::rotate(p.begin(), p.begin() + n / 2, p.end()); }
    if (base == 1) { for (int i : p) z.push_back(i); for (int i = 1; i < n; i++) z.push_back(-1); return z; }     // right fold
    if (base == 3) { std::function<void(int, int)> bal = [&](int lo, int hi) { if (hi - lo == 1) { z.push_back(p[lo]); return; } int m = (lo + hi) / 2; bal(lo, m); bal(m, hi); z.push_back(-1); }; bal(0, n); return z; }
    z.push_back(p[0]); for (int i = 1; i < n; i++) { z.push_back(p[i]); z.push_back(-1); }                        // left fold
    return z;
}
const std::vector<std::vector<int>> &combine_plans(int n, bool comm) {
    static std::map<std::pair<int, bool>, std::vector<std::vector<int>>> cache;
    auto &r = cache[{n, comm}]; if (!r.empty()) return r;
    if (n <= 4) {
        std::vector<int> p(n); std::iota(p.begin(), p.end(), 0);
        do trees(p, 0, n, r); while (comm && std::next_permutation(p.begin(), p.end()));
    } else {
        for (int b = 0; b < 4; b++) r.push_back(base_combine(n, b, comm));
        if (comm) for (int i = 0; i < n; i++) for (int b = 0; b < 2; b++) { auto z = base_combine(n, b, true); for (int &x : z) if (x >= 0) x = (x + i) % n; r.push_back(z); for (int &x : z) if (x >= 0) x = n - 1 - x; r.push_back(z); }
        std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end());
    }
    return r;
}
int pick_combine(int n, bool comm) {
    auto &r = combine_plans(n, comm); n_reduces++;
    auto z = base_combine(n, conf.base, comm); int d = (int) (std::find(r.begin(), r.end(), z) - r.begin());
    if (d == (int) r.size()) { fprintf(stderr, "vmpi: base plan missing\n"); abort(); }
    if (!conf.explore) return d;
    int c = vs::choose((int) r.size());
    return c == 0 ? d : c <= d ? c - 1 : c;
}
// ---- point to point (buffered) ----
void post(int c, int dst, int tag, std::string data) {
    if (aborting) throw Aborted();
    if (dst < 0 || dst >= ctx_size(c)) bad("send to rank " + std::to_string(dst) + " of " + std::to_string(ctx_size(c)));
    int r = ctx_rank(c); ctxs[c].mail[{r, dst}].push_back(Message{r, tag, std::move(data)});
}
static bool find(int c, int me, int src, int tag, std::vector<int> *from) {
    for (int s = 0; s < ctx_size(c); s++) if (src < 0 || src == s) for (auto &m : ctxs[c].mail[{s, me}]) if (tag < 0 || m.tag == tag) { if (!from) return true; from->push_back(s); break; }
    return from && !from->empty();
}
bool probe(int c, int src, int tag, Message &m) {
    std::vector<int> from; int me = ctx_rank(c); if (!find(c, me, src, tag, &from)) return false;
    for (auto &x : ctxs[c].mail[{from[0], me}]) if (tag < 0 || x.tag == tag) { m = x; return true; }
    return false;
}
Message take(int c, int src, int tag) {
    int me = ctx_rank(c);
    wait([=] { return find(c, me, src, tag, nullptr); }, "a receive from rank " + std::to_string(src));
    std::vector<int> from; find(c, me, src, tag, &from);
    int s = from[conf.explore ? vs::choose((int) from.size()) : conf.order ? (int) from.size() - 1 : 0];
    auto &q = ctxs[c].mail[{s, me}];
    for (size_t i = 0; i < q.size(); i++) if (tag < 0 || q[i].tag == tag) { Message m = std::move(q[i]); q.erase(q.begin() + i); return m; }
    abort();
}
// communicator splitting, completed by the last rank to arrive
int do_split(int ctx, int color, int key);
int do_split(int c, int color, int key) {
    int r = ctx_rank(c);
    Coll &o = enter(c, Split, 0, "", [&](Coll &o, int r) { o.color[r] = color; o.key[r] = key; });
    if (o.newctx[r] == -1 && color >= 0) {
        std::vector<std::pair<int, int>> mem; for (int i = 0; i < ctx_size(c); i++) if (o.color[i] == color) mem.push_back({o.key[i], i});
        std::sort(mem.begin(), mem.end());
        Ctx x; for (auto &m : mem) x.members.push_back(ctxs[c].members[m.second]); x.at.assign(mem.size(), 0);
        if (ctxs.size() + 1 >= ctxs.capacity()) { fprintf(stderr, "vmpi: too many communicators\n"); abort(); }
        ctxs.push_back(x); for (auto &m : mem) o.newctx[m.second] = (int) ctxs.size() - 1;
    }
    return o.newctx[r];
}
}
