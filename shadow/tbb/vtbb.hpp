// Stand-in for oneTBB: same interfaces, every scheduling decision taken by vs::choose().
// Semantics follow the oneTBB specification: a range may be cut anywhere into consecutive sub-ranges,
// sub-ranges run in any order, parallel_reduce accumulates consecutive sub-ranges into runs that start
// from the identity and joins neighbouring partial results in any order-preserving tree.
#pragma once
#include <vsched.hpp>
#include <algorithm>
#include <atomic>
#include <cstddef>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <mutex>
#include <new>
#include <numeric>
#include <thread>
#include <type_traits>
#include <utility>
#include <vector>

#ifndef TBB_VERSION_MAJOR
#define TBB_VERSION_MAJOR 2021
#define TBB_VERSION_MINOR 11
#define TBB_INTERFACE_VERSION 12110
#endif

namespace tbb {

class split {};
class proportional_split { size_t l, r; public: proportional_split(size_t a = 1, size_t b = 1) : l(a), r(b) {} size_t left() const { return l; } size_t right() const { return r; } explicit operator split() const { return split(); } };

template<typename Value>
class blocked_range {
public:
    typedef Value const_iterator; typedef std::size_t size_type;
    blocked_range() : b(), e(), gs(1) {}
    blocked_range(Value b, Value e, size_type g = 1) : b(b), e(e), gs(g ? g : 1) {}
    const_iterator begin() const { return b; }
    const_iterator end() const { return e; }
    size_type size() const { return size_type(e - b); }
    size_type grainsize() const { return gs; }
    bool empty() const { return !(b < e); }
    bool is_divisible() const { return gs < size(); }
    blocked_range(blocked_range &r, split) : b(r.b + (r.e - r.b) / 2), e(r.e), gs(r.gs) { r.e = b; }
    blocked_range(blocked_range &r, proportional_split p) : e(r.e), gs(r.gs) { auto n = r.e - r.b; b = r.e - (decltype(n)) (n * p.right() / (p.left() + p.right())); r.e = b; }
private:
    Value b, e; size_type gs;
};

struct auto_partitioner {}; struct simple_partitioner {}; struct static_partitioner {}; struct affinity_partitioner {};
class task_group_context { public: bool cancel_group_execution() { return false; } bool is_group_execution_cancelled() const { return false; } };

namespace vdetail {
// cut points for n elements; only multiples of the grain size unless the elements run out
template<class R> struct Cuts {
    // sub-range [i, j) of elements
    static R sub(const R &r, size_t i, size_t j) { return R(r.begin() + (typename std::make_signed<size_t>::type) i, r.begin() + (typename std::make_signed<size_t>::type) j, r.grainsize()); }
};
template<class V> struct Cuts<blocked_range<V>> {
    static blocked_range<V> sub(const blocked_range<V> &r, size_t i, size_t j) { return blocked_range<V>(static_cast<V>(r.begin() + i), static_cast<V>(r.begin() + j), r.grainsize()); }
};
template<class R> inline R subrange(const R &r, size_t i, size_t j) { return Cuts<R>::sub(r, i, j); }
template<class R> inline size_t units(const R &r) { size_t n = r.size(), g = r.grainsize(); return g <= 1 ? n : std::max<size_t>(1, n / g); }
template<class R> inline size_t unit_pos(const R &r, size_t k, size_t nunits) { return k == nunits ? r.size() : k * (r.grainsize() <= 1 ? 1 : r.grainsize()); }
}

template<class Range, class Body>
inline typename std::enable_if<!std::is_integral<Range>::value>::type parallel_for(const Range &range, const Body &body) {
    if (range.empty()) return;
    vs::Construct c;
    size_t n = vdetail::units(range);
    const vs::ForPlan &p = vs::pick_for(n);
    std::vector<vs::Job> jobs;
    {
        vs::Unmonitored u;
        for (int i : p.order) {
            size_t lo = vdetail::unit_pos(range, i ? p.ends[i - 1] : 0, n), hi = vdetail::unit_pos(range, p.ends[i], n);
            jobs.push_back(vs::Job{vs::strand_new(c.id, false), [&range, &body, lo, hi] { Range r = vdetail::subrange(range, lo, hi); Body b(body); b(r); }});
        }
    }
    vs::run_jobs(jobs);
}
template<class Range, class Body, class P> inline typename std::enable_if<!std::is_integral<Range>::value>::type parallel_for(const Range &r, const Body &b, const P&) { parallel_for(r, b); }
template<class Range, class Body, class P> inline typename std::enable_if<!std::is_integral<Range>::value>::type parallel_for(const Range &r, const Body &b, const P&, task_group_context&) { parallel_for(r, b); }
template<class Range, class Body> inline typename std::enable_if<!std::is_integral<Range>::value>::type parallel_for(const Range &r, const Body &b, affinity_partitioner&) { parallel_for(r, b); }
template<class Index, class F> inline typename std::enable_if<std::is_integral<Index>::value>::type parallel_for(Index first, Index last, Index step, const F &f) {
    if (!(first < last)) return;
    size_t n = (size_t) ((last - first - 1) / step + 1);
    parallel_for(blocked_range<size_t>(0, n), [&](const blocked_range<size_t> &r) { for (size_t i = r.begin(); i != r.end(); ++i) f(static_cast<Index>(first + (Index) i * step)); });
}
template<class Index, class F> inline typename std::enable_if<std::is_integral<Index>::value && !std::is_integral<F>::value>::type parallel_for(Index first, Index last, const F &f) { parallel_for(first, last, Index(1), f); }
template<class Index, class F, class P> inline typename std::enable_if<std::is_integral<Index>::value && !std::is_integral<F>::value && std::is_empty<P>::value>::type parallel_for(Index first, Index last, const F &f, const P&) { parallel_for(first, last, Index(1), f); }

namespace vdetail {
template<class V> struct Box { // one partial result on storage of its own
    V *p = nullptr;
    Box() {}
    ~Box() { vs::Unmonitored u; delete p; }
    Box(const Box&) = delete;
    template<class U> void set(U &&v) { V *q = new V(std::forward<U>(v)); vs::Unmonitored u; delete p; p = q; }
};
template<class Range, class Run, class Join> inline size_t reduce_tree(const Range &range, const Run &run, const Join &join) {
    // returns the index of the root; run(node, sub-range, base node or -1 or -2 to continue) and join(dst, left, right) on node indices
    vs::Construct c;
    size_t n = units(range);
    const vs::ReducePlan &p = vs::pick_reduce(n);
    int tot = (int) p.nodes.size();
    std::vector<int> strand(tot);
    std::vector<vs::Job> jobs;
    auto exec = [&](int i) {
        const vs::RNode &x = p.nodes[i]; int b = x.start, base = x.base;
        for (size_t y = 0; y < x.ends.size(); y++) { int e = x.ends[y]; run((size_t) i, subrange(range, unit_pos(range, b, n), unit_pos(range, e, n)), y ? -2 : base); b = e; }
    };
    {
        vs::Unmonitored u;
        strand[tot - 1] = vs::strand_new(c.id, false);
        for (int t = tot - 1; t >= 0; t--) {
            const vs::RNode &x = p.nodes[t];
            if (x.join()) { int cn = vs::strand_new(strand[t], true); strand[x.l] = vs::strand_new(cn, false); strand[x.r] = vs::strand_new(cn, false); }
            else if (x.base >= 0) strand[x.base] = strand[t];
        }
        std::vector<int> leaves;
        for (int t = 0; t < tot; t++) if (!p.nodes[t].join() && p.nodes[t].base < 0) leaves.push_back(t);
        if (p.rev) std::reverse(leaves.begin(), leaves.end());
        for (int i : leaves) jobs.push_back(vs::Job{strand[i], [&exec, i] { exec(i); }});
    }
    vs::run_jobs(jobs);
    for (int t = 0; t < tot; t++) {
        const vs::RNode &x = p.nodes[t];
        if (!x.join() && x.base < 0) continue;
        std::vector<vs::Job> one;
        {
            vs::Unmonitored u;
            if (x.join()) one.push_back(vs::Job{strand[t], [&join, &x, t] { join((size_t) t, (size_t) x.l, (size_t) x.r); }});
            else one.push_back(vs::Job{strand[t], [&exec, t] { exec(t); }});
        }
        vs::run_jobs(one);
    }
    return (size_t) tot - 1;
}
}

template<class Range, class Value, class RealBody, class Reduction>
inline Value parallel_reduce(const Range &range, const Value &identity, const RealBody &body, const Reduction &reduction) {
    if (range.empty()) return identity;
    size_t n = vdetail::units(range);
    std::vector<vdetail::Box<Value>> box(3 * n);
    size_t root = vdetail::reduce_tree(range,
        [&](size_t i, const Range &r, int base) { if (base == -1) box[i].set(identity); else if (base >= 0) box[i].set(*box[base].p); Range rr(r); box[i].set(body(rr, const_cast<const Value&>(*box[i].p))); },
        [&](size_t d, size_t l, size_t r) { box[d].set(reduction(const_cast<const Value&>(*box[l].p), const_cast<const Value&>(*box[r].p))); });
    return *box[root].p;
}
template<class R, class V, class B, class J, class P> inline V parallel_reduce(const R &r, const V &i, const B &b, const J &j, const P&) { return parallel_reduce(r, i, b, j); }
template<class R, class V, class B, class J> inline V parallel_reduce(const R &r, const V &i, const B &b, const J &j, affinity_partitioner&) { return parallel_reduce(r, i, b, j); }
template<class R, class V, class B, class J, class P> inline V parallel_reduce(const R &r, const V &i, const B &b, const J &j, const P&, task_group_context&) { return parallel_reduce(r, i, b, j); }
// imperative form: Body has operator()(Range), a splitting constructor and join()
template<class Range, class Body>
inline void parallel_reduce(const Range &range, Body &body) {
    if (range.empty()) return;
    size_t n = vdetail::units(range);
    std::vector<std::unique_ptr<Body>> own(3 * n); std::vector<Body*> at(3 * n, nullptr);
    // the body that covers the leftmost run is the caller's, the others are split off it
    size_t made = 0;
    vdetail::reduce_tree(range,
        [&](size_t i, const Range &r, int base) { if (base == -1) { if (r.begin() == range.begin()) at[i] = &body; else { own[i].reset(new Body(body, split())); at[i] = own[i].get(); made++; } } else if (base >= 0) at[i] = at[base]; Range rr(r); (*at[i])(rr); },
        [&](size_t d, size_t l, size_t r) { at[l]->join(*at[r]); at[d] = at[l]; });
}
template<class R, class B, class P> inline typename std::enable_if<std::is_empty<P>::value>::type parallel_reduce(const R &r, B &b, const P&) { parallel_reduce(r, b); }
template<class R, class V, class B, class J> inline V parallel_deterministic_reduce(const R &r, const V &i, const B &b, const J &j) { return parallel_reduce(r, i, b, j); }
template<class R, class V, class B, class J, class P> inline V parallel_deterministic_reduce(const R &r, const V &i, const B &b, const J &j, const P&) { return parallel_reduce(r, i, b, j); }
template<class R, class B> inline void parallel_deterministic_reduce(const R &r, B &b) { parallel_reduce(r, b); }

namespace vdetail {
inline void unordered_tasks(std::vector<std::function<void()>> &fs) {
    if (fs.empty()) return;
    vs::Construct c;
    std::vector<vs::Job> jobs;
    { vs::Unmonitored u; for (int i : vs::pick_order(fs.size())) jobs.push_back(vs::Job{vs::strand_new(c.id, false), fs[i]}); }
    vs::run_jobs(jobs);
}
}
template<class It, class F> inline void parallel_for_each(It b, It e, const F &f) { std::vector<std::function<void()>> fs; for (It i = b; i != e; ++i) fs.push_back([i, &f] { f(*i); }); vdetail::unordered_tasks(fs); }
template<class C, class F> inline void parallel_for_each(C &c, const F &f) { parallel_for_each(std::begin(c), std::end(c), f); }
template<class... F> inline void parallel_invoke(const F&... f) { std::vector<std::function<void()>> fs{ std::function<void()>([&f] { f(); })... }; vdetail::unordered_tasks(fs); }
template<class It, class Cmp> inline void parallel_sort(It b, It e, const Cmp &c) { std::sort(b, e, c); }
template<class It> inline void parallel_sort(It b, It e) { std::sort(b, e); }
template<class C> inline void parallel_sort(C &c) { std::sort(std::begin(c), std::end(c)); }

enum task_group_status { not_complete, complete, canceled };
class task_group {
    std::vector<std::function<void()>> fs;
public:
    task_group() {} task_group(task_group_context&) {}
    ~task_group() {}
    template<class F> void run(F &&f) { typename std::decay<F>::type g(std::forward<F>(f)); auto p = std::make_shared<typename std::decay<F>::type>(std::move(g)); fs.push_back([p] { (*p)(); }); }
    template<class F> task_group_status run_and_wait(const F &f) { run(f); return wait(); }
    task_group_status wait() { while (!fs.empty()) { std::vector<std::function<void()>> g; g.swap(fs); vdetail::unordered_tasks(g); } return complete; }
    void cancel() {}
};

template<class T, class A = std::allocator<T>>
class concurrent_vector {
    std::vector<T*> v;
    template<class U> size_t add(U *p) { vs::Unmonitored u; v.push_back(p); return v.size() - 1; }
public:
    typedef T value_type; typedef T &reference; typedef const T &const_reference; typedef std::size_t size_type; typedef std::ptrdiff_t difference_type; typedef A allocator_type;
    template<class C, class U> struct iter {
        typedef std::random_access_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef U *pointer; typedef U &reference;
        C *c = nullptr; size_t i = 0;
        iter() {} iter(C *c, size_t i) : c(c), i(i) {}
        template<class C2, class U2> iter(const iter<C2, U2> &o) : c(o.c), i(o.i) {}
        U &operator*() const { return (*c)[i]; } U *operator->() const { return &(*c)[i]; } U &operator[](std::ptrdiff_t k) const { return (*c)[i + k]; }
        iter &operator++() { ++i; return *this; } iter operator++(int) { iter o = *this; ++i; return o; } iter &operator--() { --i; return *this; } iter operator--(int) { iter o = *this; --i; return o; }
        iter &operator+=(std::ptrdiff_t k) { i += k; return *this; } iter &operator-=(std::ptrdiff_t k) { i -= k; return *this; }
        iter operator+(std::ptrdiff_t k) const { return iter(c, i + k); } iter operator-(std::ptrdiff_t k) const { return iter(c, i - k); }
        template<class C2, class U2> std::ptrdiff_t operator-(const iter<C2, U2> &o) const { return (std::ptrdiff_t) i - (std::ptrdiff_t) o.i; }
        template<class C2, class U2> bool operator==(const iter<C2, U2> &o) const { return i == o.i; } template<class C2, class U2> bool operator!=(const iter<C2, U2> &o) const { return i != o.i; }
        template<class C2, class U2> bool operator<(const iter<C2, U2> &o) const { return i < o.i; } template<class C2, class U2> bool operator>(const iter<C2, U2> &o) const { return i > o.i; }
        template<class C2, class U2> bool operator<=(const iter<C2, U2> &o) const { return i <= o.i; } template<class C2, class U2> bool operator>=(const iter<C2, U2> &o) const { return i >= o.i; }
        friend iter operator+(std::ptrdiff_t k, const iter &x) { return x + k; }
    };
    typedef iter<concurrent_vector, T> iterator; typedef iter<const concurrent_vector, const T> const_iterator;
    typedef std::reverse_iterator<iterator> reverse_iterator; typedef std::reverse_iterator<const_iterator> const_reverse_iterator;
    template<class I> class generic_range : public blocked_range<I> {
    public:
        generic_range(I b, I e, size_t g = 1) : blocked_range<I>(b, e, g) {}
        template<class U> generic_range(const generic_range<U> &r) : blocked_range<I>(r.begin(), r.end(), r.grainsize()) {}
        generic_range(generic_range &r, split s) : blocked_range<I>(r, s) {}
    };
    typedef generic_range<iterator> range_type; typedef generic_range<const_iterator> const_range_type;
    concurrent_vector() {}
    explicit concurrent_vector(size_t n, const T &t = T()) { for (size_t i = 0; i < n; i++) v.push_back(new T(t)); }
    template<class It, class = typename std::iterator_traits<It>::iterator_category> concurrent_vector(It b, It e) { for (; b != e; ++b) v.push_back(new T(*b)); }
    concurrent_vector(std::initializer_list<T> l) { for (auto &x : l) v.push_back(new T(x)); }
    concurrent_vector(const concurrent_vector &o) { for (auto p : o.v) v.push_back(new T(*p)); }
    concurrent_vector(concurrent_vector &&o) : v(std::move(o.v)) { o.v.clear(); }
    concurrent_vector &operator=(const concurrent_vector &o) { if (this != &o) { clear(); for (auto p : o.v) v.push_back(new T(*p)); } return *this; }
    concurrent_vector &operator=(concurrent_vector &&o) { v.swap(o.v); return *this; }
    ~concurrent_vector() { clear(); }
    iterator push_back(const T &x) { vs::yield(); T *p = new T(x); return iterator(this, add(p)); }
    iterator push_back(T &&x) { vs::yield(); T *p = new T(std::move(x)); return iterator(this, add(p)); }
    template<class... Args> iterator emplace_back(Args &&...a) { vs::yield(); T *p = new T(std::forward<Args>(a)...); return iterator(this, add(p)); }
    iterator grow_by(size_t n) { vs::yield(); size_t at = size_(); for (size_t i = 0; i < n; i++) add(new T()); return iterator(this, at); }
    iterator grow_by(size_t n, const T &t) { vs::yield(); size_t at = size_(); for (size_t i = 0; i < n; i++) add(new T(t)); return iterator(this, at); }
    iterator grow_to_at_least(size_t n) { vs::yield(); size_t at = size_(); while (size_() < n) add(new T()); return iterator(this, at); }
    iterator grow_to_at_least(size_t n, const T &t) { vs::yield(); size_t at = size_(); while (size_() < n) add(new T(t)); return iterator(this, at); }
    size_t size_() const { vs::Unmonitored u; return v.size(); }
    size_t size() const { vs::yield(); return size_(); }
    bool empty() const { return size() == 0; }
    void reserve(size_t) {} size_t capacity() const { return size_(); } void shrink_to_fit() {}
    void resize(size_t n) { while (v.size() > n) { delete v.back(); v.pop_back(); } while (v.size() < n) v.push_back(new T()); }
    void resize(size_t n, const T &t) { while (v.size() > n) { delete v.back(); v.pop_back(); } while (v.size() < n) v.push_back(new T(t)); }
    void clear() { for (auto p : v) delete p; v.clear(); }
    void swap(concurrent_vector &o) { v.swap(o.v); }
    T *slot(size_t i) const { vs::Unmonitored u; if (i >= v.size()) { vs::misuse("concurrent_vector element " + std::to_string(i) + " accessed while only " + std::to_string(v.size()) + " exist"); static T *dummy = new T(); return dummy; } return v[i]; }
    T &operator[](size_t i) { return *slot(i); } const T &operator[](size_t i) const { return *slot(i); }
    T &at(size_t i) { if (i >= size_()) throw std::out_of_range("concurrent_vector"); return *slot(i); } const T &at(size_t i) const { if (i >= size_()) throw std::out_of_range("concurrent_vector"); return *slot(i); }
    T &front() { return *slot(0); } const T &front() const { return *slot(0); } T &back() { return *slot(size_() - 1); } const T &back() const { return *slot(size_() - 1); }
    iterator begin() { return iterator(this, 0); } iterator end() { return iterator(this, size()); }
    const_iterator begin() const { return const_iterator(this, 0); } const_iterator end() const { return const_iterator(this, size()); }
    const_iterator cbegin() const { return begin(); } const_iterator cend() const { return end(); }
    reverse_iterator rbegin() { return reverse_iterator(end()); } reverse_iterator rend() { return reverse_iterator(begin()); }
    range_type range(size_t g = 1) { return range_type(begin(), end(), g); } const_range_type range(size_t g = 1) const { return const_range_type(begin(), end(), g); }
};
template<class T, class A> inline void swap(concurrent_vector<T, A> &a, concurrent_vector<T, A> &b) { a.swap(b); }

// locks: tasks only switch inside runtime calls, so a lock taken here is never contended unless a task holds it across one
class spin_mutex {
    bool held = false;
public:
    spin_mutex() {} spin_mutex(const spin_mutex&) = delete;
    bool grab() { vs::Unmonitored u; if (held) return false; held = true; return true; }
    void lock() { while (!grab()) vs::yield(); vs::lock_acquire(this); }
    bool try_lock() { if (!grab()) return false; vs::lock_acquire(this); return true; }
    void unlock() { vs::lock_release(this); vs::Unmonitored u; held = false; }
    class scoped_lock {
        spin_mutex *m = nullptr;
    public:
        scoped_lock() {} scoped_lock(spin_mutex &x, bool = true) { acquire(x); } ~scoped_lock() { if (m) release(); }
        void acquire(spin_mutex &x, bool = true) { x.lock(); m = &x; } bool try_acquire(spin_mutex &x, bool = true) { if (!x.try_lock()) return false; m = &x; return true; } void release() { m->unlock(); m = nullptr; }
        bool upgrade_to_writer() { return true; } bool downgrade_to_reader() { return true; }
    };
};
typedef spin_mutex mutex; typedef spin_mutex queuing_mutex; typedef spin_mutex speculative_spin_mutex; typedef spin_mutex recursive_mutex; typedef spin_mutex spin_rw_mutex; typedef spin_mutex queuing_rw_mutex; typedef spin_mutex rw_mutex; typedef spin_mutex null_mutex;

// one value per worker thread; which tasks share a worker is a scheduling decision: policies with an even number give
// every task its own, the others share one
template<class T, class A = std::allocator<T>>
class enumerable_thread_specific {
    std::vector<std::pair<int, T*>> v; std::function<T()> make;
    T &get() {
        vs::Unmonitored u; int k = vs::X.policy % 2 ? 0 : vs::strand_cur();
        if (vs::X.fine) k = vs::strand_cur();
        for (auto &p : v) if (p.first == k) return *p.second;
        v.push_back({k, new T(make())}); return *v.back().second;
    }
public:
    enumerable_thread_specific() : make([] { return T(); }) {}
    template<class F, class = decltype(T(std::declval<F>()()))> explicit enumerable_thread_specific(F f) : make(f) {}
    explicit enumerable_thread_specific(const T &x) : make([x] { return x; }) {}
    ~enumerable_thread_specific() { clear(); }
    T &local() { return get(); } T &local(bool &e) { size_t n = v.size(); T &r = get(); e = v.size() == n; return r; }
    void clear() { for (auto &p : v) delete p.second; v.clear(); }
    size_t size() const { return v.size(); } bool empty() const { return v.empty(); }
    struct iterator { typename std::vector<std::pair<int, T*>>::const_iterator i; T &operator*() const { return *i->second; } T *operator->() const { return i->second; } iterator &operator++() { ++i; return *this; } bool operator!=(const iterator &o) const { return i != o.i; } bool operator==(const iterator &o) const { return i == o.i; } };
    iterator begin() const { return iterator{v.begin()}; } iterator end() const { return iterator{v.end()}; }
    template<class F> T combine(F f) { if (v.empty()) return make(); T r = *v[0].second; for (size_t i = 1; i < v.size(); i++) r = f(r, *v[i].second); return r; }
    template<class F> void combine_each(F f) { for (auto &p : v) f(*p.second); }
};
template<class T> using combinable = enumerable_thread_specific<T>;

class global_control {
public:
    enum parameter { max_allowed_parallelism, thread_stack_size, terminate_on_exception };
    global_control(parameter p, size_t v) : p(p), v(v) { vals()[p].push_back(v); }
    ~global_control() { auto &x = vals()[p]; for (size_t i = x.size(); i-- > 0;) if (x[i] == v) { x.erase(x.begin() + i); break; } }
    static size_t active_value(parameter p) { auto &x = vals()[p]; return x.empty() ? 8 : *std::min_element(x.begin(), x.end()); }
private:
    parameter p; size_t v;
    static std::vector<size_t> *vals() { static std::vector<size_t> x[3]; return x; }
};
class task_arena {
public:
    static const int automatic = -1; explicit task_arena(int = automatic, unsigned = 1) {}
    void initialize() {} template<class F> auto execute(F &&f) -> decltype(f()) { return f(); } int max_concurrency() const { return 8; }
};
namespace this_task_arena { inline int current_thread_index() { return 0; } inline int max_concurrency() { return 8; } template<class F> auto isolate(F &&f) -> decltype(f()) { return f(); } }
namespace info { inline int default_concurrency() { return 8; } }
class tick_count { public: static tick_count now() { return tick_count(); } struct interval_t { double seconds() const { return 0; } }; interval_t operator-(const tick_count&) const { return interval_t(); } };
template<class T> using tbb_allocator = std::allocator<T>; template<class T> using cache_aligned_allocator = std::allocator<T>; template<class T> using scalable_allocator = std::allocator<T>;
}
namespace oneapi { namespace tbb = ::tbb; }
