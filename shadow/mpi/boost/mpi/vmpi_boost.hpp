// Stand-in for Boost.MPI on top of vmpi: same interfaces, payloads go through serialize().
#pragma once
#include <vmpi.hpp>
#include <boost/config.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/limits.hpp>
#include <boost/mpl/bool.hpp>
#include <boost/noncopyable.hpp>
#include <boost/optional.hpp>
#include <boost/serialization/is_bitwise_serializable.hpp>
#include <boost/shared_ptr.hpp>
#include <array>
#include <cmath>
#include <functional>
#include <iterator>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace vmpi {
int do_split(int ctx, int color, int key);
const unsigned ARCH = boost::archive::no_header | boost::archive::no_tracking;
template<class T> std::string pack(const T *v, size_t n) { std::ostringstream s; { boost::archive::binary_oarchive oa(s, ARCH); for (size_t i = 0; i < n; i++) oa << const_cast<const T&>(v[i]); } return s.str(); }
template<class T> void unpack(const std::string &d, T *v, size_t n) { std::istringstream s(d); try { boost::archive::binary_iarchive ia(s, ARCH); for (size_t i = 0; i < n; i++) ia >> v[i]; } catch (const boost::archive::archive_exception &) { bad("message does not match the receive buffer"); } }
inline std::string &counted(std::string &s, size_t n) { s += "#" + std::to_string(n); return s; }
}
namespace boost { namespace mpi {
const int any_source = -1, any_tag = -1, undefined = -32766;
enum comm_create_kind { comm_duplicate, comm_take_ownership, comm_attach };
namespace threading { enum level { single, funneled, serialized, multiple }; }
class exception : public std::exception { public: const char *what() const throw() { return "mpi"; } };
class environment : noncopyable {
public:
    explicit environment(bool = true) {}
    explicit environment(threading::level, bool = true) {}
    environment(int&, char**&, bool = true) {}
    environment(int&, char**&, threading::level, bool = true) {}
    static void abort(int c) { vmpi::bad("abort(" + std::to_string(c) + ")"); }
    static bool initialized() { return true; } static bool finalized() { return false; }
    static int max_tag() { return 32766; } static int collectives_tag() { return 32767; }
    static std::string processor_name() { return "model"; }
    static threading::level thread_level() { return threading::multiple; } static bool is_main_thread() { return true; }
};
class status { public: int s = -1, t = -1; int source() const { return s; } int tag() const { return t; } int error() const { return 0; } bool cancelled() const { return false; } };
class request { public: std::function<status()> go; bool fin = true; status st; status wait() { if (!fin) { st = go(); fin = true; } return st; } optional<status> test() { return wait(); } };
template<class It> void wait_all(It b, It e) { for (; b != e; ++b) b->wait(); }
class communicator {
    int c;
public:
    communicator() : c(0) {}
    struct tag_ctx {}; communicator(tag_ctx, int c) : c(c) {}
    int ctx() const { return c; }
    int rank() const { return vmpi::ctx_rank(c); }
    int size() const { return vmpi::ctx_size(c); }
    explicit operator bool() const { return c >= 0; }
    void barrier() const { vmpi::enter(c, vmpi::Barrier, 0, "", [](vmpi::Coll&, int) {}); }
    communicator split(int color, int key) const { return communicator(tag_ctx(), vmpi::do_split(c, color, key)); }
    communicator split(int color) const { return split(color, rank()); }
    void abort(int e) const { vmpi::bad("abort(" + std::to_string(e) + ")"); }
    template<class T> void send(int dst, int tag, const T &v) const { vmpi::post(c, dst, tag, vmpi::pack(&v, 1)); }
    template<class T> void send(int dst, int tag, const T *v, int n) const { vmpi::post(c, dst, tag, vmpi::pack(v, n)); }
    void send(int dst, int tag) const { vmpi::post(c, dst, tag, ""); }
    template<class T> status recv(int src, int tag, T &v) const { auto m = vmpi::take(c, src, tag); vmpi::unpack(m.data, &v, 1); status s; s.s = m.src; s.t = m.tag; return s; }
    template<class T> status recv(int src, int tag, T *v, int n) const { auto m = vmpi::take(c, src, tag); vmpi::unpack(m.data, v, n); status s; s.s = m.src; s.t = m.tag; return s; }
    status recv(int src, int tag) const { auto m = vmpi::take(c, src, tag); status s; s.s = m.src; s.t = m.tag; return s; }
    template<class T> request isend(int dst, int tag, const T &v) const { send(dst, tag, v); return request(); }
    request isend(int dst, int tag) const { send(dst, tag); return request(); }
    template<class T> request irecv(int src, int tag, T &v) const { request r; r.fin = false; communicator me = *this; T *p = &v; r.go = [me, src, tag, p] { return me.recv(src, tag, *p); }; return r; }
};
class timer { public: void restart() {} double elapsed() const { return 0; } double elapsed_max() const { return 1e9; } double elapsed_min() const { return 1e-9; } static bool time_is_global() { return false; } };

template<typename T> struct is_mpi_datatype : std::conditional<std::is_arithmetic<T>::value, mpl::true_, mpl::false_>::type {};
template<typename T> struct is_mpi_builtin_datatype : std::conditional<std::is_arithmetic<T>::value, mpl::true_, mpl::false_>::type {};
template<typename T> struct is_mpi_integer_datatype : std::conditional<std::is_integral<T>::value, mpl::true_, mpl::false_>::type {};
template<typename T> struct is_mpi_floating_point_datatype : std::conditional<std::is_floating_point<T>::value, mpl::true_, mpl::false_>::type {};
template<typename Op, typename T> struct is_commutative : mpl::false_ {};
template<typename Op, typename T> struct is_mpi_op : mpl::false_ {};
template<typename T> struct maximum { const T &operator()(const T &a, const T &b) const { return a < b ? b : a; } };
template<typename T> struct minimum { const T &operator()(const T &a, const T &b) const { return a < b ? a : b; } };
template<typename T> struct logical_xor { T operator()(const T &a, const T &b) const { return (a || b) && !(a && b); } };
template<typename T> struct is_commutative<maximum<T>, T> : mpl::true_ {};
template<typename T> struct is_commutative<minimum<T>, T> : mpl::true_ {};
template<typename T> struct is_commutative<std::plus<T>, T> : mpl::true_ {};

namespace detail {
template<class T> std::string tname(size_t n) { std::string s = typeid(T).name(); return vmpi::counted(s, n); }
// value of a plan over n contributions; the caller's own one is used without a round trip through an archive
template<class T, class Op> T combine(vmpi::Coll &o, int me, const T *own, size_t i, size_t n, Op op, bool comm) {
    int P = (int) o.data.size();
    std::vector<std::vector<T>> vals(P);
    for (int r = 0; r < P; r++) { if (r == me) { vals[r].assign(own, own + n); continue; } vals[r].resize(n); vmpi::unpack(o.data[r], vals[r].data(), n); }
    std::vector<std::unique_ptr<T>> st; const std::vector<int> &pl = vmpi::combine_plans(P, comm)[o.plan];
    for (size_t q = 0; q < pl.size(); q++) {
        int x = pl[q];
        if (x >= 0) st.emplace_back(new T(vals[x][i]));
        else { std::unique_ptr<T> b = std::move(st.back()); st.pop_back(); T r(op(*st.back(), *b)); if (q + 1 == pl.size()) return r; std::string h = vmpi::pack(&r, 1); std::unique_ptr<T> z(new T()); vmpi::unpack(h, z.get(), 1); st.back() = std::move(z); }
    }
    return *st.back();
}
}
template<class T> void broadcast(const communicator &c, T *v, int n, int root) {
    int me = c.rank();
    auto &o = vmpi::enter(c.ctx(), vmpi::Broadcast, root, detail::tname<T>(n).c_str(), [&](vmpi::Coll &o, int r) { if (r == root) o.data[root] = vmpi::pack(v, n); });
    if (me != root) vmpi::unpack(o.data[root], v, n);
}
template<class T> void broadcast(const communicator &c, T &v, int root) { broadcast(c, &v, 1, root); }
template<class T, class Op> void reduce(const communicator &c, const T *in, int n, T *out, Op op, int root) {
    bool comm = is_commutative<Op, T>::value; int me = c.rank();
    std::vector<T> own; if (me == root) own.assign(in, in + n);
    auto &o = vmpi::enter(c.ctx(), vmpi::Reduce, root, detail::tname<T>(n).c_str(), [&](vmpi::Coll &o, int r) { if (r != root) o.data[r] = vmpi::pack(in, n); });
    if (me != root) return;
    o.plan = vmpi::pick_combine(c.size(), comm);
    for (int i = 0; i < n; i++) out[i] = detail::combine(o, me, own.data(), i, n, op, comm);
}
template<class T, class Op> void reduce(const communicator &c, const T &in, T &out, Op op, int root) { reduce(c, &in, 1, &out, op, root); }
template<class T, class Op> void reduce(const communicator &c, const T *in, int n, Op op, int root) { if (c.rank() == root) vmpi::bad("reduce without a result on the root"); reduce(c, in, n, (T*) nullptr, op, root); }
template<class T, class Op> void reduce(const communicator &c, const T &in, Op op, int root) { reduce(c, &in, 1, op, root); }
template<class T, class Op> void all_reduce(const communicator &c, const T *in, int n, T *out, Op op) {
    bool comm = is_commutative<Op, T>::value; int me = c.rank(); std::vector<T> own(in, in + n);
    auto &o = vmpi::enter(c.ctx(), vmpi::AllReduce, 0, detail::tname<T>(n).c_str(), [&](vmpi::Coll &o, int r) { o.data[r] = vmpi::pack(in, n); });
    if (o.plan < 0) o.plan = vmpi::pick_combine(c.size(), comm);
    for (int i = 0; i < n; i++) out[i] = detail::combine(o, me, own.data(), i, n, op, comm);
}
template<class T, class Op> void all_reduce(const communicator &c, const T &in, T &out, Op op) { all_reduce(c, &in, 1, &out, op); }
template<class T, class Op> T all_reduce(const communicator &c, const T &in, Op op) { T out; all_reduce(c, &in, 1, &out, op); return out; }
template<class T, class Op> void scan(const communicator &c, const T &in, T &out, Op op) {
    auto &o = vmpi::enter(c.ctx(), vmpi::Scan, 0, detail::tname<T>(1).c_str(), [&](vmpi::Coll &o, int r) { o.data[r] = vmpi::pack(&in, 1); });
    T acc; vmpi::unpack(o.data[0], &acc, 1); for (int i = 1; i <= c.rank(); i++) { T x; vmpi::unpack(o.data[i], &x, 1); acc = op(acc, x); } out = acc;
}
template<class T> void scatter(const communicator &c, const T *in, T *out, int n, int root) {
    int me = c.rank();
    auto &o = vmpi::enter(c.ctx(), vmpi::Scatter, root, detail::tname<T>(n).c_str(), [&](vmpi::Coll &o, int r) { if (r == root) for (int p = 0; p < c.size(); p++) o.parts[root].push_back(vmpi::pack(in + (size_t) p * n, n)); });
    vmpi::unpack(o.parts[root][me], out, n);
}
template<class T> void scatter(const communicator &c, const T *in, T &out, int root) { scatter(c, in, &out, 1, root); }
template<class T> void scatter(const communicator &c, const std::vector<T> &in, T &out, int root) {
    if (c.rank() == root && (int) in.size() < c.size()) vmpi::bad("scatter of " + std::to_string(in.size()) + " chunks to " + std::to_string(c.size()) + " ranks");
    scatter(c, in.data(), &out, 1, root);
}
template<class T> void scatter(const communicator &c, const std::vector<T> &in, T *out, int n, int root) {
    if (c.rank() == root && in.size() < (size_t) c.size() * n) vmpi::bad("scatter of too few values");
    scatter(c, in.data(), out, n, root);
}
template<class T> void scatter(const communicator &c, T &out, int root) { if (c.rank() == root) vmpi::bad("scatter without values on the root"); scatter(c, (const T*) nullptr, &out, 1, root); }
template<class T> void scatter(const communicator &c, T *out, int n, int root) { if (c.rank() == root) vmpi::bad("scatter without values on the root"); scatter(c, (const T*) nullptr, out, n, root); }
template<class T> void scatterv(const communicator &c, const std::vector<T> &in, const std::vector<int> &sizes, const std::vector<int> &displs, T *out, int nout, int root) {
    int me = c.rank();
    auto &o = vmpi::enter(c.ctx(), vmpi::Scatter, root, typeid(T).name(), [&](vmpi::Coll &o, int r) { if (r == root) for (int p = 0; p < c.size(); p++) { if ((size_t) (displs[p] + sizes[p]) > in.size()) vmpi::bad("scatterv beyond the values"); o.parts[root].push_back(vmpi::pack(in.data() + displs[p], sizes[p])); } });
    vmpi::unpack(o.parts[root][me], out, nout);
}
template<class T> void scatterv(const communicator &c, const std::vector<T> &in, const std::vector<int> &sizes, T *out, int root) {
    std::vector<int> d; int a = 0; for (int s : sizes) { d.push_back(a); a += s; } scatterv(c, in, sizes, d, out, sizes[c.rank()], root);
}
template<class T> void scatterv(const communicator &c, T *out, int nout, int root) { if (c.rank() == root) vmpi::bad("scatterv without values on the root"); scatterv(c, std::vector<T>(), std::vector<int>(), std::vector<int>(), out, nout, root); }
template<class T> void gather(const communicator &c, const T *in, int n, T *out, int root) {
    int me = c.rank();
    auto &o = vmpi::enter(c.ctx(), vmpi::Gather, root, detail::tname<T>(n).c_str(), [&](vmpi::Coll &o, int r) { o.data[r] = vmpi::pack(in, n); });
    if (me == root) for (int p = 0; p < c.size(); p++) vmpi::unpack(o.data[p], out + (size_t) p * n, n);
}
template<class T> void gather(const communicator &c, const T &in, std::vector<T> &out, int root) { if (c.rank() == root) out.resize(c.size()); gather(c, &in, 1, out.data(), root); }
template<class T> void gather(const communicator &c, const T &in, T *out, int root) { gather(c, &in, 1, out, root); }
template<class T> void gather(const communicator &c, const T &in, int root) { if (c.rank() == root) vmpi::bad("gather without a result on the root"); gather(c, &in, 1, (T*) nullptr, root); }
template<class T> void gather(const communicator &c, const T *in, int n, std::vector<T> &out, int root) { if (c.rank() == root) out.resize((size_t) c.size() * n); gather(c, in, n, out.data(), root); }
template<class T> void gather(const communicator &c, const T *in, int n, int root) { gather(c, in, n, (T*) nullptr, root); }
template<class T> void gatherv(const communicator &c, const std::vector<T> &in, T *out, const std::vector<int> &sizes, int root) {
    int me = c.rank();
    auto &o = vmpi::enter(c.ctx(), vmpi::Gather, root, typeid(T).name(), [&](vmpi::Coll &o, int r) { o.data[r] = vmpi::pack(in.data(), in.size()); });
    if (me == root) { size_t a = 0; for (int p = 0; p < c.size(); p++) { vmpi::unpack(o.data[p], out + a, sizes[p]); a += sizes[p]; } }
}
template<class T> void gatherv(const communicator &c, const std::vector<T> &in, int root) { gatherv(c, in, (T*) nullptr, std::vector<int>(), root); }
template<class T> void all_gather(const communicator &c, const T *in, int n, T *out) {
    auto &o = vmpi::enter(c.ctx(), vmpi::AllGather, 0, detail::tname<T>(n).c_str(), [&](vmpi::Coll &o, int r) { o.data[r] = vmpi::pack(in, n); });
    for (int p = 0; p < c.size(); p++) vmpi::unpack(o.data[p], out + (size_t) p * n, n);
}
template<class T> void all_gather(const communicator &c, const T &in, std::vector<T> &out) { out.resize(c.size()); all_gather(c, &in, 1, out.data()); }
template<class T> void all_gather(const communicator &c, const T &in, T *out) { all_gather(c, &in, 1, out); }
template<class T> void all_to_all(const communicator &c, const std::vector<T> &in, std::vector<T> &out) {
    int me = c.rank(); if ((int) in.size() < c.size()) vmpi::bad("all_to_all with too few values");
    auto &o = vmpi::enter(c.ctx(), vmpi::AllToAll, 0, typeid(T).name(), [&](vmpi::Coll &o, int r) { for (int p = 0; p < c.size(); p++) o.parts[r].push_back(vmpi::pack(&in[p], 1)); });
    out.resize(c.size()); for (int p = 0; p < c.size(); p++) vmpi::unpack(o.parts[p][me], &out[p], 1);
}
}}
#define BOOST_IS_MPI_DATATYPE(T) namespace boost { namespace mpi { template<> struct is_mpi_datatype< T > : mpl::true_ {}; } }
