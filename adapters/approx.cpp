// One approximate entry point (VF_ALG); back_inserter, position-carrying output iterator, separate weight map.
#include <built.hpp>
#include <parmcb/parmcb.hpp>
#include <boost/property_map/property_map.hpp>
#include "approx.hpp"
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
namespace vf {
template<class W> static void run(const Built<W> &b, size_t k, int sink, Out &o) {
    typedef typename Built<W>::Edge Edge;
    typedef typename Built<W>::Graph Graph;
#if defined(VF_MAP) // the caller keeps the weights in a map of its own; the graph's internal weights are unrelated
    Graph &g = const_cast<Graph&>(b.g);
    std::map<Edge, W> store;
    auto inner = boost::get(boost::edge_weight, g);
    for (size_t i = 0; i < b.ed.size(); i++) store[b.ed[i]] = inner[b.ed[i]];
    for (size_t i = 0; i < b.ed.size(); i++) inner[b.ed[i]] = (W) (b.ed.size() - i);
    boost::const_associative_property_map<std::map<Edge, W>> wm(store);
#else
    typename Built<W>::WM wm = boost::get(boost::edge_weight, const_cast<Graph&>(b.g));
#endif
    std::list<std::list<Edge>> cycles;
    if (sink == 0) {
        try { o.ret = (double) parmcb::VF_ALG(b.g, wm, k, std::back_inserter(cycles)); }
        catch (const std::exception &e) { o.threw = true; o.what = e.what(); }
        catch (...) { o.threw = true; o.what = "exception not derived from std::exception"; }
        collect(b, cycles, o);
    } else {
        Slots<std::list<Edge>> buf;
        try { o.ret = (double) parmcb::VF_ALG(b.g, wm, k, SlotIt<std::list<Edge>>(&buf)); }
        catch (const std::exception &e) { o.threw = true; o.what = e.what(); }
        catch (...) { o.threw = true; o.what = "exception not derived from std::exception"; }
        collect(b, buf.v, o);
    }
#if defined(VF_MAP)
    for (size_t i = 0; i < b.ed.size(); i++) inner[b.ed[i]] = store[b.ed[i]];
#endif
}
#if defined(VF_MAP)
void CAT(VF_ALG, _md)(const Built<double> &b, size_t k, int s, Out &o) { run(b, k, s, o); }
#else
void CAT(VF_ALG, _d)(const Built<double> &b, size_t k, int s, Out &o) { run(b, k, s, o); }
void CAT(VF_ALG, _i)(const Built<int> &b, size_t k, int s, Out &o) { run(b, k, s, o); }
#endif
}
