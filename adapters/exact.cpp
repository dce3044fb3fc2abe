// One exact entry point (VF_ALG), both weight types, behind a plain interface.
#include <built.hpp>
#include <parmcb/parmcb.hpp>
#ifdef VF_LIST
#include <builtl.hpp>
#endif
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
namespace vf {
template<class W> static void run(const Built<W> &b, Out &o) {
    typedef typename Built<W>::Edge Edge;
    std::list<std::list<Edge>> cycles;
    o.ret = (double) parmcb::VF_ALG(b.g, boost::get(boost::edge_weight, b.g), std::back_inserter(cycles));
    collect(b, cycles, o);
}
#ifndef VF_LIST
void CAT(VF_ALG, _d)(const Built<double> &b, Out &o) { run(b, o); }
void CAT(VF_ALG, _i)(const Built<int> &b, Out &o) { run(b, o); }
#else
void CAT(VF_ALG, _l)(const BuiltL &b, Out &o) { // vertices stored in a list: descriptors are addresses, the index map is stateful
    std::list<std::list<BuiltL::Edge>> cycles;
    o.ret = parmcb::VF_ALG(b.g, boost::get(boost::edge_weight, b.g), std::back_inserter(cycles));
    for (auto &c : cycles) { std::vector<int> v; for (auto &e : c) v.push_back(b.idof(e)); o.cycles.push_back(v); }
}
#endif
}
