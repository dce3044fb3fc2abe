// One MPI entry point (VF_ALG) behind a plain interface; called once per rank.
#include <built.hpp>
#include <parmcb/parmcb.hpp>
#include <parmcb/mpi/parmcb.hpp>
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#ifdef VF_LIST
#include <builtl.hpp>
#endif
namespace vf {
template<class W> static void run(const Built<W> &b, Out &o) {
    typedef typename Built<W>::Edge Edge;
    boost::mpi::communicator world;
    std::list<std::list<Edge>> cycles;
    o.ret = (double) parmcb::VF_ALG(b.g, boost::get(boost::edge_weight, b.g), std::back_inserter(cycles), world);
    collect(b, cycles, o);
}
#ifndef VF_LIST
void CAT(VF_ALG, _d)(const Built<double> &b, Out &o) { run(b, o); }
void CAT(VF_ALG, _i)(const Built<int> &b, Out &o) { run(b, o); }
#else
void CAT(VF_ALG, _l)(const BuiltL &b, Out &o) {
    boost::mpi::communicator world;
    std::list<std::list<BuiltL::Edge>> cycles;
    o.ret = parmcb::VF_ALG(b.g, boost::get(boost::edge_weight, b.g), std::back_inserter(cycles), world);
    for (auto &c : cycles) { std::vector<int> v; for (auto &e : c) v.push_back(b.idof(e)); o.cycles.push_back(v); }
}
#endif
}
