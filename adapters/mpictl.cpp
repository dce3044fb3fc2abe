// Control programs for the MPI model: 0..2 are correct, the rest is wrong on more than one rank.
#include <boost/mpi/communicator.hpp>
#include <boost/mpi/collectives.hpp>
#include <vmpi.hpp>
#include <boost/serialization/vector.hpp>
#include <list>
namespace mpi = boost::mpi;
namespace vf {
int mpi_control(int which, int P, std::string &err) {
    vmpi::Config cf = vmpi::conf; cf.size = P; cf.order = which & 1; cf.base = 1; cf.explore = false;
    std::vector<int> out(P, 0); bool wrong = false;
    err = vmpi::run(cf, [&](int) {
        mpi::communicator world; int me = world.rank(), v = me == 0 ? 7 : 0;
        std::vector<std::vector<int>> chunks; std::vector<int> mine;
        switch (which) {
        case 0: mpi::broadcast(world, v, 0); out[me] = v; if (v != 7) wrong = true; break;
        case 1: { int s = 0; mpi::reduce(world, me + 1, s, std::plus<int>(), 0); if (me == 0 && s != P * (P + 1) / 2) wrong = true; if (me && s) wrong = true; break; }
        case 2: if (me == 0) for (int p = 0; p < P; p++) chunks.push_back({p, p}); mpi::scatter(world, chunks, mine, 0); if (mine != std::vector<int>{me, me}) wrong = true; world.barrier(); if (P > 1) { if (me == 0) { int x; world.recv(mpi::any_source, 3, x); } else if (me == 1) world.send(0, 3, me); } break;
        case 3: if (me == 0) mpi::broadcast(world, v, 0); break;                                   // the others leave
        case 4: if (me) mpi::broadcast(world, v, 0); break;                                        // root never sends
        case 5: if (me == 0) { mpi::broadcast(world, v, 0); } else { int s; mpi::reduce(world, me, s, std::plus<int>(), 0); } break;
        case 6: { int s; if (me != P - 1 || P == 1) mpi::reduce(world, me, s, std::plus<int>(), 0); break; }
        case 7: if (me == 0) chunks.resize(P == 1 ? 1 : P - 1); mpi::scatter(world, chunks, mine, 0); break;   // one chunk short
        }
    });
    if (wrong) err = "wrong value";
    return 0;
}
}
