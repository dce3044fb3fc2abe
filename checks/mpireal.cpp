// The MPI entry points under the real runtime. Every rank walks the same list of cases; rank 0 judges and reports.
//   hello                  start and stop
//   conf FILE P            outcomes of the conformance cases
//   contract FILE tier     contract on the larger list
//   one FILE <case> a l t  a single case (replay)
#include "mpicases.hpp"
#include <boost/mpi/environment.hpp>
#include <boost/mpi/communicator.hpp>
#include <boost/mpi/collectives.hpp>
#include <tbb/global_control.h>
#include <cstdio>
#include <memory>
#include <unistd.h>
using namespace vf;
static boost::mpi::communicator *world;
static Oracle oracle;
static std::string run_one(const WGraph &g, int a, int l, int type, Out &o) { // type: 0 double 1 int 2 listS
    int r = world->rank(); Case c = rank_case(g, r, l); std::string e;
    try {
        if (type == 0) { Built<double> b(c); MALGS[a].d(b, o); } else if (type == 1) { Built<int> b(c); MALGS[a].i(b, o); }
#ifdef HAVE_LIST
        else { BuiltL b(c); mcb_sva_signed_mpi_l(b, o); }
#endif
    } catch (const std::exception &x) { e = std::string("rank ") + std::to_string(r) + " throws " + x.what(); fprintf(stderr, "%s\n", e.c_str()); _exit(3); }
    if (r && !o.cycles.empty()) { fprintf(stderr, "rank %d emits %zu cycles\n", r, o.cycles.size()); _exit(4); }
    return "";
}
static std::string judge(const WGraph &g, const Out &o) {
    int d = dim(g); std::string e = basis_error(g, d, o);
    return e.empty() ? optimum_error(g, oracle.mcb<double>(g), o) : e;
}
int main(int argc, char **argv) {
    boost::mpi::environment env(argc, argv, boost::mpi::threading::multiple);
    boost::mpi::communicator w; world = &w;
    if (std::string(argv[1]) == "hello") { int v = w.rank() ? 0 : 5; boost::mpi::broadcast(w, v, 0); return v == 5 ? 0 : 1; }
    FILE *f = w.rank() == 0 ? fopen(argv[2], "w") : nullptr; std::string mode = argv[1];
    auto show = [&](const char *tag, const WGraph &g, int a, int l, int t, const std::string &what) { Case c; c.g = g; fprintf(f, "%s %d %d %d %d %s | %s\n", tag, w.size(), a, l, t, encode(c).c_str(), what.c_str()); fflush(f); };
    if (mode == "conf") {
        tbb::global_control gc(tbb::global_control::max_allowed_parallelism, 1);
        auto cases = conf_cases();
        for (size_t ci = 0; ci < cases.size(); ci++) for (int a = 0; a < 5; a++) for (int l = 0; l < 3; l++) {
            if (cases[ci].m() < 1) continue;
            Out o; run_one(cases[ci], a, l, 0, o);
            if (f) fprintf(f, "O %zu %d %d %d %016llx\n", ci, a, w.size(), l, (unsigned long long) hash_out(o));
        }
    } else {
        std::vector<WGraph> cases; bool one = mode == "one", th = !one && std::string(argv[3]) == "thorough";
        if (one) cases.push_back(decode(argv[3]).g); else cases = contract_cases(th);
        tbb::global_control gc(tbb::global_control::max_allowed_parallelism, 2);
        long n = 0; int lim = 0;
        for (auto &g : cases) for (int a = 0; a < 5; a++) for (int l = 0; l < 3; l++) for (int t = 0; t < 3; t++) {
            if (one && (a != atoi(argv[4]) || l != atoi(argv[5]) || t != atoi(argv[6]))) continue;
            if (!one && ((t == 1 && (l != 1 || !integral_int(g))) || (t == 2 && (a != 0 || l == 0)))) continue;
            if (l == 2 && !g.m()) continue;
#ifndef HAVE_LIST
            if (t == 2) continue;
#endif
            if (f) { if (ftruncate(fileno(f), 0)) {} rewind(f); show("C", g, a, l, t, ""); }
            Out o; run_one(g, a, l, t, o); n++;
            std::string e = f ? judge(g, o) : "";
            if (f && !e.empty()) { fclose(f); f = fopen((std::string(argv[2]) + ".bad").c_str(), "a"); show("F", g, a, l, t, e); fclose(f); f = fopen(argv[2], "w"); lim++; }
            if ((n & 63) == 0) { boost::mpi::broadcast(w, lim, 0); if (lim > 4) break; }
        }
        if (f) { fclose(f); f = fopen(argv[2], "w"); fprintf(f, "N %ld\n", n); }
    }
    if (f) fclose(f);
    return 0;
}
