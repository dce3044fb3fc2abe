// Every outcome of the MPI model on the conformance cases, as "case alg P layout hash hash ..."
#include "mpicases.hpp"
#include <vsched.hpp>
#include <vmpi.hpp>
#include <cstdio>
#include <memory>
#include <set>
using namespace vf;
int main(int argc, char **argv) {
    FILE *f = fopen(argv[1], "w"); unsigned long long execs = 0;
    auto cases = conf_cases();
    int part = argc > 2 ? atoi(argv[2]) : 0, parts = argc > 3 ? atoi(argv[3]) : 1;
    for (size_t ci = 0; ci < cases.size(); ci++) for (int a = 0; a < 5; a++) for (int P = 1; P <= 3; P++) for (int l = 0; l < 3; l++) {
        if ((int) (ci % parts) != part) continue;
        const WGraph &g = cases[ci]; if (g.m() < 1) continue;
        std::set<uint64_t> outs;
        vs::X.reset(); vs::X.policy = 0; vs::X.plans = false; vs::X.yields = false; vs::X.maxdev = 100;
        do {
            vs::X.begin();
            vmpi::Config cf; cf.size = P; cf.explore = true;
            std::vector<Out> o(P); std::vector<std::unique_ptr<Built<double>>> gs;
            for (int r = 0; r < P; r++) gs.emplace_back(new Built<double>(rank_case(g, r, l)));
            std::string e = vmpi::run(cf, [&](int r) { MALGS[a].d(*gs[r], o[r]); });
            while (!gs.empty()) gs.pop_back();
            if (!e.empty()) { fprintf(f, "E %zu %d %d %d %s\n", ci, a, P, l, e.c_str()); fclose(f); return 0; }
            outs.insert(hash_out(o[0])); execs++;
        } while (vs::X.next());
        fprintf(f, "O %zu %d %d %d", ci, a, P, l); for (auto h : outs) fprintf(f, " %016llx", (unsigned long long) h); fprintf(f, "\n");
    }
    fprintf(f, "X %llu\n", execs);
    fclose(f);
    return 0;
}
