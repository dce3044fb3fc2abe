// The cases shared by the MPI model and the real MPI runs.
#pragma once
#include <judge.hpp>
#include <spaces.hpp>
#include <builtl.hpp>
namespace vf {
#define DECL(a) void a##_d(const Built<double>&, Out&); void a##_i(const Built<int>&, Out&);
DECL(mcb_sva_signed_mpi) DECL(mcb_sva_fvs_trees_mpi) DECL(mcb_sva_fvs_trees_tbb_mpi) DECL(mcb_sva_iso_trees_mpi) DECL(mcb_sva_iso_trees_tbb_mpi)
void mcb_sva_signed_mpi_l(const BuiltL&, Out&);
struct MAlg { const char *name; void (*d)(const Built<double>&, Out&); void (*i)(const Built<int>&, Out&); };
#define MALG_(a) {#a, a##_d, a##_i}
static const MAlg MALGS[] = { MALG_(mcb_sva_signed_mpi), MALG_(mcb_sva_fvs_trees_mpi), MALG_(mcb_sva_fvs_trees_tbb_mpi), MALG_(mcb_sva_iso_trees_mpi), MALG_(mcb_sva_iso_trees_tbb_mpi) };
// rank's address order under layout l: 0 all the same, 1 alternating, 2 all different
inline Case rank_case(const WGraph &g, int rank, int l) {
    Case c; c.g = g; int m = g.m();
    if (l == 1 && rank % 2) c.ptr = 'd';
    if (l == 2) { c.ptr = 'p'; for (int i = 0; i < m; i++) c.perm.push_back((i + rank * 2 + 1) % m); if (rank % 2) std::reverse(c.perm.begin(), c.perm.end()); }
    return c;
}
inline std::vector<WGraph> conf_cases() { // small enough to know every outcome of the model
    std::vector<WGraph> r;
    for (auto &g : noniso(4)) { int d = g.m() - g.n + 1; if (d >= 1) weightings(g, {1, 2}, [&](const WGraph &x) { r.push_back(x); }); }
    for (auto &g : noniso(5)) if (g.m() >= 5 && g.m() <= 7) r.push_back(g);
    return r;
}
inline std::vector<WGraph> contract_cases(bool thorough) {
    std::vector<WGraph> r;
    for (int n = 0; n <= 4; n++) labelled(n, {1, 2}, [&](const WGraph &x) { if (thorough || n < 4 || hash_str(encode(Case{x})) % 16 == 0) r.push_back(x); });
    for (int lvl = 0; lvl <= (thorough ? 1 : 0); lvl++) for (auto &p : corpus(lvl)) for (int mode : {0, 4, 9}) if (p.second.m() <= (thorough ? 300 : 120)) r.push_back(fam::reweight(p.second, mode));
    for (auto &g : noniso(5)) r.push_back(g);
    for (auto &g : noniso(6)) r.push_back(g);
    if (thorough) for (auto &g : noniso(5)) if (g.m() <= 8) weightings(g, {1, 2}, [&](const WGraph &x) { r.push_back(x); });
    return r;
}
}
