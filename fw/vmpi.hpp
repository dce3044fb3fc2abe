// In-process MPI: every rank is a fiber, every message a string, every collective a rendezvous the scheduler controls.
// Collectives with the same index on a communicator must agree in kind and root; completion is either synchronising
// (all ranks leave after all arrived) or as early as the data flow permits - both are legal MPI behaviours.
#pragma once
#include <cstddef>
#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace vmpi {
enum Kind { Broadcast, Reduce, Scatter, Gather, AllReduce, AllGather, AllToAll, Barrier, Split, Scan };
struct Coll {
    Kind kind; int root = 0, narrived = 0; bool started = false; std::string type;
    std::vector<char> arrived; std::vector<std::string> data; std::vector<std::vector<std::string>> parts;
    std::vector<int> color, key; int plan = -1; std::vector<int> newctx, newrank;
};
struct Aborted {};
struct Config { int size = 1; bool eager = false; int order = 0; int base = 0; bool explore = false; };
// runs body(rank) on every rank; returns "" or what went wrong
std::string run(const Config &, const std::function<void(int)> &body);
extern Config conf;
extern uint64_t n_collectives, n_reduces;
bool active();
int world_rank();
int ctx_size(int ctx); int ctx_rank(int ctx);
[[noreturn]] void bad(const std::string &what);
Coll &enter(int ctx, Kind k, int root, const char *type, const std::function<void(Coll&, int)> &put); // blocks until this rank may read the result

// how n contributions are combined: postfix, operand indices or -1 for an application
const std::vector<std::vector<int>> &combine_plans(int n, bool commutative);
int pick_combine(int n, bool commutative);   // index into combine_plans (a choice when conf.explore, the base policy otherwise)
std::vector<int> base_combine(int n, int base, bool commutative);

struct Message { int src, tag; std::string data; };
void post(int ctx, int dst, int tag, std::string data);
Message take(int ctx, int src, int tag);     // src / tag -1: any
bool probe(int ctx, int src, int tag, Message &m);
}
