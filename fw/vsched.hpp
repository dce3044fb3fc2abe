// Controlled scheduler: fibers, choice sequences, strands (logical tasks) and the access monitor.
// Every decision a parallel runtime may take is a call to choose(); the explorer enumerates them.
#pragma once
#include <cstddef>
#include <cstdint>
#include <exception>
#include <functional>
#include <string>
#include <vector>

namespace vs {

// ---- choice sequences -------------------------------------------------------------------
struct Explorer {
    std::vector<int> prefix;                    // forced choices
    std::vector<std::pair<int, int>> trace;     // (chosen, alternatives)
    int maxdev = 0;                             // non-default choices per execution
    int policy = 0;                             // what "default" means for ranges
    bool yields = true;                         // preemption at runtime calls inside tasks
    bool plans = true;                          // partitions of parallel loops are choices too
    bool fine = false;                          // always the finest partition (race monitor)
    uint64_t executions = 0, points = 0;
    void begin() { trace.clear(); }
    bool next();                                // advance to the next choice sequence
    void reset() { prefix.clear(); trace.clear(); }
    std::string text() const;                   // policy/choices of the current execution
    void parse(const std::string &);
};
extern Explorer X;
int choose(int n);

void det_begin(); void det_end();             // an execution whose allocations are deterministic

// ---- plans ---------------------------------------------------------------------------------
// how one parallel_reduce is evaluated: nodes in evaluation order, the root last.
//   accumulate: body over the chunks (start, ends...) applied to the identity (base < 0) or to the value of node `base`
//   join:       reduction(value of l, value of r)
struct RNode { int base = -1, start = 0, l = -1, r = -1; std::vector<int> ends; bool join() const { return l >= 0; } };
struct ReducePlan { std::vector<RNode> nodes; bool rev = false; };
struct ForPlan { std::vector<int> ends; std::vector<int> order; };
const ReducePlan &pick_reduce(size_t n);
const ForPlan &pick_for(size_t n);
std::vector<int> pick_order(size_t n);          // order of n unrelated tasks

// ---- strands and fibers --------------------------------------------------------------------------
int strand_new(int parent, bool construct);     // node of the series-parallel tree
int strand_cur();
struct Job { int strand; std::function<void()> fn; };
void run_jobs(std::vector<Job> &jobs);          // starts them in the given order, each on a stack of its own
void yield();                                   // a point where the runtime may switch tasks
struct Construct { int id; Construct(); ~Construct(); };

// generic cooperative fibers (used by the MPI model too)
struct Fiber;
Fiber *fiber_new(std::function<void()> fn, size_t stack = 256 << 10);
bool fiber_done(Fiber *);
void fiber_resume(Fiber *);                     // runs it until it suspends or ends
void fiber_suspend();                           // back to the resumer
void fiber_free(Fiber *);
Fiber *fiber_current();

// ---- access monitor ------------------------------------------------------------------------------
extern bool mon_enabled;                        // set by the race harness
struct Unmonitored { Unmonitored(); ~Unmonitored(); };
std::string mon_report();                       // first race of the current execution, "" if none
void mon_reset();
uint64_t mon_accesses();
void lock_acquire(void *l); void lock_release(void *l);
void misuse(const std::string &what);           // a call no legal program may make (e.g. index beyond size)
}
namespace vs { std::vector<std::string> reduce_plan_texts(int n); std::vector<std::string> for_plan_texts(int n); }
