// The MPI demo's main as a function every rank of the MPI model can run. exit() inside it ends the rank.
#include <cassert>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <boost/config.hpp>
#include <boost/format.hpp>
#include <boost/graph/adjacency_list.hpp>
#include <boost/graph/graph_traits.hpp>
#include <boost/program_options.hpp>
#include <boost/property_map/property_map.hpp>
#include <boost/thread.hpp>
#include <boost/timer/timer.hpp>
#include <boost/mpi.hpp>
#include <tbb/tbb.h>
struct vf_demo_exit { int code; };
[[noreturn]] inline void vf_exit(int c) { throw vf_demo_exit{c}; }
namespace std { using ::vf_exit; }
#define exit vf_exit
#define main vf_demo_main
#include VF_DEMO
#undef main
#undef exit
namespace vf {
int mpi_demo(int argc, char **argv) { try { return ::vf_demo_main(argc, argv); } catch (const vf_demo_exit &e) { return e.code; } }
}
