// set_global_tbb_concurrency as seen by one translation unit (VF_UNIT)
#include <parmcb/util.hpp>
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
namespace vf { void CAT(set_from_, VF_UNIT)(std::size_t n) { parmcb::set_global_tbb_concurrency(n); } }
