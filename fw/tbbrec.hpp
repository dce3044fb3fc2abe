#pragma once
#include <cstddef>
namespace vf { struct RecTotals { size_t count, lo, hi, threads; }; RecTotals rec_totals(); void rec_reset(); }
