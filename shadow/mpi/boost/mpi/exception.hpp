#pragma once
#include <boost/mpi/vmpi_boost.hpp>
