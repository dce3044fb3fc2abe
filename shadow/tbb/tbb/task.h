#pragma once
#include "../vtbb.hpp"
