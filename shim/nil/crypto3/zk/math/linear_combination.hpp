#pragma once
#include <vshim/r1cs.hpp>
