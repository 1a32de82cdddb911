#pragma once
#include <vshim/random.hpp>
