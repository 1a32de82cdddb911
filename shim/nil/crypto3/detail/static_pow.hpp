#pragma once
#include <nil/detail/static_pow.hpp>
