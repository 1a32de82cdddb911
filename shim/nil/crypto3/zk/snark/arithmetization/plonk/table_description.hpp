#pragma once
#include <vshim/plonk.hpp>
