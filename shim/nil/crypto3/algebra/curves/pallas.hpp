#pragma once
#include <vshim/curves.hpp>
