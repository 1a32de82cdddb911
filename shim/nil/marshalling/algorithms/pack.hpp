#pragma once
#include <vshim/marshalling.hpp>
