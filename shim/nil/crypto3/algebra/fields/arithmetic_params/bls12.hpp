#pragma once
#include <vshim/field.hpp>
