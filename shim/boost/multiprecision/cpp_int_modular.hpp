#pragma once
#include <vshim/field.hpp>
#include <vshim/modular.hpp>
