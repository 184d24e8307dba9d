#pragma once
#include "src_includes.hpp"
std::unique_ptr<ObjectGeneral> make_object(int kind, BC bc, T friction, const TV& a, T b, const TV& n);
