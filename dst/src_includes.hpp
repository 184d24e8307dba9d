#pragma once
#include <cstring>
#include "simulation/simulation.hpp"
#include "objects/object_general.hpp"
#include "objects/object_plate.hpp"
#include "objects/object_bump.hpp"
#include "objects/object_curve.hpp"
#include "objects/object_gate.hpp"
#include "objects/object_ground.hpp"
#include "objects/object_ramp.hpp"
#ifdef THREEDIM
#include "objects/object_silo.hpp"
#endif
