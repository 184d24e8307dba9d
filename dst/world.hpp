// Builds a Simulation (and its independent description for the reference model) from a Cfg.
#pragma once
#include <array>
#include "cfg.hpp"
#include "rt.h"
#include "ref.hpp"
#include "sut_objects.hpp"

struct Transform { int kind = -1; TV shift = TV::Zero(); int perm[3] = {0, 1, 2}; std::vector<int> order; // B index i holds A particle order[i]
    TV pos(const TV& x) const { TV r; for (int k = 0; k < ref::D; k++) r(k) = x(perm[k]) + shift(k); return r; }
    TV vec(const TV& x) const { TV r; for (int k = 0; k < ref::D; k++) r(k) = x(perm[k]); return r; }
    TM mat(const TM& m) const { TM r; for (int i = 0; i < ref::D; i++) for (int j = 0; j < ref::D; j++) r(i, j) = m(perm[i], perm[j]); return r; }
};
struct World { // plain description, computed by the harness
    std::vector<TV> x, v; std::vector<TM> F, B; std::vector<std::array<T, 3>> hist; /* plastic history: deviatoric, volumetric, volume correction */ ref::Setup su; std::vector<ref::PlateS> plates;
    T c0, frame_dt, fps, min_dt, dt_max, mp, vp, gtime; TV grav, refpt; bool hasref = false; int n = 0; TM A = TM::Zero(); TV cen = TV::Zero(), b0 = TV::Zero(); T Lx = 1, Ly = 1, Lz = 1; ref::Mat mat; TV lo, hi;
};
World make_world(const Cfg& c);
World transform(const World& w, const Transform& t);
void install(Simulation& sim, const World& w, const Cfg& c); // call with rt::sut == false; allocates in the simulated heap
PlateType perm_plate(PlateType t, const int* perm);
