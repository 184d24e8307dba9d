// Runner: drives one Simulation and calls the monitors; monitors decide the properties.
#include "run.hpp"
#include "frozen.hpp"
#include <cstring>
#include <fstream>
#include <filesystem>
using namespace ref;

static void hash_state(Runner& R, const Simulation& s, const DstView& v){
    auto mix = [&](const void* p, size_t n){ const uint64_t* q = (const uint64_t*)p; for (size_t i = 0; i < n / 8; i++){ R.hash = (R.hash ^ q[i]) * 1099511628211ull; R.hash ^= R.hash >> 31; } };
    auto vec = [&](const auto& a){ if (a.size()) mix(a.data(), a.size() * sizeof(a[0])); };
    const auto& p = s.particles; vec(p.x); vec(p.v); vec(p.F); vec(p.Bmat); vec(p.tau); vec(p.eps_pl_dev); vec(p.eps_pl_vol); vec(p.eps_pl_vol_pradhana); mix(&v.time, 8); mix(&v.dt, 8);
}
static void trace_state(Runner& R, const Simulation& s, const DstView& v){
    auto& t = R.tr; t.push_back(v.time); t.push_back(v.dt); t.push_back((double)s.particles.x.size());
    auto vec = [&](const auto& a){ t.push_back((double)a.size()); const double* q = (const double*)a.data(); t.insert(t.end(), q, q + a.size() * sizeof(a[0]) / 8); };
    const auto& p = s.particles; vec(p.x); vec(p.v); vec(p.F); vec(p.Bmat); vec(p.tau); vec(p.eps_pl_dev); vec(p.eps_pl_vol); vec(p.eps_pl_vol_pradhana); vec(p.delta_gamma); vec(p.viscosity); vec(p.muI);
    for (auto& q : s.plates){ t.push_back(q->pos_object); t.push_back(q->pos_lower); t.push_back(q->pos_upper); t.push_back(q->vx_object); t.push_back(q->vy_object); }
}
GridS grab(const Grid& g){ GridS r; r.ax[0] = g.x; r.ax[1] = g.y;
#ifdef THREEDIM
    r.ax[2] = g.z;
#else
    r.ax[2] = {0};
#endif
    r.v = g.v; r.mass = g.mass; r.friction = g.friction; return r; }
bool extreme(const TM& F){ T d = F.determinant(); return !(d > 0.03 && d < 30) || !(F.norm() < 30); }

void Runner::construct(){
    { rt::SutScope s; sim = new Simulation(); }
    install(*sim, w, c); rt::ignore_range(&sim->exit, sizeof(int));
    sim->dst_observer = [this](const char* p, Simulation& s, const DstView& v){ hook(p, s, v); };
}
void Runner::initialise(){ if (!initialised) return; rt::SutScope s; sim->initialize(save, dir, "run"); }
void Runner::simulate(){ { rt::SutScope s; sim->simulate(); } if (monitored) mon_end(*this); }

void Runner::hook(const char* pt, Simulation& s, const DstView& v){
    rt::HarnessScope hs;
    auto in_box = [&](const TV& x){ return x(1) >= 0 && x(1) <= w.Ly && (D == 2 || (x(D - 1) >= -c.dx && x(D - 1) <= w.Lz + c.dx)); };
    bool isstep = !strcmp(pt, "step"), isbegin = !strcmp(pt, "begin");
    if (isbegin){ pre = snap(s); ppre = snap_plates(s); began = true; tprev = v.time; }
    else { dt = v.dt; if (!strcmp(pt, "p2g")){ ro.reset(); ro_dt = v.dt; ro_g = s.gravity; } }
    if (isstep){ nstep++; S->nsteps++; hash_state(*this, s, v); if (traced) trace_state(*this, s, v);
        bool ext = false; for (auto& F : s.particles.F){ if (extreme(F)) ext = true; if (monitored && prop == "C06" && !(F.norm() < 1e3)){ probe("stopped: leaves valid range"); finish(3); } }
        if (s.pbc) for (auto& x : s.particles.x) if (!in_box(x)) ext = true;
        if (monitored && prop == "C06" && s.pbc) for (auto& x : s.particles.x) if (!in_box(x)){ probe("stopped: leaves valid range"); finish(3); }
        if (monitored && ext && prop == "C12"){ probe("stopped: leaves valid range"); finish(3); }
        if (monitored && ext && prop != "C06" && prop != "C12" && prop != "C15"){ const Out& o = R(); bool legit = false; for (auto& F : o.Ft) if (extreme(F)) legit = true; if (s.pbc) for (auto& x : o.x) if (!in_box(x)) legit = true; for (auto& F : s.particles.F){ T d = F.determinant(); if (d == d && extreme(F)) legit = true; } if (legit){ probe("stopped: leaves valid range"); finish(3); } }
    }
    if (monitored){ if (isbegin) mon_begin(*this, s, v); else if (isstep) mon_step(*this, s, v); else if (!strcmp(pt, "p2g")) mon_p2g(*this, s, v); else mon_euler(*this, s, v); }
    if (user) user(*this, pt, s, v);
    if (isstep){
        if (monitored && nstep >= c.maxsteps) finish(3);
        if (monitored && !s.pbc){ double cells = 1; for (int k = 0; k < D; k++){ T a = 1e300, b = -1e300; for (auto& x : s.particles.x){ a = std::min(a, x(k)); b = std::max(b, x(k)); } cells *= (b - a) / c.dx + 6; } if (cells > 12000){ probe("stopped: spread too far"); finish(3); } }
        if (monitored) mon_post(*this, s, v);
        if (completes(v.time)){ done_frames++; }
        pre = snap(s); ppre = snap_plates(s); tprev = v.time; S->simtime = v.time;
    }
}

// ------------------------------------------------------------------ helpers
static T big(const std::vector<TV>& a){ T m = 0; for (auto& v : a) m = std::max(m, v.norm()); return m; }
static bool near_int(T u, long& i){ T r = std::round(u); i = (long)r; return std::abs(u - r) < 1e-6; }
// visit every node of the solver's grid with its lattice index
template <class Fn> static void nodes(Runner& R, const Grid& g, Fn fn){
    GridS a; std::vector<long> id[3]; const std::vector<T>* ax[3] = {&g.x, &g.y, nullptr};
#ifdef THREEDIM
    ax[2] = &g.z;
#endif
    for (int k = 0; k < D; k++) for (T X : *ax[k]){ long i; if (!near_int((X - R.w.su.origin(k)) / R.w.su.dx, i)) bad("grid-off-lattice", "grid line %.17g of axis %d is not on the lattice through %.17g", (double)X, k, (double)R.w.su.origin(k)); id[k].push_back(i); }
    if (D == 2) id[2] = {0};
    size_t n = id[0].size() * id[1].size() * id[2].size(); if (g.v.size() != n || g.mass.size() != n) bad("grid-size", "grid arrays have %zu/%zu entries for %zu nodes", g.v.size(), g.mass.size(), n);
    size_t l = 0; for (size_t i = 0; i < id[0].size(); i++) for (size_t j = 0; j < id[1].size(); j++) for (size_t k = 0; k < id[2].size(); k++, l++) fn(Idx{id[0][i], id[1][j], id[2][k]}, l);
}
static const char* where(const Idx& i){ static char b[4][64]; static int k = 0; k = (k + 1) % 4; snprintf(b[k], 64, "(%ld,%ld,%ld)", i[0], i[1], i[2]); return b[k]; }

// ------------------------------------------------------------------ C07 grid
static void grid_support(Runner& R, Simulation& s, const DstView& v){
    const std::vector<T>* ax[3] = {&v.grid->x, &v.grid->y, nullptr};
#ifdef THREEDIM
    ax[2] = &v.grid->z;
#endif
    size_t tot = 1;
    for (int k = 0; k < D; k++){
        const auto& a = *ax[k]; tot *= a.size(); if (a.empty()) bad("grid-empty", "axis %d has no nodes", k);
        std::vector<long> id; for (T X : a){ long i; if (!near_int((X - R.w.su.origin(k)) / R.w.su.dx, i)) bad("grid-off-lattice", "step %u axis %d: grid line %.17g is not on the lattice through %.17g with spacing %.17g", v.step, k, (double)X, (double)R.w.su.origin(k), (double)R.w.su.dx); id.push_back(i); }
        for (size_t i = 1; i < id.size(); i++) if (id[i] != id[i - 1] + 1) bad("grid-duplicate-or-gap", "step %u axis %d: grid lines %ld and %ld are consecutive", v.step, k, id[i - 1], id[i]);
        T lo = 1e300, hi = -1e300; for (auto& x : s.particles.x){ lo = std::min(lo, x(k)); hi = std::max(hi, x(k)); }
        for (size_t p = 0; p < s.particles.x.size(); p++){ T u = (s.particles.x[p](k) - R.w.su.origin(k)) / R.w.su.dx; if (s.pbc && (s.particles.x[p](0) < 0 || s.particles.x[p](0) > R.w.Lx)) continue;
            for (long i = (long)std::floor(u) - 2; i <= (long)std::floor(u) + 3; i++) if (B(u - i) > 1e-9){ check1(); if (i < id.front() || i > id.back()) bad("grid-does-not-support-particle", "step %u: particle %zu at lattice coordinate %.12g of axis %d needs node %ld (weight %.3e), grid covers %ld..%ld", v.step, p, (double)u, k, i, (double)B(u - i), id.front(), id.back()); } }
        if (!s.pbc){
            if (v.step == 0){ lo = std::min(lo, (T)(R.w.hasref ? R.w.refpt(k) : lo)); hi = std::max(hi, (T)(R.w.hasref ? R.w.refpt(k) : hi)); }
            T ul = (lo - R.w.su.origin(k)) / R.w.su.dx, uh = (hi - R.w.su.origin(k)) / R.w.su.dx;
            if (id.front() < ul - 8 || id.back() > uh + 8) bad("grid-unbounded", "step %u axis %d: grid covers %ld..%ld but particles only %.6g..%.6g", v.step, k, id.front(), id.back(), (double)ul, (double)uh);
        }
    }
    if (v.grid->mass.size() != tot || v.grid->v.size() != tot) bad("grid-size", "grid arrays have %zu/%zu entries for %zu nodes", v.grid->mass.size(), v.grid->v.size(), tot);
}
static void jump(Runner& R, Simulation& s){ // scenario: particles are moved between steps (spread, contract, drift, jump)
    auto& r = R.hr; auto& x = s.particles.x; T dx = R.c.dx; if (!r.flip(0.6)) return;
    auto amt = [&](T m) -> T { T a = r.uni(-m, m); if (r.flip(0.5)) a = std::round(a); if (r.flip(0.2)) a = std::round(a) + r.uni(-1e-9, 1e-9); return a * dx; };
    if (s.pbc){ for (auto& q : x) if (r.flip(0.3)){ q(0) = r.flip(0.1) ? (r.flip(0.5) ? 0 : R.w.Lx) : r.uni(0, R.w.Lx); q(1) = r.uni(0.5, R.c.ny - 0.5) * dx; } probe("jump: periodic"); return; }
    TV o = R.w.su.origin; T lim = D == 2 ? 12 : 5;
    if (r.flip(0.04)){ TV d; for (int k = 0; k < D; k++) d(k) = r.flip(0.6) ? std::exp(r.uni(3, 10)) * (r.flip(0.5) ? 1 : -1) : 0; if (r.flip(0.5)) for (int k = 0; k < D; k++) d(k) = std::round(d(k)); for (auto& q : x) q += d * dx; R.far += d * dx; probe("jump: far away"); return; }
    switch (r.below(5)){
        case 0: { TV d; for (int k = 0; k < D; k++) d(k) = amt(lim); for (auto& q : x) q += d; probe("jump: drift"); break; }
        case 1: { size_t i = r.below(x.size()); for (int k = 0; k < D; k++) if (r.flip(0.5)) x[i](k) += amt(lim); probe("jump: one particle"); break; }
        case 2: { T f = r.flip(0.5) ? r.uni(0.1, 1) : r.uni(1, 2); TV c = x[r.below(x.size())]; for (auto& q : x) q = c + f * (q - c); probe("jump: scale"); break; }
        case 3: { for (auto& q : x) for (int k = 0; k < D; k++) q(k) = o(k) + std::round((q(k) - o(k)) / dx) * dx; probe("jump: onto nodes"); break; }
        default: { TV c; for (int k = 0; k < D; k++) c(k) = o(k) + R.far(k) + r.range(-3, 6) * dx; for (auto& q : x) for (int k = 0; k < D; k++) q(k) = c(k) + r.uni(0, 2) * dx; probe("jump: regroup"); }
    }
    for (auto& q : x) for (int k = 0; k < D; k++){ T b = o(k) + R.far(k), u = (q(k) - b) / dx; T m = D == 2 ? 40 : 9; if (u > m) q(k) = b + m * dx; if (u < -m) q(k) = b - m * dx; }
}

// ------------------------------------------------------------------ monitors
void mon_begin(Runner& R, Simulation& s, const DstView& v){
    R.hr = rt::Rng((uint64_t)R.c.sp0 * 7 + 3);
    if (R.prop == "C12"){ Snap sn; sn.frame = 0; sn.p = R.pre; sn.time = 0; R.snaps.push_back(sn); }
    if (R.prop == "C15" && R.c.fkind < 2) bad("invalid-setup-runs", "%s, but the run started", R.c.fkind < 1 ? "the simulation was not initialised" : "non-Hencky elasticity was combined with plasticity");
    if ((R.prop == "C08" || R.prop == "C10") && R.c.mibf && R.c.plastic > 0 && R.c.plastic != 1 && R.c.plastic != 5) for (int i = 0; i < R.w.n; i++){ T want = R.c.plastic >= 8 ? R.c.mu1 : R.c.M; check1(); if (s.particles.muI[i] != want) bad("friction-coefficient", "the run starts with friction coefficient %.9g instead of %.9g in particle %d", (double)s.particles.muI[i], (double)want, i); }
    if (v.time != 0) bad("time-start", "a run starts at time %.17g", (double)v.time);
}
void mon_p2g(Runner& R, Simulation& s, const DstView& v){
    if (R.prop == "C07") grid_support(R, s, v);
    if (R.prop == "C06" || R.prop == "C04"){ TV g = R.expected_gravity(R.tprev); check1(); if (!((s.gravity - g).norm() <= 1e-12 * (R.w.grav.norm() + 1e-300))) bad("gravity-ramp", "step %u at time %.12g: gravity (%.12g,%.12g) instead of (%.12g,%.12g)", v.step, (double)R.tprev, (double)s.gravity(0), (double)s.gravity(1), (double)g(0), (double)g(1)); }
}
static void mass_check(Runner& R, Simulation& s, const DstView& v){
    const Out& o = R.R(); T mp = R.w.mp, tot = 0, tol = 1e-9 * mp; std::map<Idx, T> seen; bool pbc = s.pbc;
    nodes(R, *v.grid, [&](const Idx& i, size_t l){
        T m = v.grid->mass[l]; if (!(m >= 0)) bad("negative-mass", "step %u: node %s has mass %.9g", v.step, where(i), (double)m);
        if (pbc && (i[0] < 0 || i[0] >= R.w.su.nper)) return;
        tot += m; auto it = o.g.n.find(i); T want = it == o.g.n.end() ? 0 : it->second.m; seen[i] = m; check1();
        if (!(std::abs(m - want) <= tol)) bad("node-mass", "step %u: node %s has mass %.12g, the particles give %.12g (particle mass %.6g)", v.step, where(i), (double)m, (double)want, (double)mp);
    });
    for (auto& kv : o.g.n) if (kv.second.m > tol && !seen.count(kv.first)) bad("node-missing", "step %u: node %s should carry mass %.9g but is not part of the grid", v.step, where(kv.first), (double)kv.second.m);
    T want = R.w.n * mp; if (!(std::abs(tot - want) <= 1e-9 * want)) bad("total-mass", "step %u: grid mass %.15g, particle mass %.15g", v.step, (double)tot, (double)want);
}
// round-off of node coordinates times the largest stress (weight gradients that vanish analytically)
static T vfloor(Runner& R){ T m = 0, b = 0; for (auto& t : R.pre.tau) m = std::max(m, t.norm()); for (auto& q : R.pre.B) b = std::max(b, q.norm()); return 1e-10 * R.w.c0 + 1e-6 * R.c.dx * Dinv(R.w.su) * b + 1e-6 * R.ro_dt * R.w.su.vp * m / (R.c.dx * R.w.mp); }
static void node_velocity(Runner& R, Simulation& s, const DstView& v){
    const Out& o = R.R(); T tol = std::max(o.tol, (T)1e-8); if (tol > 1e-4){ S->skipped++; return; }
    nodes(R, *v.grid, [&](const Idx& i, size_t l){
        if (s.pbc && (i[0] < 0 || i[0] >= R.w.su.nper)) return;
        auto it = o.g.n.find(i); if (it == o.g.n.end() || it->second.m < 1e-6 * R.w.mp) return; const Node& n = it->second; if (n.amb == 0){ S->skipped++; return; }
        T sc = n.smom / n.m + R.ro_dt * R.w.su.vp * n.sf / n.m + n.vs + n.v.norm() + vfloor(R); check1(); probe(n.contact ? "node in contact" : "node free");
        if (!((v.grid->v[l] - n.v).norm() <= 100 * tol * sc)) bad(n.contact ? "contact-velocity" : "free-node-velocity", "step %u: node %s at (%.9g,%.9g) has velocity (%.9g,%.9g,%.9g), %s gives (%.9g,%.9g,%.9g)", v.step, where(i), (double)n.X(0), (double)n.X(1), (double)v.grid->v[l](0), (double)v.grid->v[l](1), D == 3 ? (double)v.grid->v[l](D - 1) : 0.0, n.contact ? "the contact law" : "free motion", (double)n.v(0), (double)n.v(1), D == 3 ? (double)n.v(D - 1) : 0.0);
    });
}
void mon_euler(Runner& R, Simulation& s, const DstView& v){
    if (R.prop == "C03") mass_check(R, s, v);
    if (R.prop == "C08") node_velocity(R, s, v);
    if (R.prop == "C09"){ // images across the periodic ends carry the same mass and velocity
        const Out& o = R.R(); if (o.tol > 1e-4) return;
        nodes(R, *v.grid, [&](const Idx& i, size_t l){ if (i[0] < -1 || i[0] > R.w.su.nper + 1) return; Idx q = wrap(R.w.su, i); auto it = o.g.n.find(q); T want = it == o.g.n.end() ? 0 : it->second.m; check1();
            if (!(std::abs(v.grid->mass[l] - want) <= 1e-9 * R.w.mp)) bad("periodic-mass", "step %u: node %s has mass %.12g, the periodic tiling gives %.12g", v.step, where(i), (double)v.grid->mass[l], (double)want);
            if (want < 1e-6 * R.w.mp || it->second.amb == 0) return; const Node& n = it->second; T sc = n.smom / n.m + R.ro_dt * R.w.su.vp * n.sf / n.m + n.vs + n.v.norm() + vfloor(R);
            if (!((v.grid->v[l] - n.v).norm() <= 100 * std::max(o.tol, (T)1e-8) * sc)) bad("periodic-velocity", "step %u: node %s has velocity (%.9g,%.9g), the periodic tiling gives (%.9g,%.9g)", v.step, where(i), (double)v.grid->v[l](0), (double)v.grid->v[l](1), (double)n.v(0), (double)n.v(1)); });
    }
    if (R.prop == "C05"){
        TV g = s.gravity; T sc = R.w.b0.norm() + big(R.pre.v) + v.dt * g.norm(); T tol = 1e-8 * (sc + R.w.A.norm() * R.c.dx * 4) + 1e-300; const Out& o = R.R(); if (o.tol > 1e-6) return; tol *= std::max((T)1, o.tol / 1e-9 * 0.1);
        TV b = R.c.vmode == 2 ? R.w.b0 : R.pre.v[0];
        nodes(R, *v.grid, [&](const Idx& i, size_t l){ if (s.pbc && (i[0] < 0 || i[0] >= R.w.su.nper)) return; if (v.grid->mass[l] < 1e-6 * R.w.mp) return; TV X = pos_of(R.w.su, i); TV want = b + v.dt * g + (R.c.vmode == 2 ? TV(R.w.A * (X - R.w.cen)) : TV(TV::Zero())); T t2 = tol + 1e-8 * (R.w.A * (X - R.w.cen)).norm() + (R.c.rot > 0 ? 1e-9 * R.w.c0 : 0); check1();
            auto nd = o.g.n.find(i); if (nd != o.g.n.end()) t2 += std::min(R.ro_dt * R.w.su.vp * nd->second.sf / nd->second.m, (T)1e-6 * R.w.c0);
            if (!((v.grid->v[l] - want).norm() <= t2)) bad("affine-on-grid", "step %u: node %s has velocity (%.12g,%.12g) instead of (%.12g,%.12g)", v.step, where(i), (double)v.grid->v[l](0), (double)v.grid->v[l](1), (double)want(0), (double)want(1)); });
    }
}
static TV cross_sum(const TV& a, const TV& b){ TV r = TV::Zero(); if (D == 2) r(0) = a(0) * b(1) - a(1) * b(0); else { r(0) = a(1) * b(D - 1) - a(D - 1) * b(1); r(1) = a(D - 1) * b(0) - a(0) * b(D - 1); r(D - 1) = a(0) * b(1) - a(1) * b(0); } return r; }
static TV axial(const TM& Bm){ TV r = TV::Zero(); if (D == 2) r(0) = Bm(1, 0) - Bm(0, 1); else { r(0) = Bm(D - 1, 1) - Bm(1, D - 1); r(1) = Bm(0, D - 1) - Bm(D - 1, 0); r(D - 1) = Bm(1, 0) - Bm(0, 1); } return r; }
static T pdist(Runner& R, const TV& a, const TV& b){ TV d = a - b; if (R.c.pbc){ d(0) -= R.w.Lx * std::round(d(0) / R.w.Lx); } return d.norm(); }
static void sizes(Runner& R, Simulation& s){
    size_t n = R.w.n; auto& p = s.particles; const char* nm[] = {"x", "v", "pic", "flip", "eps_pl_dev", "eps_pl_vol", "eps_pl_vol_pradhana", "delta_gamma", "viscosity", "muI", "F", "Bmat", "tau"};
    size_t z[] = {p.x.size(), p.v.size(), p.pic.size(), p.flip.size(), p.eps_pl_dev.size(), p.eps_pl_vol.size(), p.eps_pl_vol_pradhana.size(), p.delta_gamma.size(), p.viscosity.size(), p.muI.size(), p.F.size(), p.Bmat.size(), p.tau.size()};
    for (int i = 0; i < 13; i++) if (z[i] != n) bad("particle-count", "after step %u array %s has %zu entries for %zu particles", R.nstep, nm[i], z[i], n);
    if (s.Np != n) bad("particle-count", "after step %u Np is %u for %zu particles", R.nstep, s.Np, n);
}
// motion of every particle against the reference step
static void refine(Runner& R, Simulation& s, bool F, const char* what){
    const Out& o = R.R(); if (o.amb || o.tol > 1e-4){ S->skipped++; return; } auto& p = s.particles; T dx = R.c.dx; T tol = o.tol; T dt = R.ro_dt;
    for (int i = 0; i < R.w.n; i++){
        T sv = o.sv[i] + R.pre.v[i].norm() + 1e-300; check1();
        if (!(pdist(R, p.x[i], o.x[i]) <= dt * tol * sv + 4e-15 * (o.x[i].norm() + R.w.Lx))) bad((std::string(what) + "-position").c_str(), "step %u particle %d: position (%.15g,%.15g) instead of (%.15g,%.15g)", R.nstep, i, (double)p.x[i](0), (double)p.x[i](1), (double)o.x[i](0), (double)o.x[i](1));
        if (!((p.v[i] - o.v[i]).norm() <= tol * sv)) bad((std::string(what) + "-velocity").c_str(), "step %u particle %d: velocity (%.12g,%.12g) instead of (%.12g,%.12g), scale %.3g", R.nstep, i, (double)p.v[i](0), (double)p.v[i](1), (double)o.v[i](0), (double)o.v[i](1), (double)sv);
        if (!((p.Bmat[i] - o.Bm[i]).norm() <= tol * sv * dx * 2)) bad((std::string(what) + "-affine").c_str(), "step %u particle %d: affine matrix differs by %.6g (norm %.6g)", R.nstep, i, (double)(p.Bmat[i] - o.Bm[i]).norm(), (double)o.Bm[i].norm());
        if (F && !((p.F[i] - o.Ft[i]).norm() <= tol * dt * o.sg[i] * (1 + R.pre.F[i].norm()) + 1e-13)) bad((std::string(what) + "-deformation").c_str(), "step %u particle %d: deformation gradient differs by %.6g from (I + dt grad v) F", R.nstep, i, (double)(p.F[i] - o.Ft[i]).norm());
    }
}
static void check_files(Runner& R);

void mon_step(Runner& R, Simulation& s, const DstView& v){
    const std::string& P = R.prop; auto& p = s.particles; int n = R.w.n; T mp = R.w.mp;
    if (P == "C03" || P == "C09"){ sizes(R, s); }
    if (P == "C03"){
        if (s.particle_mass != R.w.mp || s.particle_volume != R.w.vp) bad("particle-mass-changed", "particle mass/volume changed to %.17g/%.17g", (double)s.particle_mass, (double)s.particle_volume);
        const Out& o = R.R(); T vm = 0; for (auto& kv : o.g.n) vm = std::max(vm, kv.second.v.norm());
        for (int i = 0; i < n; i++){ check1(); bool ok = p.x[i].allFinite() && p.v[i].allFinite() && p.F[i].allFinite() && p.Bmat[i].allFinite() && p.tau[i].allFinite(); if (!ok) bad("not-finite", "step %u: particle %d has a non-finite state", R.nstep, i);
            if (!o.amb && o.tol < 1e-4 && !(pdist(R, p.x[i], R.pre.x[i]) <= v.dt * vm * (1 + 1e-6) + 1e-11 * (p.x[i].norm() + R.c.dx))) bad("particle-identity", "step %u: particle %d moved by %.6g in one step although no grid velocity exceeds %.6g (dt %.3g)", R.nstep, i, (double)pdist(R, p.x[i], R.pre.x[i]), (double)vm, (double)v.dt); }
    }
    if (P == "C04"){
        const Out& o = R.R(); bool touch = false; for (auto& kv : o.g.n) if (kv.second.contact || kv.second.amb == 0) touch = true;
        if (!touch && o.tol < 1e-6){
            TV g = R.expected_gravity(R.tprev), dP = TV::Zero(); T sc = 0; for (int i = 0; i < n; i++){ dP += mp * (p.v[i] - R.pre.v[i]); sc += mp * (o.sv[i] + R.pre.v[i].norm()); }
            TV want = n * mp * g * v.dt; check1(); probe("momentum balance"); if (!((dP - want).norm() <= 1e-8 * sc + 1e-300)) bad("linear-momentum", "step %u: momentum changed by (%.12g,%.12g) instead of (%.12g,%.12g); scale %.6g", R.nstep, (double)dP(0), (double)dP(1), (double)want(0), (double)want(1), (double)sc);
            if (R.c.flip < -1 && !s.pbc){
                TV cen = TV::Zero(); for (auto& x : R.pre.x) cen += x; cen /= n; TV L0 = TV::Zero(), L1 = TV::Zero(); T rs = 0;
                for (int i = 0; i < n; i++){ L0 += mp * (cross_sum(R.pre.x[i] - cen, R.pre.v[i]) + axial(R.pre.B[i])); L1 += mp * (cross_sum(p.x[i] - cen, p.v[i]) + axial(p.Bmat[i])); rs += mp * ((R.pre.x[i] - cen).norm() + 3 * R.c.dx) * (o.sv[i] + R.pre.v[i].norm()); }
                probe("angular balance"); check1(); if (!((L1 - L0).norm() <= 1e-8 * rs * std::max((T)1, o.tol / 1e-8 * 4) + 1e-300)) bad("angular-momentum", "step %u: angular momentum changed by %.9g (scale %.6g)", R.nstep, (double)(L1 - L0).norm(), (double)rs);
            }
        } else S->skipped++;
    }
    if (P == "C05"){
        const Out& o = R.R(); if (o.tol <= 1e-6){
            T f = std::max((T)1, o.tol / 1e-8); TV g = s.gravity; TM A = R.c.vmode == 2 ? R.w.A : TM(TM::Zero()); T Rad = (R.w.hi - R.w.lo).norm() + 4 * R.c.dx; T sc = big(R.pre.v) + A.norm() * R.c.dx * 4 + v.dt * g.norm() + 1e-300; T tol = 1e-8 * sc * f + (R.c.rot > 0 ? 1e-11 * R.w.c0 : 0);
            for (int i = 0; i < n; i++){
                TV vv = (R.c.vmode == 2 ? TV(A * (R.pre.x[i] - R.w.cen) + R.w.b0) : R.pre.v[i]) + v.dt * g; check1();
                if (!((p.v[i] - vv).norm() <= tol)) bad("velocity-not-reproduced", "step %u particle %d: velocity (%.12g,%.12g) instead of (%.12g,%.12g)", R.nstep, i, (double)p.v[i](0), (double)p.v[i](1), (double)vv(0), (double)vv(1));
                if (!(pdist(R, p.x[i], R.pre.x[i] + v.dt * vv) <= v.dt * tol + 4e-15 * (p.x[i].norm() + R.w.Lx))) bad("position-not-reproduced", "step %u particle %d: position (%.12g,%.12g) instead of (%.12g,%.12g)", R.nstep, i, (double)p.x[i](0), (double)p.x[i](1), (double)(R.pre.x[i] + v.dt * vv)(0), (double)(R.pre.x[i] + v.dt * vv)(1));
                TM Fw = R.pre.F[i] + v.dt * A * R.pre.F[i]; if (!((p.F[i] - Fw).norm() <= 1e-7 * f * v.dt * (sc / R.c.dx) + (R.c.rot > 0 ? 1e-10 : 1e-12))) bad("deformation-not-reproduced", "step %u particle %d: deformation differs from (I + dt A) by %.6g", R.nstep, i, (double)(p.F[i] - Fw).norm());
                if (R.c.flip < 0 && !((p.Bmat[i] - A / Dinv(R.w.su)).norm() <= 2 * tol * R.c.dx)) bad("gradient-not-reproduced", "step %u particle %d: affine matrix differs by %.6g from %.6g", R.nstep, i, (double)(p.Bmat[i] - A / Dinv(R.w.su)).norm(), (double)(A / Dinv(R.w.su)).norm());
                if (R.c.vmode == 1 && !(p.tau[i].norm() <= R.c.E * (1e-10 + R.nstep * (1e-7 * f * v.dt * (sc / R.c.dx) + (R.c.rot > 0 ? 1e-10 : 1e-12))))) bad("stress-in-rigid-motion", "step %u particle %d: stress %.6g in rigid translation", R.nstep, i, (double)p.tau[i].norm());
            }
            (void)Rad; probe(R.c.vmode == 2 ? "affine field" : "uniform field");
        }
    }
    if (P == "C06"){
        T vm = big(R.pre.v), lim = vm > 1e-10 ? std::min(R.c.cfl * R.c.dx / vm, R.w.dt_max) : R.w.dt_max, cap = std::max(R.w.min_dt, lim); check1();
        if (!(v.dt > 0)) bad("dt-not-positive", "step %u: dt %.17g", R.nstep, (double)v.dt);
        if (!(v.dt <= cap * (1 + 1e-10))) bad("dt-too-large", "step %u: dt %.12g exceeds the limit %.12g (largest speed %.6g, dt_max %.6g, min_dt %.3g)", R.nstep, (double)v.dt, (double)cap, (double)vm, (double)R.w.dt_max, (double)R.w.min_dt);
        T rest = R.frame_time(R.done_frames + 1) - R.tprev, want = std::max(std::min(lim, rest), R.w.min_dt);
        if (!(v.dt >= want * (1 - 1e-9) - 4e-16 * R.tprev)) bad("dt-too-small", "step %u: dt %.12g although %.12g is allowed (frame ends in %.12g)", R.nstep, (double)v.dt, (double)want, (double)rest);
        if (!(std::abs(v.time - (R.tprev + v.dt)) <= 4e-16 * v.time)) bad("time-sum", "step %u: time %.17g is not %.17g + %.17g", R.nstep, (double)v.time, (double)R.tprev, (double)v.dt);
        if (v.step != R.nstep) bad("step-count", "step counter %u after %u steps", v.step, R.nstep);
        if (v.frame != R.done_frames) bad("frame-order", "step %u at time %.12g belongs to frame %u, expected %u", R.nstep, (double)v.time, v.frame, R.done_frames);
        T end = R.frame_time(R.done_frames + 1), ul = 1e-15 * end * 4; if (!(v.time <= end + 1.1 * R.w.min_dt + ul)) bad("frame-overshoot", "step %u ends at time %.17g, past frame time %.17g (min_dt %.3g)", R.nstep, (double)v.time, (double)end, (double)R.w.min_dt);
        if (R.completes(v.time)) probe("frame completed");
    }
    if (P == "C08"){
        for (size_t i = 0; i < s.plates.size(); i++){ PlateS q = R.ppre[i]; q.vmin = R.w.plates[i].vmin; q.load = R.w.plates[i].load; q.vel0 = R.w.plates[i].vel0; move(q, v.dt, R.w.frame_dt, R.tprev); PlateS a = snap(*s.plates[i]); T tol = 1e-12 * (std::abs(q.pos) + R.c.dx); check1();
            bool inf = std::abs(q.lo) > 1e14;
            if (!(std::abs(a.pos - q.pos) <= tol)) bad("plate-position", "step %u: plate %zu at %.15g instead of %.15g", R.nstep, i, (double)a.pos, (double)q.pos);
            if (!inf && !(std::abs(a.lo - q.lo) <= 1e-12 * (std::abs(q.lo) + R.c.dx) && std::abs(a.hi - q.hi) <= 1e-12 * (std::abs(q.hi) + R.c.dx))) bad("plate-extent", "step %u: plate %zu spans %.12g..%.12g instead of %.12g..%.12g", R.nstep, i, (double)a.lo, (double)a.hi, (double)q.lo, (double)q.hi);
            if (!((a.vel - q.vel).norm() <= 1e-12 * (q.vel.norm() + 1e-300))) bad("plate-velocity", "step %u: plate %zu moves with (%.12g,%.12g) instead of (%.12g,%.12g)", R.nstep, i, (double)a.vel(0), (double)a.vel(1), (double)q.vel(0), (double)q.vel(1));
            if (a.bc != R.w.plates[i].bc || a.friction != R.w.plates[i].friction) bad("plate-changed", "plate %zu changed its contact law", i); }
    }
    if (P == "C09"){ for (int i = 0; i < n; i++) if (!(p.x[i](0) >= -1e-12 * R.w.Lx && p.x[i](0) <= R.w.Lx * (1 + 1e-12))) bad("outside-domain", "step %u: particle %d at x=%.15g outside [0,%.15g]", R.nstep, i, (double)p.x[i](0), (double)R.w.Lx);
        for (int i = 0; i < n; i++) if (std::abs(p.x[i](0) - R.pre.x[i](0)) > R.w.Lx / 2) probe("wrapped around");
        refine(R, s, s.plastic_model == PlasticModel::NoPlasticity, "periodic"); }
    if (P == "C20") refine(R, s, s.plastic_model == PlasticModel::NoPlasticity, "update");
    if (P == "C11"){
        const Out& o = R.R(); T G = 2 * R.w.mat.mu + R.w.mat.lam; bool np = s.plastic_model == PlasticModel::NoPlasticity;
        for (int i = 0; i < n; i++){
            bool same = np || (p.eps_pl_dev[i] == R.pre.epd[i] && p.eps_pl_vol[i] == R.pre.epv[i]);
            if (same && !o.amb && o.tol < 1e-4){ check1(); T tol = o.tol * v.dt * o.sg[i] * (1 + R.pre.F[i].norm()) + 1e-13; if (!np) tol += 4e-5 / R.w.mat.mu; probe("elastic particle"); if (!((p.F[i] - o.Ft[i]).norm() <= tol)) bad("deformation-update", "step %u particle %d: deformation gradient differs by %.6g from (I + dt grad v) F", R.nstep, i, (double)(p.F[i] - o.Ft[i]).norm()); }
            else if (!same) probe("yielding particle");
            if (extreme(p.F[i])) continue; Eigen::JacobiSVD<TM> svd(p.F[i]); if (svd.singularValues().minCoeff() < 1e-3) continue;
            TM w = stress(R.w.mat, s.elastic_model, p.F[i]); check1(); T sc = 1e-10 * G + 1e-9 * w.norm(); if (!((p.tau[i] - w).norm() <= sc)) bad("stress-law", "step %u particle %d: stored stress differs by %.6g from the elastic law (stress norm %.6g, modulus %.3g)", R.nstep, i, (double)(p.tau[i] - w).norm(), (double)w.norm(), (double)G);
            if (!((p.tau[i] - p.tau[i].transpose()).norm() <= sc)) bad("stress-symmetry", "step %u particle %d: stress is not symmetric", R.nstep, i);
        }
    }
    if ((P == "C08" || P == "C10") && (s.use_mibf || R.c.plastic >= 8)){ bool rng = R.c.plastic >= 8;
        for (int i = 0; i < n; i++){ T mu = p.muI[i]; check1(); if (!(mu >= 0 && mu < 1e300)) bad("friction-coefficient", "step %u particle %d: internal friction coefficient is %.9g", R.nstep, i, (double)mu);
            if (rng && !(mu >= R.c.mu1 * (1 - 1e-9) && mu <= R.c.mu2 * (1 + 1e-9))) bad("friction-coefficient", "step %u particle %d: mu(I) = %.9g outside [%.9g, %.9g]", R.nstep, i, (double)mu, R.c.mu1, R.c.mu2); } }
    if (P == "C10" || (P == "C08" && R.c.mibf && R.c.plastic > 0) || (P == "C09" && R.c.plastic > 0)){
        const Out& o = R.R(); if (!o.amb && o.tol < 1e-4) for (int i = 0; i < n; i++){
            bool wrapped = P == "C09" && std::abs(p.x[i](0) - R.pre.x[i](0)) > 0.5 * R.w.Lx; if (extreme(o.Ft[i]) || (P == "C09" && !R.c.mibf && !wrapped)) continue;
            PlasIn in{R.c, R.w, v.dt, R.pre.epd[i], R.pre.epv[i], R.pre.epvp[i], o.Ft[i], p.F[i], p.eps_pl_dev[i], p.eps_pl_vol[i], p.eps_pl_vol_pradhana[i], p.delta_gamma[i], o.tol * v.dt * o.sg[i] * 2 + 1e-13};
            if (in.te > 1e-6){ S->skipped++; continue; }
            std::string br; bool sk = false, sm = false; std::string e = check_plast(in, br, sk);
            static const char* nm[] = {"none", "VM", "DP", "DPSoft", "MCC", "VMVisc", "DPVisc", "MCCVisc", "DPMui", "MCCMui"}; if (P == "C10"){ check1(); if (sk) S->skipped++; if (br.size()) probe((std::string(nm[(int)R.c.plastic]) + " " + br).c_str());
                if (e.size()) bad("return-mapping", "step %u particle %d (%s): %s", R.nstep, i, nm[(int)R.c.plastic], e.c_str()); }
            if (wrapped && !sk){ check1(); probe("plastic record of a particle that crossed the boundary"); if (e.size()) bad("wrapped-record", "step %u particle %d (%s), which crossed the periodic boundary: %s", R.nstep, i, nm[(int)R.c.plastic], e.c_str()); }
            if (e.empty() && !sk && (P != "C09" || R.c.mibf)){ e = check_mu(in, br, p.muI[i], p.viscosity[i], sm); if (!sm){ check1(); probe((std::string("friction of ") + nm[(int)R.c.plastic] + " " + br).c_str()); } if (e.size()) bad("friction-coefficient", "step %u particle %d (%s): %s", R.nstep, i, nm[(int)R.c.plastic], e.c_str()); }
        } else S->skipped++;
    }
    if (P == "C02") check1(); // every step was executed under the race detector and the checked heap
    if (P == "C02" && R.c.verbose){ // progress report counts every yielding particle exactly once
        size_t at = cap_out.find("Proj: ", R.out_pos); if (at != std::string::npos){ unsigned a = 0, b = 0; if (sscanf(cap_out.c_str() + at, "Proj: %u / %u", &a, &b) == 2){
            unsigned L = 0, Z = 0; for (int i = 0; i < n; i++){ bool ch = p.eps_pl_dev[i] != R.pre.epd[i] || p.eps_pl_vol[i] != R.pre.epv[i]; if (ch){ bool cap = s.plastic_model == PlasticModel::VMVisc && p.eps_pl_vol[i] != R.pre.epv[i]; if (cap) Z++; else L++; } else if (s.plastic_model == PlasticModel::VM || s.plastic_model == PlasticModel::VMVisc){ if (p.eps_pl_dev[i] > 0) Z++; } else if (s.plastic_model != PlasticModel::NoPlasticity) Z++; }
            check1(); probe("progress report"); if (b != (unsigned)n || a < L || a > L + Z) bad("progress-report", "step %u reports %u / %u yielding particles, but between %u and %u of %d yielded", R.nstep, a, b, L, L + Z, n); } }
        R.out_pos = cap_out.size();
    }
    if (P == "C15" && R.c.fkind == 7 && R.want_fatal){ // the solver decides itself whether the solve converges
        check1(); if (cap_out.find("FATAL", R.out_pos) != std::string::npos) bad("continues-after-fatal", "step %u was completed although the return mapping reported a fatal failure in it", R.nstep);
        // the Newton solve is sensitive to rounding, so one particle proves nothing; many that fail with >= 90 % each do
        const Out& o = R.R(); int votes = 0; if (!o.amb && o.tol < 1e-4) for (int i = 0; i < n; i++) if (!extreme(o.Ft[i])){ Hen h = hencky(o.Ft[i]); const Mat& m = R.w.mat; T Mm = R.c.plastic == 9 ? R.c.mu1 : R.c.M;
            if (std::abs(h.tr) > 1e-3 && h.dn > 1e-3 && frozen::sinh_fail_rate(-m.K * h.tr, m.e_mu * h.dn, Mm, R.c.p0 * R.c.E, R.c.beta, m.mu, m.K, R.c.xi, R.pre.epv[i], 1e-4) >= 0.9) votes++; }
        if (votes >= 10) bad("continues-after-fatal", "step %u was completed although the implicit return mapping of %d particles has no converged solution", R.nstep, votes);
        R.want_fatal = 0; probe("solve converged after all");
    }
    if (P == "C15"){
        if (R.poisoned) bad("continues-after-fatal", "step %u was completed although a fatal condition (kind %d) was hit in it", R.nstep, (int)R.c.fkind);
    }
    if (P == "C12" && R.completes(v.time)){ Snap sn; sn.frame = R.done_frames + 1; sn.p = snap(s); sn.g = grab(*v.grid); sn.time = v.time; R.snaps.push_back(sn); }
}
static void poison(Runner& R, Simulation& s){
    if (R.c.fkind == 7){ // a softened state whose implicit return mapping does not converge
        const Mat& m = R.w.mat; T Mm = R.c.plastic == 9 ? R.c.mu1 : R.c.M; bool all = R.c.sp3 < 0.5; R.out_pos = cap_out.size();
        for (size_t i = 0; i < s.particles.F.size() && (all || !R.want_fatal); i++) for (int k = 0; k < 500; k++){ T epv = R.hr.uni(0.01, 0.2), a = R.hr.uni(0.005, 0.12), b = R.hr.uni(0.003, 0.08); TM F = TM::Identity(); F(0, 0) = std::exp(-a / D + b); F(1, 1) = std::exp(-a / D - b); if (D == 3) F(2, 2) = std::exp(-a / D); Hen h = hencky(F);
            if (frozen::sinh_fail_rate(-m.K * h.tr, m.e_mu * h.dn, Mm, R.c.p0 * R.c.E, R.c.beta, m.mu, m.K, R.c.xi, epv, 0.02) < 0.9) continue;
            s.particles.F[i] = F; s.particles.eps_pl_vol[i] = epv; R.want_fatal++; break; }
        if (R.want_fatal){ probe("fatal kind 7"); return; }
        probe("fatal kind 7: no failing state"); return; }
    R.poisoned = true; auto shear = [&]{ for (auto& F : s.particles.F){ F = TM::Identity(); F(0, 0) = 1.02; F(1, 1) = 0.985; F(0, 1) = 0.01; } };
    size_t one = R.hr.below(s.particles.F.size());
    switch ((int)R.c.fkind){
        case 2: s.hardening_law = (HardeningLaw)99; break;
        case 3: s.visc_exponent = R.c.sp2 < 0.4 ? R.c.sp2 + 0.3 : 1 + R.c.sp2 * 2; { TM I = TM::Identity(); (void)I; TM& F = s.particles.F[one]; F = TM::Identity(); F(0, 0) = 1.05; F(1, 1) = 0.93; } break;
        case 4: for (auto& p : s.plates) p->bc = (BC)99; break;
        case 5: s.visc_exponent = std::nan(""); { TM& F = s.particles.F[one]; F = TM::Identity(); F(0, 0) = 1.05; F(1, 1) = 0.93; } break;
        case 8: s.visc_time = -1e12 * R.w.dt_max; { TM& F = s.particles.F[one]; F = TM::Identity(); F(0, 0) = 1.05; F(1, 1) = 0.93; } break;
        case 6: for (auto& o : s.objects) o->bc = (BC)99; break;
        case 10: if (R.c.fb < 0.5) s.elastic_model = (ElasticModel)99; else s.plastic_model = (PlasticModel)99; break;
    }
    (void)shear; probe(("fatal kind " + std::to_string((int)R.c.fkind)).c_str());
}
void mon_post(Runner& R, Simulation& s, const DstView& v){
    if (R.prop == "C07") jump(R, s);
    if (R.prop == "C05" && R.c.vmode == 2){ // re-impose the affine field at the current positions
        for (int i = 0; i < R.w.n; i++){ s.particles.v[i] = R.w.A * (s.particles.x[i] - R.w.cen) + R.w.b0; s.particles.Bmat[i] = R.w.A / Dinv(R.w.su); s.particles.F[i] = R.w.F[i]; s.particles.tau[i] = TM::Zero(); } }
    if (R.prop == "C15" && !R.poisoned && R.c.fkind >= 2 && R.nstep >= (unsigned)R.c.fa){
        bool last = R.completes(v.time) && R.done_frames + 1 >= (unsigned)R.c.frames; R.poison_frames = R.done_frames + (R.completes(v.time) ? 1 : 0);
        if (!last) poison(R, s);
    }
}
void mon_end(Runner& R){
    const std::string& P = R.prop; Simulation& s = *R.sim; S->simexit = s.exit; S->finished = 1;
    if (P == "C06" && s.exit == 0){ check1(); if (R.done_frames != (unsigned)R.c.frames) bad("frames-missing", "the run ended after %u of %d frames at time %.12g", R.done_frames, (int)R.c.frames, (double)R.tprev); probe("run completed"); }
    if (P == "C12" && s.exit == 0) check_files(R);
    if (P == "C15"){
        if (R.c.fkind < 2){ check1(); probe("invalid setup refused"); }
        else if (R.poisoned){ check1(); if (s.exit == 0) bad("fatal-not-reported", "a fatal condition (kind %d) ended the run with failure status 0", (int)R.c.fkind); }
        else if (R.c.fkind == 7){ check1(); if (s.exit != 0){ probe("stopped by a solve that failed"); R.poisoned = true; R.poison_frames = R.done_frames; } else if (R.done_frames != (unsigned)R.c.frames) bad("fatal-not-reported", "the run ended after %u of %d frames with failure status 0", R.done_frames, (int)R.c.frames); }
        if (R.save){ unsigned mx = R.c.fkind < 2 ? 0 : R.poisoned ? R.poison_frames + 1 : (unsigned)R.c.frames + 1; namespace fs = std::filesystem; std::error_code ec; for (auto& e : fs::directory_iterator(R.dir + "run", ec)){ std::string nme = e.path().filename().string(); unsigned k; if (sscanf(nme.c_str(), "particles_f%u", &k) == 1 || sscanf(nme.c_str(), "grid_f%u", &k) == 1) if (k >= mx) bad("frame-after-fatal", "file %s was written although the run had failed after %u frames", nme.c_str(), R.poison_frames); } }
    }
}

// ------------------------------------------------------------------ files
bool read_file(const std::string& path, std::string& out){ std::ifstream f(path, std::ios::binary); if (!f) return false; out.assign(std::istreambuf_iterator<char>(f), {}); return true; }
Ply read_ply(const std::string& path){
    Ply p; std::string s; if (!read_file(path, s)){ p.err = "missing"; return p; }
    size_t at = 0; auto line = [&](std::string& l){ size_t e = s.find('\n', at); if (e == std::string::npos) return false; l = s.substr(at, e - at); if (l.size() && l.back() == '\r') l.pop_back(); at = e + 1; return true; };
    std::string l; if (!line(l) || l != "ply"){ p.err = "no PLY header"; return p; } bool bin = false; std::vector<int> sz;
    for (;;){ if (!line(l)){ p.err = "truncated header"; return p; } if (l == "end_header") break; char a[64], b[64]; unsigned long n; if (l.rfind("format", 0) == 0) bin = l.find("binary_little_endian") != std::string::npos; else if (sscanf(l.c_str(), "element %63s %lu", a, &n) == 2) p.n = n; else if (sscanf(l.c_str(), "property %63s %63s", a, b) == 2){ p.props.push_back(b); sz.push_back(!strcmp(a, "double") || !strcmp(a, "float64") ? 8 : !strcmp(a, "float") || !strcmp(a, "float32") ? 4 : 0); if (!sz.back()){ p.err = "unexpected property type"; return p; } } }
    if (!bin){ p.err = "not binary little endian"; return p; } size_t row = 0; for (int z : sz) row += z; if (s.size() - at != row * p.n){ p.err = "has " + std::to_string(s.size() - at) + " data bytes instead of " + std::to_string(row * p.n); return p; }
    for (size_t i = 0; i < p.n; i++) for (int z : sz){ if (z == 8){ double d; memcpy(&d, s.data() + at, 8); p.d.push_back(d); } else { float d; memcpy(&d, s.data() + at, 4); p.d.push_back(d); } at += z; }
    p.ok = true; return p;
}
static void check_files(Runner& R){
    namespace fs = std::filesystem; std::string base = R.dir + "run/"; Simulation& s = *R.sim; const Cfg& c = R.c; bool pl = s.plastic_model != PlasticModel::NoPlasticity; unsigned nf = (unsigned)c.frames;
    if (R.snaps.size() != nf + 1) bad("frames-missing", "the run completed %zu of %u frames", R.snaps.size() - 1, nf);
    bool mui = (s.plastic_model == PlasticModel::DPVisc && c.mibf) || (s.plastic_model == PlasticModel::MCCVisc && c.mibf) || s.plastic_model == PlasticModel::DPMui || s.plastic_model == PlasticModel::MCCMui, vis = s.plastic_model == PlasticModel::DPMui || s.plastic_model == PlasticModel::MCCMui;
    for (auto& sn : R.snaps){
        std::string f = base + "particles_f" + std::to_string(sn.frame) + ".ply"; Ply p = read_ply(f); check1(); if (!p.ok) bad("frame-file", "particle file of frame %u: %s", sn.frame, p.err.c_str()); if (p.n != (size_t)R.w.n) bad("frame-file", "particle file of frame %u holds %zu particles instead of %d", sn.frame, p.n, R.w.n);
        auto cmp = [&](const char* k, auto get, T tol){ int col = p.col(k); if (col < 0) bad("frame-file", "particle file of frame %u has no property %s", sn.frame, k); for (size_t i = 0; i < p.n; i++){ double a = p.at(i, col), b = get(i); if (!(std::abs(a - b) <= tol || a == b || (a != a && b != b))) bad("frame-values", "frame %u particle %zu: %s is %.17g in the file but %.17g in the simulation", sn.frame, i, k, a, b); } };
        const char* xs[] = {"x", "y", "z"}; const char* vs[] = {"vx", "vy", "vz"}; for (int k = 0; k < D; k++){ cmp(xs[k], [&](size_t i){ return sn.p.x[i](k); }, 0); cmp(vs[k], [&](size_t i){ return sn.p.v[i](k); }, 0); }
        T ts = 0; for (auto& t : sn.p.tau) ts = std::max(ts, t.norm()); ts = 1e-12 * ts + 1e-300;
        cmp("p", [&](size_t i){ return -sn.p.tau[i].trace() / D; }, ts); cmp("q", [&](size_t i){ TM d = sn.p.tau[i] - sn.p.tau[i].trace() / D * TM::Identity(); return R.w.mat.qp * std::sqrt((d.transpose() * d).trace()); }, 1e-7 * ts / 1e-12 * 1e-2 + ts); cmp("Je", [&](size_t i){ return sn.p.F[i].determinant(); }, 1e-11);
        if (pl){ cmp("eps_pl_vol", [&](size_t i){ return sn.p.epv[i]; }, 0); cmp("eps_pl_dev", [&](size_t i){ return sn.p.epd[i]; }, 0); cmp("delta_gamma", [&](size_t i){ return sn.p.dg[i]; }, 0); if (mui) cmp("muI", [&](size_t i){ return sn.p.muI[i]; }, 0); if (vis) cmp("viscosity", [&](size_t i){ return sn.p.visc[i]; }, 0); }
        probe("particle file verified");
        if (c.savegrid && sn.frame > 0){ Ply g = read_ply(base + "grid_f" + std::to_string(sn.frame) + ".ply"); if (!g.ok) bad("frame-file", "grid file of frame %u: %s", sn.frame, g.err.c_str()); size_t tot = sn.g.ax[0].size() * sn.g.ax[1].size() * sn.g.ax[2].size(); if (g.n != tot) bad("frame-file", "grid file of frame %u holds %zu nodes instead of %zu", sn.frame, g.n, tot);
            size_t l = 0; for (size_t i = 0; i < sn.g.ax[0].size(); i++) for (size_t j = 0; j < sn.g.ax[1].size(); j++) for (size_t k = 0; k < sn.g.ax[2].size(); k++, l++){ double X[3] = {sn.g.ax[0][i], sn.g.ax[1][j], sn.g.ax[2][k]};
                for (int d = 0; d < D; d++){ int a = g.col(xs[d]), b = g.col(vs[d]); if (a < 0 || b < 0) bad("frame-file", "grid file of frame %u lacks columns", sn.frame); if (g.at(l, a) != X[d] || g.at(l, b) != sn.g.v[l](d)) bad("frame-values", "frame %u grid node %zu: file has %s=%.17g %s=%.17g, simulation %.17g %.17g", sn.frame, l, xs[d], g.at(l, a), vs[d], g.at(l, b), X[d], (double)sn.g.v[l](d)); }
                int m = g.col("mass"); if (m < 0 || g.at(l, m) != sn.g.mass[l]) bad("frame-values", "frame %u grid node %zu: mass differs", sn.frame, l); if (c.mibf){ int fr = g.col("friction"); double a = fr < 0 ? 0 : g.at(l, fr), b = sn.g.friction[l]; if (fr < 0 || !(a == b || (a != a && b != b))) bad("frame-values", "frame %u grid node %zu: friction differs", sn.frame, l); } }
            probe("grid file verified"); }
    }
    std::string m; if (!read_file(base + "last_written.txt", m) || atoi(m.c_str()) != (int)nf) bad("marker", "last_written.txt says '%s' after a complete run of %u frames", m.c_str(), nf);
    std::string in; double a, b, d, e, g; if (!read_file(base + "info.txt", in) || sscanf(in.c_str(), "%lf %lf %lf %lf %lf", &a, &b, &d, &e, &g) != 5) bad("info", "info.txt unreadable");
    auto rel = [](double x, double y){ return std::abs(x - y) <= 2e-5 * std::abs(y); }; if (a != nf || !rel(b, R.w.fps) || !rel(d, c.dx) || e != R.w.n || !rel(g, R.w.vp)) bad("info", "info.txt says %g %g %g %g %g for frames %u fps %g dx %g particles %d volume %g", a, b, d, e, g, nf, (double)R.w.fps, c.dx, R.w.n, (double)R.w.vp);
    if (!read_file(base + "info_timing.txt", in) || sscanf(in.c_str(), "%lf", &a) != 1 || a != R.nstep) bad("info", "info_timing.txt says %s steps after %u steps", in.substr(0, in.find('\n')).c_str(), R.nstep);
    std::string o, q; if (!read_file(base + "initial_setup.cpp", o)) bad("info", "initial_setup.cpp missing"); if (read_file(std::string(SRC_DIR) + "/mpm.cpp", q) && o != q) bad("info", "initial_setup.cpp is not a copy of the setup");
    for (auto& en : fs::directory_iterator(base)){ unsigned k; std::string nm = en.path().filename().string(); if ((sscanf(nm.c_str(), "particles_f%u", &k) == 1 || sscanf(nm.c_str(), "grid_f%u", &k) == 1) && k > nf) bad("frame-file", "unexpected file %s", nm.c_str()); }
}
