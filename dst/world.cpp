#include "world.hpp"
#include <algorithm>
using namespace ref;
static TM rnd(rt::Rng& r){ TM m; for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) m(i, j) = r.uni(-1, 1); return m; }
static TV rndv(rt::Rng& r){ TV m; for (int i = 0; i < D; i++) m(i) = r.uni(-1, 1); return m; }
static TV unit(rt::Rng& r){ TV m; do m = rndv(r); while (m.norm() < 0.2); return m / m.norm(); }

World make_world(const Cfg& c){
    World w; rt::Rng r((uint64_t)c.gseed), rr((uint64_t)c.gseed + 77); T dx = c.dx; int n = std::max(1, (int)c.np); w.n = n;
    w.c0 = std::sqrt(c.E / c.rho); w.dt_max = c.cfle * dx / w.c0; w.fps = 1 / (c.spf * w.dt_max); w.frame_dt = 1.0 / w.fps; w.min_dt = c.mindt > 0 ? c.mindt : -c.mindt * w.frame_dt; w.gtime = c.gtime * w.frame_dt;
    w.vp = std::pow(dx, D) / c.ppc; w.mp = w.vp * c.rho;
    TV o; o(0) = c.ox; o(1) = c.oy; if (D == 3) o(D - 1) = c.oz; TV sz; sz(0) = c.w; sz(1) = c.h; if (D == 3) sz(D - 1) = c.d;
    w.Lx = c.pbc ? c.ncell * dx : 1; w.Ly = c.pbc ? c.ny * dx : 1; w.Lz = c.pbc ? std::max(1.0, c.d) * dx : 1;
    for (int i = 0; i < n; i++){
        TV x;
        switch ((int)c.layout){
            case 1: { int nx = std::max(1, (int)std::ceil(c.w * 2)), ny = std::max(1, (int)std::ceil(c.h * 2)); int k = i; x(0) = (k % nx + 0.5) * 0.5; k /= nx; x(1) = (k % ny + 0.5) * 0.5; k /= ny; if (D == 3) x(D - 1) = (k + 0.5) * 0.5; else x(0) += k * 0.17; x += 0.1 * rndv(r); break; }
            case 2: { for (int k = 0; k < D; k++) x(k) = r.uni(0, std::min(sz(k), 1.5)); if (i % 2) x(0) += 1.5 + c.gap; break; }
            case 3: { for (int k = 0; k < D; k++) x(k) = std::floor(r.uni(0, sz(k) + 1)) + (r.flip(0.5) ? 0 : r.flip(0.6) ? 0.5 : 0.25); break; }
            case 4: { for (int k = 0; k < D; k++) x(k) = r.uni(0, 0.7); break; }
            case 7: case 5: { x(0) = r.flip(0.3) ? (r.flip(0.5) ? r.uni(0, 1.5) : c.ncell - r.uni(0, 1.5)) : r.uni(0, c.ncell); if (r.flip(0.04)) x(0) = r.flip(0.5) ? 0 : c.ncell; x(1) = r.uni(1, c.ny - 1); if (D == 3) x(D - 1) = r.uni(0, std::max(1.0, c.d)); if (c.layout == 7) for (int k = 0; k < D; k++) x(k) = std::round(2 * x(k)) / 2; break; }
            default: for (int k = 0; k < D; k++) x(k) = r.uni(0, sz(k));
        }
        x = (x + o) * dx; if ((c.layout == 5 || c.layout == 7) && x(0) > w.Lx) x(0) = w.Lx; w.x.push_back(x);
    }
    w.lo = w.hi = w.x[0]; for (auto& x : w.x){ w.lo = w.lo.cwiseMin(x); w.hi = w.hi.cwiseMax(x); }
    TV cen = (w.lo + w.hi) / 2; w.cen = cen; T V = c.vmag * w.c0; T R = std::max((w.hi - w.lo).norm() / 2, dx);
    TV dir = unit(r); TM A = rnd(r); w.A = TM::Zero(); w.b0 = TV::Zero();
    if (c.vmode == 1 || c.vmode == 2) w.b0 = dir * V * (c.vmode == 2 ? r.uni(0, 1) : 1);
    if (c.vmode == 2) w.A = A * (V / R);
    for (int i = 0; i < n; i++){
        TV v = TV::Zero();
        switch ((int)c.vmode){ case 1: v = w.b0; break; case 2: v = w.A * (w.x[i] - cen) + w.b0; break; case 3: v = V * rndv(r); break; case 4: v = (w.x[i] - cen) * (V / R); break; case 5: v = dir * (w.x[i](0) > cen(0) ? -V : V); break; default: break; }
        w.v.push_back(v);
        TM F = TM::Identity(); if (c.prestrain > 0){ TM m = rnd(r); if (r.flip(0.5)) m = 0.5 * (m + m.transpose()).eval(); F += c.prestrain * m; if (r.flip(0.3)){ T a = r.uni(-3, 3); TM Q = TM::Identity(); Q(0, 0) = Q(1, 1) = std::cos(a); Q(0, 1) = -std::sin(a); Q(1, 0) = std::sin(a); F = (Q * F).eval(); } }
        if (c.rot > 0){ TM q = TM::Identity(); for (int k = 0; k < D; k++){ T a = rr.uni(-3, 3); TM Q = TM::Identity(); int i0 = k % D, i1 = (k + 1) % D; Q(i0, i0) = Q(i1, i1) = std::cos(a); Q(i0, i1) = -std::sin(a); Q(i1, i0) = std::sin(a); q = (Q * q).eval(); if (D == 2) break; } F = q; }
        w.F.push_back(F);
        w.B.push_back(c.flip < 0 && c.preb < 0 ? TM(w.A * (dx * dx / (DEG == 3 ? 3 : 4))) : c.flip < 0 && c.preb > 0 ? TM(c.preb * V * dx * rnd(r)) : TM(TM::Zero()));
    }
    w.grav = TV::Zero(); { T g = w.c0 * w.c0 / dx; w.grav(0) = c.gx * g; w.grav(1) = c.gy * g; if (D == 3) w.grav(D - 1) = c.gz * g; }
    w.hasref = c.grp > 0 && !c.pbc; if (w.hasref){ TV q; q(0) = c.grx; q(1) = c.gry; if (D == 3) q(D - 1) = c.grz; if (c.grp == 2) for (int k = 0; k < D; k++) q(k) = std::round(q(k)); w.refpt = (q + o) * dx; }
    // reference set-up
    Setup& s = w.su; s.dx = dx; s.flip = c.flip; s.mp = w.mp; s.vp = w.vp; s.Lx = w.Lx; s.musl = c.musl; s.pbc = c.pbc; s.mibf = c.mibf; s.nper = (int)c.ncell;
    if (c.pbc) s.origin = TV::Zero(); else { s.origin = w.lo; if (w.hasref) s.origin = s.origin.cwiseMin(w.refpt); }
    { rt::Rng hr((uint64_t)c.gseed + 77); for (int i = 0; i < n; i++){ T a = hr.uni(), b = hr.uni(-1, 1), d = hr.uni(); if (hr.flip(0.3)) a = b = d = 0; w.hist.push_back({c.preepd * a, c.preepv * b, c.preepvp * d}); } }
    rt::Rng pr((uint64_t)c.pseed);
    for (int i = 0; i < (int)c.nplates; i++){
        PlateS p; PlateType ty[] = {PlateType::bottom, PlateType::top, PlateType::left, PlateType::right, PlateType::back, PlateType::front};
        p.type = c.infplates ? ty[(i + pr.below(2)) % 2] : ty[pr.below(D == 3 ? 6 : 4)]; BC bcs[] = {BC::NoSlip, BC::SlipStick, BC::SlipFree}; p.bc = bcs[pr.below(3)]; p.friction = pr.flip(0.3) ? 0 : pr.uni(0, 1.2);
        int a = axis_of(p.type), sd = side_of(p.type); T off = pr.uni(-1.2, 1.5) * dx; p.pos = sd > 0 ? w.lo(a) + off : w.hi(a) - off; if (c.pbc) p.pos = sd > 0 ? pr.uni(0.2, 1.3) * dx : w.Ly - pr.uni(0.2, 1.3) * dx;
        p.lo = -1e15; p.hi = 1e15; bool fin = pr.flip(0.4); T u1 = pr.uni(-2, 0.6), u2 = pr.uni(0.4, 1.5);
        if (fin && !c.infplates && a != 2){ int b = a == 0 ? 1 : 0; T L = std::max(w.hi(b) - w.lo(b), dx); p.lo = w.lo(b) + u1 * L; p.hi = w.lo(b) + u2 * L; if (p.hi <= p.lo) p.hi = p.lo + dx; }
        p.vel = TV::Zero(); if (pr.flip(0.5)){ p.vel = rndv(pr) * (0.1 * w.c0 * pr.uni()); }
        p.vmin = pr.flip(0.4) ? 1 : pr.uni(1, 10); p.load = pr.flip(0.5) ? 0 : pr.uni(0, 3); p.vel0 = p.vel; w.plates.push_back(p);
    }
    rt::Rng orr((uint64_t)c.oseed);
    for (int i = 0; i < (int)c.nobj; i++){
        Geo g; g.kind = (int)(i == 0 ? c.obj0 : i == 1 ? c.obj1 : orr.below(2)); BC bcs[] = {BC::NoSlip, BC::SlipStick, BC::SlipFree}; g.bc = bcs[orr.below(3)]; g.friction = orr.flip(0.3) ? 0 : orr.uni(0, 1.2); g.n = unit(orr); TV d = rndv(orr); if (c.pbc || orr.flip(0.4)){ int a = c.pbc ? 1 : (int)orr.below(D); g.n = TV::Zero(); g.n(a) = orr.flip(0.5) ? 1 : -1; }
        if (g.kind == 0){ g.a = cen - g.n * ((w.hi - w.lo).norm() / 2) * orr.uni(0.2, 1); if (c.pbc) g.a(1) = g.n(1) > 0 ? w.lo(1) + orr.uni(-1, 1.5) * dx : w.hi(1) - orr.uni(-1, 1.5) * dx; }
        else if (g.kind == 1){ g.b = orr.uni(1, 4) * dx; g.a = cen + d / d.norm() * (g.b + ((w.hi - w.lo).norm() / 2) * orr.uni(0.2, 1)); }
        else if (g.kind == 4) g.b = w.lo(1) + orr.uni(-1, 1.5) * dx;
        else if (g.kind == 6) g.b = orr.flip(0.5) ? 0.016 : w.hi(1) - 100 * cen(0) * cen(0) - orr.uni(-1, 1.5) * dx;
        else if (g.kind == 7) g.b = orr.flip(0.5) ? -1 : orr.uni(-1, 0);
        s.geos.push_back(g);
    }
    { Mat& m = w.mat; m.E = c.E; m.nu = c.nu; m.lam = c.nu * c.E / ((1 + c.nu) * (1 - 2 * c.nu)); m.mu = c.E / (2 * (1 + c.nu)); m.K = m.lam + 2 * m.mu / D; m.qp = c.qpi == 0 ? 1 / std::sqrt(2.0) : c.qpi == 1 ? std::sqrt(1.5) : 1; m.e_mu = 2 * m.qp * m.mu; m.f_mu = 2 * m.qp * m.qp * m.mu; m.d = 1 / m.qp; }
    return w;
}
PlateType perm_plate(PlateType t, const int* perm){
    int a = axis_of(t), sd = side_of(t), na = 0; for (int k = 0; k < D; k++) if (perm[k] == a) na = k;
    static const PlateType tab[3][2] = {{PlateType::right, PlateType::left}, {PlateType::top, PlateType::bottom}, {PlateType::front, PlateType::back}};
    return tab[na][sd > 0];
}
World transform(const World& w, const Transform& t){
    World q = w; q.hist.clear(); q.x.clear(); q.v.clear(); q.F.clear(); q.B.clear();
    for (int i = 0; i < w.n; i++){ int j = t.order.empty() ? i : t.order[i]; q.hist.push_back(w.hist[j]); q.x.push_back(t.pos(w.x[j])); q.v.push_back(t.vec(w.v[j])); q.F.push_back(t.mat(w.F[j])); q.B.push_back(t.mat(w.B[j])); }
    q.grav = t.vec(w.grav); if (w.hasref) q.refpt = t.pos(w.refpt); q.su.origin = t.pos(w.su.origin);
    for (auto& p : q.plates){ int a = axis_of(p.type); PlateType nt = perm_plate(p.type, t.perm); int na = axis_of(nt); p.pos += t.shift(na); p.vel = t.vec(p.vel); p.vel0 = t.vec(p.vel0); p.type = nt; if (na != 2 && a != 2){ int b = na == 0 ? 1 : 0; if (std::abs(p.lo) < 1e14){ p.lo += t.shift(b); p.hi += t.shift(b); } } }
    for (auto& g : q.su.geos){ g.a = t.pos(g.a); g.n = t.vec(g.n); }
    return q;
}
void install(Simulation& sim, const World& w, const Cfg& c){
    { rt::SutScope s; sim.particles = Particles(w.n); 
      for (auto& p : w.plates){
#ifdef THREEDIM
        sim.plates.push_back(std::make_unique<ObjectPlate>(p.pos, p.type, p.bc, p.friction, p.lo, p.hi, p.vel(0), p.vel(1), p.vel(2), p.vmin, p.load, "plate"));
#else
        sim.plates.push_back(std::make_unique<ObjectPlate>(p.pos, p.type, p.bc, p.friction, p.lo, p.hi, p.vel(0), p.vel(1), p.vmin, p.load, "plate"));
#endif
      }
      for (auto& g : w.su.geos) sim.objects.push_back(make_object(g.kind, g.bc, g.friction, g.a, g.b, g.n));
    }
    sim.Np = w.n; sim.dx = c.dx; sim.particle_volume = w.vp; sim.particle_mass = w.mp;
    sim.elastic_model = c.elastic ? ElasticModel::NeoHookean : ElasticModel::Hencky; sim.plastic_model = (PlasticModel)(int)c.plastic; sim.hardening_law = (HardeningLaw)(int)c.hard;
    sim.use_pradhana = c.pradhana; sim.E = c.E; sim.nu = c.nu; sim.rho = c.rho; sim.xi = c.xi; sim.q_max = c.qmax * c.E; sim.q_min = c.qmin * c.E; sim.p_min = c.pmin < -1e10 ? -1e20 : c.pmin * c.E; sim.M = c.M; sim.q_cohesion = c.coh * c.E;
    sim.visc_exponent = c.vexp; sim.visc_time = c.vt; sim.use_duvaut_lions_formulation = c.dl; sim.beta = c.beta; sim.p0 = c.p0 * c.E; sim.rho_s = c.rhos; sim.grain_diameter = c.gd; sim.I_ref = c.iref; sim.mu_1 = c.mu1; sim.mu_2 = c.mu2; sim.q_prefac = w.mat.qp;
    sim.n_threads = (unsigned)c.threads; sim.end_frame = (unsigned)c.frames; sim.fps = w.fps; sim.reduce_verbose = !c.verbose; sim.pbc = c.pbc; sim.gravity_special = c.gspec; sim.gravity_time = w.gtime; sim.save_grid = c.savegrid; sim.use_mibf = c.mibf; sim.use_musl = c.musl;
    if (w.hasref) sim.grid_reference_point = w.refpt;
    sim.gravity = w.grav; sim.min_dt = w.min_dt; sim.cfl = c.cfl; sim.cfl_elastic = c.cfle; sim.flip_ratio = c.flip; sim.Lx = w.Lx; sim.Ly = w.Ly;
#ifdef THREEDIM
    sim.Lz = w.Lz;
#endif
    for (int i = 0; i < w.n; i++){ sim.particles.x[i] = w.x[i]; sim.particles.v[i] = w.v[i]; sim.particles.F[i] = w.F[i]; sim.particles.Bmat[i] = w.B[i]; sim.particles.tau[i] = ref::stress(w.mat, sim.elastic_model, w.F[i]); if (c.plastic > 0){ sim.particles.eps_pl_dev[i] = w.hist[i][0]; sim.particles.eps_pl_vol[i] = w.hist[i][1]; sim.particles.eps_pl_vol_pradhana[i] = w.hist[i][2]; } }
}
