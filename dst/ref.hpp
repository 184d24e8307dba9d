// Independent serial reference of one MPM step (executable specification).
// Works on a sparse lattice; periodic boundaries are modular arithmetic on the lattice.
#pragma once
#include "src_includes.hpp"
#include <map>
#include <array>
#include <cmath>
#include <limits>

namespace ref {
#ifdef THREEDIM
constexpr int D = 3;
#else
constexpr int D = 2;
#endif
constexpr int DEG = SPLINEDEG;

struct PState {
    std::vector<TV> x, v; std::vector<TM> F, B, tau; std::vector<T> epd, epv, epvp, dg, visc, muI;
    size_t n() const { return x.size(); }
};
inline PState snap(const Simulation& s){
    PState p; const auto& q = s.particles;
    p.x = q.x; p.v = q.v; p.F = q.F; p.B = q.Bmat; p.tau = q.tau; p.epd = q.eps_pl_dev; p.epv = q.eps_pl_vol; p.epvp = q.eps_pl_vol_pradhana;
    p.dg = q.delta_gamma; p.visc = q.viscosity; p.muI = q.muI; return p;
}
struct PlateS { PlateType type; BC bc; T friction, pos, lo, hi; TV vel, vel0; T vmin, load; };
inline PlateS snap(const ObjectPlate& p){
    PlateS s; s.type = p.plate_type; s.bc = p.bc; s.friction = p.friction; s.pos = p.pos_object; s.lo = p.pos_lower; s.hi = p.pos_upper;
    s.vel(0) = p.vx_object; s.vel(1) = p.vy_object; s.vel0(0) = p.vx_object_original; s.vel0(1) = p.vy_object_original;
#ifdef THREEDIM
    s.vel(2) = p.vz_object; s.vel0(2) = p.vz_object_original;
#endif
    s.vmin = p.vmin_factor; s.load = p.load_factor; return s;
}
inline std::vector<PlateS> snap_plates(const Simulation& s){ std::vector<PlateS> r; for (auto& p : s.plates) r.push_back(snap(*p)); return r; }

// Independent geometry of the obstacles (documented surfaces), not the code under test.
struct Geo { int kind = 0; BC bc = BC::NoSlip; T friction = 0; TV a = TV::Zero(); T b = 0;
    // 0 half space {x: (x-a).n0 < 0} with unit normal stored in n; 1 ball |x-a| < b; 2 bump; 3 ramp; 4 ground y <= b; 5 curve y <= x^2; 6 gate y > b + 100 x^2; 7 silo wall
    TV n = TV::Zero();
    bool inside(const TV& X) const {
        T x = X(0), y = X(1);
        switch (kind){
            case 0: return (X - a).dot(n) < 0;
            case 1: return (X - a).norm() < b;
            case 2: return y * std::cosh(25 * (x - 0.43)) < 0.0475;
            case 3: return y < -0.1 * std::tanh(100 * x);
            case 4: return y <= b;
            case 5: return y <= x * x;
            case 6: return y - 100 * x * x > b;
            default: { T z = X(D - 1); if (y < b) return false; return std::sqrt(x * x + z * z) >= 1 + std::tanh(y); }
        }
    }
    TV normal(const TV& X) const { // outward from the solid, by numerical differentiation-free formulas
        T x = X(0), y = X(1); TV r = TV::Zero();
        switch (kind){
            case 0: return n;
            case 1: return (X - a) / (X - a).norm();
            case 2: { T u = 25 * (x - 0.43), ch = std::cosh(u); r(0) = 25 * 0.0475 * std::tanh(u) / ch; r(1) = 1; break; }
            case 3: { T th = std::tanh(100 * x); r(0) = 10 * (1 - th * th); r(1) = 1; break; }
            case 4: r(1) = 1; return r;
            case 5: r(0) = -2 * x; r(1) = 1; break;
            case 6: r(0) = 200 * x; r(1) = -1; break;
            default: { T z = X(D - 1), R = std::sqrt(x * x + z * z), th = std::tanh(y); r(0) = -x / R; r(D - 1) = -z / R; r(1) = 1 - th * th; break; }
        }
        return r / r.norm();
    }
};
struct Setup { // fixed during a run
    T dx, flip, mp, vp, Lx; bool musl, pbc, mibf; int nper = 0; TV origin; // lattice passes through origin
    std::vector<Geo> geos;
};

inline T B(T u){ // B-spline of degree DEG centred at 0 (Cox-de Boor closed form written via truncated powers)
    u = std::abs(u);
    if (DEG == 2) return u < 0.5 ? 0.75 - u * u : u < 1.5 ? 0.5 * (1.5 - u) * (1.5 - u) : 0;
    if (u >= 2) return 0;
    T a = (2 - u); T r = a * a * a / 6; if (u < 1){ T b = 1 - u; r -= 4 * b * b * b / 6; } return r;
}
inline T dB(T u){
    T s = u < 0 ? -1 : 1; u = std::abs(u);
    if (DEG == 2) return u < 0.5 ? s * (-2 * u) : u < 1.5 ? -s * (1.5 - u) : 0;
    if (u >= 2) return 0;
    T a = 2 - u; T r = -a * a / 2; if (u < 1){ T b = 1 - u; r += 2 * b * b; } return s * r;
}
typedef std::array<long, 3> Idx;
struct Node { T m = 0; TV mom = TV::Zero(), f = TV::Zero(); T fr = 0; TV X = TV::Zero(), v0 = TV::Zero(), v = TV::Zero(), vm = TV::Zero(); T smom = 0, sf = 0, vs = 0; bool contact = false; T amb = 1e300; };
struct RGrid { std::map<Idx, Node> n; };

struct Sten { Idx id; T w; TV g; TV d; }; // node, weight, gradient, x_i - x_p
inline Idx wrap(const Setup& s, Idx i){ if (s.pbc){ long m = i[0] % s.nper; if (m < 0) m += s.nper; i[0] = m; } return i; }
template <class Fn> inline void stencil(const Setup& s, const TV& x, Fn fn, T* cond = nullptr){
    long b[3] = {0, 0, 0}; T w[3][6], g[3][6], dd[3][6];
    for (int k = 0; k < D; k++){
        T u = (x(k) - s.origin(k)) / s.dx; b[k] = (long)std::floor(u) - 2;
        for (int a = 0; a < 6; a++){ T t = u - (T)(b[k] + a); w[k][a] = B(t); g[k][a] = dB(t) / s.dx; dd[k][a] = -t * s.dx;
            if (cond && DEG == 2){ T e = std::abs(1.5 - std::abs(t)); if (e < *cond) *cond = e; } }
    }
    int nz = D == 3 ? 6 : 1;
    for (int i = 0; i < 6; i++) if (w[0][i] > 0) for (int j = 0; j < 6; j++) if (w[1][j] > 0) for (int k = 0; k < nz; k++){
        Sten st; st.w = w[0][i] * w[1][j]; st.d(0) = dd[0][i]; st.d(1) = dd[1][j];
        if (D == 3){ if (!(w[2][k] > 0)) continue; st.w *= w[2][k]; }
        if (!(st.w > 0)) continue;
        if (D == 2){ st.g(0) = g[0][i] * w[1][j]; st.g(1) = w[0][i] * g[1][j]; }
        else { st.g(0) = g[0][i] * w[1][j] * w[2][k]; st.g(1) = w[0][i] * g[1][j] * w[2][k]; st.g(D - 1) = w[0][i] * w[1][j] * g[2][k]; st.d(D - 1) = dd[2][k]; }
        st.id = {b[0] + i, b[1] + j, D == 3 ? b[2] + k : 0};
        fn(st);
    }
}
inline TV pos_of(const Setup& s, const Idx& i){ TV X; for (int k = 0; k < D; k++) X(k) = s.origin(k) + i[k] * s.dx; return X; }
inline T Dinv(const Setup& s){ return (DEG == 2 ? 4.0 : 3.0) / (s.dx * s.dx); }

// Coulomb reduction of a tangential vector
inline TV coulomb(const TV& t, T amount){ T n = t.norm(); if (n <= amount) return TV::Zero(); return t * ((n - amount) / n); }

inline int axis_of(PlateType t){ return (t == PlateType::left || t == PlateType::right) ? 0 : (t == PlateType::top || t == PlateType::bottom) ? 1 : 2; }
// outward normal sign: material side of the plate
inline int side_of(PlateType t){ return (t == PlateType::left || t == PlateType::bottom || t == PlateType::back) ? 1 : -1; }
inline T plate_gap(const PlateS& p, const TV& X, bool& in_extent, T& ext_margin){
    int a = axis_of(p.type); T gap = side_of(p.type) > 0 ? X(a) - p.pos : p.pos - X(a);
    in_extent = true; ext_margin = 1e300;
    if (a != 2){ int o = a == 0 ? 1 : 0; in_extent = X(o) < p.hi && X(o) > p.lo; ext_margin = std::min(std::abs(X(o) - p.hi), std::abs(X(o) - p.lo)); }
    return gap;
}
// contact velocity of a node at X with trial velocity v
inline TV contact(const Setup& s, const std::vector<PlateS>& plates, const TV& X0, T dt, TV v, T fr, bool& hit, T& amb, T pd){
    TV X = X0 + dt * v; hit = false;
    for (auto& o : s.geos){
        bool in = o.inside(X);
        // ambiguity probe: is the decision stable under a tiny displacement?
        for (int k = 0; k < D; k++) for (int sg = -1; sg <= 1; sg += 2){ TV Y = X; Y(k) += sg * pd; if (o.inside(Y) != in) amb = 0; }
        if (!in) continue;
        hit = true;
        if (o.bc == BC::NoSlip){ v.setZero(); continue; }
        TV n = o.normal(X); T vn = v.dot(n); TV t = v - vn * n; T mu = s.mibf ? fr : o.friction;
        if (o.bc == BC::SlipFree){ if (vn < 0) v = mu > 0 ? coulomb(t, -vn * mu) : t; }
        else { v = (vn < 0 && mu > 0) ? coulomb(t, -vn * mu) : t; }
    }
    for (auto& p : plates){
        bool ext; T em; T gap = plate_gap(p, X, ext, em);
        if (std::abs(gap) < pd){ if (ext || em < pd) amb = 0; }
        if (em < pd && gap <= pd) amb = 0;
        if (!(ext && gap <= 0)) continue;
        hit = true;
        TV r = v - p.vel; int a = axis_of(p.type);
        if (p.bc == BC::NoSlip) r.setZero();
        else {
            T mu = s.mibf ? fr : p.friction; T vn = r(a); bool toward = side_of(p.type) > 0 ? vn < 0 : vn > 0;
            if (p.bc == BC::SlipStick || toward){ TV t = r; t(a) = 0; r = mu != 0 ? coulomb(t, mu * std::abs(vn)) : t; }
        }
        v = r + p.vel;
    }
    return v;
}

struct Out { std::vector<TV> x, v, pic; std::vector<TM> Bm, Ft; std::vector<T> sv, sg; RGrid g; T cond = 1; T tol = 1e-9; T vmax = 0; bool amb = false; };

inline void p2g(const Setup& s, const PState& p, RGrid& g, T* cond){
    for (size_t i = 0; i < p.n(); i++){
        stencil(s, p.x[i], [&](const Sten& st){
            Node& n = g.n[wrap(s, st.id)];
            TV vel = p.v[i]; if (s.flip < 0) vel += Dinv(s) * (p.B[i] * st.d);
            n.m += s.mp * st.w; n.mom += s.mp * st.w * vel; n.smom += s.mp * st.w * vel.norm();
            TV f = p.tau[i] * st.g; n.f += f; n.sf += f.norm();
            if (s.mibf) n.fr += s.mp * st.w * p.muI[i];
        }, cond);
    }
    for (auto& kv : g.n){ kv.second.X = pos_of(s, kv.first); if (s.mibf) kv.second.fr /= kv.second.m; }
}
inline void euler(const Setup& s, const std::vector<PlateS>& plates, const TV& grav, T dt, RGrid& g, bool& amb, T tol){
    for (auto& kv : g.n){ Node& n = kv.second;
        n.v0 = n.mom / n.m;
        TV v = n.v0 - dt * s.vp * n.f / n.m + dt * grav;
        for (auto& q : plates) n.vs += q.vel.norm(); n.vs += dt * grav.norm(); T a = 1; n.v = contact(s, plates, n.X, dt, v, n.fr, n.contact, a, 1e-8 * s.dx + 10 * tol * dt * v.norm()); if (a == 0){ amb = true; n.amb = 0; }
    }
}
inline Out step(const Setup& s, const PState& p, const std::vector<PlateS>& plates, const TV& grav, T dt){
    Out o; size_t N = p.n(); o.cond = 1; p2g(s, p, o.g, &o.cond);
    T xm = 1; for (auto& x : p.x) for (int k = 0; k < D; k++) xm = std::max(xm, std::abs(x(k) - 0) / s.dx + std::abs(s.origin(k)) / s.dx);
    o.tol = 1e-8 + 4e-15 * xm / std::max(o.cond, (T)1e-300);
    euler(s, plates, grav, dt, o.g, o.amb, std::min(o.tol, (T)1e-3));
    o.x.resize(N); o.v.resize(N); o.pic.resize(N); o.Bm.resize(N); o.Ft.resize(N); o.sv.assign(N, 0); o.sg.assign(N, 0);
    std::vector<TV> fl(N);
    std::vector<TM> vg(N);
    for (size_t i = 0; i < N; i++){
        TV pic = TV::Zero(), dv = TV::Zero(); TM Bm = TM::Zero(), G = TM::Zero(); T sv = 0, sg = 0;
        stencil(s, p.x[i], [&](const Sten& st){ const Node& n = o.g.n[wrap(s, st.id)];
            pic += st.w * n.v; dv += st.w * (n.v - n.v0); Bm += st.w * n.v * st.d.transpose(); G += n.v * st.g.transpose();
            T q = n.v.norm() + n.smom / n.m + dt * s.vp * n.sf / n.m + n.vs; sv += st.w * q; sg += st.g.norm() * q; });
        o.pic[i] = pic; fl[i] = dv; vg[i] = G; o.sv[i] = sv; o.sg[i] = sg; o.Bm[i] = s.flip < 0 ? Bm : TM(TM::Zero());
        T a = s.flip < 0 ? -s.flip : s.flip;
        o.v[i] = s.flip < -1 ? pic : TV(a * (p.v[i] + dv) + (1 - a) * pic);
        o.x[i] = p.x[i] + dt * pic;
        if (s.pbc){ if (o.x[i](0) > s.Lx) o.x[i](0) -= s.Lx; else if (o.x[i](0) < 0) o.x[i](0) += s.Lx; }
        o.vmax = std::max(o.vmax, p.v[i].norm());
    }
    if (s.musl){
        for (auto& kv : o.g.n) kv.second.vm.setZero();
        for (size_t i = 0; i < N; i++) stencil(s, p.x[i], [&](const Sten& st){ Node& n = o.g.n[wrap(s, st.id)]; TV vel = o.v[i]; if (s.flip < 0) vel += Dinv(s) * (o.Bm[i] * st.d); n.vm += s.mp * st.w * vel / n.m; });
        for (size_t i = 0; i < N; i++){ TM G = TM::Zero(); T sg = 0; stencil(s, p.x[i], [&](const Sten& st){ const Node& n = o.g.n[wrap(s, st.id)]; G += n.vm * st.g.transpose(); sg += st.g.norm() * (n.vm.norm() + n.v.norm()); }); vg[i] = G; o.sg[i] += sg; }
    }
    for (size_t i = 0; i < N; i++) o.Ft[i] = p.F[i] + dt * vg[i] * p.F[i];
    return o;
}
inline void move(PlateS& p, T dt, T frame_dt, T time){
    T f = time < p.load * frame_dt ? 1 / p.vmin : 1; p.vel = p.vel0 * f; int a = axis_of(p.type);
    p.pos += dt * p.vel(a); if (a != 2){ int o = a == 0 ? 1 : 0; p.lo += dt * p.vel(o); p.hi += dt * p.vel(o); }
}

// ------------------------------------------------------------ elasticity
struct Mat { T E, nu, lam, mu, K, qp, e_mu, f_mu, d; };
inline Mat mat(const Simulation& s){ Mat m; m.E = s.E; m.nu = s.nu; m.lam = s.nu * s.E / ((1 + s.nu) * (1 - 2 * s.nu)); m.mu = s.E / (2 * (1 + s.nu)); m.K = m.lam + 2 * m.mu / D; m.qp = s.q_prefac; m.e_mu = 2 * m.qp * m.mu; m.f_mu = 2 * m.qp * m.qp * m.mu; m.d = 1 / m.qp; return m; }
struct Hen { TV h; TM U; T tr, dn; TV dir; TM hm; }; // principal Hencky strains of F F^T
inline Hen hencky(const TM& F){
    Hen r; TM b = F * F.transpose(); Eigen::SelfAdjointEigenSolver<TM> es(b); r.U = es.eigenvectors(); r.h = 0.5 * es.eigenvalues().array().log();
    r.tr = r.h.sum(); TV dv = r.h - (r.tr / D) * TV::Ones(); r.dn = dv.norm(); r.dir = r.dn > 0 ? TV(dv / r.dn) : TV(TV::Zero());
    r.hm = r.U * r.h.asDiagonal() * r.U.transpose(); return r;
}
inline TM stress(const Mat& m, ElasticModel em, const TM& F){
    if (em == ElasticModel::NeoHookean){ TM b = F * F.transpose(); return m.mu * (b - TM::Identity()) + m.lam * std::log(F.determinant()) * TM::Identity(); }
    Hen h = hencky(F); return 2 * m.mu * h.hm + m.lam * h.tr * TM::Identity();
}
} // namespace ref
