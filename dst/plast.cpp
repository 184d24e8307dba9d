// Oracle for the return mappings: judges (trial elastic deformation, old internal state) -> (new
// elastic deformation, new internal state) against the yield condition / overstress relation.
#include "run.hpp"
using namespace ref;
static std::string f(const char* fmt, ...){ char b[700]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); return b; }

std::string check_plast(const PlasIn& in, std::string& br, bool& skipped){
    const Cfg& c = in.c; const Mat& m = in.w.mat; T dt = in.dt; int model = (int)c.plastic; skipped = false; br = "";
    Hen t = hencky(in.Ft), h = hencky(in.F); T te = in.te; T G = 2 * m.mu + m.lam;
    for (int k = 0; k < D; k++) if (!(std::abs(t.h(k)) < 4)){ skipped = true; return ""; }
    T K = m.K, e = m.e_mu, fm = m.f_mu, q_t = e * t.dn, p_t = -K * t.tr, q = e * h.dn, p = -K * h.tr;
    T st = 1e-5; // default stress tolerance of the solver
    T ts = te * G * 4 + 1e-9; // stress tolerance of the oracle from the strain tolerance
    // ---- kinematics of the return: coaxial, rotation kept, deviator scaled by alpha in [0,1]
    TM inner = t.U.transpose() * h.hm * t.U; TV hn = inner.diagonal(); TM off = inner; off.diagonal().setZero();
    T kin = te * 20 + 1e-11 + 1e-9 * (t.h.norm() + h.h.norm());
    if (!(off.norm() < kin)) return f("return mapping is not coaxial with the trial strain: off-diagonal %.3e", off.norm());
    TM Fx = t.U * (hn - t.h).array().exp().matrix().asDiagonal() * t.U.transpose() * in.Ft;
    if (!((Fx - in.F).norm() < kin * (1 + in.F.norm()))) return f("return mapping changed the rotation part of the deformation by %.3e", (Fx - in.F).norm());
    TV dvt = t.h - (t.tr / D) * TV::Ones(), dvn = hn - (h.tr / D) * TV::Ones();
    T qslack = 0; // admissible increase of the deviator (critical-state models with their own solver tolerance)
    bool mcc = model == 3 || model == 7 || model == 9; // set below from the enum values
    PlasticModel pm = (PlasticModel)model; mcc = pm == PlasticModel::MCC || pm == PlasticModel::MCCVisc || pm == PlasticModel::MCCMui;
    bool visc1 = (pm == PlasticModel::VMVisc && !(c.vexp == 1 && c.xi == 0)) || (pm == PlasticModel::DPVisc && c.vexp != 1) || (pm == PlasticModel::MCCVisc && c.vexp != 1);
    T nt = visc1 ? 1.2e-2 : 0; // Newton loops stop at a residual of 1e-2 Pa
    T p0 = c.p0 * c.E;
    if (mcc){ T pn = p0; if (c.hard > 0) for (T ev : {in.epv, in.epv1}) pn = std::max(pn, p0 * std::exp(-c.xi * ev)); qslack = 0.02 * c.M * pn + c.M * std::sqrt(2e-3 * pn) + 1; }
    T al = t.dn > 0 ? dvn.dot(dvt) / (t.dn * t.dn) : 0;
    if (!((dvn - al * dvt).norm() < kin)) return f("return mapping turned the deviatoric direction (%.3e)", (dvn - al * dvt).norm());
    if (t.dn > 100 * te + 1e-9){
        if (al * t.dn < -kin - 2 * nt / e) return f("return mapping reversed the deviatoric direction: factor %.6g", al);
        if ((al - 1) * t.dn > kin + qslack / e + 2 * nt / e) return f("return mapping amplified the deviatoric strain: factor %.9g", al);
    }
    // ---- bookkeeping: recorded plastic strain = elastic strain removed
    T dd = in.epd1 - in.epd, dv = in.epv1 - in.epv, rd = t.dn - h.dn, rv = t.tr - h.tr; T tb = kin + 4e-16 * (std::abs(in.epd) + std::abs(in.epv));
    if (!(dd >= -tb - (mcc ? qslack / e : 0))) return f("accumulated deviatoric plastic strain decreased by %.3e", -dd);
    if (pm == PlasticModel::MCCMui){ if (rd > kin + 2 * st / e || dd != 0){ if (!(std::abs(dd - rd) < tb + 2 * st / e)) return f("recorded deviatoric plastic strain %.9e but %.9e was removed", dd, rd); } }
    else if (!(std::abs(dd - rd) < tb)) return f("recorded deviatoric plastic strain %.9e but %.9e was removed", dd, rd);
    if (!(std::abs(dv - rv) < tb)) return f("recorded volumetric plastic strain %.9e but %.9e was removed", dv, rv);
    if (dd > 1e-9 + 10 * tb && !(pm == PlasticModel::DPMui && h.dn < kin * 10) /* tip: documented exception */ && !(std::abs(in.dg * dt - m.d * dd) < m.d * (tb + 2 * st / e) + 1e-6 * m.d * dd)) return f("recorded plastic rate %.9g does not match the plastic strain increment %.9g / dt %.9g", in.dg, dd, dt);
    bool changed = !((h.hm - t.hm).norm() < kin);
    // ---- model conditions
    auto admissible = [&](T val, T lim, T tol, const char* what) -> std::string { if (!(val <= lim + tol)) return f("%s: q=%.9g exceeds the yield stress %.9g (trial q=%.9g p=%.9g, p=%.9g)", what, val, lim, q_t, p_t, p); return ""; };
    T M = c.M, coh = c.coh * c.E, xi = c.xi, vt = c.vt, n = c.vexp; std::string r;
    auto on_surface = [&](T val, T lim, T tol, const char* what) -> std::string { if (!(std::abs(val - lim) <= tol)) return f("%s: yielding particle has q=%.9g instead of %.9g (trial q=%.9g p=%.9g, p=%.9g, epd %.6g->%.6g)", what, val, lim, q_t, p_t, p, in.epd, in.epd1); return ""; };
    auto elastic = [&](const char* what) -> std::string { br = "elastic"; if (changed) return f("%s: trial state inside the yield surface was modified by %.3e (trial q=%.9g p=%.9g)", what, (h.hm - t.hm).norm(), q_t, p_t); return ""; };
    // viscous relation for a given yield stress (possibly depending on the new hardening state)
    auto viscous = [&](T qy, const char* what) -> std::string {
        T dg = (q_t - q) / fm; T tol = ts * (2 + fm / (fm + 1)) + nt * 2 + 1e-8 * q_t;
        if (c.dl){ T over = std::pow(std::max((T)0, vt / dt * dg), n); T res = q_t - qy - fm * (over + dg); T slope = 1 + n * std::pow(vt / dt, n) * std::pow(std::max(dg, (T)1e-12), n - 1); if (!(std::abs(res) <= tol * std::max((T)1, slope))) return f("%s: Duvaut-Lions relation violated by %.6g (q=%.9g trial %.9g yield %.9g)", what, res, q, q_t, qy); }
        else { T tmp = std::pow(dt / (vt * std::max(dg, (T)0) + dt), n); T res = q * tmp - qy; T slope = 1 + q * n * vt / (dt * fm); if (!(std::abs(res) <= tol * slope)) return f("%s: Perzyna relation violated by %.6g (q=%.9g trial %.9g yield %.9g)", what, res, q, q_t, qy); }
        return "";
    };
    if (pm == PlasticModel::VM){
        T qy = c.qmax * c.E; if (std::abs(q_t - qy) < ts){ skipped = true; return admissible(q, qy, 3 * ts, "VM"); }
        if (q_t < qy) return elastic("VM");
        br = "yield"; if (!((r = on_surface(q, qy, 3 * ts, "VM")).empty())) return r; if (std::abs(p - p_t) > 3 * ts) return f("VM: pressure changed by %.6g", p - p_t); return "";
    }
    if (pm == PlasticModel::DP){
        T qy = M * p_t + coh; if (std::abs(qy) < ts * (1 + M) || std::abs(q_t - qy) < ts * (1 + M)){ skipped = true; return ""; }
        if (qy < 0){ br = "tip"; if (!((r = on_surface(q, 0, 4 * ts, "DP tip")).empty())) return r; if (std::abs(p + coh / M) > 4 * ts) return f("DP: projection to the tip gave p=%.9g instead of %.9g", p, -coh / M); return ""; }
        if (q_t < qy) return elastic("DP");
        br = "yield"; if (std::abs(p - p_t) > 4 * ts) return f("DP: pressure changed by %.6g in a deviatoric return", p - p_t);
        return on_surface(q, qy, 4 * ts * (1 + M), "DP");
    }
    if (pm == PlasticModel::DPSoft || pm == PlasticModel::DPVisc || pm == PlasticModel::DPMui){
        T sl = pm == PlasticModel::DPMui ? c.mu1 : M; T tip0 = -coh / sl; T tip = pm == PlasticModel::DPSoft ? tip0 * std::exp(-xi * in.epd) : tip0;
        T shift = c.pradhana ? -K * in.epvp : 0; T ps = p_t + shift; T qy = sl * (ps - tip); T bt = ts * (2 + sl) + (pm == PlasticModel::DPMui ? 2 * st : 0);
        if (std::abs(ps - tip) < bt || std::abs(q_t - qy) < bt){ skipped = true; return ""; }
        bool track = c.pradhana || pm == PlasticModel::DPMui; // DPMui keeps the volume record in any case
        T dvp = in.epvp1 - in.epvp;
        if (ps < tip){ br = "tip";
            if (std::abs(q) > bt) return f("tip projection left q=%.9g", q);
            if (std::abs(p - tip) > bt) return f("tip projection gave p=%.9g instead of %.9g", p, tip);
            if (track && std::abs(dvp - dv) > tb) return f("volume-correction record changed by %.6g instead of %.6g at the tip", dvp, dv);
            return "";
        }
        if (track && q_t < qy && std::abs(in.epvp1) > 0) return f("volume-correction record not reset to zero in an elastic state (%.6g)", in.epvp1);
        if (q_t < qy) return elastic(pm == PlasticModel::DPSoft ? "DPSoft" : pm == PlasticModel::DPVisc ? "DPVisc" : "DPMui");
        if (pm == PlasticModel::DPSoft){
            T tmp = in.epd + t.dn - qy / e; T pr = tip0 * std::exp(-xi * tmp); if (std::abs(ps - pr) < bt){ skipped = true; return ""; }
            if (ps < pr){ br = "softened-tip"; if (std::abs(q) > bt || std::abs(p - pr) > bt) return f("DPSoft: projection to the softened tip gave p=%.9g q=%.9g instead of p=%.9g q=0", p, q, pr); if (track && std::abs(dvp - dv) > tb) return f("volume-correction record changed by %.6g instead of %.6g", dvp, dv); return ""; }
            br = "yield"; if (track && std::abs(in.epvp1) > 0) return f("volume-correction record not reset to zero right of the tip (%.6g)", in.epvp1);
            if (std::abs(p - p_t) > bt) return f("DPSoft: pressure changed by %.6g in a deviatoric return", p - p_t);
            return on_surface(q, sl * (ps - pr), bt * 2, "DPSoft");
        }
        br = "yield"; if (track && std::abs(in.epvp1) > 0) return f("volume-correction record not reset to zero right of the tip (%.6g)", in.epvp1);
        if (std::abs(p - p_t) > bt) return f("pressure changed by %.6g in a deviatoric return", p - p_t);
        if (pm == PlasticModel::DPVisc) return viscous(qy, "DPVisc");
        // mu(I): q_t - qy - fm dt g = p_t (mu2-mu1) g / (Q sqrt(ps-tip) + g)
        T g = (q_t - q) / fm / dt, Q = c.iref / (c.gd * std::sqrt(c.rhos)), s = std::sqrt(ps - tip + st);
        // exactly one positive root; it must lie within the uncertainty of g
        T dg = (4 * bt + 1e-8 * q_t) / fm / dt + 1e-8 * std::abs(g), lo = std::max((T)0, g - dg), hi = std::max((T)0, g + dg), ov = q_t - qy, eo = 4 * bt + 1e-8 * (q_t + std::abs(qy));
        auto r = [&](T x, T o, T pp){ return (o - fm * dt * x) * (Q * s + x) - std::max(pp, (T)0) * (c.mu2 - c.mu1) * x; };
        if (!(r(lo, ov + eo, p_t - eo) >= 0 && r(hi, ov - eo, p_t + eo) <= 0)) return f("DPMui: mu(I) relation violated: residual %.9g (q=%.9g trial %.9g yield %.9g, rate %.9g)", r(g, ov, p_t), q, q_t, qy, g);
        return "";
    }
    if (pm == PlasticModel::VMVisc){
        T qmin = c.qmin * c.E, qmax = c.qmax * c.E; auto Y = [&](T x){ return qmin + (qmax - qmin) * std::exp(-xi * x); };
        T cap = (c.pmin < -1e10 ? -1e20 : c.pmin * c.E) * std::exp(-xi * in.epv); T qy = Y(in.epd);
        if (std::abs(p_t - cap) < ts){ skipped = true; return ""; }
        if (p_t < cap){ br = "tension-cap"; if (q > 4 * ts || std::abs(p) > 4 * ts) return f("VMVisc: beyond the tensile cap the stress must vanish, but p=%.9g q=%.9g", p, q); return ""; }
        if (std::abs(q_t - qy) < ts + nt){ skipped = true; return ""; }
        if (q_t < qy) return elastic("VMVisc");
        br = "yield"; if (std::abs(p - p_t) > 4 * ts) return f("VMVisc: pressure changed by %.6g", p - p_t);
        return viscous(Y(in.epd1), "VMVisc");
    }
    if (mcc){
        T Mm = pm == PlasticModel::MCCMui ? c.mu1 : M, be = c.beta; HardeningLaw hl = (HardeningLaw)(int)c.hard;
        auto PC = [&](T ev) -> T { if (hl == HardeningLaw::NoHard) return p0; if (hl == HardeningLaw::ExpoExpl || hl == HardeningLaw::ExpoImpl) return p0 * std::exp(-xi * ev); T v = K * std::sinh(-xi * ev + std::asinh(p0 / K)); return hl == HardeningLaw::SinhImpl ? std::max((T)0.01, v) : v; };
        bool impl = hl == HardeningLaw::ExpoImpl || hl == HardeningLaw::SinhImpl; T pco = PC(in.epv); if (hl == HardeningLaw::ExpoExpl || hl == HardeningLaw::SinhExpl) pco = std::max(st, pco);
        if (!(pco > 1e-7 * c.E) || !(pco < 10 * c.E)){ skipped = true; return ""; }
        auto ysq = [&](T P, T pc){ return Mm * Mm * (pc - P) * (P + be * pc); }; // q^2 on the surface
        T y = q_t * q_t - ysq(p_t, pco); T ytol = 4 * ts * (q_t + Mm * Mm * (std::abs(p_t) + pco)) + 1e-8 * pco * pco;
        if (std::abs(y) < ytol){ skipped = true; return ""; }
        if (y < 0) return elastic("MCC");
        br = "yield";
        T pcn = impl ? PC(in.epv1) : pco; T pn = p, qn = q;
        if (pm == PlasticModel::MCCVisc && c.dl){ T b = 1 / (1 + vt / dt); pn = p_t - (p_t - p) / b; qn = q_t - (q_t - q) / b; ts = ts / b; if (impl){ pcn = PC(in.epv - (p_t - pn) / K); } if (b < 1e-3){ skipped = true; br = "yield-stiff"; return ""; } }
        T stol = 4 * ts + 2e-3 * pco; if (hl == HardeningLaw::SinhImpl || hl == HardeningLaw::ExpoImpl) stol += 5e-3 * pco * (1 + xi * pco / K);
        stol += std::sqrt(2e-3 + 1e-3 * Mm * Mm); // absolute residual of the solver's Newton loops (Pa)
        T ptol = stol + (impl ? 1.1e-2 * pco / Mm : 0); // implicit laws stop at |yield function| < 1e-4 p_c^2, which near a tip is 1e-2 p_c / M in pressure
        if (!(pn < pcn + ptol)) return f("MCC: p=%.9g beyond the consolidation pressure %.9g (trial p=%.9g q=%.9g)", pn, pcn, p_t, q_t);
        if (!(pn > -be * pcn - ptol)) return f("MCC: p=%.9g below the tensile limit %.9g (trial p=%.9g q=%.9g)", pn, -be * pcn, p_t, q_t);
        T qs = std::sqrt(std::max((T)0, ysq(pn, pcn))), qlo = std::sqrt(std::max((T)0, ysq(pn, pcn) - Mm * Mm * 2 * stol * pco)), qhi = std::sqrt(std::max((T)0, ysq(pn, pcn)) + Mm * Mm * 2 * stol * pco);
        T qtol = 8 * ts + 1e-6 * pco; (void)qlo;
        auto band = [&](T val, const char* what) -> std::string { if (!(val >= qlo - qtol && val <= qhi + qtol)) return f("%s: returned stress p=%.9g q=%.9g is off the yield surface (q there %.9g, p_c=%.9g, trial p=%.9g q=%.9g)", what, pn, val, qs, pcn, p_t, q_t); return ""; };
        if (pm == PlasticModel::MCC || (pm == PlasticModel::MCCVisc && c.dl)) return band(qn, "MCC");
        if (pm == PlasticModel::MCCVisc){
            if (qs > q_t) return band(q, "MCCVisc");
            // q between the surface and the trial state, on the Perzyna relation for the yield stress qs (within the band)
            T dg = std::max((T)0, (q_t - q) / fm), tmp = std::pow(dt / (vt * dg + dt), n), back = q * tmp, slope = 1 + q * n * vt / (dt * fm);
            if (!(back >= qlo - (qtol + nt * 2) * slope && back <= qhi + (qtol + nt * 2) * slope)) return f("MCCVisc: Perzyna relation violated: q=%.9g maps back to %.9g, yield stress %.9g (trial p=%.9g q=%.9g)", q, back, qs, p_t, q_t);
            return "";
        }
        // MCCMui
        if (!(q >= qlo - qtol)) return f("MCCMui: q=%.9g below the quasi-static yield stress %.9g", q, qs);
        if (!(q <= std::max(q_t, qhi) + qtol)) return f("MCCMui: q=%.9g above the trial value %.9g", q, q_t);
        if (q_t > qs + st + qtol && q > qs + 0.05 * (q_t - qs) + qtol){
            T g = (q_t - q) / fm / dt, ps = p + be * pcn + st, Q = c.iref / (c.gd * std::sqrt(c.rhos)), s = std::sqrt(std::max(ps, (T)0)), w = std::sqrt(std::max((T)0, (std::max(pcn, p + st) - p) * ps));
            T l = q - qs, eg = (2 * ts + 1e-9 * q_t) / fm / dt; auto law = [&](T x){ x = std::max(x, (T)0); return w * (c.mu2 - c.mu1) * x / (Q * s + x + 1e-300); }; T rr = law(g), lo = 0.7 * law(g - eg) - qtol * 2 - (qs - qlo) * 2, hi = 1.4 * law(g + eg) + qtol * 2 + (qhi - qs) * 2;
            if (g > 0 && !(l >= lo && l <= hi)) return f("MCCMui: overstress %.9g does not match the mu(I) law %.9g (q=%.9g trial %.9g)", l, rr, q, q_t);
        }
        return "";
    }
    skipped = true; return "";
}

// The internal friction coefficient (and viscosity) a model reports, which is the boundary friction when
// material-induced friction is on. `branch` is the verdict of check_plast, which must have been clean.
std::string check_mu(const PlasIn& in, const std::string& br, T mu, T visc, bool& skipped){
    const Cfg& c = in.c; const Mat& m = in.w.mat; PlasticModel pm = (PlasticModel)(int)c.plastic; T dt = in.dt, st = 1e-5, M = c.M, be = c.beta, xi = c.xi, K = m.K; skipped = false;
    bool mui = pm == PlasticModel::DPMui || pm == PlasticModel::MCCMui, mcc = pm == PlasticModel::MCC || pm == PlasticModel::MCCVisc; if (pm == PlasticModel::NoPlasticity || pm == PlasticModel::VM || pm == PlasticModel::VMVisc || !(mui || c.mibf)){ skipped = true; return ""; }
    auto is = [&](T want, const char* why) -> std::string { if (!(std::abs(mu - want) <= 1e-12 * want)) return f("friction coefficient is %.9g instead of %.9g (%s)", mu, want, why); return ""; };
    if (pm == PlasticModel::DP || pm == PlasticModel::DPSoft) return is(M, "constant in this model");
    if (br == "elastic" || br == "tip"){ if (mui && !(visc == 0)) return f("viscosity %.9g without viscous flow", visc); return is(mui ? c.mu1 : M, br == "tip" ? "tip" : "no plastic flow"); }
    if (br != "yield"){ skipped = true; return ""; }
    Hen t = hencky(in.Ft), h = hencky(in.F); T G = 2 * m.mu + m.lam, ts = in.te * G * 4 + 1e-9, q_t = m.e_mu * t.dn, p_t = -K * t.tr, q = m.e_mu * h.dn, p = -K * h.tr;
    auto within = [&](T lo, T hi, const char* why) -> std::string { T r = 1e-7 * (std::abs(lo) + std::abs(hi)); if (!(mu >= lo - r && mu <= hi + r)) return f("friction coefficient is %.9g instead of %.9g (%s; p=%.9g q=%.9g rate %.9g)", mu, (lo + hi) / 2, why, p, q, in.dg); return ""; };
    T Q = c.iref / (c.gd * std::sqrt(c.rhos)), g = in.dg; auto law = [&](T s){ return c.mu1 + (c.mu2 - c.mu1) * g / (Q * std::sqrt(std::max(s, (T)0)) + g); };
    if (pm == PlasticModel::DPVisc){
        T d = p_t + (c.pradhana ? -K * in.epvp : 0), coh = c.coh * c.E; if (std::abs(d) < 1000 * ts + 1e-9){ skipped = true; return ""; }
        T a = (q - coh) / d, er = (4 * ts + std::abs(a) * ts) / std::abs(d) * 2; return within(std::max((T)0, a - er), std::max((T)0, a + er), "stress ratio");
    }
    if (pm == PlasticModel::DPMui){
        T ps = p_t + (c.pradhana ? -K * in.epvp : 0) + c.coh * c.E / c.mu1 + st; if (!(g > 0) || ps < 1000 * ts){ skipped = true; return ""; }
        std::string r = within(law(ps + 4 * ts), law(ps - 4 * ts), "mu(I) law"); if (r.size()) return r;
        T wv = (mu - c.mu1) * ps / g; if (!(std::abs(visc - wv) <= (1e-6 + 8 * ts / ps) * std::abs(wv) + 1e-12 * (c.mu2) * ps / g)) return f("viscosity %.9g instead of %.9g", visc, wv); return "";
    }
    HardeningLaw hl = (HardeningLaw)(int)c.hard; T p0 = c.p0 * c.E, b = 1; bool impl = hl == HardeningLaw::ExpoImpl || hl == HardeningLaw::SinhImpl;
    auto PC = [&](T ev) -> T { if (hl == HardeningLaw::NoHard) return p0; return hl == HardeningLaw::ExpoExpl || hl == HardeningLaw::ExpoImpl ? p0 * std::exp(-xi * ev) : K * std::sinh(-xi * ev + std::asinh(p0 / K)); };
    T pc = hl == HardeningLaw::NoHard ? p0 : impl ? std::max((T)0, PC(in.epv1)) : std::max(st, PC(in.epv));
    if (mcc){
        T pn = p, qn = q, e = 8 * ts; if (pm == PlasticModel::MCCVisc && c.dl){ b = 1 / (1 + c.vt / dt); if (b < 1e-3){ skipped = true; return ""; } pn = p_t - (p_t - p) / b; qn = q_t - (q_t - q) / b; e /= b; }
        e += 1e-12 * (std::abs(p_t) + pc); T A = pn + be * pc, B = pc - pn; if (A < st - e || B < st - e) return is(M, "beyond a tip"); if (A < 1000 * (e + st) || B < 1000 * (e + st)){ skipped = true; return ""; }
        return within(std::max((T)0, qn - e) / std::sqrt((A + e) * (B + e)), std::max((T)0, qn + e) / std::sqrt((A - e) * (B - e)), "stress ratio on the yield ellipse");
    }
    // MCCMui: the rate is limited so that q does not fall below the quasi-static surface; the coefficient is that of the unlimited rate
    pc = std::max(pc, p + st); T ps = std::max(p + be * pc, (T)0) + st, e = 8 * ts + 1e-12 * pc; if (ps < 1000 * e || pc - p < 1000 * e){ skipped = true; return ""; }
    if (mu == c.mu1 && visc == 0){ T qs = c.mu1 * std::sqrt(std::max((T)0, (pc - p) * (p + be * pc))); if (q < q_t - 1e-3 * pc - 4 * ts && q > qs + 0.05 * pc) return f("friction coefficient and viscosity stayed at rest values although the overstress is %.6g", q - qs); skipped = true; return ""; }
    if (!(g > 0) || q_t - q < 1e-6 * q_t){ skipped = true; return ""; } // the recorded rate is a difference of stresses
    T qs = c.mu1 * std::sqrt(std::max((T)0, (pc - p) * (p + be * pc))); bool lim = q < qs + 0.05 * pc;
    std::string r = within(law(ps + e), lim ? c.mu2 : law(ps - e), "mu(I) law"); if (r.size()) return r;
    T wv = (mu - c.mu1) * std::sqrt((pc - p) * ps) / g; if (!lim && !(std::abs(visc - wv) <= (1e-5 + 2 * e / ps + 2 * e / (pc - p)) * std::abs(wv) + 1e-12 * c.mu2 * pc / g)) return f("viscosity %.9g instead of %.9g", visc, wv);
    return "";
}
