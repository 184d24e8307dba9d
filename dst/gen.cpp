// Seed -> run description. Swarm style: every run draws its own subset of features.
#include "cfg.hpp"
#include <cmath>
#include <algorithm>
using rt::Rng;

static double pickd(Rng& r, std::initializer_list<double> l){ auto it = l.begin(); std::advance(it, (long)r.below(l.size())); return *it; }
static double logu(Rng& r, double a, double b){ return std::exp(r.uni(std::log(a), std::log(b))); }

static void body(Rng& r, Cfg& c, int dim){
    c.gseed = (double)r.below(1000000007);
    c.np = r.flip(0.15) ? r.range(1, 4) : (dim == 2 ? r.range(5, 40) : r.range(4, 20));
    c.layout = r.below(5); c.dx = r.flip(0.3) ? 0.1 : logu(r, 1e-2, 1);
    double m = dim == 2 ? 7 : 3.2;
    c.w = r.uni(0.5, m); c.h = r.uni(0.5, m); c.d = dim == 3 ? r.uni(0.5, m) : 0; c.gap = r.uni(1, 5);
    if (r.flip(0.5)){ double s = r.flip(0.8) ? 4 : 300; c.ox = r.uni(-s, s); c.oy = r.uni(-s, s); c.oz = r.uni(-s, s); if (r.flip(0.3)){ c.ox = std::round(c.ox); c.oy = std::round(c.oy); c.oz = std::round(c.oz); } }
    c.vmode = r.below(6); c.vmag = r.flip(0.2) ? 0 : logu(r, 1e-3, 0.25);
    c.prestrain = r.flip(0.3) ? 0 : logu(r, 1e-4, 0.05); c.preb = r.flip(0.5) ? r.uni(0, 0.2) : 0;
    c.ppc = r.flip(0.5) ? (dim == 2 ? 4 : 8) : r.uni(1, 20);
}
static void material(Rng& r, Cfg& c, bool plast){
    c.rho = logu(r, 100, 3000); c.E = logu(r, 1e4, 1e7); c.nu = r.uni(0, 0.42);
    c.elastic = 0; c.plastic = 0; c.qpi = r.flip(0.7) ? 0 : 1 + r.below(2);
    if (!plast){ c.elastic = r.flip(0.4); return; }
    c.plastic = 1 + r.below(9);
    double s = logu(r, 1e-4, 2e-2); // strength relative to E
    c.qmax = s; c.qmin = s * (r.flip(0.5) ? 1 : r.uni(0.2, 1)); c.pmin = r.flip(0.5) ? -1e15 : -s * r.uni(0.1, 3);
    c.M = r.uni(0.3, 1.6); c.coh = r.flip(0.4) ? 0 : s * r.uni(0.05, 1); c.xi = r.flip(0.4) ? 0 : logu(r, 0.1, 30);
    c.vt = r.flip(0.3) ? 0 : logu(r, 1e-7, 1e-2); c.vexp = r.flip(0.5) ? 1 : r.uni(0.5, 2); c.dl = r.flip(0.4);
    c.beta = r.flip(0.3) ? 0 : r.uni(0, 0.6); c.p0 = s * r.uni(0.3, 2); c.pradhana = r.flip(0.6);
    c.mu1 = r.uni(0.2, 0.6); c.mu2 = c.mu1 + r.uni(0.05, 0.6); c.iref = r.uni(0.1, 0.5); c.gd = logu(r, 1e-4, 1e-2); if (r.flip(0.5)) c.rhos = r.uni(1000, 5000);
    c.hard = r.below(5);
    if (c.plastic == 9 && c.hard == 0) c.hard = 1;              // MCCMui has no NoHard law
    if (c.plastic == 7 && c.dl) c.vexp = 1;                     // MCCVisc + Duvaut-Lions: exponent must be 1
}
static void scheme(Rng& r, Cfg& c){
    c.flip = pickd(r, {-2, -1, -0.95, -0.6, -0.2, 0, 0.35, 0.95, 1});
    c.musl = r.flip(0.3);
}
static void forcing(Rng& r, Cfg& c, int dim){
    if (r.flip(0.6)){ double g = logu(r, 1e-5, 3e-3); // in units of c^2/dx
        double a = r.uni(0, 6.283), b = r.uni(-1, 1); c.gx = g * std::cos(a); c.gy = g * std::sin(a); c.gz = dim == 3 ? g * b : 0; if (r.flip(0.5)){ c.gx = 0; c.gz = 0; c.gy = -g; } }
    if (r.flip(0.25)){ c.gspec = 1; c.gtime = r.uni(0, 2.5); } // in units of the frame length
}
static void timing(Rng& r, Cfg& c){
    c.frames = r.range(1, 4); c.spf = r.flip(0.8) ? r.uni(0.3, 7) : (double)r.range(1, 6); c.cfl = r.uni(0.05, 0.6); c.cfle = r.uni(0.1, 0.6); c.mindt = pickd(r, {1e-14, 1e-14, 1e-12, 1e-16});
    c.maxsteps = 30;
}
static void refpoint(Rng& r, Cfg& c){ if (r.flip(0.35)){ c.grp = 1; c.grx = r.uni(-5, 5); c.gry = r.uni(-5, 5); c.grz = r.uni(-3, 3); if (r.flip(0.3)) c.grp = 2; auto far = [](double& q){ double a = std::abs(q) * 1000; if (a - std::floor(a) < 0.1) q *= 14; }; far(c.grx); far(c.gry); } }
static void machine(Rng& r, Cfg& c, bool concurrent){
    c.sseed = (double)r.below(1000000007); c.fill = r.below(1000);
    c.threads = concurrent ? (r.flip(0.1) ? 1 : r.flip(0.15) ? r.range(5, 12) : r.flip(0.03) ? r.range(13, 32) : r.range(2, 4)) : r.range(1, 3);
    double st[] = {rt::RANDOM, rt::PCT, rt::ROUNDROBIN, rt::SYNC, rt::STARVE, rt::MIX, rt::MIX, rt::RTC};
    c.strategy = st[r.below(8)]; c.mean = concurrent ? logu(r, 3, 3000) : logu(r, 100, 20000); c.pct = r.range(1, 6);
    c.shortage = r.flip(0.3) ? r.uni(0, 0.6) : 0; c.maxdel = r.flip(0.1) ? r.range(1, 3) : 0; c.cjump = r.flip(0.3) ? 0.2 : 0;
    c.verbose = r.flip(0.3);
}
static void obstacles(Rng& r, Cfg& c, int dim, double pp, double po){
    c.pseed = (double)r.below(1000000007); c.oseed = (double)r.below(1000000007);
    if (r.flip(pp)) c.nplates = r.flip(0.9) ? r.range(1, 3) : r.range(4, 6);
    if (r.flip(po)){ c.nobj = r.flip(0.8) ? r.range(1, 2) : r.range(3, 5); c.obj0 = r.below(dim == 3 ? 8 : 7); c.obj1 = r.below(2); }
}
// built-in obstacles live at fixed coordinates: bring the body there
static void place_at_object(Rng& r, Cfg& c){
    if (!c.nobj || c.obj0 < 2) return;
    double cx = 0, cy = 0, cz = 0;
    switch ((int)c.obj0){
        case 2: c.dx = r.uni(0.01, 0.03); cx = 0.43 + r.uni(-0.08, 0.08); cy = r.uni(0, 0.05); break;
        case 3: c.dx = r.uni(0.005, 0.02); cx = r.uni(-0.02, 0.02); cy = r.uni(-0.1, 0.1); break;
        case 4: c.dx = r.uni(0.02, 0.3); cx = r.flip(0.2) ? r.uni(-500, 500) : 0; cy = r.uni(-1, 1) * c.dx; break; // ground height is drawn near cy
        case 5: c.dx = r.uni(0.02, 0.2); cx = r.uni(-1, 1); cy = cx * cx; break;
        case 6: c.dx = r.uni(0.004, 0.02); cx = r.uni(-0.02, 0.02); cy = 0.016 + 100 * cx * cx; break;
        case 7: c.dx = r.uni(0.05, 0.2); { cy = r.flip(0.15) ? r.uni(0.8, 9) : r.uni(-0.8, 0.8); double a = r.uni(0, 6.283), R = std::tanh(cy) + 1; cx = R * std::cos(a); cz = R * std::sin(a); } break;
    }
    c.ox = cx / c.dx - c.w / 2; c.oy = cy / c.dx - c.h / 2; c.oz = cz / c.dx - c.d / 2; c.layout = r.flip(0.5) ? 0 : 1;
}
static void periodic(Rng& r, Cfg& c, int dim){
    c.pbc = 1; c.ncell = r.range(5, dim == 2 ? 14 : 8); c.ny = r.range(3, dim == 2 ? 8 : 4); c.layout = 5; c.infplates = 1; c.nobj = r.flip(0.3) ? 1 : 0; c.obj0 = r.flip(0.5) ? 4 : 0; c.grp = 0; // obstacles that do not vary along x
    c.np = dim == 2 ? r.range(4, 44) : r.range(4, 24); c.ox = c.oy = c.oz = 0;
    if (c.nplates > 2) c.nplates = 2;
}

Cfg gen(const std::string& p, uint64_t seed, int dim, int deg){
    uint64_t h = 1469598103934665603ull; for (char ch : p) h = (h ^ (unsigned char)ch) * 1099511628211ull;
    Rng r(seed * 1000003 + h % 999983 + dim * 17 + deg * 31);
    Cfg c; bool conc = p == "C01" || p == "C02" || p == "C16";
    body(r, c, dim); c.mibf = r.flip(0.25); bool plast = p == "C10" ? true : p == "C05" ? false : r.flip(0.55);
    material(r, c, plast); scheme(r, c); forcing(r, c, dim); timing(r, c); refpoint(r, c); machine(r, c, conc);
    obstacles(r, c, dim, p == "C08" ? 0.8 : p == "C04" || p == "C05" ? 0 : 0.5, p == "C08" ? 0.6 : p == "C04" || p == "C05" ? 0 : 0.25);
    bool mayp = p == "C01" || p == "C02" || p == "C03" || p == "C04" || p == "C07" || p == "C11" || p == "C20" || p == "C12", some = p == "C06" || p == "C08" || p == "C10" || p == "C13" || p == "C14" || p == "C16";
    if (p == "C09" || (mayp && r.flip(0.3)) || (some && r.flip(0.15))) periodic(r, c, dim);
    if (p == "C09" && r.flip(0.5)){ c.vmode = r.flip(0.5) ? 1 : 3; c.vmag = logu(r, 0.05, 0.4); }
    if (!c.pbc && (p == "C08" || r.flip(0.5))) place_at_object(r, c);
    c.sp0 = (double)r.below(1000003); c.sp1 = r.uni(); c.sp2 = r.uni(); c.sp3 = r.uni();
    if (conc){ c.maxsteps = 12; c.np = std::min(c.np, 24.0); if (r.flip(0.3)){ c.save = 1; c.savegrid = r.flip(0.5); } }
    if (p == "C01" || p == "C17"){ if (c.layout == 3) c.layout = 0; }
    if (p == "C02"){ if (r.flip(0.3)) c.verbose = 1; }
    if (p == "C05"){ c.plastic = 0; c.prestrain = 0; c.preb = 0; c.vmode = r.flip(0.4) ? 1 : 2; c.pbc = 0; if (r.flip(0.3)){ periodic(r, c, dim); c.vmode = 1; c.nplates = 0; } if (c.flip >= 0) c.vmode = 1; if (c.vmode == 2) c.preb = -1; c.vmag = logu(r, 1e-3, 0.3); c.maxsteps = 14; c.rot = r.flip(0.5); c.nobj = 0; if (c.rot > 0) c.maxsteps = 4; else if (c.layout == 4) c.maxsteps = 6; // round-off grows with the elastic instability of dense clusters
    }
    if (p == "C04"){ if (r.flip(0.4)) c.flip = -2; }
    if (p == "C06"){
        c.nplates = r.flip(0.2); c.nobj = 0; c.maxsteps = 4000; c.frames = r.range(1, 6); c.np = std::min(c.np, 10.0); c.prestrain = r.flip(0.5) ? 0 : c.prestrain; c.elastic = 0; if (r.flip(0.7)) c.plastic = 0;
        c.spf = pickd(r, {0.05, 0.3, 1, 1, 2, 3, 2.5, 4.7, 9.2}); if (r.flip(0.5)) c.spf *= r.uni(0.5, 1.5);
        if (r.flip(0.3)) c.mindt = -r.uni(0.01, 0.28); // negative: fraction of the frame length
        if (r.flip(0.4)) c.vmag = logu(r, 0.2, 3);
        c.gspec = r.flip(0.5); c.gtime = r.uni(0, 4); c.threads = r.range(1, 2);
    }
    if (p == "C06" && c.pbc){ c.vmag = logu(r, 1e-3, 0.6); c.vmode = r.flip(0.6) ? 1 : c.vmode; c.spf = std::min(c.spf, 4.0); c.frames = std::min(c.frames, 3.0); }
    if (p == "C06" && !c.pbc && r.flip(0.08)){ c.vmag = logu(r, 3, 3000); c.spf = std::min(c.spf, 1.5) * 2 / std::max(1.0, c.vmag); c.prestrain = 0; c.preb = 0; } // far faster than the elastic wave
    if (p == "C07"){ c.maxsteps = 25; c.frames = 4; c.spf = 6; }
    if (p == "C10"){ c.prestrain = logu(r, 1e-3, 0.06); c.vmag = logu(r, 1e-3, 0.15); if (c.vmode < 2) c.vmode = 2 + r.below(4); c.maxsteps = 20; c.frames = 3; c.spf = 6; c.nobj = 0; if (c.nplates > 1) c.nplates = 1; if (r.flip(0.3)) c.layout = 4; }
    if (p == "C12" || p == "C13" || p == "C14"){ c.save = 1; c.savegrid = r.flip(0.5); c.np = std::min(c.np, 14.0); c.spf = std::min(c.spf, 2.5); c.maxsteps = 400; c.threads = std::min(c.threads, 3.0);
        if (p != "C12"){ c.frames = r.range(1, 4); c.layout = 0; c.vmag = std::min(c.vmag, 0.1); c.prestrain = std::min(c.prestrain, 0.01); }
        if (r.flip(0.12)) c.np = r.range(60, 220); // more than one stream buffer per frame file
        c.vexp = 1; if (c.plastic == 4) c.xi = 0; }
    if (p == "C14") c.fkind = 1 + r.below(9), c.fa = r.uni(), c.fb = r.uni(), c.fc = (double)r.below(100), c.fseed = (double)r.below(1000003);
    if (p == "C13") c.fkind = 20, c.fa = r.uni(), c.fb = (double)r.below(3), c.fc = r.uni(), c.fseed = (double)r.below(1000003);
    if (p == "C15"){ c.save = r.flip(0.6); c.layout = 0; c.np = std::max(4.0, std::min(c.np, 16.0)); c.vmag = std::min(c.vmag, 0.05); c.prestrain = 1e-4; c.vexp = 1; c.frames = r.range(1, 3); c.spf = std::min(c.spf, 4.0); c.maxsteps = 200; c.nobj = 0; c.nplates = 0; c.threads = r.range(1, 4); c.mean = logu(r, 3, 3000); c.musl = r.flip(0.5); c.fkind = r.below(11); c.fa = r.below(4); c.fb = r.uni(); }
    if (p == "C16"){ c.frames = r.range(1, 2); c.np = std::min(c.np, 12.0); c.spf = std::min(c.spf, 3.0); c.layout = 0; c.vmag = std::min(c.vmag, 0.1); c.prestrain = std::min(c.prestrain, 0.01); c.maxsteps = 200; c.w = std::min(c.w, 3.0); c.h = std::min(c.h, 3.0); c.d = std::min(c.d, 2.0); c.vexp = 1; c.fkind = r.below(3); if (r.flip(0.15)){ c.vmag = logu(r, 0.3, 5); c.vmode = 1 + r.below(5); c.spf /= 1 + 3 * c.vmag; } if (r.flip(0.1)){ c.gx *= 10; c.gy *= 10; } }
    if ((p == "C06" || p == "C12" || p == "C13" || p == "C14") && r.flip(0.06)){ c.frames = r.range(9, p == "C06" || p == "C12" ? 130 : 40); c.np = std::min(c.np, 4.0); c.spf = r.flip(0.5) ? 0.5 : 1; c.prestrain = 0; c.preb = 0; c.vmag = std::min(c.vmag, 0.02); c.gx *= 0.01; c.gy *= 0.01; c.gz *= 0.01; }
    if (c.plastic > 0 && r.flip(p == "C10" ? 0.4 : p == "C12" || p == "C09" || p == "C11" || p == "C08" || p == "C01" || p == "C17" ? 0.2 : 0)){ // particles that already have a plastic history
        bool mcc = c.plastic == 4 || c.plastic == 7 || c.plastic == 9; double x = std::max(c.xi, 0.3); c.preepd = std::min(5.0, logu(r, 0.01, 12) / x); c.preepv = mcc ? std::min(0.5, logu(r, 0.02, 1.2) / x) : std::min(0.5, logu(r, 0.02, 2) / x); if (c.pradhana && r.flip(0.6)) c.preepvp = logu(r, 1e-4, 1e-2); }
    if (p == "C13" && r.flip(0.35)) c.old = 1 + r.below(2); // the folder already holds frame files of an earlier, longer run
    if ((p == "C03" || p == "C04" || p == "C07" || p == "C08" || p == "C09" || p == "C11" || p == "C17" || p == "C20") && r.flip(0.04)){ c.np = r.flip(0.8) ? r.range(65, 300) : r.range(300, 1400); c.maxsteps = 5; }
    if (conc && p != "C16" && r.flip(0.04)){ c.np = r.range(65, 200); c.maxsteps = 3; c.mean = std::max(c.mean, 30.0); }
    if ((p == "C03" || p == "C04" || p == "C09" || p == "C10" || p == "C11" || p == "C20") && r.flip(0.04)){ c.np = std::min(c.np, 6.0); c.maxsteps = 300; c.frames = 8; c.spf = 40; }
    if (p == "C17"){ c.pbc = 0; c.ox = r.uni(-4, 4); c.oy = r.uni(-4, 4); c.oz = r.uni(-4, 4); if (c.nobj) c.obj0 = r.below(2); c.fkind = r.below(3); c.maxsteps = std::min(c.maxsteps, 14.0); }
    if ((p == "C01" || p == "C02" || p == "C08" || p == "C17" || p == "C07") && r.flip(0.03)){ c.np = std::min(c.np, 4.0); c.maxsteps = 150; c.frames = 8; c.spf = 25; c.mean = std::max(c.mean, 50.0); if (conc){ c.save = 0; c.threads = std::min(c.threads, 3.0); } } // long histories
    if (p == "C12" && r.flip(0.015)){ c.np = r.range(300, 1300); c.frames = r.range(1, 2); c.layout = 0; }
    if (p == "C12" && r.flip(0.003)){ c.np = r.range(1, 2); c.frames = r.range(1001, 1200); c.spf = 0.5; c.maxsteps = 3000; c.prestrain = 0; c.preb = 0; c.vmag = 0.01; c.gx = c.gy = c.gz = 0; c.savegrid = 0; c.nobj = c.nplates = 0; c.threads = 1; }
    if (conc && p != "C16" && r.flip(0.006)){ c.np = r.range(257, 700); c.maxsteps = 2; c.mean = std::max(c.mean, 300.0); c.save = 0; c.threads = std::min(c.threads, 4.0); }
    static const char* fast[] = {"C01", "C02", "C03", "C04", "C05", "C07", "C08", "C09", "C11", "C12", "C17", "C20"};
    for (auto* q : fast) if (p == q && r.flip(0.07)){ c.vmag = logu(r, 0.7, 4); if (p != "C05" && r.flip(0.7)) c.vmode = 1; } // faster than the elastic wave
    if (c.maxsteps <= 40 && c.frames * c.spf < 3) c.spf = 3;
    static const char* exact[] = {"C03", "C04", "C05", "C07", "C08", "C09", "C11", "C12", "C20"}; bool snap = false; // particles exactly on nodes, cell centres and kernel edges, also after rounding (dx a power of two)
    for (auto* q : exact) if (p == q && (c.nobj == 0 || c.obj0 < 2) && r.flip(c.layout == 3 ? 0.6 : 0.05)){ snap = true; if (c.pbc){ if (c.layout == 5) c.layout = 7; } else c.layout = 3; c.dx = std::ldexp(1.0, -(int)r.below(7)); c.ox = std::round(c.ox); c.oy = std::round(c.oy); c.oz = std::round(c.oz); }
    if (!snap && c.plastic == 0 && (c.nobj == 0 || c.obj0 < 2) && p != "C15" && r.flip(0.2)){ // other units: nothing but the plastic models contains an absolute scale
        double dx = r.flip(0.5) ? logu(r, 1e-4, 1e3) : c.dx; c.rho = r.flip(0.5) ? logu(r, 1e-2, 1e5) : c.rho; c.E = r.flip(0.5) ? logu(r, 1e-3, 1e11) : c.E; c.dx = dx;
        if (c.mindt > 0) c.mindt = std::min(c.mindt, 1e-8 * c.dx / std::sqrt(c.E / c.rho)); }
    if (c.pbc && some){ c.layout = 5; if (p != "C08" && p != "C10" && p != "C06"){ c.gx *= 0.1; c.gy *= 0.1; c.gz *= 0.1; c.vmag = std::min(c.vmag, 0.1); } if (p == "C10") c.vmag = std::min(c.vmag, 0.1); }
    return c;
}
rt::Params sched_params(const Cfg& c){
    rt::Params p; p.sched_seed = (uint64_t)c.sseed; p.strategy = (int)c.strategy; p.mean_interval = c.mean; p.pct_depth = (int)c.pct; p.shortage = c.shortage; p.max_delivered = (int)c.maxdel; p.fill = (uint64_t)c.fill; p.clock_jump = c.cjump;
    return p;
}
