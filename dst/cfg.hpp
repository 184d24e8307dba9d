// One run = one Cfg. Every field is a number so that a run can be printed, overridden and minimised.
#pragma once
#include "rt.h"
#include <string>
#include <vector>
#include <map>
#include <cstdio>
#include <cstdlib>

#define CFG_FIELDS(X) \
 /* body */ X(np,12) X(layout,0) X(gseed,1) X(dx,0.1) X(w,3) X(h,3) X(d,3) X(ox,0) X(oy,0) X(oz,0) X(gap,4) \
 X(vmode,0) X(vmag,0) X(prestrain,0) X(preb,0) X(ppc,4) \
 /* material */ X(rho,1000) X(E,1e5) X(nu,0.3) X(elastic,0) X(plastic,0) X(hard,2) X(pradhana,1) X(qpi,0) X(qmax,1e-3) X(qmin,1e-3) X(pmin,-1e15) \
 X(M,1) X(coh,0) X(xi,0) X(vt,0) X(vexp,1) X(dl,0) X(beta,0) X(p0,1e-3) X(mu1,0.38) X(mu2,0.64) X(iref,0.279) X(gd,1e-3) X(rhos,2500) \
 /* scheme */ X(flip,-0.95) X(musl,0) X(mibf,0) X(pbc,0) X(ncell,8) X(ny,8) \
 /* forcing */ X(gx,0) X(gy,0) X(gz,0) X(gspec,0) X(gtime,0) \
 /* time */ X(spf,4) X(frames,2) X(cfl,0.5) X(cfle,0.5) X(mindt,1e-14) X(maxsteps,40) \
 /* grid */ X(grp,0) X(grx,0) X(gry,0) X(grz,0) \
 /* obstacles */ X(nplates,0) X(pseed,1) X(nobj,0) X(obj0,0) X(obj1,0) X(oseed,1) X(infplates,0) \
 /* machine */ X(threads,1) X(strategy,0) X(mean,100) X(sseed,1) X(pct,3) X(shortage,0) X(maxdel,0) X(fill,1) X(cjump,0) X(verbose,0) X(save,0) X(savegrid,0) \
 /* faults */ X(fkind,0) X(fa,0) X(fb,0) X(fc,0) X(fseed,1) \
 /* scenario specials */ X(rot,0) X(old,0) X(preepd,0) X(preepv,0) X(preepvp,0) X(sp0,0) X(sp1,0) X(sp2,0) X(sp3,0)

struct Cfg {
#define X(n, d) double n = d;
    CFG_FIELDS(X)
#undef X
    std::vector<std::pair<std::string, double*>> fields(){ return {
#define X(n, d) {#n, &n},
        CFG_FIELDS(X)
#undef X
    }; }
    std::string text(){ std::string s; char b[96]; for (auto& f : fields()){ snprintf(b, sizeof b, "%s=%.17g\n", f.first.c_str(), *f.second); s += b; } return s; }
    bool set(const std::string& k, double v){ for (auto& f : fields()) if (f.first == k){ *f.second = v; return true; } return false; }
};

Cfg gen(const std::string& prop, uint64_t seed, int dim, int deg);
rt::Params sched_params(const Cfg& c);
