// Cases: how a property's scenario is assembled from one or more simulated processes ("phases").
#include "run.hpp"
#include <cstring>
#include <iostream>
#include <filesystem>
#include <fstream>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace ref; namespace fs = std::filesystem;

Shared* S = nullptr; std::string scratch, cap_out, cap_err; bool verbose_case = false;
static rt::Decision* DEC = nullptr; static char* BLOB = nullptr; static std::vector<Runner*> live;

void probe(const char* name, uint64_t n){ for (int i = 0; i < NPROBE; i++){ auto& p = S->probe[i]; if (!p.name[0]) strncpy(p.name, name, sizeof p.name - 1); if (!strncmp(p.name, name, sizeof p.name - 1)){ p.n += n; return; } } }
void check1(uint64_t n){ S->checks += n; }
static void conclude(int status){
    rt::sut = false; S->status = status; S->st = rt::stats; S->os = rt::os_stats; uint64_t h = rt::stats.interleaving_hash ^ (rt::stats.steps * 0x9E3779B97F4A7C15ull); for (auto r : live) h = (h ^ r->hash) * 1099511628211ull; for (const char* q = S->kind; *q; q++) h = (h ^ (unsigned char)*q) * 1099511628211ull; for (const char* q = S->detail; *q; q++) h = (h ^ (unsigned char)*q) * 1099511628211ull; S->run_hash = h;
    size_t nd = rt::decisions.size(); S->ndec = nd; if (nd <= MAXDEC && nd) memcpy(DEC, rt::decisions.data(), nd * sizeof(rt::Decision));
    snprintf(S->faultpath, sizeof S->faultpath, "%s", rt::os_fault_path.c_str()); S->err_len = cap_err.size(); snprintf(S->err, sizeof S->err, "%s", cap_err.size() > 1100 ? cap_err.substr(cap_err.size() - 1100).c_str() : cap_err.c_str());
}
void finish(int status){ conclude(status); _exit(0); }
static void put(const std::vector<double>& v){ size_t n = v.size() * 8; if (S->nblob + n + 8 > MAXBLOB) return; uint64_t k = v.size(); memcpy(BLOB + S->nblob, &k, 8); memcpy(BLOB + S->nblob + 8, v.data(), n); S->nblob += n + 8; }
static std::string unscratch(std::string t){ for (size_t p; scratch.size() && (p = t.find(scratch)) != std::string::npos; ) t.erase(p, scratch.size()); return t; } // the scratch folder's name differs from process to process
void bad(const char* kind, const char* fmt, ...){
    rt::sut = false; va_list a; va_start(a, fmt); vsnprintf(S->detail, sizeof S->detail, fmt, a); va_end(a); snprintf(S->detail, sizeof S->detail, "%s", unscratch(S->detail).c_str()); snprintf(S->kind, sizeof S->kind, "%s", kind); finish(2);
}
struct Cap : std::streambuf { std::string& s; explicit Cap(std::string& q) : s(q) {} 
    std::streamsize xsputn(const char* p, std::streamsize n) override { rt::HarnessScope h; if (s.size() < (16u << 20)) s.append(p, (size_t)n); return n; }
    int overflow(int c) override { rt::HarnessScope h; if (c != EOF && s.size() < (16u << 20)) s.push_back((char)c); return c == EOF ? 0 : c; } };

struct PR { int status = 0; std::string kind, detail, err, fault; std::vector<rt::Decision> dec; std::vector<std::vector<double>> data; uint64_t hash = 0; int simexit = 0, finished = 0; bool crashed = false, harness = false; rt::OsStats os; rt::Stats st; uint64_t nsteps = 0, errlen = 0; };
struct Case { Outcome o; const Override* ov; std::string prop; Cfg c; bool stop = false; };

static PR phase(Case& k, const rt::Params& p0, const rt::OsPlan& plan, std::function<void()> body){
    if (!S){ S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); DEC = (rt::Decision*)mmap(nullptr, MAXDEC * sizeof(rt::Decision), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); BLOB = (char*)mmap(nullptr, MAXBLOB, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
    memset((void*)S, 0, sizeof(Shared)); int idx = k.o.phases; rt::Params p = p0; if (k.ov && k.ov->phase == idx){ p.strategy = rt::REPLAY; p.replay = k.ov->dec; }
    p.detect_races = k.prop == "C01" || k.prop == "C02" || k.prop == "C16";
    fflush(stdout); fflush(stderr); pid_t pid = fork();
    if (pid < 0){ perror("fork"); PR r; r.harness = true; return r; }
    if (pid == 0){
        rt::init(p); rt::os_plan = plan; rt::on_fail = [](const std::string& kind, const std::string& d){ snprintf(S->kind, sizeof S->kind, "%s", kind.c_str()); snprintf(S->detail, sizeof S->detail, "%s", d.c_str()); conclude(2); _exit(0); };
        rt::os_on_crash = []{ conclude(0); };
        itimerval tv{}; tv.it_value.tv_sec = 100; setitimer(ITIMER_PROF, &tv, nullptr);
        static Cap co(cap_out), ce(cap_err); std::cout.rdbuf(&co); std::cerr.rdbuf(&ce); rt::ignore_range(&std::cout, sizeof std::cout); rt::ignore_range(&std::cerr, sizeof std::cerr);
        body(); finish(1);
    }
    int ws = 0; while (waitpid(pid, &ws, 0) < 0 && errno == EINTR){}
    PR r; r.status = S->status; r.kind = S->kind; r.detail = S->detail; r.err = S->err; r.errlen = S->err_len; r.fault = S->faultpath; r.hash = S->run_hash; r.simexit = S->simexit; r.finished = S->finished; r.os = S->os; r.st = S->st; r.nsteps = S->nsteps;
    if (S->ndec <= MAXDEC) r.dec.assign(DEC, DEC + S->ndec);
    for (size_t at = 0; at + 8 <= S->nblob; ){ uint64_t n; memcpy(&n, BLOB + at, 8); at += 8; std::vector<double> v(n); memcpy(v.data(), BLOB + at, n * 8); at += n * 8; r.data.push_back(std::move(v)); }
    bool normal = WIFEXITED(ws); int code = normal ? WEXITSTATUS(ws) : -1;
    if (r.status == 0){
        if (normal && code == 77) r.crashed = true;
        else if ((normal && code == 3) || (!normal && WTERMSIG(ws) == SIGKILL)) r.harness = true;
        else { r.status = 2; r.kind = "unexpected-exit"; r.detail = normal ? "the process ended with exit code " + std::to_string(code) : "the process was killed by signal " + std::to_string(WTERMSIG(ws)); }
    }
    Outcome& o = k.o; o.phases++; o.hash = (o.hash ^ r.hash) * 1099511628211ull; o.simtime += S->simtime; o.nsteps += S->nsteps; o.checks += S->checks; o.skipped += S->skipped; o.ndec += S->ndec; if (r.dec.size()) o.interleavings.push_back(r.st.interleaving_hash);
    auto& a = o.st; auto& b = r.st; a.steps += b.steps; a.switches += b.switches; a.preemptions += b.preemptions; a.regions += b.regions; a.races_checked += b.races_checked; a.locks += b.locks; a.contended += b.contended; a.barriers += b.barriers; a.shortages += b.shortages; a.clock_reads += b.clock_reads; a.clock_jumps += b.clock_jumps; a.allocs += b.allocs; a.starved += b.starved; a.max_threads = std::max(a.max_threads, b.max_threads);
    auto& u = o.os; auto& w = r.os; u.ops += w.ops; u.opens += w.opens; u.writes += w.writes; u.closes += w.closes; u.mkdirs += w.mkdirs; u.bytes += w.bytes; u.f_enospc += w.f_enospc; u.f_eio += w.f_eio; u.f_open += w.f_open; u.f_close += w.f_close; u.f_mkdir += w.f_mkdir; u.f_short += w.f_short; u.f_eintr += w.f_eintr;
    for (int i = 0; i < NPROBE && S->probe[i].name[0]; i++){ bool f = false; for (auto& q : o.probes) if (q.first == S->probe[i].name){ q.second += S->probe[i].n; f = true; } if (!f) o.probes.push_back({S->probe[i].name, S->probe[i].n}); }
    if (r.harness){ o.harness_error = true; k.stop = true; }
    if (r.status == 2){ o.bad = true; o.kind = r.kind; o.detail = r.detail; o.phase = idx; o.decisions = r.dec; k.stop = true; }
    return r;
}
static void hp(Case& k, const char* name, uint64_t n = 1){ for (auto& q : k.o.probes) if (q.first == name){ q.second += n; return; } k.o.probes.push_back({name, n}); }
static void viol(Case& k, const PR& last, const std::string& kind, const std::string& text){ if (k.o.bad) return; std::string detail = unscratch(text); k.o.bad = true; k.o.kind = kind; k.o.detail = detail; k.o.phase = k.o.phases - 1; k.o.decisions = last.dec; k.stop = true; uint64_t h = k.o.hash; for (char ch : kind + detail) h = (h ^ (unsigned char)ch) * 1099511628211ull; k.o.hash = h; }
static std::string fmt(const char* f, ...){ char b[900]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static std::string fresh(const char* name){ std::string d = scratch + "/" + name + "/"; std::error_code ec; fs::remove_all(d, ec); return d; }

static void setup(Runner& R, const std::string& prop, const Cfg& c){ R.prop = prop; R.c = c; R.w = make_world(c); R.save = c.save; R.dir = scratch + "/out/"; live.push_back(&R); }

// ---------------------------------------------------------------- twins in lockstep (C01, C17)
static std::string twin_compare(Runner& A, Runner& B, const Transform* t, T bvdt){
    const Cfg& c = A.c; const Out& o = A.R(); int n = A.w.n; Simulation &a = *A.sim, &b = *B.sim;
    if (!(std::abs(A.dt - bvdt) <= 1e-7 * A.dt)){ if (std::min(A.dt, bvdt) < 1e-7 * A.w.frame_dt) finish(3); return fmt("time step %.15g in one run and %.15g in the other", (double)A.dt, (double)bvdt); }
    if ((int)b.particles.x.size() != n || (int)a.particles.x.size() != n) return fmt("%zu particles in one run and %zu in the other", a.particles.x.size(), b.particles.x.size());
    for (size_t i = 0; i < a.plates.size(); i++){ PlateS p = snap(*a.plates[i]), q = snap(*b.plates[i]); T sh = 0; if (t){ sh = t->shift(axis_of(q.type)); p.vel = t->vec(p.vel); } if (!(std::abs(p.pos + sh - q.pos) <= 1e-6 * A.dt * p.vel.norm() + 1e-12 * (std::abs(q.pos) + std::abs(sh) + c.dx))) return fmt("plate %zu at %.12g in one run and %.12g in the other", i, (double)(p.pos + sh), (double)q.pos); }
    if (o.amb || o.tol > 1e-4){ S->skipped++; return ""; }
    T tol = t && t->kind < 2 ? std::max(o.tol, (T)1e-8) : (T)1e-9, dx = c.dx; const Mat& m = A.w.mat; if (tol > 1e-5){ S->skipped++; return ""; }
    PlasticModel pm = (PlasticModel)(int)c.plastic; bool pl = c.plastic > 0; T xs = 0; // extra strain tolerance of iterative return mappings
    bool nv = pm == PlasticModel::VMVisc || pm == PlasticModel::DPVisc || pm == PlasticModel::MCCVisc, mc = pm == PlasticModel::MCC || pm == PlasticModel::MCCVisc || pm == PlasticModel::MCCMui; if (nv) xs += 2e-2 / m.mu; if (mc) xs += 1e-3 * c.p0 + 2e-2 / m.mu; if (pl) xs += 1e-4 / m.mu;
    bool skipF = pm == PlasticModel::DPMui || pm == PlasticModel::MCCMui;
    for (int i = 0; i < n; i++){ int j = t && t->order.size() ? t->order[i] : i; auto P = [&](const TV& x) -> TV { return t ? t->pos(x) : x; }; auto V = [&](const TV& x) -> TV { return t ? t->vec(x) : x; }; auto M = [&](const TM& x) -> TM { return t ? t->mat(x) : x; };
        T sv = o.sv[j] + A.pre.v[j].norm() + 1e-300; check1(); TV xa = P(a.particles.x[j]), va = V(a.particles.v[j]); TM Ba = M(a.particles.Bmat[j]), Fa = M(a.particles.F[j]), ta = M(a.particles.tau[j]);
        if (!((xa - b.particles.x[i]).norm() <= A.dt * tol * sv + 1e-14 * (xa.norm() + b.particles.x[i].norm() + A.w.Lx))) return fmt("particle %d: position (%.15g,%.15g) in one run and (%.15g,%.15g) in the other, difference %.3g", j, (double)xa(0), (double)xa(1), (double)b.particles.x[i](0), (double)b.particles.x[i](1), (double)(xa - b.particles.x[i]).norm());
        if (!((va - b.particles.v[i]).norm() <= tol * sv)) return fmt("particle %d: velocity (%.15g,%.15g) in one run and (%.15g,%.15g) in the other, scale %.3g", j, (double)va(0), (double)va(1), (double)b.particles.v[i](0), (double)b.particles.v[i](1), (double)sv);
        if (!((Ba - b.particles.Bmat[i]).norm() <= 2 * tol * sv * dx)) return fmt("particle %d: affine matrix differs by %.6g", j, (double)(Ba - b.particles.Bmat[i]).norm());
        if (skipF || extreme(a.particles.F[j])) continue;
        if (pl){ // laws that jump at the tip of the cone (or at the tensile cap): no verdict within round-off of the jump
            T w = 20 * m.K * (tol * A.dt * o.sg[j] * (1 + A.pre.F[j].norm()) + 1e-12), p_t = -m.K * hencky(o.Ft[j]).tr, ps = p_t - (c.pradhana ? m.K * A.pre.epvp[j] : 0), ex = std::exp(-c.xi * A.pre.epd[j]);
            bool dp = pm == PlasticModel::DPSoft || pm == PlasticModel::DPVisc || pm == PlasticModel::DP; T tip = -c.coh * c.E / c.M;
            if (dp && (std::abs(ps - tip) < w || std::abs(ps - tip * ex) < w)){ S->skipped++; continue; }
            if (pm == PlasticModel::DPSoft){ T tmp = A.pre.epd[j] + hencky(o.Ft[j]).dn - c.M * (ps - tip * ex) / m.e_mu; if (std::abs(ps - tip * std::exp(-c.xi * tmp)) < w * (1 + c.xi)){ S->skipped++; continue; } }
            if (pm == PlasticModel::VMVisc && std::abs(p_t - c.pmin * c.E * std::exp(-c.xi * A.pre.epv[j])) < w){ S->skipped++; continue; }
        }
        T ft = tol * A.dt * o.sg[j] * (1 + A.pre.F[j].norm()) * (pl ? 1e3 : 1) + 1e-13 * (pl ? 1e2 : 1) + xs;
        if (!((Fa - b.particles.F[i]).norm() <= ft)) return fmt("particle %d: deformation differs by %.6g (tolerance %.3g)", j, (double)(Fa - b.particles.F[i]).norm(), (double)ft);
        if (!((ta - b.particles.tau[i]).norm() <= 20 * ft * (m.lam + 2 * m.mu) + 1e-9 * ta.norm())) return fmt("particle %d: stress differs by %.6g (modulus %.3g)", j, (double)(ta - b.particles.tau[i]).norm(), (double)m.mu);
        if (pl && !(std::abs(a.particles.eps_pl_dev[j] - b.particles.eps_pl_dev[i]) <= 20 * ft && std::abs(a.particles.eps_pl_vol[j] - b.particles.eps_pl_vol[i]) <= 20 * ft)) return fmt("particle %d: plastic strain (%.9g,%.9g) in one run and (%.9g,%.9g) in the other", j, (double)a.particles.eps_pl_dev[j], (double)a.particles.eps_pl_vol[j], (double)b.particles.eps_pl_dev[i], (double)b.particles.eps_pl_vol[i]);
        if (pl && A.c.pradhana && pm != PlasticModel::VM && pm != PlasticModel::DP && !(std::abs(a.particles.eps_pl_vol_pradhana[j] - b.particles.eps_pl_vol_pradhana[i]) <= 20 * ft)) return fmt("particle %d: volume-correction record %.9g in one run and %.9g in the other", j, (double)a.particles.eps_pl_vol_pradhana[j], (double)b.particles.eps_pl_vol_pradhana[i]);
        T da = a.particles.eps_pl_dev[j] - A.pre.epd[j], db = b.particles.eps_pl_dev[i] - A.pre.epd[j]; // clear plastic flow in both runs: the recorded rates agree too
        if (pl && std::min(da, db) > 1e3 * ft && !(std::abs(a.particles.delta_gamma[j] - b.particles.delta_gamma[i]) <= 100 * ft / A.dt)) return fmt("particle %d: plastic rate %.9g in one run and %.9g in the other", j, (double)a.particles.delta_gamma[j], (double)b.particles.delta_gamma[i]);
    }
    return "";
}
static void twin_sync(Runner& A, Runner& B, const Transform* t){ // the other run continues from this run's state
    Simulation &a = *A.sim, &b = *B.sim; int n = A.w.n; auto& p = a.particles; auto& q = b.particles;
    for (int i = 0; i < n; i++){ int j = t && t->order.size() ? t->order[i] : i; q.x[i] = t ? t->pos(p.x[j]) : p.x[j]; q.v[i] = t ? t->vec(p.v[j]) : p.v[j]; q.F[i] = t ? t->mat(p.F[j]) : p.F[j]; q.Bmat[i] = t ? t->mat(p.Bmat[j]) : p.Bmat[j]; q.tau[i] = t ? t->mat(p.tau[j]) : p.tau[j];
        q.eps_pl_dev[i] = p.eps_pl_dev[j]; q.eps_pl_vol[i] = p.eps_pl_vol[j]; q.eps_pl_vol_pradhana[i] = p.eps_pl_vol_pradhana[j]; q.delta_gamma[i] = p.delta_gamma[j]; q.viscosity[i] = p.viscosity[j]; q.muI[i] = p.muI[j]; }
    for (size_t i = 0; i < a.plates.size(); i++){ auto &r = *a.plates[i], &s = *b.plates[i]; int ax = axis_of(s.plate_type); T sh = t ? t->shift(ax) : 0, so = t && ax != 2 ? t->shift(ax == 0 ? 1 : 0) : 0; s.pos_object = r.pos_object + sh; if (std::abs(r.pos_lower) < 1e14){ s.pos_lower = r.pos_lower + so; s.pos_upper = r.pos_upper + so; } }
}
static void twins(const std::string& prop, const Cfg& c, const Transform* t){
    static Runner A, B; setup(A, prop, c); Cfg cb = c; cb.threads = 1; cb.verbose = 0; cb.save = 0; setup(B, prop, cb); if (t) B.w = transform(A.w, *t); B.monitored = false; static int id = -1; static T bdt = 0; static bool stepped = false; static const Transform* tt = t;
    static PState a0; static const char* names[] = {"position", "velocity", "deformation", "affine matrix", "stress", "plastic strain", "volumetric plastic strain", "volume correction", "plastic multiplier", "viscosity", "friction"};
    static auto same = [](const PState& p, const PState& q, int& at) -> const char* { int n = A.w.n, f = 0; auto eq = [&](const auto& a, const auto& b){ f++; for (int i = 0; i < n; i++) if ((int)a.size() <= i || (int)b.size() <= i || memcmp(&a[i], &b[i], sizeof a[i])){ at = i; return false; } return true; };
        if (eq(p.x, q.x) && eq(p.v, q.v) && eq(p.F, q.F) && eq(p.B, q.B) && eq(p.tau, q.tau) && eq(p.epd, q.epd) && eq(p.epv, q.epv) && eq(p.epvp, q.epvp) && eq(p.dg, q.dg) && eq(p.visc, q.visc) && eq(p.muI, q.muI)) return nullptr; return names[f - 1]; };
    B.user = [](Runner& R, const char* pt, Simulation& s, const DstView& v){ if (!strcmp(pt, "p2g") && !tt){ int at = 0; check1(); const char* e = same(a0, snap(s), at); if (e) bad("saving-changes-state", "between step %u and the next one the %s of particle %d changed in one of two runs that only differ in threads, saving and verbosity", R.nstep, e, at); } if (!strcmp(pt, "step")){ bdt = v.dt; stepped = true; rt::pause_top(); } else if (!strcmp(pt, "begin")) rt::pause_top(); };
    A.user = [](Runner& R, const char* pt, Simulation& s, const DstView& v){
        if (!strcmp(pt, "p2g")) a0 = snap(s);
        if (!strcmp(pt, "begin")){ id = rt::create_top([]{ B.all(); }); rt::resume_top(id); }
        else if (!strcmp(pt, "step")){
            stepped = false; rt::resume_top(id);
            if (!stepped){ int pm = (int)A.c.plastic; if (B.sim->exit && (pm == 4 || pm == 5 || pm == 6 || pm == 7 || pm == 9)){ probe("no verdict: iterative return mapping gave up in one run"); finish(3); } bad("twin-ended-early", "the other run ended (failure status %d) while this one performed step %u", B.sim->exit, A.nstep); }
            std::string e = twin_compare(A, B, tt, bdt); if (e.size()) bad(R.prop == "C17" ? "not-equivariant" : "depends-on-schedule", "step %u: %s", A.nstep, e.c_str());
            probe(tt ? tt->kind == 0 ? "translated twin step" : tt->kind == 1 ? "permuted twin step" : "reordered twin step" : "twin step"); twin_sync(A, B, tt);
        }
    };
    rt::run({[]{ A.all(); }});
    if (A.sim->exit == 0 && A.began && !tt){ int at = 0; check1(); const char* e = same(A.pre, snap(*A.sim), at); if (e) bad("saving-changes-state", "after the last step the %s of particle %d still changed", e, at); }
    if (A.sim->exit == 0 && A.began){ stepped = false; rt::run({[]{}}); }
}

// ---------------------------------------------------------------- files
typedef std::map<std::string, std::string> Files;
static Files read_all(const std::string& base){ Files f; std::error_code ec; for (auto& e : fs::directory_iterator(base, ec)){ std::string s; if (e.is_regular_file() && read_file(e.path().string(), s)) f[e.path().filename().string()] = s; } return f; }
static int marker(const Files& f){ auto it = f.find("last_written.txt"); int k; if (it == f.end() || sscanf(it->second.c_str(), "%d", &k) != 1) return -1; return k; }
static std::string pf(int k){ return "particles_f" + std::to_string(k) + ".ply"; }
static std::string frame_ok(const Files& got, const Files& clean, const std::string& name){
    auto a = got.find(name), b = clean.find(name); if (b == clean.end()) return name + " does not belong to this run"; if (a == got.end()) return name + " is missing"; if (a->second == b->second) return "";
    if (a->second.size() != b->second.size()) return name + " is incomplete: " + std::to_string(a->second.size()) + " of " + std::to_string(b->second.size()) + " bytes"; return name + " has wrong contents";
}
static std::string marker_ok(const Files& got, const Files& clean){ int k = marker(got); for (int i = 0; i <= k; i++){ std::string e = frame_ok(got, clean, pf(i)); if (e.size()) return fmt("last_written.txt names frame %d but ", k) + e; } return ""; }
static void one_run(const std::string& prop, const Cfg& c, std::function<void(Runner&)> prep = nullptr){ static Runner R; setup(R, prop, c); if (prep) prep(R); rt::run({[]{ R.all(); }}); S->simexit = R.sim->exit; S->finished = 1; if (R.traced) put(R.tr); }
static Files full_run(Case& k, const Cfg& c, rt::OsPlan plan, PR& r){ r = phase(k, sched_params(c), plan, [&]{ one_run(k.prop, c); }); return read_all(scratch + "/out/run"); }

static void case_crash(Case& k){
    Cfg c = k.c; std::string out = fresh("out"); PR r; Files clean = full_run(k, c, rt::OsPlan(), r); if (k.stop || r.status == 3) return; if (r.simexit){ if (c.plastic >= 4 && c.plastic != 8){ hp(k, "undisturbed run stopped by a return mapping"); return; } viol(k, r, "clean-run-failed", "an undisturbed run ended with failure status: " + r.err); return; }
    Files ref = clean; if (c.threads > 1){ Cfg c1 = c; c1.threads = 1; fresh("out"); ref = full_run(k, c1, rt::OsPlan(), r); if (k.stop) return; }
    long ops = r.os.ops; auto inspect = [&](const PR& q, const Files& cl, bool first){
        Files g = read_all(scratch + "/out/run"); std::string e = marker_ok(g, cl); k.o.checks++; if (e.size()){ viol(k, q, "marker-ahead-of-data", "after the crash " + e); return; }
        if (first){ int mx = -1; for (auto& f : g){ int i; if (sscanf(f.first.c_str(), "particles_f%d.ply", &i) == 1) mx = std::max(mx, i); } for (int i = 0; i < mx; i++){ e = frame_ok(g, cl, pf(i)); if (e.size()){ viol(k, q, "older-frame-damaged", fmt("after a crash while frame %d was newest, ", mx) + e); return; } } }
        hp(k, marker(g) < 0 ? "crash: no marker yet" : marker(g) == (int)c.frames ? "crash: marker final" : "crash: marker midway");
    };
    rt::Rng fr((uint64_t)c.fseed);
    for (int round = 0; round < 3 && !k.stop; round++){ // several crash points of the same run
        std::string dir = fresh("out"); if (c.old > 0){ fs::create_directories(dir + "run"); for (int i = 0; i <= (int)c.frames; i++) for (const char* nm : {"particles_f", "grid_f"}) if (nm[0] == 'p' || (c.savegrid && i > 0)){ std::ofstream f(dir + "run/" + nm + std::to_string(i) + ".ply"); std::string t = clean.count(nm + std::to_string(i) + ".ply") ? clean[nm + std::to_string(i) + ".ply"] : std::string(); for (int j = 0; j < (c.old > 1 ? 3 : 1); j++) f << t; f << std::string(20000, 'x'); } hp(k, "leftovers of an earlier run"); }
        rt::OsPlan p; p.crash_op = 1 + (long)((round == 0 ? c.fa : fr.uni()) * ops); p.crash_mode = round == 0 ? (int)c.fb : (int)fr.below(3); p.crash_frac = round == 0 ? c.fc : fr.uni(); if (p.crash_op > ops) p.crash_op = ops;
        full_run(k, c, p, r); if (k.stop) return; if (r.crashed) hp(k, p.crash_mode == 0 ? "crash before operation" : p.crash_mode == 1 ? "crash after operation" : "crash inside write"); else { hp(k, "crash point not reached"); }
        inspect(r, clean, c.old == 0); if (k.stop) return;
        if (fr.flip(0.5)){ rt::OsPlan p2; p2.crash_op = 1 + (long)(fr.uni() * ops); p2.crash_mode = (int)fr.below(3); p2.crash_frac = fr.uni(); Cfg c1 = c; c1.threads = 1; full_run(k, c1, p2, r); if (k.stop) return; if (r.crashed) hp(k, "crash during rerun"); Files g = read_all(scratch + "/out/run");
            // the folder now mixes frames of both runs (equal up to summation order when threads differ)
            if (c.threads <= 1) inspect(r, ref, false); if (k.stop) return; }
        Cfg c1 = c; c1.threads = 1; Files g = full_run(k, c1, rt::OsPlan(), r); if (k.stop) return; k.o.checks++; hp(k, "rerun after crash");
        if (r.simexit || !r.finished){ viol(k, r, "rerun-failed", "running again into the same folder ended with failure status: " + r.err); return; }
        for (auto& f : ref) if (f.first != "info_timing.txt"){ std::string e = frame_ok(g, ref, f.first); if (e.size()){ viol(k, r, "rerun-differs", "after a crash and a rerun " + e); return; } }
        if (!g.count("info_timing.txt")) viol(k, r, "rerun-differs", "info_timing.txt is missing after a rerun");
    }
}
static void case_io(Case& k){
    Cfg c = k.c; fresh("out"); PR r; Files clean = full_run(k, c, rt::OsPlan(), r); if (k.stop || r.status == 3) return; if (r.simexit){ if (c.plastic >= 4 && c.plastic != 8){ hp(k, "undisturbed run stopped by a return mapping"); return; } viol(k, r, "clean-run-failed", "an undisturbed run ended with failure status: " + r.err); return; }
    rt::OsStats n = r.os; rt::Rng fr((uint64_t)c.fseed); long total = n.bytes, pbytes = 0; for (auto& f : clean) if (f.first.find("particles_f") == 0) pbytes += f.second.size();
    for (int round = 0; round < 3 && !k.stop; round++){
        int kind = round == 0 ? (int)c.fkind : 1 + (int)fr.below(9); double fa = round == 0 ? c.fa : fr.uni(); rt::OsPlan p; p.seed = (uint64_t)c.fseed + round; static bool preexisting; bool pre = fr.flip(0.25); preexisting = pre;
        switch (kind){
            case 1: p.enospc_bytes = (long)(fa * total); break;
            case 2: p.enospc_bytes = (long)(fa * pbytes); p.only = "particles_f"; break;
            case 3: case 4: p.eio_write = 1 + (long)(fa * n.writes); p.eio_persistent = kind == 4; p.write_errno = fr.flip(0.5) ? 5 : 28; break;
            case 5: p.fail_open = 1 + (long)(fa * n.opens); p.open_errno = fr.flip(0.5) ? 13 : 24; break;
            case 6: p.fail_close = 1 + (long)(fa * n.closes); break;
            case 7: p.fail_mkdir = 1 + (long)(fa * 2); break;
            case 8: p.short_write = 0.5; p.eintr = 0.3; break;
            case 9: p.enospc_bytes = (long)(fa * 12); p.only = fr.flip(0.5) || !c.savegrid ? "last_written" : "grid_f"; if (p.only == "grid_f") p.enospc_bytes = (long)(fa * 5000); break;
        }
        std::string dir = fresh("out"); if (pre){ fs::create_directories(dir + "run"); Files g = clean; for (auto& f : g) { FILE* q = fopen((dir + "run/" + f.first).c_str(), "w"); if (q){ fwrite(f.second.data(), 1, f.second.size(), q); fclose(q); } } }
        r = phase(k, sched_params(c), p, [&]{ one_run(k.prop, c, [](Runner& R){ R.user = [](Runner& R2, const char* pt, Simulation&, const DstView&){ if ((!strcmp(pt, "step") || !strcmp(pt, "p2g")) && rt::os_fault_path.size()) { static std::string at; if (at.empty()) at = rt::os_fault_path; if (at.find("mkdir") == 0 && preexisting) return; if (at.find("mpm.cpp") == std::string::npos || at.find("open") == 0) bad("continues-after-io-failure", "step %u was performed after '%s' failed", R2.nstep, rt::os_fault_path.c_str()); } }; }); });
        if (k.stop) return; Files g = read_all(scratch + "/out/run"); k.o.checks++;
        std::string f = r.fault; bool hit = f.size() && !(f.find("mpm.cpp") != std::string::npos && f.find("open") != 0);
        if (kind == 7 && pre) hit = false; // mkdir of an existing folder fails either way
        if (hit){
            hp(k, ("hard fault: " + f.substr(0, f.find(' ')) + (f.find("particles_f") != std::string::npos ? " particles" : f.find("grid_f") != std::string::npos ? " grid" : f.find("last_written") != std::string::npos ? " marker" : f.find("info") != std::string::npos ? " info" : " setup")).c_str());
            std::string where = f.size() > scratch.size() && f.find(scratch) != std::string::npos ? f.substr(0, f.find(scratch)) + f.substr(f.find(scratch) + scratch.size()) : f;
            if (r.simexit == 0){ viol(k, r, "io-failure-silent", "'" + where + "' failed but the run ended with failure status 0"); return; }
            if (r.errlen == 0){ viol(k, r, "io-failure-silent", "'" + where + "' failed but nothing was reported on stderr"); return; }
        } else {
            if (r.simexit){ viol(k, r, "run-failed-without-fault", "no lasting fault was injected but the run failed: " + r.err); return; }
            hp(k, kind == 8 ? "transient faults only" : "fault point not reached");
            for (auto& q : clean) if (q.first != "info_timing.txt"){ std::string e = frame_ok(g, clean, q.first); if (e.size()){ viol(k, r, "output-differs", (kind == 8 ? "under short writes and EINTR " : "without a fault ") + e); return; } }
        }
        std::string e = marker_ok(g, clean); if (e.size()){ viol(k, r, "marker-ahead-of-data", "with a failing '" + f + "' " + e); return; }
    }
}
static bool trace_equal(const std::vector<double>& a, const std::vector<double>& b, size_t& at){ size_t n = std::min(a.size(), b.size()); for (size_t i = 0; i < n; i++) if (memcmp(&a[i], &b[i], 8)){ at = i; return false; } at = n; return a.size() == b.size(); }
static bool trace_close(const std::vector<double>& a, const std::vector<double>& b, double tol, size_t& at){ size_t n = std::min(a.size(), b.size()); double sc = 0; (void)sc; for (size_t i = 0; i < n; i++) if (!(std::abs(a[i] - b[i]) <= tol * (1 + std::abs(a[i])) )){ at = i; return false; } at = n; return a.size() == b.size(); }

static std::string folder(const std::string& nm, bool rel){ if (rel && chdir(scratch.c_str()) == 0) return nm + "/"; return scratch + "/" + nm + "/"; }
static void case_two(Case& k){
    Cfg ca = k.c, cb = gen("C16", (uint64_t)k.c.sp0, D, DEG); cb.maxdel = ca.maxdel; if (k.c.sp1 < 0.6) ca.threads = cb.threads = 1; cb.spf = std::min(cb.spf, 3.0); static bool rel; rel = k.c.sp2 < 0.4; // relative output folders
    auto solo = [&](const Cfg& c, const char* nm){ fresh(nm); PR r = phase(k, sched_params(ca), rt::OsPlan(), [&]{ static Runner R; setup(R, "C16", c); R.traced = true; R.dir = folder(nm, rel); rt::run({[]{ R.all(); }}); put(R.tr); }); return r; };
    PR a = solo(ca, "a"); if (k.stop || a.status != 1) return; PR b = solo(cb, "b"); if (k.stop || b.status != 1) return; Files fa = read_all(scratch + "/a/run"), fb = read_all(scratch + "/b/run");
    fresh("a"); fresh("b"); int mode = (int)ca.fkind;
    PR t = phase(k, sched_params(ca), rt::OsPlan(), [&]{ static Runner A, B; setup(A, "C16", ca); setup(B, "C16", cb); A.traced = B.traced = true; A.dir = folder("a", rel); B.dir = folder("b", rel);
        if (mode == 0) rt::run({[]{ A.all(); }, []{ B.all(); }}); else if (mode == 1) rt::run({[]{ B.all(); A.all(); }}); else rt::run({[]{ A.construct(); B.construct(); B.initialise(); A.initialise(); A.simulate(); B.simulate(); }});
        put(A.tr); put(B.tr); });
    if (k.stop || t.status != 1 || t.data.size() != 2 || a.data.size() != 1 || b.data.size() != 1) return; hp(k, mode == 0 ? "two simulations concurrently" : mode == 1 ? "two simulations in sequence" : "two simulations interleaved");
    for (int i = 0; i < 2; i++){ const Cfg& c = i ? cb : ca; auto& s = i ? b.data[0] : a.data[0]; auto& g = t.data[i]; size_t at; k.o.checks++;
        bool one = c.threads <= 1; if (one ? !trace_equal(s, g, at) : (c.plastic == 0 && !c.nplates && !c.nobj && s.size() != g.size())) { viol(k, t, "simulations-interact", fmt("simulation %d of two behaves differently than alone: its history differs at value %zu (%zu vs %zu values)", i, at, s.size(), g.size())); return; }
        if (!one) hp(k, "multi-threaded pair (races only)");
        if (one && c.save){ Files g2 = read_all(scratch + (i ? "/b/run" : "/a/run")); for (auto& f : i ? fb : fa) if (f.first != "info_timing.txt"){ std::string e = frame_ok(g2, i ? fb : fa, f.first); if (e.size()){ viol(k, t, "simulations-interact", "output of one of two simulations differs from its output alone: " + e); return; } } } }
}
static void case_fill(Case& k){
    fresh("out"); Cfg c = k.c; if (c.sp3 < 0.4) c.threads = 1; bool one = c.threads <= 1; std::vector<std::vector<double>> tr; PR r; // with one thread, logging, saving and the clock may differ as well
    for (int i = 0; i < 2; i++){ rt::Params p = sched_params(c); p.fill = i == 0 ? p.fill : p.fill + 1 + (uint64_t)(c.sp2 * 3); Cfg d = c; if (i && one){ d.verbose = !c.verbose; if (c.sp2 < 0.5){ d.save = !c.save; d.savegrid = c.sp3 < 0.5; } p.clock_jump = c.cjump > 0 ? 0 : 0.2; fresh("out"); } static Cfg cc; cc = d; static bool ext; ext = false; r = phase(k, p, rt::OsPlan(), [&]{ static Runner R; setup(R, "C01", cc); R.traced = true; R.user = [](Runner& q, const char* pt, Simulation&, const DstView&){ if (!strcmp(pt, "step") && q.nstep >= q.c.maxsteps){ put(q.tr); } }; rt::run({[]{ R.all(); }}); put(R.tr); }); if (k.stop) return; if (r.data.empty()) return; tr.push_back(r.data[0]); }
    size_t at; k.o.checks++; hp(k, "memory-content differential"); if (!trace_equal(tr[0], tr[1], at)) viol(k, r, "depends-on-memory-contents", fmt("two runs with the same schedule differ at value %zu of the history when fresh memory holds different garbage%s", at, one ? " (and logging, saving and the clock differ)" : ""));
}
static void case_fatal(Case& k){
    Cfg c = k.c; int kind = (int)c.fkind; if (kind == 1){ c.elastic = 1; if (c.plastic == 0) c.plastic = 1 + ((long)c.sp0 % 9); } else c.elastic = 0;
    if (kind == 0 && c.sp1 < 0.5) c.plastic = 0;
    if (kind == 2){ int m[] = {4, 7, 9}; c.plastic = m[(long)c.sp0 % 3]; c.hard = 1 + (long)c.sp0 % 4; c.p0 = 0.02; }
    if (kind == 3){ c.plastic = 7; c.dl = 1; c.vt = std::max(c.vt, 1e-6); c.hard = (long)c.sp0 % 5; c.p0 = 1e-3; c.M = 0.5; c.beta = 0.1; c.xi = 0; }
    if (kind == 4 || kind == 6 || kind == 9) c.plastic = 0;
    if (kind == 5){ int m[] = {5, 6, 7}; c.plastic = m[(long)c.sp0 % 3]; c.dl = 0; c.vt = std::max(c.vt, 1e-6); c.hard = (long)c.sp0 % 5; c.p0 = 1e-3; c.M = 0.5; c.beta = 0.1; c.xi = 0; c.qmax = 1e-4; c.qmin = 1e-4; c.coh = 1e-5; c.pmin = -1e15; }
    if (kind == 7){ int m[] = {4, 7, 9}; c.plastic = m[(long)c.sp0 % 3]; c.hard = 4; c.xi = 2 + 18 * c.sp1; c.p0 = 0.005 + 0.06 * c.sp2; c.M = 0.4 + 0.8 * c.fb; c.mu1 = c.M; c.mu2 = c.M + 0.4; c.beta = std::min(c.beta, 0.4); c.dl = 0; c.frames = 3; c.np = std::max(c.np, 16.0); }
    if (kind == 8){ int m[] = {5, 6, 7}; c.plastic = m[(long)c.sp0 % 3]; if (c.plastic == 7) c.dl = 0; c.vexp = 1; c.hard = (long)c.sp0 % 5; c.p0 = 1e-3; c.M = 0.5; c.beta = 0.1; c.xi = 0; c.qmax = 1e-4; c.qmin = 1e-4; c.coh = 1e-5; c.pmin = -1e15; c.vt = std::max(c.vt, 1e-6); }
    if (kind == 2 || kind == 3 || kind == 5 || kind >= 7) c.prestrain = 1e-6, c.vmag = std::min(c.vmag, 1e-3), c.gx = c.gy = c.gz = 0;
    fresh("out");
    phase(k, sched_params(c), rt::OsPlan(), [&]{ static Runner R; setup(R, "C15", c); if (kind == 0) R.initialised = false;
        if (kind == 4){ PlateS p; p.type = PlateType::bottom; p.bc = BC::SlipFree; p.friction = 0.3; p.pos = R.w.cen(1); p.lo = -1e15; p.hi = 1e15; p.vel = p.vel0 = TV::Zero(); p.vmin = 1; p.load = 0; R.w.plates = {p}; }
        if (kind == 9){ PlateS p; p.type = D == 2 ? (R.c.fb < 0.4 ? PlateType::front : R.c.fb < 0.8 ? PlateType::back : (PlateType)99) : (PlateType)99; p.bc = BC::SlipFree; p.friction = 0.3; p.pos = R.w.cen(1); p.lo = -1e15; p.hi = 1e15; p.vel = p.vel0 = TV::Zero(); p.vmin = 1; p.load = 0; PlateS ok = p; ok.type = PlateType::bottom; ok.pos = R.w.cen(1) - 1e6; R.w.plates = c.fa == 0 ? std::vector<PlateS>{p} : c.fa == 1 ? std::vector<PlateS>{ok, p} : std::vector<PlateS>{p, ok}; R.poisoned = true; hp(k, "fatal kind 9"); }
        if (kind == 6){ Geo g; g.kind = 0; g.bc = BC::SlipFree; g.friction = 0.2; g.n = TV::Zero(); g.n(1) = 1; g.a = R.w.cen; R.w.su.geos = {g}; }
        rt::run({[]{ R.all(); }}); });
}
static Transform make_transform(const Cfg& c){
    Transform t; rt::Rng r((uint64_t)c.sp0 + 11); t.kind = (int)c.fkind; World w = make_world(c);
    if (t.kind == 0) for (int i = 0; i < D; i++) t.shift(i) = (r.flip(0.5) ? 1 : -1) * std::ldexp(1.0, r.range(-6, 3)) * r.range(0, 3);
    if (t.kind == 1){ bool fin = false; for (auto& p : w.plates) if (std::abs(p.lo) < 1e14) fin = true; if (D == 2 || fin){ t.perm[0] = 1; t.perm[1] = 0; } else { int ps[5][3] = {{1, 0, 2}, {2, 1, 0}, {0, 2, 1}, {1, 2, 0}, {2, 0, 1}}; memcpy(t.perm, ps[r.below(5)], sizeof t.perm); } }
    if (t.kind == 2){ for (int i = 0; i < w.n; i++) t.order.push_back(i); for (int i = w.n - 1; i > 0; i--) std::swap(t.order[i], t.order[r.below(i + 1)]); }
    return t;
}
Outcome run_case(const std::string& prop, const Cfg& c, const Override* ov){
    Case k; k.ov = ov; k.prop = prop; k.c = c; live.clear();
    if (prop == "C13") case_crash(k);
    else if (prop == "C14") case_io(k);
    else if (prop == "C15") case_fatal(k);
    else if (prop == "C16") case_two(k);
    else if (prop == "C17"){ fresh("out"); Transform t = make_transform(c); phase(k, sched_params(c), rt::OsPlan(), [&]{ twins(prop, c, &t); }); }
    else if (prop == "C01" && c.sp1 < 0.7){ fresh("out"); phase(k, sched_params(c), rt::OsPlan(), [&]{ twins(prop, c, nullptr); }); }
    else if (prop == "C01") case_fill(k);
    else {
        std::string dir = fresh("out"); rt::OsPlan p;
        if (prop == "C12"){ if (c.sp1 < 0.4){ p.short_write = c.sp1; p.eintr = c.sp2 * 0.4; p.seed = (uint64_t)c.sp0; }
            if (c.sp3 < 0.3){ fs::create_directories(dir + "run"); for (int i = 0; i <= (int)c.frames; i++) for (const char* nm : {"particles_f", "grid_f"}){ if (nm[0] == 'g' && (!c.savegrid || i == 0)) continue; FILE* f = fopen((dir + "run/" + nm + std::to_string(i) + ".ply").c_str(), "w"); if (f){ for (int j = 0; j < 4000; j++) fputs("stale output ", f); fclose(f); } } for (const char* nm : {"last_written.txt", "info.txt", "info_timing.txt", "initial_setup.cpp"}){ FILE* f = fopen((dir + "run/" + nm).c_str(), "w"); if (f){ fputs("99\nstale stale\n", f); if (nm[0] == 'i') for (int j = 0; j < 4000; j++) fputs("7\nstale output\n", f); fclose(f); } } hp(k, "stale output in the folder"); } }
        phase(k, sched_params(c), p, [&]{ one_run(prop, c); });
    }
    return k.o;
}
