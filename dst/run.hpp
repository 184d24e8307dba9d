// One simulated run: a Simulation driven through its observer hook, with per-property monitors.
#pragma once
#include "model.hpp"
#include "world.hpp"
#include <memory>
#include <cstdarg>

extern Shared* S;
void probe(const char* name, uint64_t n = 1);
void check1(uint64_t n = 1);
[[noreturn]] void bad(const char* kind, const char* fmt, ...);
[[noreturn]] void finish(int status);

struct GridS { std::vector<T> ax[3]; std::vector<TV> v; std::vector<T> mass, friction; };
struct Snap { unsigned frame; ref::PState p; GridS g; T time; };

struct Runner {
    std::string prop; Cfg c; World w; std::string dir; bool save = false; Simulation* sim = nullptr;
    bool monitored = true, traced = false; std::vector<double> tr;
    ref::PState pre; std::vector<ref::PlateS> ppre; T tprev = 0, dt = 0; unsigned nstep = 0, done_frames = 0; bool began = false, initialised = true;
    std::unique_ptr<ref::Out> ro; T ro_dt = 0; TV ro_g = TV::Zero();
    std::vector<Snap> snaps; size_t out_pos = 0; uint64_t hash = 1469598103934665603ull; bool poisoned = false; unsigned poison_frames = 0; rt::Rng hr{1}; unsigned want_fatal = 0; TV far = TV::Zero();
    std::function<void(Runner&, const char*, Simulation&, const DstView&)> user;
    const ref::Out& R(){ if (!ro){ ro = std::make_unique<ref::Out>(ref::step(w.su, pre, ppre, ro_g, ro_dt)); } return *ro; }
    TV expected_gravity(T time) const { if (c.gspec && time < w.gtime) return w.grav * time / w.gtime; return w.grav; }
    T frame_time(unsigned k) const { return w.frame_dt * k; }
    bool completes(T time) const { return frame_time(done_frames + 1) - time < w.min_dt * 1.1; }
    void hook(const char* pt, Simulation& s, const DstView& v);
    void construct(); void initialise(); void simulate(); void all(){ construct(); initialise(); simulate(); }
};
GridS grab(const Grid& g);
void mon_begin(Runner&, Simulation&, const DstView&); void mon_p2g(Runner&, Simulation&, const DstView&); void mon_euler(Runner&, Simulation&, const DstView&);
void mon_step(Runner&, Simulation&, const DstView&); void mon_post(Runner&, Simulation&, const DstView&); void mon_end(Runner&);
bool extreme(const TM& F);

struct PlasIn { const Cfg& c; const World& w; T dt; T epd, epv, epvp; TM Ft; TM F; T epd1, epv1, epvp1, dg; T te; /* strain tolerance */ };
std::string check_plast(const PlasIn& in, std::string& branch, bool& skipped);
std::string check_mu(const PlasIn& in, const std::string& branch, T mu, T visc, bool& skipped);

// files
struct Ply { bool ok = false; std::string err; std::vector<std::string> props; size_t n = 0; std::vector<double> d; int col(const std::string& k) const { for (size_t i = 0; i < props.size(); i++) if (props[i] == k) return (int)i; return -1; } double at(size_t i, int c) const { return d[i * props.size() + c]; } };
Ply read_ply(const std::string& path);
bool read_file(const std::string& path, std::string& out);
extern std::string cap_out, cap_err;
