// Scenario execution: builds a Simulation from a Cfg inside the deterministic runtime, runs it and
// checks the monitors of one property.
#pragma once
#include "cfg.hpp"
#include "rt.h"
#include <string>
#include <vector>
#include <functional>

static const int NPROBE = 48;
struct Shared {               // result of one phase (one forked process)
    int status;               // 0 not finished, 1 ok, 2 violation, 3 capped (ok)
    char kind[64]; char detail[3000];
    uint64_t run_hash; rt::Stats st; rt::OsStats os; double simtime; uint64_t nsteps, checks, skipped;
    struct { char name[28]; uint64_t n; } probe[NPROBE];
    uint64_t ndec; uint64_t nblob; int simexit; int finished; char faultpath[256];
    uint64_t err_len; char err[1200];
};
static const size_t MAXDEC = 400000, MAXBLOB = 48u << 20;
struct Phase { Shared* s; rt::Decision* dec; char* blob; int wstatus = 0; bool crashed77 = false; std::vector<char> data() const { return std::vector<char>(blob, blob + s->nblob); } };

struct Outcome { // of one case (all phases)
    bool bad = false; std::string kind, detail; int phase = 0; std::vector<rt::Decision> decisions; // decisions of the failing phase
    uint64_t hash = 1469598103934665603ull; rt::Stats st; rt::OsStats os; double simtime = 0; uint64_t nsteps = 0, checks = 0, skipped = 0, ndec = 0;
    std::vector<uint64_t> interleavings; std::vector<std::pair<std::string, uint64_t>> probes; int phases = 0; bool harness_error = false;
};
struct Override { int phase = -1; std::vector<rt::Decision> dec; }; // explicit schedule for one phase
Outcome run_case(const std::string& prop, const Cfg& c, const Override* ov = nullptr);
extern std::string scratch;   // scratch directory of this worker
extern bool verbose_case;
