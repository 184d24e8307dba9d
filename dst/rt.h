// Deterministic runtime: fibers instead of OS threads, an OpenMP (GOMP ABI) implementation on
// top of them, a seeded scheduler deciding every interleaving at instrumented memory accesses,
// a happens-before race detector, a checked heap and an interposed OS layer (clock, files).
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace rt {

// ---------------------------------------------------------------- PRNG
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
    uint64_t next(){ s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n){ return n ? next() % n : 0; }
    double uni(){ return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b){ return a + (b - a) * uni(); }
    bool flip(double p){ return uni() < p; }
    int range(int a, int b){ return a + (int)below((uint64_t)(b - a + 1)); }
    template <class C> auto& pick(C& c){ return c[below(c.size())]; }
};

// ---------------------------------------------------------------- schedule
enum Strategy { RTC = 0, RANDOM = 1, PCT = 2, ROUNDROBIN = 3, SYNC = 4, STARVE = 5, MIX = 6, REPLAY = 7 };
struct Decision { uint64_t step; uint32_t fiber; uint32_t forced; };

struct Params {
    uint64_t sched_seed = 1;
    int strategy = RANDOM;
    double mean_interval = 100;    // mean number of accesses between preemptions
    int pct_depth = 3;
    double shortage = 0;           // probability that a parallel region gets fewer threads than asked
    int max_delivered = 0;         // if >0: never deliver more than this many threads
    uint64_t fill = 1;             // garbage pattern selector for fresh memory
    bool detect_races = true;
    uint64_t step_budget = 3000000000ull; // accesses per run before it is called non-terminating
    double clock_jump = 0;         // probability of a clock jump per clock read
    std::vector<Decision> replay;  // for REPLAY
};

struct Stats {
    uint64_t steps = 0, switches = 0, preemptions = 0, regions = 0, races_checked = 0, locks = 0, contended = 0,
             barriers = 0, shortages = 0, clock_reads = 0, clock_jumps = 0, allocs = 0, starved = 0;
    uint64_t max_threads = 0;
    uint64_t interleaving_hash = 1469598103934665603ull;
};

extern Stats stats;
extern Params params;
extern std::vector<Decision> decisions;
extern bool sut;                    // executing code under test (tracked) or harness code

void init(const Params& p);         // in the run process, before anything else
uint64_t now_step();

// Group = one top-level thread of control (one simulated caller thread).
// run(): run groups to completion; concurrently (scheduler interleaves them) if there are several.
void run(std::vector<std::function<void()>> tops);
// Coroutine style: create a top-level group that only runs when resumed explicitly.
int  create_top(std::function<void()> f);
bool resume_top(int id);            // run it until it calls pause_top() or ends; false if it has ended
void pause_top();                   // called (in harness mode) on the coroutine
bool top_done(int id);

struct SutScope { bool old; SutScope(){ old = sut; sut = true; } ~SutScope(){ sut = old; } };
struct HarnessScope { bool old; HarnessScope(){ old = sut; sut = false; } ~HarnessScope(){ sut = old; } };

// violation sink: called by the runtime; must not return
[[noreturn]] void fail(const std::string& kind, const std::string& detail);
extern std::function<void(const std::string&, const std::string&)> on_fail;

void ignore_range(const void* p, size_t n); // idempotent flags: no race reports
void set_default_threads(int n);

// ---------------------------------------------------------------- OS layer
struct OsPlan {
    long crash_op = -1; int crash_mode = 0; double crash_frac = 0; // 0 before, 1 after, 2 in the middle
    long enospc_bytes = -1;          // total bytes accepted before ENOSPC
    std::string only;                // restrict the budget to paths containing this
    long eio_write = -1;             // n-th write fails with EIO
    int  write_errno = 5;
    bool eio_persistent = false;
    long fail_open = -1; int open_errno = 13;
    long fail_close = -1;
    long fail_mkdir = -1; int mkdir_errno = 13;
    double short_write = 0, eintr = 0;
    uint64_t seed = 1;
    std::string root;                // only paths below root are expected
};
struct OsStats { long ops = 0, opens = 0, writes = 0, closes = 0, mkdirs = 0, bytes = 0, renames = 0, unlinks = 0,
                 f_enospc = 0, f_eio = 0, f_open = 0, f_close = 0, f_mkdir = 0, f_short = 0, f_eintr = 0; };
extern OsPlan os_plan;
extern OsStats os_stats;
extern std::vector<std::string> os_log;
extern bool os_log_on;
extern std::function<void()> os_on_crash;
extern std::string os_fault_path;     // first operation that was made to fail for good
double sim_clock();

} // namespace rt
