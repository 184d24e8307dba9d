#include <link.h>
#include "rt.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <map>
#include <new>
#include <deque>
#include <unordered_map>
#include <exception>
#include <signal.h>
#include <sys/mman.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <cxxabi.h>

namespace rt {

Stats stats; Params params; std::vector<Decision> decisions; bool sut = false;
std::function<void(const std::string&, const std::string&)> on_fail;

static const int MAXT = 16;          // threads per team
static const int MAXG = 4;           // groups
static const int NTID = MAXT * MAXG;

// ------------------------------------------------------------ memory map
static const uintptr_t HEAP0 = 0x200000000000ull, HEAPSZ = 1ull << 31;
static const uintptr_t STK0  = 0x210000000000ull;
static const size_t STKSZ = 1 << 20;
static const uintptr_t STKALL = (uintptr_t)STKSZ * NTID;
struct Slot { uint32_t clk; uint32_t pc; uint8_t tid; uint8_t mask; uint8_t w; uint8_t pad; uint32_t pad2; };
static Slot *sh_heap, *sh_stk, *sh_dat;
static signed char* addr_sh;         // 1 byte per 8 bytes of heap: 0 ok, 1..7 partial, -1 redzone, -2 freed, -3 never allocated(=default handled via heap_top)
static uintptr_t heap_top;
extern "C" char __data_start, _end;
static uintptr_t DAT0, DAT1;

static void* map(uintptr_t at, size_t n){
    void* p = mmap((void*)at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
    if (p == MAP_FAILED){ perror("mmap"); _exit(3); }
    return p;
}

// ------------------------------------------------------------ fibers
struct Team;
enum State { FREE, RUNNABLE, BLOCKED, DONE, PAUSED };
struct Fiber {
    void* sp = nullptr; int id = 0, group = 0, num = 0; State st = FREE; bool sut = false;
    Team* team = nullptr; uint32_t vc[NTID]; void (*fn)(void*) = nullptr; void* arg = nullptr;
    std::function<void()> top; int prio = 0; const char* why = ""; int ws = 0;
    alignas(8) unsigned char eh[16]; uintptr_t stk = 0; int ordered_iter = 0; bool in_single_copy = false; void* wait_on = nullptr; char* tls = nullptr;
};
struct Lock { Fiber* owner = nullptr; uint32_t vc[NTID]; int depth = 0; Lock(){ memset(vc, 0, sizeof vc); } };
struct Work { bool init = false; long long next = 0, end = 0, incr = 1, chunk = 1; unsigned long long un = 0, ue = 0, ui = 1, uc = 1; bool up = true; int kind = 0; int claimed = -1; unsigned sect = 0, nsect = 0; void* copy = nullptr; int left = 0; };
struct Team { int n = 1; Fiber* mem[MAXT]; int arrived = 0; unsigned gen = 0; int done = 0; uint32_t bvc[NTID]; std::deque<Work> work; Team* parent = nullptr; Team(){ memset(bvc, 0, sizeof bvc); } int level = 1; Fiber* join_waiter = nullptr; };

static Fiber fibers[NTID + 1];       // last: scheduler/main context
static Fiber* cur = nullptr;
static Fiber* mainf = &fibers[NTID];
static int live = 0;                 // runnable-or-blocked fibers in active groups (excl. paused)
static bool multi = false;           // unsynchronised threads may exist
static int open_teams = 0, conc_tops = 0;
static uint64_t next_decision = ~0ull;
static Rng srng(1);
static size_t rp = 0;                // replay cursor
static std::vector<uint64_t> pct_points;
static int pct_low = 0; static uint64_t region_start = 0, region_len = 2000; static int region_strategy = RTC; static double region_mean = 100;
static int victim = -1; static int rr_last = 0;
static bool group_active[MAXG];
static Fiber* resumer[MAXG];
static int default_threads = 4;

uint64_t now_step(){ return stats.steps; }
void set_default_threads(int n){ default_threads = n; }

extern "C" void dst_switch(void** save, void* to);
asm(R"(
.text
.globl dst_switch
.type dst_switch,@function
dst_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8,%rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");

static void hash(uint64_t x){ stats.interleaving_hash = (stats.interleaving_hash ^ x) * 1099511628211ull; stats.interleaving_hash ^= stats.interleaving_hash >> 29; }

// thread_local / threadprivate variables of the system under test: one block per simulated thread, swapped on every switch
static char *tls_at = nullptr; static const char* tls_image = nullptr; static size_t tls_size = 0, tls_filled = 0;
static int find_tls(dl_phdr_info* i, size_t, void*){
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS){ tls_at = (char*)i->dlpi_tls_data; tls_image = (const char*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr); tls_filled = i->dlpi_phdr[k].p_filesz; tls_size = i->dlpi_phdr[k].p_memsz; }
    return 1; // the first entry is the program itself
}
static void swap_tls(Fiber* o, Fiber* f){
    if (!o->tls) o->tls = (char*)malloc(tls_size); memcpy(o->tls, tls_at, tls_size);
    if (f->tls) memcpy(tls_at, f->tls, tls_size); else { memset(tls_at, 0, tls_size); memcpy(tls_at, tls_image, tls_filled); }
}
static void switch_to(Fiber* f){
    if (f == cur) return;
    Fiber* o = cur;
    o->sut = sut; sut = false; if (tls_size) swap_tls(o, f);
    { uint64_t* g = (uint64_t*)__cxxabiv1::__cxa_get_globals(); ((uint64_t*)o->eh)[0] = g[0]; ((uint64_t*)o->eh)[1] = g[1]; }
    cur = f; sut = f->sut;
    { uint64_t* g = (uint64_t*)__cxxabiv1::__cxa_get_globals(); g[0] = ((uint64_t*)f->eh)[0]; g[1] = ((uint64_t*)f->eh)[1]; }
    dst_switch(&o->sp, f->sp);
}

void fail(const std::string& kind, const std::string& detail){
    sut = false;
    if (on_fail) on_fail(kind, detail);
    fprintf(stderr, "FAIL %s: %s\n", kind.c_str(), detail.c_str());
    _exit(4);
}

static void join(uint32_t* a, const uint32_t* b){ for (int i = 0; i < NTID; i++) if (b[i] > a[i]) a[i] = b[i]; }
static inline void tick(Fiber* f){ f->vc[f->id]++; }

static void worker_done();
static void trampoline(){
    Fiber* f = cur;
    if (f->top){ f->top(); f->top = nullptr; }
    else f->fn(f->arg);
    worker_done();
    abort();
}
static void make(Fiber* f){ HarnessScope h_;
    f->stk = STK0 + (uintptr_t)f->id * STKSZ;
    uintptr_t top = f->stk + STKSZ;
    uintptr_t* sp = (uintptr_t*)(top - 64);
    *--sp = 0;                         // fake return address of trampoline (alignment)
    *--sp = (uintptr_t)trampoline;
    for (int i = 0; i < 6; i++) *--sp = 0;
    *--sp = 0; ((uint32_t*)sp)[0] = 0x1f80; ((uint16_t*)sp)[2] = 0x37f;
    f->sp = sp; memset(f->eh, 0, 16); f->ws = 0; f->wait_on = nullptr;
}

// ------------------------------------------------------------ scheduler
static std::vector<Fiber*> runnable_buf;
static std::vector<Fiber*>& runnable(){
    runnable_buf.clear();
    for (int i = 0; i < NTID; i++) if (fibers[i].st == RUNNABLE && group_active[fibers[i].group]) runnable_buf.push_back(&fibers[i]);
    return runnable_buf;
}
static uint64_t geo(double mean){ double u = srng.uni(); double x = -__builtin_log(1 - u) * mean; return 1 + (uint64_t)x; }
static void recount(){
    int n = 0; for (int i = 0; i < NTID; i++) if ((fibers[i].st == RUNNABLE || fibers[i].st == BLOCKED) && group_active[fibers[i].group]) n++;
    live = n; multi = open_teams > 0 || conc_tops > 1;
}
static void plan_next(){
    if (params.strategy == REPLAY){
        while (rp < params.replay.size() && params.replay[rp].step < stats.steps) rp++;
        next_decision = rp < params.replay.size() ? params.replay[rp].step : ~0ull;
    } else if (!multi) next_decision = ~0ull;
    else switch (region_strategy){
        case RANDOM: case MIX: next_decision = stats.steps + geo(region_mean); break;
        case ROUNDROBIN: next_decision = stats.steps + (uint64_t)(region_mean < 1 ? 1 : region_mean); break;
        case SYNC: next_decision = stats.steps + geo(region_mean * 50); break;
        case STARVE: next_decision = stats.steps + geo(region_mean * 5); break;
        case PCT: { next_decision = ~0ull; for (auto p : pct_points) if (p > stats.steps && p < next_decision) next_decision = p; break; }
        default: next_decision = ~0ull;
    }
    if (next_decision > params.step_budget) next_decision = params.step_budget;
}
static Fiber* choose(bool forced){ HarnessScope h_;
    auto& r = runnable();
    if (r.empty()) return nullptr;
    if (params.strategy == REPLAY){
        while (rp < params.replay.size() && params.replay[rp].step < stats.steps) rp++;
        if (rp < params.replay.size() && params.replay[rp].step == stats.steps && (bool)params.replay[rp].forced == forced){
            uint32_t id = params.replay[rp].fiber; rp++;
            if (id < (uint32_t)NTID && fibers[id].st == RUNNABLE && group_active[fibers[id].group]) return &fibers[id];
        }
        if (!forced) return cur;
        return r[0];
    }
    switch (region_strategy){
        case PCT: { Fiber* b = r[0]; for (auto f : r) if (f->prio > b->prio) b = f; return b; }
        case ROUNDROBIN: { for (auto f : r) if (f->id > rr_last){ rr_last = f->id; return f; } rr_last = r[0]->id; return r[0]; }
        case STARVE: { std::vector<Fiber*> o; for (auto f : r) if (f->id != victim) o.push_back(f); if (o.empty()){ return r[0]; } stats.starved++; return o[srng.below(o.size())]; }
        default: return r[srng.below(r.size())];
    }
}
static void log_decision(Fiber* f, bool forced){ HarnessScope h;
    decisions.push_back({stats.steps, (uint32_t)f->id, forced});
    hash(stats.steps * 31 + f->id * 2 + forced);
}
static void decide(){ // preemption point, cur is runnable
    if (stats.steps >= params.step_budget) { sut = false; fail("no-progress", "run exceeded its step budget of instrumented accesses"); }
    if (params.strategy != REPLAY && region_strategy == PCT){ cur->prio = --pct_low; }
    Fiber* f = choose(false);
    if (f && f != cur){ log_decision(f, false); stats.preemptions++; stats.switches++; plan_next(); switch_to(f); }
    plan_next();
}
static void block_and_switch(){ // cur not runnable any more
    Fiber* f = choose(true);
    if (!f) {
        if (live == 0 || cur->st == DONE || cur->st == PAUSED){ switch_to(mainf); return; }
        std::string d; for (int i = 0; i < NTID; i++) if (fibers[i].st == BLOCKED) d += "thread " + std::to_string(i) + " waits at " + fibers[i].why + "; ";
        fail("deadlock", d);
    }
    if (multi) log_decision(f, true);
    stats.switches++; plan_next(); switch_to(f);
}
static inline void step_point(){ if (++stats.steps >= next_decision) decide(); }
static void sync_point(){ // scheduling-relevant operation
    stats.steps++;
    if (!multi){ if (stats.steps >= next_decision) decide(); return; }
    if (stats.steps >= next_decision) { decide(); return; }
    if (params.strategy != REPLAY && (region_strategy == SYNC || region_strategy == MIX || region_strategy == STARVE)){
        Fiber* f = choose(false);
        if (f && f != cur){ log_decision(f, false); stats.preemptions++; stats.switches++; plan_next(); switch_to(f); }
        plan_next();
    }
}
static void block(const char* why){ cur->st = BLOCKED; cur->why = why; block_and_switch(); }
static void wake(Fiber* f){ if (f->st == BLOCKED) f->st = RUNNABLE; }

static void region_begin(Team* t){
    stats.regions++;
    if ((uint64_t)t->n > stats.max_threads) stats.max_threads = t->n;
    region_strategy = params.strategy; region_mean = params.mean_interval;
    if (params.strategy == REPLAY) { plan_next(); return; }
    if (params.strategy == MIX){ int o[] = {RTC, RANDOM, PCT, ROUNDROBIN, SYNC, STARVE, RANDOM}; region_strategy = o[srng.below(7)]; region_mean = params.mean_interval * (srng.flip(0.5) ? 1 : srng.uni(0.1, 10)); if (region_mean < 1) region_mean = 1; }
    region_start = stats.steps;
    if (region_strategy == PCT){
        pct_points.clear(); for (int i = 0; i < params.pct_depth; i++) pct_points.push_back(region_start + 1 + srng.below(region_len));
        pct_low = 0; for (int i = 0; i < NTID; i++) fibers[i].prio = 1 + (int)srng.below(1000000);
    }
    if (region_strategy == STARVE) victim = t->mem[srng.below(t->n)]->id;
    plan_next();
}

// ------------------------------------------------------------ race detector and checked heap
static inline bool in_heap(uintptr_t a){ return a - HEAP0 < HEAPSZ; }
static Slot* slots_of(uintptr_t a){
    if (a - HEAP0 < HEAPSZ) return sh_heap + ((a - HEAP0) >> 3) * 4;
    if (a - STK0 < STKALL) return sh_stk + ((a - STK0) >> 3) * 4;
    if (a >= DAT0 && a < DAT1) return sh_dat + ((a - DAT0) >> 3) * 4;
    return nullptr;
}
struct Range { uintptr_t a, b; };
static std::vector<Range> ignored;
void ignore_range(const void* p, size_t n){ ignored.push_back({(uintptr_t)p, (uintptr_t)p + n}); }
static std::string hex(uint64_t x){ char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)x); return b; }

static void report_race(uintptr_t a, const Slot& s, bool w, uint32_t pc){
    for (auto& r : ignored) if (a < r.b && a + 8 > r.a) return;
    const char* where = in_heap(a) ? "heap" : (a - STK0 < STKALL ? "stack" : "global");
    std::string d = std::string(w ? "write" : "read") + " by thread " + std::to_string(cur->id % MAXT) + " at pc=" + hex(pc) + " conflicts with unsynchronised " +
        (s.w ? "write" : "read") + " by thread " + std::to_string(s.tid % MAXT) + " at pc=" + hex(s.pc) + " (" + where + " memory)";
    fail("data-race", d);
}
static inline void granule(Slot* s, uintptr_t a, uint8_t mask, bool w, uint32_t pc){
    const uint8_t tid = cur->id; const uint32_t clk = cur->vc[tid];
    int put = -1; int empty = -1, hb = -1;
    for (int i = 0; i < 4; i++){
        Slot& q = s[i];
        if (q.clk == 0){ if (empty < 0) empty = i; continue; }
        if (q.tid == tid){
            if (q.clk == clk && q.mask == mask && q.w >= (w ? 1 : 0)) return;
            if ((q.mask & ~mask) == 0 && q.w <= (w ? 1 : 0)) put = i;
            continue;
        }
        bool before = q.clk <= cur->vc[q.tid];
        if (before){ if (hb < 0) hb = i; continue; }
        if ((q.mask & mask) && (w || q.w)) report_race(a, q, w, pc);
    }
    if (put < 0) put = empty >= 0 ? empty : hb >= 0 ? hb : (int)((stats.steps + a) & 3);
    s[put] = {clk, pc, tid, mask, (uint8_t)(w ? 1 : 0), 0, 0};
}
[[noreturn]] static void bad_access(uintptr_t a, size_t n, bool w, uint32_t pc, const char* what){
    fail("memory-error", std::string(w ? "write" : "read") + " of " + std::to_string(n) + " bytes " + what + " at pc=" + hex(pc));
}
static inline void check_addr(uintptr_t a, size_t n, bool w, uint32_t pc){
    if (!in_heap(a)) return;
    uintptr_t g = (a - HEAP0) >> 3, ge = (a + n - 1 - HEAP0) >> 3;
    for (; g <= ge; g++){
        signed char c = addr_sh[g];
        if (c == 0) continue;
        if (c > 0){ uintptr_t end = HEAP0 + (g << 3) + c; if (a + n <= end) continue; bad_access(a, n, w, pc, "outside an allocation"); }
        bad_access(a, n, w, pc, c == -2 ? "in freed memory" : "outside an allocation");
    }
}
static inline void access(const void* p, size_t n, bool w, uintptr_t pc){
    if (!sut) return;
    step_point();
    uintptr_t a = (uintptr_t)p;
    check_addr(a, n, w, (uint32_t)pc);
    if (!multi || !params.detect_races) return;
    stats.races_checked++;
    uintptr_t e = a + n;
    while (a < e){
        uintptr_t ga = a & ~7ull; unsigned o = a - ga; unsigned len = e - a < 8 - o ? (unsigned)(e - a) : 8 - o;
        Slot* s = slots_of(ga);
        if (!s) return;
        granule(s, ga, (uint8_t)(((1u << len) - 1) << o), w, (uint32_t)pc);
        a += len;
    }
}

// heap: bump allocation with redzones; freed blocks are poisoned and reused only after a long quarantine
struct Hdr { uint64_t size; uint64_t cap; uint64_t magic; uint64_t align; };
static std::map<size_t, std::deque<uintptr_t>>* freelist; static uint64_t quarantined;
static void fill(void* p, size_t n){
    uint64_t* q = (uint64_t*)p; size_t k = n / 8;
    uint64_t z = params.fill * 0x9E3779B97F4A7C15ull;
    switch (params.fill % 4){
        case 0: memset(p, 0, n); return;
        case 1: for (size_t i = 0; i < k; i++) q[i] = 0x7ff8dead00000000ull + i; break;          // NaN
        case 2: for (size_t i = 0; i < k; i++){ z = z * 6364136223846793005ull + 1442695040888963407ull; double d = ((double)(z >> 12)) * 1e-12; memcpy(q + i, &d, 8); } break;
        default: for (size_t i = 0; i < k; i++){ double d = -1.25 - (double)(i % 7) - (double)(params.fill % 97); memcpy(q + i, &d, 8); } break;
    }
    memset((char*)p + k * 8, 0xA5, n - k * 8);
}
static void* halloc(size_t n, size_t align){ HarnessScope h_;
    stats.allocs++;
    if (align < 16) align = 16;
    size_t cap = ((n + 7) & ~7ull); if (cap == 0) cap = 8;
    uintptr_t user = 0;
    auto it = freelist->find(cap);
    if (align == 16 && it != freelist->end() && it->second.size() && quarantined > (32u << 20)){
        user = it->second.front(); it->second.pop_front(); quarantined -= cap;
        uintptr_t g = (user - HEAP0) >> 3; memset(sh_heap + g * 4, 0, (cap >> 3) * 4 * sizeof(Slot));
    } else {
        uintptr_t a = heap_top + 32 + sizeof(Hdr); a = (a + align - 1) & ~(uintptr_t)(align - 1);
        user = a; uintptr_t end = a + cap + 64;
        if (end > HEAP0 + HEAPSZ) fail("no-progress", "simulated memory exhausted");
        memset(addr_sh + ((heap_top - HEAP0) >> 3), -1, ((end - heap_top) >> 3) + 1);
        heap_top = (end + 15) & ~15ull;
    }
    Hdr* h = (Hdr*)(user - sizeof(Hdr)); h->size = n; h->cap = cap; h->magic = 0xA110CA7EDull; h->align = align;
    uintptr_t g = (user - HEAP0) >> 3; memset(addr_sh + g, 0, n >> 3); if (n & 7) addr_sh[g + (n >> 3)] = n & 7;
    if ((n >> 3) + ((n & 7) ? 1 : 0) < (cap >> 3)) addr_sh[g + (cap >> 3) - 1] = -1;
    fill((void*)user, n);
    return (void*)user;
}
static void hfree(void* p, uintptr_t pc){
    uintptr_t user = (uintptr_t)p; Hdr* h = (Hdr*)(user - sizeof(Hdr));
    if (h->magic != 0xA110CA7EDull) fail("memory-error", h->magic == 0xF4EEDull ? "double free at pc=" + hex(pc) : "free of a bad pointer at pc=" + hex(pc));
    if (sut && multi && params.detect_races)
        for (uintptr_t a = user; a + 8 <= user + h->size; a += 8) granule(sh_heap + ((a - HEAP0) >> 3) * 4, a, 0xff, true, (uint32_t)pc);
    h->magic = 0xF4EEDull; HarnessScope h_;
    memset(addr_sh + ((user - HEAP0) >> 3), -2, h->cap >> 3);
    if (h->align == 16){ (*freelist)[h->cap].push_back(user); quarantined += h->cap; }
}

// ------------------------------------------------------------ locks
static std::unordered_map<const void*, Lock>* locks;
static Lock& lock_of(const void* k){ HarnessScope h; return (*locks)[k]; }
static void acquire(const void* key, const char* why, bool recursive = false){
    if (!cur || cur == mainf) return;
    stats.locks++;
    sync_point();
    Lock* l = &lock_of(key);
    if (recursive && l->owner == cur){ l->depth++; return; }
    if (l->owner) stats.contended++;
    while (l->owner){
        if (l->owner == cur) fail("deadlock", std::string("thread acquires a lock it already holds: ") + why);
        cur->wait_on = (void*)key; block(why);
    }
    cur->wait_on = nullptr; l->owner = cur; l->depth = 1; join(cur->vc, l->vc);
}
static void release(const void* key){
    if (!cur || cur == mainf) return;
    Lock* l = &lock_of(key);
    if (--l->depth > 0) return;
    l->owner = nullptr; for (int i = 0; i < NTID; i++) l->vc[i] = cur->vc[i]; tick(cur);
    for (int i = 0; i < NTID; i++) if (fibers[i].st == BLOCKED && fibers[i].wait_on == key) wake(&fibers[i]);
    sync_point();
}
static void sync_addr(const void* a, bool acq, bool rel){ // atomics: acquire/release on an address
    if (!cur || cur == mainf) return;
    Lock& l = lock_of(a);
    if (acq) join(cur->vc, l.vc);
    if (rel){ join(l.vc, cur->vc); tick(cur); }
}

static void worker_done(){
    Fiber* f = cur;
    tick(f);
    f->st = DONE;
    if (f->team && f->num != 0){ Team* t = f->team; t->done++; join(t->bvc, f->vc); if (t->join_waiter && t->done == t->n - 1) wake(t->join_waiter); }
    recount();
    if (f->num == 0 && resumer[f->group]){ Fiber* r = resumer[f->group]; resumer[f->group] = nullptr; switch_to(r); abort(); }
    block_and_switch();
    abort();
}

// ------------------------------------------------------------ groups
static int ngroups = 0;
static Fiber* start_group(std::function<void()> f){
    int g = ngroups++; if (g >= MAXG) fail("harness", "too many groups");
    Fiber* t = &fibers[g * MAXT]; t->group = g; t->num = 0; t->team = nullptr; t->top = std::move(f); t->st = RUNNABLE; t->sut = false;
    for (int i = 0; i < NTID; i++) if (mainf->vc[i] > t->vc[i]) t->vc[i] = mainf->vc[i];
    t->vc[t->id]++;
    make(t);
    return t;
}
void run(std::vector<std::function<void()>> tops){
    Fiber* me = cur; (void)me;
    std::vector<Fiber*> fs; for (auto& f : tops){ fs.push_back(start_group(f)); group_active[fs.back()->group] = true; }
    region_strategy = params.strategy == MIX ? RANDOM : params.strategy; region_mean = params.mean_interval;
    if (region_strategy == PCT){ pct_points.clear(); for (int i = 0; i < params.pct_depth; i++) pct_points.push_back(stats.steps + 1 + srng.below(200000)); for (int i = 0; i < NTID; i++) fibers[i].prio = 1 + (int)srng.below(1000000); }
    conc_tops = (int)fs.size(); recount(); plan_next();
    for (;;){
        bool all = true; for (auto f : fs) if (f->st != DONE) all = false;
        if (all) break;
        Fiber* f = choose(true); if (!f) fail("deadlock", "no runnable caller thread");
        if (multi) log_decision(f, true);
        switch_to(f);
    }
    for (auto f : fs){ group_active[f->group] = false; join(mainf->vc, f->vc); }
    conc_tops = 0; recount();
}
int create_top(std::function<void()> f){ Fiber* t = start_group(std::move(f)); t->st = PAUSED; join(t->vc, cur->vc); group_active[t->group] = false; return t->group; }
bool top_done(int id){ return fibers[id * MAXT].st == DONE; }
static bool saved_active[MAXG][MAXG]; static uint64_t saved_region[MAXG][3];
bool resume_top(int g){
    Fiber* t = &fibers[g * MAXT]; if (t->st == DONE) return false;
    memcpy(saved_active[g], group_active, sizeof group_active); for (int i = 0; i < MAXG; i++) group_active[i] = i == g;
    int oteams = open_teams, oconc = conc_tops; open_teams = 0; conc_tops = 0;
    int os = region_strategy; double om = region_mean; uint64_t on = next_decision;
    resumer[g] = cur; t->st = RUNNABLE; join(t->vc, cur->vc); tick(cur);
    State old = cur->st; Fiber* me = cur; me->st = PAUSED;
    recount(); next_decision = params.step_budget;
    if (params.strategy == REPLAY) plan_next();
    switch_to(t);
    me->st = old; join(me->vc, t->vc);
    memcpy(group_active, saved_active[g], sizeof group_active); open_teams = oteams; conc_tops = oconc; recount();
    region_strategy = os; region_mean = om; next_decision = on;
    if (params.strategy == REPLAY) plan_next();
    return t->st != DONE;
}
void pause_top(){ Fiber* t = cur; tick(t); t->st = PAUSED; Fiber* r = resumer[t->group]; resumer[t->group] = nullptr; switch_to(r); }

// ------------------------------------------------------------ init
static void on_signal(int sig, siginfo_t* si, void*){
    sut = false;
    std::string k = sig == SIGPROF ? "hang" : "crash-signal";
    fail(k, "signal " + std::to_string(sig) + " address " + hex((uint64_t)si->si_addr));
}
static void on_terminate(){
    std::string what = "uncaught exception";
    if (auto e = std::current_exception()){ try { std::rethrow_exception(e); } catch (const std::exception& x){ what += std::string(": ") + x.what(); } catch (...){} }
    fail("crash-exception", what);
}
void init(const Params& p){
    tls_size = 0; dl_iterate_phdr(find_tls, nullptr); if (!tls_at) tls_size = 0;
    params = p; srng = Rng(p.sched_seed); rp = 0; decisions.clear(); stats = Stats();
    DAT0 = (uintptr_t)&__data_start & ~7ull; DAT1 = ((uintptr_t)&_end + 7) & ~7ull;
    map(HEAP0, HEAPSZ); map(STK0, STKALL);
    sh_heap = (Slot*)map(0, HEAPSZ / 8 * 4 * sizeof(Slot)); sh_stk = (Slot*)map(0, STKALL / 8 * 4 * sizeof(Slot)); sh_dat = (Slot*)map(0, (DAT1 - DAT0) / 8 * 4 * sizeof(Slot) + 4096);
    addr_sh = (signed char*)map(0, HEAPSZ / 8 + 4096);
    heap_top = HEAP0 + 4096; freelist = new std::map<size_t, std::deque<uintptr_t>>; locks = new std::unordered_map<const void*, Lock>;
    for (int i = 0; i <= NTID; i++){ fibers[i].id = i; fibers[i].group = i / MAXT; fibers[i].num = i % MAXT; memset(fibers[i].vc, 0, sizeof fibers[i].vc); if (i < NTID) fibers[i].vc[i] = 1; fibers[i].st = i == NTID ? PAUSED : FREE; }
    for (int i = 0; i < NTID; i++) fill((void*)(STK0 + (uintptr_t)i * STKSZ + STKSZ / 2), (i % MAXT) == 0 ? STKSZ / 2 - 4096 : 0);
    mainf->vc[0] = 0; cur = mainf; sut = false;
    static char alt[1 << 16]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF}) sigaction(s, &sa, nullptr);
    std::set_terminate(on_terminate);
    next_decision = params.step_budget;
    if (params.strategy == REPLAY) plan_next();
}

} // namespace rt

using namespace rt;
#define PC ((uintptr_t)__builtin_return_address(0))

// ------------------------------------------------------------ operator new/delete
static void* gnew(size_t n, size_t al){
    if (rt::sut && rt::cur) return halloc(n, al);
    void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
    if (!p) abort();
    return p;
}
static void gdel(void* p, uintptr_t pc){ if (!p) return; if (in_heap((uintptr_t)p)) hfree(p, pc); else free(p); }
void* operator new(size_t n){ return gnew(n, 16); }
void* operator new[](size_t n){ return gnew(n, 16); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return gnew(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return gnew(n, 16); }
void* operator new(size_t n, std::align_val_t a){ return gnew(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a){ return gnew(n, (size_t)a); }
void operator delete(void* p) noexcept { gdel(p, PC); }
void operator delete[](void* p) noexcept { gdel(p, PC); }
void operator delete(void* p, size_t) noexcept { gdel(p, PC); }
void operator delete[](void* p, size_t) noexcept { gdel(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { gdel(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { gdel(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { gdel(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { gdel(p, PC); }

namespace std {
[[noreturn]] void __glibcxx_assert_fail(const char* file, int line, const char* func, const char* cond) noexcept {
    rt::fail("memory-error", string("container bounds/precondition violated: ") + (cond ? cond : "?") + " in " + (func ? func : "?") + " called from pc=" + rt::hex(PC));
}
}

extern "C" {
// ------------------------------------------------------------ TSan ABI
void __tsan_init(){} 
void __tsan_func_entry(void*){} void __tsan_func_exit(){}
void __tsan_vptr_update(void** p, void*){ access(p, 8, true, PC); } void __tsan_vptr_read(void** p){ access(p, 8, false, PC); }
#define RW(N) void __tsan_read##N(void* p){ access(p, N, false, PC); } void __tsan_write##N(void* p){ access(p, N, true, PC); } \
 void __tsan_unaligned_read##N(void* p){ access(p, N, false, PC); } void __tsan_unaligned_write##N(void* p){ access(p, N, true, PC); } \
 void __tsan_volatile_read##N(void* p){ access(p, N, false, PC); } void __tsan_volatile_write##N(void* p){ access(p, N, true, PC); } \
 void __tsan_unaligned_volatile_read##N(void* p){ access(p, N, false, PC); } void __tsan_unaligned_volatile_write##N(void* p){ access(p, N, true, PC); } \
 void __tsan_read_write##N(void* p){ access(p, N, false, PC); access(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n){ access(p, n, false, PC); } void __tsan_write_range(void* p, size_t n){ access(p, n, true, PC); }
#define AT(N, T) \
 T __tsan_atomic##N##_load(const volatile T* a, int){ if (sut){ step_point(); sync_addr((const void*)a, true, false); } return *a; } \
 void __tsan_atomic##N##_store(volatile T* a, T v, int){ if (sut){ step_point(); sync_addr((const void*)a, true, true); } *a = v; } \
 T __tsan_atomic##N##_exchange(volatile T* a, T v, int){ if (sut){ step_point(); sync_addr((const void*)a, true, true); } T o = *a; *a = v; return o; } \
 T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int){ if (sut){ step_point(); sync_addr((const void*)a, true, true); } T o = *a; *a = o + v; return o; } \
 T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int){ if (sut){ step_point(); sync_addr((const void*)a, true, true); } T o = *a; *a = o - v; return o; } \
 T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int){ if (sut){ step_point(); sync_addr((const void*)a, true, true); } T o = *a; *a = o & v; return o; } \
 T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int){ if (sut){ step_point(); sync_addr((const void*)a, true, true); } T o = *a; *a = o | v; return o; } \
 T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int){ if (sut){ step_point(); sync_addr((const void*)a, true, true); } T o = *a; *a = o ^ v; return o; } \
 int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int, int){ if (sut){ step_point(); sync_addr((const void*)a, true, true); } if (*a == *c){ *a = v; return 1; } *c = *a; return 0; } \
 int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int, int){ if (sut){ step_point(); sync_addr((const void*)a, true, true); } if (*a == *c){ *a = v; return 1; } *c = *a; return 0; } \
 T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int, int){ if (sut){ step_point(); sync_addr((const void*)a, true, true); } T o = *a; if (o == c) *a = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int){} void __tsan_atomic_signal_fence(int){}

// ------------------------------------------------------------ memory routines called by instrumented code
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n){ if (sut && n){ access(s, n, false, PC); access(d, n, true, PC); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n){ if (sut && n){ access(s, n, false, PC); access(d, n, true, PC); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n){ if (sut && n) access(d, n, true, PC); return __real_memset(d, c, n); }

// ------------------------------------------------------------ static-initialisation guards
int __cxa_guard_acquire(uint64_t* g){
    if (*(volatile unsigned char*)g) { if (sut) sync_addr(g, true, false); return 0; }
    if (!sut || !cur || cur == mainf) return 1;
    acquire((char*)g + 1, "static initialisation");
    if (*(volatile unsigned char*)g){ release((char*)g + 1); return 0; }
    return 1;
}
void __cxa_guard_release(uint64_t* g){ *(volatile unsigned char*)g = 1; if (sut && cur && cur != mainf){ sync_addr(g, false, true); release((char*)g + 1); } }
void __cxa_guard_abort(uint64_t* g){ if (sut && cur && cur != mainf) release((char*)g + 1); }

// ------------------------------------------------------------ GOMP ABI
static char k_critical, k_atomic;
static void team_run(void (*fn)(void*), void* data, unsigned nreq, const std::function<void(Team*)>& prep){
    if (!sut || !cur || cur == mainf){ fn(data); return; }
    Fiber* m = cur;
    int n = nreq ? (int)nreq : default_threads;
    if (n > MAXT) n = MAXT;
    if (m->team && m->team->n > 1) n = 1;
    if (params.max_delivered > 0 && n > params.max_delivered){ n = params.max_delivered; stats.shortages++; }
    if (n > 1 && params.shortage > 0){ Rng r(params.sched_seed * 7919 + stats.regions); if (r.flip(params.shortage)){ n = 1 + (int)r.below(n); stats.shortages++; } }
    Team* t; { HarnessScope h; t = new Team(); }
    t->n = n; t->parent = m->team; t->level = m->team ? m->team->level + 1 : 1; t->mem[0] = m;
    Team* oldt = m->team; int oldn = m->num; int oldws = m->ws;
    tick(m);
    for (int i = 1; i < n; i++){
        Fiber* f = &fibers[m->group * MAXT + i]; t->mem[i] = f;
        f->team = t; f->num = i; f->fn = fn; f->arg = data; f->sut = true; f->st = RUNNABLE;
        join(f->vc, m->vc); f->vc[f->id]++; make(f);
    }
    m->team = t; m->num = 0; m->ws = 0;
    { HarnessScope h; if (prep) prep(t); if (n > 1) open_teams++; recount(); if (n > 1) region_begin(t); }
    if (n > 1) sync_point();
    fn(data);
    sut = true;
    if (n > 1){
        stats.steps++;
        while (t->done < n - 1){ t->join_waiter = m; block("end of parallel region"); }
        t->join_waiter = nullptr;
        join(m->vc, t->bvc);
        for (int i = 1; i < n; i++) t->mem[i]->st = FREE;
        region_len = stats.steps - region_start + 1;
    }
    m->team = oldt; m->num = oldn; m->ws = oldws; tick(m);
    { HarnessScope h; delete t; if (n > 1) open_teams--; recount(); plan_next(); }
}
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned){ team_run(fn, data, n, nullptr); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned n, unsigned){ team_run(fn, data, n, nullptr); return n; }

static Work* next_work(){ // work share for this thread's next construct
    Fiber* f = cur; static Work solo;
    if (!f->team){ HarnessScope h; solo = Work(); return &solo; }
    HarnessScope h; Team* t = f->team; while ((int)t->work.size() <= f->ws) t->work.push_back(Work());
    return &t->work[f->ws++];
}
static Work* this_work(){ Fiber* f = cur; static Work solo; if (!f->team) return &solo; return &f->team->work[f->ws - 1]; }
static int team_n(){ return cur && cur->team ? cur->team->n : 1; }

static bool loop_next(Work* w, long* s, long* e){
    sync_point(); sync_addr(w, true, true);
    if (w->incr > 0 ? w->next >= w->end : w->next <= w->end) return false;
    long long c = w->chunk > 0 ? w->chunk : 1;
    if (w->kind == 2){ long long left = (w->end - w->next + w->incr - (w->incr > 0 ? 1 : -1)) / w->incr; long long g = (left + team_n() - 1) / team_n(); if (g > c) c = g; }
    *s = w->next; long long n = w->next + c * w->incr; if (w->incr > 0 ? n > w->end : n < w->end) n = w->end; w->next = n; *e = n; return true;
}
static bool loop_start(long st, long en, long inc, long ch, int kind, long* s, long* e){
    Work* w = next_work(); sync_point();
    if (!w->init){ w->init = true; w->next = st; w->end = en; w->incr = inc; w->kind = kind;
        if (kind == 0 && ch == 0){ long long tot = inc > 0 ? (en - st + inc - 1) / inc : (st - en - inc - 1) / -inc; if (tot < 0) tot = 0; ch = (tot + team_n() - 1) / team_n(); if (ch < 1) ch = 1; }
        w->chunk = ch; }
    return loop_next(w, s, e);
}
#define LOOPS(NAME, KIND) \
 bool GOMP_loop_##NAME##_start(long a, long b, long i, long c, long* s, long* e){ return loop_start(a, b, i, c, KIND, s, e); } \
 bool GOMP_loop_##NAME##_next(long* s, long* e){ return loop_next(this_work(), s, e); } \
 void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long a, long b, long i, long c, unsigned){ \
   team_run(fn, d, n, [=](Team* t){ Work w; w.init = true; w.next = a; w.end = b; w.incr = i; w.kind = KIND; w.chunk = c ? c : 1; t->work.push_back(w); for (int k = 0; k < t->n; k++) t->mem[k]->ws = 1; }); }
#define LOOPS_RT(NAME) \
 bool GOMP_loop_##NAME##_start(long a, long b, long i, long* s, long* e){ return loop_start(a, b, i, 1, 1, s, e); } \
 bool GOMP_loop_##NAME##_next(long* s, long* e){ return loop_next(this_work(), s, e); } \
 void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long a, long b, long i, unsigned){ \
   team_run(fn, d, n, [=](Team* t){ Work w; w.init = true; w.next = a; w.end = b; w.incr = i; w.kind = 1; w.chunk = 1; t->work.push_back(w); for (int k = 0; k < t->n; k++) t->mem[k]->ws = 1; }); }
LOOPS(static, 0) LOOPS(dynamic, 1) LOOPS(guided, 2) LOOPS(nonmonotonic_dynamic, 1) LOOPS(nonmonotonic_guided, 2)
LOOPS(ordered_static, 0) LOOPS(ordered_dynamic, 1) LOOPS(ordered_guided, 2)
LOOPS_RT(runtime) LOOPS_RT(nonmonotonic_runtime) LOOPS_RT(maybe_nonmonotonic_runtime) LOOPS_RT(ordered_runtime)
static bool uloop_next(Work* w, unsigned long long* s, unsigned long long* e){
    sync_point(); sync_addr(w, true, true);
    if (w->up ? w->un >= w->ue : w->un <= w->ue) return false;
    unsigned long long c = w->uc ? w->uc : 1;
    *s = w->un; unsigned long long n = w->un + c * w->ui; if (w->up ? n > w->ue : n < w->ue) n = w->ue; w->un = n; *e = n; return true;
}
static bool uloop_start(bool up, unsigned long long a, unsigned long long b, unsigned long long i, unsigned long long c, int kind, unsigned long long* s, unsigned long long* e){
    Work* w = next_work(); sync_point();
    if (!w->init){ w->init = true; w->un = a; w->ue = b; w->ui = i; w->up = up; w->kind = kind; if (kind == 0 && !c) c = ((up ? b - a : a - b) / (up ? i : -i)) / team_n() + 1; w->uc = c; }
    return uloop_next(w, s, e);
}
#define ULOOPS(NAME, KIND) \
 bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long a, unsigned long long b, unsigned long long i, unsigned long long c, unsigned long long* s, unsigned long long* e){ return uloop_start(up, a, b, i, c, KIND, s, e); } \
 bool GOMP_loop_ull_##NAME##_next(unsigned long long* s, unsigned long long* e){ return uloop_next(this_work(), s, e); }
#define ULOOPS_RT(NAME) \
 bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long a, unsigned long long b, unsigned long long i, unsigned long long* s, unsigned long long* e){ return uloop_start(up, a, b, i, 1, 1, s, e); } \
 bool GOMP_loop_ull_##NAME##_next(unsigned long long* s, unsigned long long* e){ return uloop_next(this_work(), s, e); }
ULOOPS(static, 0) ULOOPS(dynamic, 1) ULOOPS(guided, 2) ULOOPS(nonmonotonic_dynamic, 1) ULOOPS(nonmonotonic_guided, 2)
ULOOPS_RT(runtime) ULOOPS_RT(nonmonotonic_runtime) ULOOPS_RT(maybe_nonmonotonic_runtime)

void GOMP_barrier(){
    if (!sut || !cur || cur == mainf || !cur->team || cur->team->n == 1) return;
    stats.barriers++; sync_point();
    Team* t = cur->team; tick(cur); join(t->bvc, cur->vc);
    if (++t->arrived == t->n){ t->arrived = 0; t->gen++; for (int i = 0; i < t->n; i++){ join(t->mem[i]->vc, t->bvc); if (t->mem[i] != cur) wake(t->mem[i]); } sync_point(); }
    else { unsigned g = t->gen; while (t->gen == g) block("barrier"); }
    tick(cur);
}
bool GOMP_barrier_cancel(){ GOMP_barrier(); return false; }
void GOMP_loop_end(){ GOMP_barrier(); } void GOMP_loop_end_nowait(){} bool GOMP_loop_end_cancel(){ GOMP_barrier(); return false; }
void GOMP_critical_start(){ if (sut) acquire(&k_critical, "critical section"); }
void GOMP_critical_end(){ if (sut) release(&k_critical); }
void GOMP_critical_name_start(void** p){ if (sut) acquire(p, "named critical section"); }
void GOMP_critical_name_end(void** p){ if (sut) release(p); }
void GOMP_atomic_start(){ if (sut) acquire(&k_atomic, "atomic"); }
void GOMP_atomic_end(){ if (sut) release(&k_atomic); }
bool GOMP_single_start(){ if (!sut) return true; Work* w = next_work(); sync_point(); sync_addr(w, true, true); if (w->claimed < 0){ w->claimed = cur->num; return true; } return false; }
void* GOMP_single_copy_start(){ Work* w = next_work(); sync_point(); if (w->claimed < 0){ w->claimed = cur->num; return nullptr; } GOMP_barrier(); return w->copy; }
void GOMP_single_copy_end(void* d){ this_work()->copy = d; GOMP_barrier(); }
unsigned GOMP_sections_start(unsigned n){ Work* w = next_work(); sync_point(); if (!w->init){ w->init = true; w->nsect = n; } sync_addr(w, true, true); return w->sect < w->nsect ? ++w->sect : 0; }
unsigned GOMP_sections_next(){ Work* w = this_work(); sync_point(); sync_addr(w, true, true); return w->sect < w->nsect ? ++w->sect : 0; }
void GOMP_sections_end(){ GOMP_barrier(); } void GOMP_sections_end_nowait(){}
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned cnt, unsigned){ team_run(fn, d, n, [=](Team* t){ Work w; w.init = true; w.nsect = cnt; t->work.push_back(w); for (int k = 0; k < t->n; k++) t->mem[k]->ws = 1; }); }
void GOMP_ordered_start(){} void GOMP_ordered_end(){}
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long asz, long aal, bool, unsigned, void**, int){
    if (cpy){ char* buf = (char*)__builtin_alloca(asz + aal); char* a = (char*)(((uintptr_t)buf + aal - 1) & ~(uintptr_t)(aal - 1)); cpy(a, data); fn(a); } else fn(data);
}
void GOMP_taskwait(){} void GOMP_taskgroup_start(){} void GOMP_taskgroup_end(){} void GOMP_taskyield(){ if (sut) sync_point(); }

int omp_get_num_threads(){ return sut ? team_n() : 1; }
int omp_get_thread_num(){ return sut && cur && cur->team ? cur->num : 0; }
int omp_get_max_threads(){ return default_threads; } int omp_get_num_procs(){ return default_threads; } int omp_get_thread_limit(){ return MAXT; }
int omp_in_parallel(){ return team_n() > 1; } void omp_set_num_threads(int n){ default_threads = n; } int omp_get_level(){ return cur && cur->team ? cur->team->level : 0; }
int omp_get_dynamic(){ return 0; } void omp_set_dynamic(int){} void omp_set_nested(int){} int omp_get_nested(){ return 0; }
double omp_get_wtime(){ return rt::sim_clock(); } double omp_get_wtick(){ return 1e-9; }
void omp_init_lock(void* l){ (*locks)[l] = Lock(); } void omp_destroy_lock(void*){} void omp_set_lock(void* l){ acquire(l, "lock"); } void omp_unset_lock(void* l){ release(l); }
int omp_test_lock(void* l){ sync_point(); if (lock_of(l).owner) return 0; acquire(l, "lock"); return 1; }
void omp_init_nest_lock(void* l){ (*locks)[l] = Lock(); } void omp_destroy_nest_lock(void*){} void omp_set_nest_lock(void* l){ acquire(l, "lock", true); } void omp_unset_nest_lock(void* l){ release(l); }

int __real_pthread_mutex_lock(void*); int __real_pthread_mutex_unlock(void*); int __real_pthread_mutex_trylock(void*);
int __wrap_pthread_mutex_lock(void* m){ if (sut && cur && cur != mainf){ acquire(m, "mutex"); return 0; } return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(void* m){ if (sut && cur && cur != mainf){ release(m); return 0; } return __real_pthread_mutex_unlock(m); }
int __wrap_pthread_mutex_trylock(void* m){ if (sut && cur && cur != mainf){ sync_point(); if (lock_of(m).owner) return EBUSY; acquire(m, "mutex"); return 0; } return __real_pthread_mutex_trylock(m); }
} // extern C
