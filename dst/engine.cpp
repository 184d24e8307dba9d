// Command line: seeded search, minimisation, replay.
#include <sys/personality.h>
#include <unistd.h>
#include "model.hpp"
#include <cstring>
#include <fstream>
#include <iostream>
#include <locale>
#include <sstream>
#include <set>
#include <time.h>
#include <unistd.h>
#include <filesystem>
#ifdef THREEDIM
static const int DIM = 3;
#else
static const int DIM = 2;
#endif
static const int DEGREE = MATTER_DST_SPLINEDEG;
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static std::string esc(const std::string& s){ std::string r; for (char ch : s){ if (ch == '"' || ch == '\\'){ r += '\\'; r += ch; } else if (ch == '\n') r += "\\n"; else if ((unsigned char)ch < 32 || (unsigned char)ch > 126) r += '?'; else r += ch; } return r; }

struct Replay { std::string prop, kind, detail; Cfg c; Override ov; bool sched = false; uint64_t seed = 0; };
static void save(const std::string& path, Replay& r){
    std::ofstream f(path); f << "matter-dst-replay 1\nproperty " << r.prop << "\nvariant " << DIM << " " << DEGREE << "\nseed " << r.seed << "\nkind " << r.kind << "\ndetail " << esc(r.detail) << "\nconfig\n" << r.c.text() << "end\n";
    if (r.sched){ f << "schedule " << r.ov.phase << " " << r.ov.dec.size() << "\n"; for (auto& d : r.ov.dec) f << d.step << " " << d.fiber << " " << d.forced << "\n"; }
}
static bool load(const std::string& path, Replay& r){
    std::ifstream f(path); std::string l; if (!std::getline(f, l) || l != "matter-dst-replay 1") return false;
    while (std::getline(f, l)){ std::istringstream s(l); std::string k; s >> k; if (k == "property") s >> r.prop; else if (k == "kind") s >> r.kind; else if (k == "seed") s >> r.seed; else if (k == "detail") r.detail = l.substr(7);
        else if (k == "config"){ while (std::getline(f, l) && l != "end"){ size_t e = l.find('='); if (e != std::string::npos) r.c.set(l.substr(0, e), strtod(l.c_str() + e + 1, nullptr)); } }
        else if (k == "schedule"){ size_t n; s >> r.ov.phase >> n; r.sched = true; for (size_t i = 0; i < n && std::getline(f, l); i++){ rt::Decision d; unsigned long a; unsigned b, e; if (sscanf(l.c_str(), "%lu %u %u", &a, &b, &e) == 3){ d.step = a; d.fiber = b; d.forced = e; r.ov.dec.push_back(d); } } } }
    return true;
}
static void simplify(const std::string& prop, Cfg& c, const std::string& kind, double until, int& tries){
    auto test = [&](const Cfg& q){ tries++; Outcome o = run_case(prop, q); return o.bad && o.kind == kind; };
    struct Ch { const char* f; double v; }; Ch ch[] = {{"verbose", 0}, {"cjump", 0}, {"shortage", 0}, {"maxdel", 0}, {"save", 0}, {"savegrid", 0}, {"nobj", 0}, {"nplates", 0}, {"nplates", 1}, {"nobj", 1}, {"threads", 1}, {"threads", 2}, {"frames", 1}, {"strategy", rt::RTC}, {"pbc", 0}, {"musl", 0}, {"mibf", 0}, {"plastic", 0}, {"gspec", 0}, {"grp", 0}, {"prestrain", 0}, {"preb", 0}, {"vmag", 0}, {"np", 1}, {"np", 2}, {"np", 4}, {"np", 8}, {"ox", 0}, {"oy", 0}, {"oz", 0}, {"maxsteps", 2}, {"maxsteps", 5}, {"qpi", 0}, {"elastic", 0}, {"gx", 0}, {"gy", 0}, {"gz", 0}, {"layout", 0}, {"flip", -1}, {"flip", 0}, {"spf", 1}};
    for (auto& x : ch){ if (now() > until) return; Cfg q = c; double old = 0; for (auto& f : q.fields()) if (f.first == x.f) old = *f.second; bool shrink = !strcmp(x.f, "np") || !strcmp(x.f, "threads") || !strcmp(x.f, "maxsteps") || !strcmp(x.f, "nplates") || !strcmp(x.f, "nobj") || !strcmp(x.f, "frames"); if (old == x.v || (shrink && x.v >= old)) continue;
        if ((prop == "C12" || prop == "C13" || prop == "C14") && !strcmp(x.f, "save")) continue; if (prop == "C09" && !strcmp(x.f, "pbc")) continue; if (prop == "C10" && !strcmp(x.f, "plastic")) continue; q.set(x.f, x.v); if (x.f == std::string("pbc") && c.layout == 5) q.layout = 0; if (test(q)) c = q; }
}
int main(int argc, char** argv){
    { int o = personality(0xffffffff); if (o != -1 && !(o & ADDR_NO_RANDOMIZE) && personality(o | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); } // the same addresses in every process, where the system allows it
    { auto& ct = std::use_facet<std::ctype<char>>(std::locale::classic()); ct.widen('\n'); ct.narrow('a', 0); } // the lazily filled tables would make the first process that uses them differ by a few accesses
    std::vector<std::string> a(argv + 1, argv + argc); if (a.size() < 2){ fprintf(stderr, "usage: one PROP SEED [k=v..] | replay FILE | work PROP SEED0 STRIDE SECONDS MAXRUNS OUTJSON REPLAYFILE\n"); return 2; }
    char tmp[] = "/tmp/mdst.XXXXXX"; if (!mkdtemp(tmp)) return 2; scratch = tmp; struct Clean { std::string d; pid_t me = getpid(); ~Clean(){ if (getpid() == me){ std::error_code ec; std::filesystem::remove_all(d, ec); } } } cleaner{scratch};
    if (a[0] == "one"){
        uint64_t seed = strtoull(a[2].c_str(), nullptr, 10); Cfg c = gen(a[1], seed, DIM, DEGREE); for (size_t i = 3; i < a.size(); i++){ size_t e = a[i].find('='); if (e == std::string::npos || !c.set(a[i].substr(0, e), strtod(a[i].c_str() + e + 1, nullptr))) fprintf(stderr, "bad override %s\n", a[i].c_str()); }
        verbose_case = true; double t = now(); Outcome o = run_case(a[1], c); printf("%s seed %lu: %s%s %s\n", a[1].c_str(), seed, o.harness_error ? "HARNESS-ERROR " : "", o.bad ? o.kind.c_str() : "ok", o.detail.c_str());
        printf("  phases %d phase %d steps %lu checks %lu skipped %lu accesses %lu switches %lu preempt %lu decisions %lu hash %016lx %.3fs\n", o.phases, o.phase, o.nsteps, o.checks, o.skipped, o.st.steps, o.st.switches, o.st.preemptions, o.ndec, o.hash, now() - t); for (auto& p : o.probes) printf("  probe %s: %lu\n", p.first.c_str(), p.second); if (getenv("CFG")) printf("%s", c.text().c_str()); return o.bad;
    }
    if (a[0] == "sweep"){ // sweep PROP from n : print violations, for development
        uint64_t s0 = strtoull(a[2].c_str(), nullptr, 10), n = strtoull(a[3].c_str(), nullptr, 10); std::map<std::string, int> kinds; uint64_t steps = 0, checks = 0, skipped = 0; std::map<std::string, uint64_t> pr; double t = now(), worst = 0; uint64_t ws = 0; int herr = 0;
        for (uint64_t s = s0; s < s0 + n; s++){ Cfg c = gen(a[1], s, DIM, DEGREE); for (size_t i = 4; i < a.size(); i++){ size_t e = a[i].find('='); c.set(a[i].substr(0, e), strtod(a[i].c_str() + e + 1, nullptr)); } double t0 = now(); Outcome o = run_case(a[1], c); double dt = now() - t0; if (dt > worst){ worst = dt; ws = s; } herr += o.harness_error; steps += o.nsteps; checks += o.checks; skipped += o.skipped; for (auto& p : o.probes) pr[p.first] += p.second; if (o.bad){ if (kinds[o.kind]++ < 4) printf("seed %lu: %s %s\n", s, o.kind.c_str(), o.detail.c_str()); } }
        printf("%lu runs %.1fs, worst %.2fs (seed %lu), steps %lu checks %lu skipped %lu harness errors %d;", n, now() - t, worst, ws, steps, checks, skipped, herr); for (auto& k : kinds) printf(" %s=%d", k.first.c_str(), k.second); printf("\n  probes:"); for (auto& p : pr) printf(" [%s]=%lu", p.first.c_str(), p.second); printf("\n"); return !kinds.empty();
    }
    if (a[0] == "replay"){
        Replay r; if (!load(a[1], r)){ fprintf(stderr, "cannot read %s\n", a[1].c_str()); return 2; }
        Outcome o = run_case(r.prop, r.c, r.sched ? &r.ov : nullptr);
        if (r.kind == "not-repeatable" && !o.bad) for (int t = 0; t < 6 && !o.bad; t++){ Outcome o2 = run_case(r.prop, r.c); if (o2.hash != o.hash){ o.bad = true; o.kind = r.kind; o.detail = r.detail; o.hash = 0; } }
        printf("REPLAY property=%s %s kind=%s hash=%016lx %s\n", r.prop.c_str(), o.bad ? "VIOLATED" : "held", o.bad ? o.kind.c_str() : "-", o.hash, o.detail.c_str());
        if (o.harness_error) return 2; return o.bad ? (o.kind == r.kind ? 1 : 1) : 0;
    }
    if (a[0] == "work" && a.size() >= 8){
        std::string prop = a[1]; uint64_t s0 = strtoull(a[2].c_str(), nullptr, 10), stride = strtoull(a[3].c_str(), nullptr, 10); double secs = atof(a[4].c_str()); uint64_t maxruns = strtoull(a[5].c_str(), nullptr, 10); std::string out = a[6], rep = a[7]; double t0 = now();
        Outcome tot; uint64_t runs = 0, nontrivial = 0, rechecks = 0, mism = 0, herr = 0, conc = 0; std::set<uint64_t> inter, hashes, nth; const char* stopf = getenv("MATTER_DST_STOP"); std::map<std::string, uint64_t> pr; std::string vjson = "null"; std::vector<std::string> samples; std::map<std::string, uint64_t> strat;
        for (uint64_t s = s0; runs < maxruns && now() - t0 < secs && !(stopf && access(stopf, F_OK) == 0); s += stride){
            Cfg c = gen(prop, s, DIM, DEGREE); Outcome o = run_case(prop, c); runs++; if (o.harness_error) herr++; hashes.insert(o.hash); for (auto h : o.interleavings) inter.insert(h); if (o.checks > 0){ nontrivial++; nth.insert(o.hash); } if (c.threads > 1) conc++;
            tot.checks += o.checks; tot.skipped += o.skipped; tot.nsteps += o.nsteps; tot.simtime += o.simtime; tot.phases += o.phases; tot.ndec += o.ndec; for (auto& p : o.probes) pr[p.first] += p.second; const char* sn[] = {"run-to-completion", "random", "pct", "round-robin", "sync-points", "starvation", "mixed", "replay"}; strat[sn[(int)c.strategy]]++;
            auto& x = tot.st; auto& y = o.st; x.steps += y.steps; x.switches += y.switches; x.preemptions += y.preemptions; x.regions += y.regions; x.races_checked += y.races_checked; x.contended += y.contended; x.locks += y.locks; x.shortages += y.shortages; x.clock_jumps += y.clock_jumps; x.clock_reads += y.clock_reads; x.starved += y.starved; x.max_threads = std::max(x.max_threads, y.max_threads); auto& u = tot.os; auto& w = o.os; u.ops += w.ops; u.f_enospc += w.f_enospc; u.f_eio += w.f_eio; u.f_open += w.f_open; u.f_close += w.f_close; u.f_mkdir += w.f_mkdir; u.f_short += w.f_short; u.f_eintr += w.f_eintr;
            if (samples.size() < 4){ char b[300]; snprintf(b, sizeof b, "seed %lu (%dD, degree %d): %d particles, %d threads, strategy %s, plastic model %d, periodic %d, %lu steps, %lu checks, %lu scheduling decisions", s, DIM, DEGREE, (int)c.np, (int)c.threads, sn[(int)c.strategy], (int)c.plastic, (int)c.pbc, o.nsteps, o.checks, o.ndec); samples.push_back(b); }
            if (!o.bad && runs % 50 == 7){ rechecks++; Outcome o2 = run_case(prop, c); if (o2.hash != o.hash && prop == "C01"){ o.bad = true; o.kind = "not-repeatable"; o.detail = "two runs with the same setup, schedule, clock and fresh-memory contents differ"; } else if (o2.hash != o.hash){ mism++; fprintf(stderr, "nondeterminism: %s seed %lu hash %016lx vs %016lx\n", prop.c_str(), s, o.hash, o2.hash); } }
            if (o.bad){
                bool again = o.kind == "not-repeatable"; for (int t = 0; t < 5 && !again; t++){ Outcome o2 = run_case(prop, c); rechecks++; again = o2.bad && o2.kind == o.kind; if (o2.bad && !again){ o.kind = o2.kind; o.detail = o2.detail; } }
                if (!again){ mism++; fprintf(stderr, "nondeterminism: %s seed %lu violation %s not repeated\n", prop.c_str(), s, o.kind.c_str()); continue; }
                if (o.kind == "not-repeatable"){ Replay r; r.prop = prop; r.seed = s; r.c = c; r.kind = o.kind; r.detail = o.detail; save(rep, r); char b[400]; snprintf(b, sizeof b, "{\"seed\": %lu, \"kind\": \"%s\", \"phase\": 0, \"decisions\": 0, \"minimised_decisions\": 0, \"tries\": 0, \"replay\": \"", s, r.kind.c_str()); vjson = b + rep + "\", \"detail\": \"" + esc(r.detail) + "\"}"; break; }
                { Replay w; w.prop = prop; w.seed = s; w.c = c; w.kind = o.kind; w.detail = o.detail; save(rep + ".full", w); } // as found, before minimisation
                double until = now() + 25; int tries = 0; Cfg m = c; simplify(prop, m, o.kind, until, tries); Replay r; r.prop = prop; r.seed = s; r.c = m; Outcome f = run_case(prop, m); if (!f.bad || f.kind != o.kind){ m = c; r.c = c; f = run_case(prop, c); }
                r.kind = f.kind; r.detail = f.detail; size_t d0 = f.decisions.size(), d1 = d0;
                if (f.ndec <= MAXDEC && d0 > 0){ Override ov; ov.phase = f.phase; ov.dec = f.decisions; Outcome q = run_case(prop, m, &ov); tries++;
                    if (q.bad && q.kind == f.kind){ until = now() + 20; std::vector<rt::Decision> cur = ov.dec; size_t n = 2; // ddmin over scheduling decisions
                        { Override e; e.phase = ov.phase; Outcome z = run_case(prop, m, &e); if (z.bad && z.kind == f.kind) cur.clear(); }
                        while (cur.size() >= 1 && now() < until){ bool red = false; size_t chunk = std::max<size_t>(1, cur.size() / n); for (size_t i = 0; i < cur.size() && now() < until; i += chunk){ Override e; e.phase = ov.phase; e.dec = cur; e.dec.erase(e.dec.begin() + i, e.dec.begin() + std::min(cur.size(), i + chunk)); tries++; Outcome z = run_case(prop, m, &e); if (z.bad && z.kind == f.kind){ cur = e.dec; red = true; n = std::max<size_t>(2, n - 1); break; } } if (!red){ if (chunk == 1) break; n = std::min(cur.size(), n * 2); } }
                        ov.dec = cur; Outcome z = run_case(prop, m, &ov); if (z.bad && z.kind == f.kind){ r.ov = ov; r.sched = true; r.detail = z.detail; d1 = cur.size(); } } }
                save(rep, r); char b[400]; snprintf(b, sizeof b, "{\"seed\": %lu, \"kind\": \"%s\", \"phase\": %d, \"decisions\": %zu, \"minimised_decisions\": %zu, \"tries\": %d, \"replay\": \"", s, r.kind.c_str(), f.phase, d0, d1, tries); vjson = b + rep + "\", \"detail\": \"" + esc(r.detail) + "\"}"; break;
            }
        }
        std::ofstream f(out); f << "{\"property\": \"" << prop << "\", \"dim\": " << DIM << ", \"degree\": " << DEGREE << ", \"runs\": " << runs << ", \"phases\": " << tot.phases << ", \"wall_s\": " << now() - t0 << ", \"nontrivial\": " << nontrivial << ", \"distinct_nontrivial\": " << nth.size() << ", \"concurrent_runs\": " << conc << ", \"checks\": " << tot.checks << ", \"skipped\": " << tot.skipped << ", \"solver_steps\": " << tot.nsteps << ", \"simulated_time\": " << tot.simtime << ", \"accesses\": " << tot.st.steps << ", \"switches\": " << tot.st.switches << ", \"preemptions\": " << tot.st.preemptions << ", \"parallel_regions\": " << tot.st.regions << ", \"race_checks\": " << tot.st.races_checked << ", \"locks\": " << tot.st.locks << ", \"contended\": " << tot.st.contended << ", \"thread_shortages\": " << tot.st.shortages << ", \"starvations\": " << tot.st.starved << ", \"clock_reads\": " << tot.st.clock_reads << ", \"clock_jumps\": " << tot.st.clock_jumps << ", \"max_threads\": " << tot.st.max_threads
          << ", \"file_ops\": " << tot.os.ops << ", \"enospc\": " << tot.os.f_enospc << ", \"eio\": " << tot.os.f_eio << ", \"open_failures\": " << tot.os.f_open << ", \"close_failures\": " << tot.os.f_close << ", \"mkdir_failures\": " << tot.os.f_mkdir << ", \"short_writes\": " << tot.os.f_short << ", \"eintr\": " << tot.os.f_eintr << ", \"distinct_interleavings\": " << inter.size() << ", \"distinct_runs\": " << hashes.size() << ", \"determinism_rechecks\": " << rechecks << ", \"determinism_mismatches\": " << mism << ", \"harness_errors\": " << herr << ", \"strategies\": {";
        bool first = true; for (auto& p : strat){ f << (first ? "" : ", ") << "\"" << p.first << "\": " << p.second; first = false; } f << "}, \"probes\": {"; first = true; for (auto& p : pr){ f << (first ? "" : ", ") << "\"" << esc(p.first) << "\": " << p.second; first = false; } f << "}, \"samples\": ["; first = true; for (auto& q : samples){ f << (first ? "" : ", ") << "\"" << esc(q) << "\""; first = false; } f << "], \"violation\": " << vjson << "}\n";
        return vjson == "null" ? 0 : 1;
    }
    return 2;
}
