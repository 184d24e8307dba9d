#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: rebuild the simulator from /repo's working tree, search seeds, judge, write evidence.
Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken (reproduced in a fresh process). Exit 2: error of the check."""
import json, os, re, subprocess, sys, time, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import build as B
RULE = ("A case is one seeded run description (body, material, scheme, obstacles, boundary mode, team size, scheduling strategy, fault plan) executed by the real solver inside the "
        "deterministic runtime. Non-trivial: at least one oracle comparison was made in it. Distinct: its execution hash (scheduling decisions, access count, state trace, outcome) is new.")
STUB = {"real": ["every file of src/simulation", "src/objects (plates, analytic obstacles)", "src/plasticity_helpers", "src/data_structures.hpp", "src/tools.hpp", "src/timer.hpp", "libstdc++ streams and filesystem"],
        "simulated": ["libgomp (teams, static/dynamic loops, critical, barrier, single, locks: fibers under the seeded scheduler)", "wall clock", "malloc/free (checked heap with poisoned fresh memory)", "open/write/close/mkdir/rename results and process death (fault layer over a scratch directory)"],
        "stub": ["tinyply (its interface reimplemented in dst/shim because the dependency is not installed; written through real std::ofstream)"]}

def findings():
    out = []
    p = HERE + "/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) kind=(\S+) match=/(.*)/ (.*)", l.strip())
            if m: out.append(m.groups())
    return out

def symbolise(binary, text):
    pcs = sorted(set(re.findall(r"0x[0-9a-f]{5,}", text)))
    for pc in pcs[:8]:
        try: r = subprocess.run(["addr2line", "-C", "-f", "-e", binary, pc], capture_output=True, text=True, timeout=20).stdout.split("\n")
        except Exception: continue
        if len(r) > 1 and not r[1].startswith("??"): text = text.replace(pc, "%s (%s)" % (pc, r[1].replace("/repo/", "")))
    return text

def main():
    prop = sys.argv[1]; tier = (sys.argv[2] if len(sys.argv) > 2 else None) or os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    secs = float(os.environ.get("MATTER_DST_SECONDS", "50" if tier == "quick" else "1500")); t0 = time.time()
    os.makedirs(HERE + "/evidence", exist_ok=True); os.makedirs(HERE + "/replays", exist_ok=True)
    try: bins = B.build()
    except RuntimeError as e: print("check error: the simulator does not build from the current tree\n" + str(e)); return 2
    tb = time.time() - t0; per = max(1, (os.cpu_count() or 8) // 4); work = "%s/build/work-%s-%d" % (HERE, prop, os.getpid()); os.makedirs(work); stop = work + "/stop"; env = dict(os.environ, MATTER_DST_STOP=stop)
    base = (seed & 0xffffffff) * 100000000 + 1; ps = []
    try:
        for v, b in bins.items():
            for w in range(per):
                o = "%s/%s.%d" % (work, v, w); ps.append((v, b, o, subprocess.Popen([b, "work", prop, str(base + w), str(per), str(secs), "1000000000", o + ".json", o + ".replay"], stdout=subprocess.DEVNULL, stderr=open(o + ".err", "w"), env=env)))
        dead = time.time() + secs + 240
        while any(p.poll() is None for *_, p in ps):
            if any(p.poll() == 1 for *_, p in ps): open(stop, "w").close()
            if time.time() > dead:
                for *_, p in ps: p.kill()
                break
            time.sleep(0.2)
        res, err, nondet = [], [], 0
        for v, b, o, p in ps:
            txt = open(o + ".err").read()
            if os.path.exists(o + ".json"): r = json.load(open(o + ".json")); r["variant"] = v; r["bin"] = b; res.append(r)
            elif p.poll() not in (0, 1): err.append("worker %s ended with %s %s" % (o, p.poll(), txt[-300:]))
            if txt.strip(): sys.stderr.write(txt[-1500:])
        known = findings(); viol = None; seen = {}
        for r in res:
            x = r["violation"]
            if not x: continue
            k = next((f for f in known if f[0] == prop and f[1] == x["kind"] and re.search(f[2], x["detail"])), None)
            if k: seen[k[3]] = seen.get(k[3], 0) + 1; continue
            rp = [subprocess.run([r["bin"], "replay", x["replay"]], capture_output=True, text=True) for _ in range(2)] # fresh process, twice
            if rp[0].stdout != rp[1].stdout: # only code that reads memory the simulator does not control (uninitialised stack) can do that
                rp += [subprocess.run([r["bin"], "replay", x["replay"]], capture_output=True, text=True) for _ in range(4)]; sys.stderr.write("replays differ:\n%s" % "".join(q.stdout for q in rp))
            if not any(q.returncode == 1 for q in rp) and os.path.exists(x["replay"] + ".full"): # the minimised case depends on the process it ran in: report the case as found
                sys.stderr.write("minimised case of seed %s did not replay, trying it as found\n" % x["seed"]); rp = [subprocess.run([r["bin"], "replay", x["replay"] + ".full"], capture_output=True, text=True) for _ in range(2)]
                if any(q.returncode == 1 for q in rp): x["replay"] += ".full"; x["minimised_decisions"] = x["decisions"]
            if any(q.returncode == 1 for q in rp): viol = (r, x) if viol is None or x["minimised_decisions"] < viol[1]["minimised_decisions"] else viol
            else: err.append("violation of seed %s (%s) did not replay: %s" % (x["seed"], x["kind"], rp[0].stdout.strip()))
        for f in known:
            if f[0] == prop: print("KNOWN-FINDING: property=%s %s" % (prop, f[3]))
        tot = lambda k: sum(r[k] for r in res)
        def merged(k):
            d = {}
            for r in res:
                for n, c in r[k].items(): d[n] = d.get(n, 0) + c
            return dict(sorted(d.items()))
        sw = max([r["wall_s"] for r in res] or [0]); nond = tot("determinism_mismatches"); herr = tot("harness_errors"); os_ = ["enospc", "eio", "open_failures", "close_failures", "mkdir_failures", "short_writes", "eintr"]
        probes = merged("probes")
        cov = {"evaluations": tot("runs"), "distinct_nontrivial": tot("distinct_nontrivial"), "rule": RULE, "samples": [s for r in res for s in r["samples"][:2]][:12],
               "oracle_comparisons": tot("checks"), "comparisons_skipped_as_ill_conditioned": tot("skipped"), "simulated_processes": tot("phases"), "solver_steps": tot("solver_steps"), "simulated_seconds": tot("simulated_time"),
               "runs_per_hour": round(tot("runs") / max(sw, 1e-3) * 3600), "seeds_per_hour": round(tot("runs") / max(sw, 1e-3) * 3600), "runs_by_variant": {r2: sum(r["runs"] for r in res if r["variant"] == r2) for r2 in bins},
               "schedule": {"distinct_interleavings": tot("distinct_interleavings"), "measure": "distinct hashes of the sequence of (access index, fiber) scheduling decisions of a multi-threaded simulated process", "multi_threaded_runs": tot("concurrent_runs"), "context_switches": tot("switches"), "preemptions_at_memory_accesses": tot("preemptions"), "parallel_regions": tot("parallel_regions"), "instrumented_accesses": tot("accesses"), "race_checks": tot("race_checks"), "lock_acquisitions": tot("locks"), "contended": tot("contended"), "largest_team": max([r["max_threads"] for r in res] or [0]), "strategies": merged("strategies")},
               "faults_injected": dict({"thread_shortage": tot("thread_shortages"), "thread_starvation": tot("starvations"), "clock_jump": tot("clock_jumps"), "process_crash": sum(probes.get(k, 0) for k in ("crash before operation", "crash after operation", "crash inside write", "crash during rerun"))}, **{k: tot(k) for k in os_}),
               "file_operations": tot("file_ops"), "reached": probes, "determinism": {"runs_repeated": tot("determinism_rechecks"), "mismatches": nond}, "harness_errors": herr, "components": STUB, "build_s": round(tb, 1)}
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration" if prop not in ("C13", "C14") else "fault_enumeration", "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0,
              "assumptions": ["interleavings are sampled, not enumerated", "sequentially consistent memory; weak-memory effects are covered only through the happens-before race check", "compiled with gcc -O2 and access instrumentation, not the shipped -O3 -march=native flags"]}
        json.dump(ev, open("%s/evidence/%s.json" % (HERE, prop), "w"), indent=1)
        print("%s %s: %d runs (%d distinct non-trivial), %d comparisons, %d interleavings, %.0f s" % (prop, tier, cov["evaluations"], cov["distinct_nontrivial"], cov["oracle_comparisons"], cov["schedule"]["distinct_interleavings"], time.time() - t0))
        if viol:
            r, x = viol; dst = "%s/replays/%s-%s-%s.replay" % (HERE, prop, r["variant"], x["seed"]); shutil.copy(x["replay"], dst)
            print("violated: %s (%s, seed %s, %d scheduling decisions minimised to %d): %s" % (x["kind"], r["variant"], x["seed"], x["decisions"], x["minimised_decisions"], symbolise(r["bin"], x["detail"])))
            print("replay with: %s/replay.sh %s" % (HERE, dst)); print("VIOLATION property=%s replay=%s" % (prop, dst)); return 1
        if err or nond or not res or (herr > 0 and herr * 20 > cov["evaluations"]): print("check error: %s; %d runs not repeatable; %d harness errors" % ("; ".join(err), nond, herr)); return 2
        return 0
    finally:
        for *_, p in ps:
            if p.poll() is None: p.kill()
        shutil.rmtree(work, ignore_errors=True)

try: rc = main()
except Exception: # never exit 1 without a violation
    import traceback; traceback.print_exc(); print("check error: internal error"); rc = 2
sys.exit(rc)
