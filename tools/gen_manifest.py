import json
T="deterministic simulation: seeded schedules over the real solver"
C={
"C01":("lockstep twin (serial, silent) on the same input under a different schedule","Every step of a multi-threaded run under a sampled interleaving is compared with a serial twin; fresh memory is filled with seed-dependent garbage and repeated runs must hash identically."),
"C02":("happens-before race detection, checked heap and progress budget under sampled schedules","Every instrumented load/store of the solver is checked against a vector-clock race detector and a heap with red zones; deadlock and livelock are detected by the scheduler."),
"C03":("per-step conservation monitor and independent P2G reference under sampled schedules","Grid mass is compared node by node with an independent spline transfer and particle identity with the state before the step."),
"C04":("momentum history check under sampled schedules","Total linear (and for pure affine transfer angular) momentum is balanced in every step."),
"C05":("exact-solution oracle under sampled schedules","Uniform and affine fields must be reproduced."),
"C06":("timing history checked against the documented step rule, with clock jumps injected","Every step size, frame time and the termination of every run are judged against a specification of the step rule."),
"C07":("grid-support monitor over adversarial motion histories","Every step's grid is compared with one lattice and with the kernel supports of all particles; histories include teleported particles and whole-cell displacements."),
"C08":("contact-law reference per grid node, under sampled schedules and plate histories","Post-boundary node velocities and plate kinematics are compared with an independent contact law and independent obstacle geometry."),
"C09":("refinement against a modular (truly periodic) reference step","Each periodic step is compared with a reference that works modulo the domain length; no ghost particles exist in it."),
"C10":("return-mapping oracle on every particle and step","Yield condition, overstress relation, coaxiality and plastic-strain bookkeeping of every particle are judged independently; solver tolerances of iterative models are honoured."),
"C11":("refinement against reference deformation update and elastic law","F and stress of every particle are recomputed independently."),
"C12":("file contents compared with the recorded history, with short writes and EINTR injected","After each complete run all files are parsed independently and compared with state captured at the frame times."),
"C13":("process death at sampled file operations, then inspection and rerun","Crash before, after or inside any file operation; only what reached the file system survives; then the run is repeated in the same folder (sometimes crashing again)."),
"C14":("I/O fault injection at sampled operations","ENOSPC, EIO, failing open/close/mkdir, short writes and EINTR; failure status, messages and surviving files are judged."),
"C15":("fatal conditions raised on sampled threads and steps","Invalid set-ups and mid-run fatal conditions under sampled schedules; no later step or frame may follow."),
"C16":("several simulations interleaved or back to back versus alone","Two simulations are interleaved by the scheduler at memory-access granularity (or run one after another) and compared bit by bit with running alone."),
"C17":("lockstep twin of the transformed problem","Translated, axis-permuted or reordered twin is stepped in lockstep and compared after every step."),
"C20":("refinement against an independent serial reference step","Each step of the real solver is compared with an executable specification of the update."),
}
fi={"C13","C14"}
checks=[{"property":k,"quick_cmd":"python3 check.py %s quick"%k,"thorough_cmd":"python3 check.py %s thorough"%k,"technique":"deterministic simulation with fault injection: "+v[0],"level":"fault_enumeration" if k in fi else "exploration",
 "level_note":v[1]+" Sampled, not exhaustive. Trusted: the simulator in dst/ (fiber OpenMP runtime, reference step, tinyply stand-in)."} for k,v in sorted(C.items())]
m={"version":1,"setup_cmd":"python3 build.py","hooks":{"guard":"MATTER_DST","enable":"build.py compiles /repo/src with -DMATTER_DST (and -DMATTER_DST_SPLINEDEG=2|3)","source_commits":["18c767a"]},
"checks":checks,"not_applicable":[
{"property":"C18","reason":"Obstacle inside/normal queries are pure functions of a point: no schedule, clock, I/O, fault or history for a simulator to decide. (The contact law that uses them is C08, whose oracle carries its own geometry.)"},
{"property":"C19","reason":"Sampling is a pure function of its arguments; its Poisson-disk dependency is not installed, so it cannot be run here, and there is no schedule or fault in it."}],
"notes":"18 checks share one simulator (dst/), rebuilt from /repo's working tree by build.py; see DESIGN.md. Replay a violation with ./replay.sh FILE."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
import jsonschema; jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json'))); print("ok")
