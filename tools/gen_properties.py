import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or ["public particle state after every step","hook observer (MATTER_DST)"]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
H="MATTER_DST step observer in src/simulation/simulation.{hpp,cpp}"
S="src/simulation/"
TEST="The three stable tests only query a VDB-file obstacle; no test runs the solver, threads or I/O at all."
prop("C01","Results do not depend on threads, scheduling, wall clock or logging",
 "For a given setup, the sequence of time steps and the state of every particle after every step are the same, up to floating-point summation round-off, whatever number of threads is requested or actually delivered, however those threads are interleaved and whatever the wall clock reads. Verbosity, saving frames and saving the grid are pure observers: switching them on or off changes nothing in the computed motion. Repeating the same run with the same schedule gives bit-identical results, so no result depends on uninitialised or stale memory.",
 ["schedules","configurations","inputs"],"all interleavings of the worker threads at memory-access granularity, thread counts 1..16, shortage of threads, clock jumps, verbosity/saving switches, all solver configurations",
 TEST+" Schedules are not controllable from a test.",
 [S+"p2g.cpp",S+"g2p.cpp",S+"musl.cpp",S+"pbc.cpp",S+"explicit_euler_update.cpp",S+"deformation_update.cpp",S+"position_update.cpp","src/timer.hpp"],
 [("thread-local grids merged in a critical section",S+"p2g.cpp, musl.cpp"),("loop over particles/nodes with disjoint writes",S+"g2p.cpp, explicit_euler_update.cpp, deformation_update.cpp, position_update.cpp")],
 hook=H)
prop("C02","No data races, memory errors or deadlocks under any thread schedule",
 "While a simulation is initialised, stepped and saved with several threads, no schedule lets two threads access the same simulation state without synchronisation when at least one of them writes it, and no access falls outside live allocated memory. No schedule deadlocks: every parallel phase completes, and the per-step progress report (number of yielding particles) counts every particle exactly once.",
 ["schedules","configurations","histories"],"all interleavings, all team sizes including more threads than particles, all combinations of transfer scheme, MUSL, periodic boundaries, material-induced friction, plasticity and saving",
 TEST,
 [S+"p2g.cpp",S+"g2p.cpp",S+"musl.cpp",S+"pbc.cpp",S+"deformation_update.cpp",S+"save_data.cpp",S+"remesh.cpp"],
 [("omp critical around shared grid accumulation",S+"p2g.cpp, musl.cpp"),("omp critical around ghost insertion",S+"pbc.cpp"),("reduction clauses on counters",S+"deformation_update.cpp, pbc.cpp")],
 observe=["every instrumented load/store of the solver"],hook=None)
prop("C03","Mass and particles are conserved",
 "Every particle present at the start is still present, at the same index and with finite state, after every step; no particle is ever lost, duplicated or reordered, and particle mass and volume never change. In every step the mass on the background grid is non-negative, each node carries exactly the B-spline-weighted share of the particles around it, and the grid total equals the number of particles times the particle mass.",
 ["schedules","histories","configurations","inputs"],"all particle distributions (clustered, sparse, far apart, single particle), all step histories, thread counts and schedules",
 TEST,
 [S+"p2g.cpp",S+"pbc.cpp",S+"remesh.cpp","src/tools.hpp"],
 [("partition of unity of the B-splines","src/tools.hpp"),("merge of thread-local mass",S+"p2g.cpp"),("ghost particles removed before the grid-to-particle phase",S+"pbc.cpp")],hook=H)
prop("C04","Momentum changes only through gravity and boundaries",
 "While no boundary is touched, the total linear momentum of the particles changes in each step by exactly total mass times the current gravity (including a linear gravity ramp) times the step size, whatever the internal stresses, material model, transfer scheme or MUSL setting. With the pure affine transfer the total angular momentum, including the affine part, changes only by the gravity torque.",
 ["schedules","histories","configurations","inputs"],"all stressed, yielding and moving particle clouds, all transfer schemes, both spline degrees, 2D and 3D, all schedules",
 TEST,
 [S+"p2g.cpp",S+"explicit_euler_update.cpp",S+"g2p.cpp",S+"musl.cpp",S+"position_update.cpp",S+"update_dt.cpp"],
 [("internal force is a divergence (sum of weight gradients is zero)",S+"p2g.cpp"),("same weights in both transfer directions",S+"p2g.cpp, g2p.cpp, musl.cpp")],hook=H)
prop("C05","Uniform and affine motion is reproduced exactly",
 "A stress-free body in uniform translation keeps exactly that velocity, stays undeformed and stress-free, and advances by velocity times step size; under gravity it falls as a rigid body. With an affine transfer scheme a body whose velocity field is affine is transferred to the grid and back without loss: the grid carries the affine field, and each particle gets back its velocity, its velocity gradient and the deformation (I + dt*gradient).",
 ["schedules","inputs","configurations","histories"],"all particle positions relative to the grid, velocities, transfer schemes, spline degrees, dimensions, MUSL, schedules",
 TEST,
 [S+"p2g.cpp",S+"g2p.cpp",S+"musl.cpp",S+"deformation_update.cpp",S+"position_update.cpp","src/tools.hpp"],
 [("consistent spline weights and gradients","src/tools.hpp"),("APIC affine matrix with the right inertia inverse",S+"p2g.cpp, simulation.cpp")],hook=H)
prop("C06","Time steps respect stability limits and frames land on time",
 "Every step size is positive and, unless floored at the configured minimum, at most cfl*dx/(largest particle speed) and cfl_elastic*dx/sqrt(E/rho), using the velocities at the beginning of that step; the simulated time is the sum of the steps, and no step is cut shorter than these limits and the next frame time require. Steps are cut so that frame k is completed at time k/fps exactly (within the configured minimum step), frames come in order without gaps, and the run always terminates after the requested number of frames, with a gravity ramp evaluated at the time of the step.",
 ["histories","configurations","inputs","schedules"],"all velocity histories (rest, fast, accelerating, jumping through zero), fps, CFL numbers, end frames, minimum steps, wall-clock jumps, thread schedules",
 TEST,
 [S+"update_dt.cpp",S+"simulation.cpp"],
 [("dt = min(CFL, elastic CFL, remaining frame time, remaining run time)",S+"update_dt.cpp"),("frame end test against min_dt",S+"simulation.cpp")],hook=H)
prop("C07","The adaptive grid always supports every particle on one fixed lattice",
 "In every step and for every particle the background grid contains every node whose interpolation kernel reaches that particle, exactly once, however particles spread, contract, drift or jump between steps. All nodes of all steps lie on one lattice of spacing dx fixed at the first step (through the lowest particle or the user's reference point; the periodic mode uses the fixed domain box instead), and the grid follows the particle bounding box instead of growing without bound.",
 ["histories","inputs","schedules","configurations"],"all particle motions, incl. displacements by exact multiples of dx, expansions and contractions on each axis independently, reference points, 2D/3D",
 TEST,
 [S+"remesh.cpp",S+"simulation.cpp"],
 [("initial bounding box with safety margin",S+"remesh.cpp remeshFixedInit"),("whole-cell expansion/reduction relative to the initial box",S+"remesh.cpp remeshFixedCont")],hook=H)
prop("C08","Rigid obstacles and moving plates enforce their contact conditions",
 "A grid node about to enter a rigid object or plate leaves the boundary step with the prescribed contact velocity relative to the obstacle: fully stuck for no-slip; no normal component for slip-stick; no approaching normal component for slip-free (separation allowed); and a tangential velocity reduced by Coulomb friction (obstacle coefficient, or, when material-induced friction is on, the local friction coefficient reported by the material model, starting from its rest value) along its own direction and never reversed. Nodes not in contact are unaffected, several obstacles act one after the other, and moving plates advance (position and extent) exactly by their prescribed velocity, scaled down during the configured slow-start phase.",
 ["histories","inputs","configurations","schedules"],"all plate types, boundary types, friction values, plate velocities and loading phases, obstacle combinations and approach directions, 2D/3D, all schedules",
 TEST,
 [S+"boundary_collision.cpp",S+"explicit_euler_update.cpp",S+"simulation.cpp","src/objects/object_plate.hpp","src/objects/object_general.hpp"],
 [("boundary collision on grid velocities",S+"boundary_collision.cpp"),("plate motion with load factor","src/objects/object_plate.hpp")],hook=H)
prop("C09","Periodic boundaries behave as an infinite periodic repetition",
 "With periodic boundaries on, every step gives the same result as the infinite x-periodic tiling of the particles would: material interacts across the two ends exactly as it does inside (mass, velocity, stress, friction), and a configuration shifted periodically by whole cells moves identically. Particles leaving one end re-enter at the other with all other state untouched, stay within [0, Lx], and the helper copies used internally leave no trace in the particle set.",
 ["schedules","histories","inputs","configurations"],"all particle distributions near and across the ends (incl. exactly on an end), velocities in both directions, transfer schemes, plasticity and friction options, schedules",
 TEST,
 [S+"pbc.cpp",S+"position_update.cpp",S+"remesh.cpp",S+"simulation.cpp"],
 [("ghost particles within four cells of each end",S+"pbc.cpp"),("wrap of x after advection",S+"position_update.cpp"),("fixed grid over the periodic cell",S+"remesh.cpp remeshFixed")],hook=H)
prop("C10","Stress stays admissible and plastic flow is consistent",
 "After every step each particle's stress satisfies its material's yield condition (or, for rate-dependent models, the model's overstress relation) with the current hardening state, a trial state inside the yield surface is left purely elastic, and a yielding one is returned without reversing its deviatoric direction. Accumulated deviatoric plastic strain never decreases, and the recorded plastic strain increments equal exactly the elastic strain removed by the return mapping. The internal friction coefficient (and viscosity) reported for a particle, where its model has one, is that of the model's own law at the returned stress and flow rate, and its rest value without plastic flow.",
 ["histories","inputs","configurations","schedules"],"all plastic models, hardening laws, material parameters, loading histories (compression, tension, shear, cyclic), step sizes and schedules",
 TEST,
 [S+"plasticity.cpp","src/plasticity_helpers/*.hpp",S+"g2p.cpp",S+"deformation_update.cpp"],
 [("return mapping per plastic model",S+"plasticity.cpp"),("MCC return mappings","src/plasticity_helpers")],hook=H)
prop("C11","Deformation follows the grid velocity; stress follows the elastic law",
 "In every step each particle's trial deformation gradient is its previous one advanced by the gradient of the new grid velocity at its position, (I + dt*grad v) F, and it is kept when no plastic flow occurs. The stress stored for every particle, including right after plastic flow, is always the Kirchhoff stress of the selected elastic law (Hencky or Neo-Hookean) for the stored elastic deformation: symmetric, zero for pure rotation, and rotating with the body.",
 ["histories","inputs","configurations","schedules"],"all deformation histories, elastic parameters, both elastic laws, MUSL on/off, schedules",
 TEST,
 [S+"g2p.cpp",S+"deformation_update.cpp",S+"musl.cpp",S+"plasticity.cpp",S+"simulation.hpp"],
 [("F update from interpolated velocity gradient",S+"g2p.cpp, deformation_update.cpp"),("stress from Hencky/Neo-Hookean law",S+"plasticity.cpp")],hook=H)
prop("C12","Saved output is complete and faithful to the simulation",
 "When a saving run completes normally, the output folder holds for every frame from 0 to the last one a complete particle file whose values are exactly the particle state at that frame's time (positions, velocities, pressure, deviatoric stress, elastic volume, and the plastic variables of the chosen model), and, if requested, a grid file for frames 1 to the last. The last-written marker names the last frame, and the info and timing files describe that run (frames, rate, cell size, particle count and volume; step count).",
 ["schedules","configurations","histories"],"all configurations and histories, schedules of the parallel part of saving, short writes and interrupted system calls, pre-existing output of an earlier run",
 TEST+" The saving code is not even compiled by the test build.",
 [S+"save_data.cpp",S+"simulation.cpp"],
 [("PLY writer over the live arrays",S+"save_data.cpp"),("save at every frame end",S+"simulation.cpp")],observe=["files in the output folder"],hook=H)
prop("C13","A crash never leaves the last-written marker ahead of complete data",
 "If the process dies at any instant, (the file system itself survives), then whenever the last-written marker in the output folder names frame k, the particle files of frames 0 to k are all complete, parseable and hold the values of that frame. A frame file that was already complete is not destroyed later in the same run, so a crash can only leave the newest, not yet announced frame incomplete; running the same setup again into the same folder afterwards completes normally and yields the same frames as an undisturbed run.",
 ["crash_points","schedules","histories"],"process death before, after or in the middle of every file operation, and between them, in every frame; rerun after the crash",
 TEST+" Crash points cannot be chosen by a test.",
 [S+"save_data.cpp",S+"simulation.cpp"],
 [("marker written after the frame file is closed",S+"save_data.cpp")],observe=["files in the output folder after the crash"],hook=H)
prop("C14","I/O failures are never silent and never corrupt announced output",
 "When a frame, its marker or the run's info files cannot be stored (disk full, I/O error, failing open or close), the run reports it and stops with its failure status set instead of continuing as if the frame existed; the last-written marker never announces a frame whose file is incomplete, and frames announced before remain intact. A failure to set up the output folder stops the run before the first step.",
 ["fault_sequences","schedules","histories"],"ENOSPC after any number of bytes, EIO on any write, failure of any open/close/mkdir, transient short writes and EINTR, at any frame",
 TEST,
 [S+"save_data.cpp",S+"simulation.cpp"],
 [("stream state check before the marker is written",S+"save_data.cpp"),("setup copy check",S+"simulation.cpp createDirectory")],observe=["failure status, files, stderr"],hook=H)
prop("C15","Invalid setups and fatal conditions stop the run",
 "A run that was not initialised, or combines a non-Hencky elastic law with plasticity, or has a plate of a type that does not exist in its dimension, performs no step and writes no frame. When any thread hits a fatal condition during a step (a return mapping that fails to converge, an inconsistent option, an invalid boundary type or constitutive model), the run ends with its failure status set at the end of that same step, without completing a frame or writing output for it, under every schedule.",
 ["schedules","configurations","histories"],"every fatal condition, raised by any particle or node on any thread at any step, with any schedule",
 TEST,
 [S+"simulation.cpp",S+"plasticity.cpp",S+"boundary_collision.cpp"],
 [("exit flag checked after every step",S+"simulation.cpp"),("exit flag set on fatal conditions",S+"plasticity.cpp, boundary_collision.cpp, plasticity_helpers")],hook=H)
prop("C16","Simulations in one process do not influence each other",
 "Several simulations created in one process, run one after another or at the same time from different threads, each behave exactly as if they were alone: no state is shared between them and none survives from an earlier one.",
 ["schedules","histories","configurations"],"two or more simulations with different configurations, interleaved at arbitrary points or run back to back",
 TEST,
 [S+"simulation.hpp",S+"*.cpp"],
 [("all state in members of the simulation object",S+"simulation.hpp")],hook=H)
prop("C17","Physics is independent of where and along which axis the problem is placed",
 "Translating the whole setup (particles, plates, reference point) by any vector translates every later state by the same vector and changes nothing else; without periodic boundaries, permuting the coordinate axes of the whole setup (particles, gravity, plates) permutes every later state in the same way. Reordering the particles only reorders the results.",
 ["inputs","configurations","schedules","histories"],"all setups, translations, axis permutations and particle orders, under all schedules",
 TEST,
 [S+"remesh.cpp",S+"p2g.cpp",S+"g2p.cpp",S+"boundary_collision.cpp",S+"update_dt.cpp",S+"position_update.cpp"],
 [("lattice tied to the particles, per-axis code identical",S+"remesh.cpp, p2g.cpp, g2p.cpp, boundary_collision.cpp")],hook=H)
prop("C20","Each step realises the documented material-point update",
 "Every step maps the previous particle state, step size, gravity and obstacles to the new one exactly as the documented scheme prescribes: particles are advected with the grid velocity interpolated at their old position, and their velocity is the chosen blend of interpolated velocity and velocity increment (PIC, FLIP, APIC or AFLIP) of the grid after forces, gravity and boundary conditions. The affine matrix is rebuilt from that same grid velocity for the affine schemes and is never used by the others, and the modified update-stress-last option only changes the velocity gradient that drives the deformation.",
 ["histories","inputs","configurations","schedules"],"all particle states, transfer schemes and blend ratios, spline degrees, 2D/3D, MUSL, periodic boundaries, obstacles, material models and thread schedules",
 TEST,
 [S+"p2g.cpp",S+"explicit_euler_update.cpp",S+"g2p.cpp",S+"musl.cpp",S+"position_update.cpp",S+"simulation.cpp"],
 [("transfer to the grid with mass weights, affine term and stress divergence",S+"p2g.cpp"),("velocity blend and affine matrix",S+"g2p.cpp"),("advection with the interpolated velocity",S+"position_update.cpp")],hook=H)
prop("C18","Obstacle geometry queries are correct",
 "For each obstacle shape, the inside test and the outward unit normal agree with the shape's documented surface at every point.",
 ["inputs"],"all points","Pure functions of a point; sampled only for one VDB file today.",
 ["src/objects/*.hpp"],[("analytic level functions","src/objects")],observe=["return values"])
prop("C19","Sampled particles fill the requested region at the requested density",
 "Sampling fills exactly the requested box or VDB region with particles no closer than the sampling distance, and total particle volume equals the region volume.",
 ["inputs"],"all boxes, distances and seeds","Pure function of its input; its Poisson-disk dependency is not present in the sandbox.",
 ["src/sampling/*"],[("Poisson disk sampling","src/sampling")],observe=["particle positions"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(p)+"\n" for p in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in P: jsonschema.validate(p,sch); 
print(len(P))
