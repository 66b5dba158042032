import json, os, glob
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
D = {}
D['C01'] = ("random closed electrodes (spheres, blobs, rods, rings, boxes, ellipses; scales 0.1–2 m) with fixed voltages, voltage functions and *manufactured* voltages: a harmonic function whose sources are hidden inside the electrodes is prescribed on them, so the exterior solution is known in closed form; regular harmonics give the interior one. A residual monitor re-integrates the charges the solver reports with an independent quadrature and compares with the prescribed voltage at every element centre.",
 "exact for the manufactured solutions; tolerance set by element size (the tolerance of the residual monitor is discretisation-free, 1e-5…1e-3)", "about 25 s")
D['C02'] = ("solved radial, 3D, magnetic, interpolated and summed fields at scales 10 µm–2 m; a finite-difference monitor compares the field with minus the gradient of the potential, and checks divergence, curl, rotation about the axis, the vanishing azimuthal component, and the linear rise of the radial component next to the axis (1e-15…4e-3 of the geometry).",
 "fields made by charges have a scalar potential, fields of coils have not and are judged by divergence and curl only", "about 8 s")
D['C03'] = ("worlds of several electrodes and coils are solved under two excitations and their combination; every operator expression (17 of them, both operand orders, integers and floats, other geometry, same geometry, *equal geometry somewhere else*) is compared pointwise with the combination of readings; `solve_direct_superposition` is compared with `solve_direct` of the weighted sum and with one-volt excitations; operands are fingerprinted.",
 "relative 1e-9 for arithmetic, 1e-7 for solves", "about 17 s")
D['C04'] = ("metamorphic pairs: renamed, split, permuted, reversed, re-added, moved, rotated, mirrored, scaled (1 µm–300 m) geometries, electrostatic, dielectric and magnetic, and a radial geometry against its revolution in 3D.",
 "1e-7 radial, 2e-5 in 3D (near and far quadrature differ), 4 % for radial against 3D", "about 9 s")
D['C05'] = ("the flux of the evaluated field through spheres, cylinders and boxes around any subset of bodies is integrated and compared with the charge accessors; areas with exact areas; mutual capacitance matrices for symmetry and sign; net charge of dielectrics.",
 "error estimate of the flux from two quadrature orders; capacitances calibrated to the discretisation with 8x margin", "about 15 s")
D['C06'] = ("analytic dielectric/magnetic spheres in Legendre modes; probes extrapolated to both sides of the surface for jump conditions; boundary walls (tubes, cones, disks, boxes; whole and in several pieces each drawn in its own direction) between electrodes with a closed-form potential; duality electric/magnetic; limits of the constant.",
 "closed bodies that do not touch; tolerance from element size", "about 6 s")
D['C07'] = ("coils of every cross section against Biot–Savart with elliptic integrals over the exact cross section, Ampère's law around closed loops, the axial potential and its derivatives, coils next to magnetizable bodies and potentials (interface conditions and the reluctance of the iron).",
 "disks are polygons after meshing", "about 15 s")
D['C08'] = ("axial derivatives up to order nine against Legendre-polynomial derivatives integrated over the cubic elements with an own quadrature; the radial series against the field it approximates with a computed truncation bound; the 3D series against its definition; ends, nodes, outside, defaults.",
 "samples a fraction of the distance to the nearest source apart", "about 20 s")
D['C09'] = ("traces of every tracer class against DOP853 started anew at compared rows; closed forms (parabola, helix, drift, oscillation) and motion along one axis at a time; energy; time reversal; error shrinks with tolerance. Sizes from 0.1 mm up, because steps are capped at one centimetre and only small geometries show the step-size control at work.",
 "allowed error: tolerance x steps x measured amplification of perturbations; chaotic trajectories are skipped and counted", "about 15 s")
D['C10'] = ("every tracer class with boxes left through every face, starts inside/on/outside; drifts of up to 3.5e5 rows ending around block edges; field bounds of radial, 3D and summed fields; monitors on first row, time stamps, every position, last row, dtype and shape.",
 "on the bound counts as inside; steps that jump over the field bounds see no field", "about 20 s")
D['C11'] = ("random polylines and real traces with none to many crossings and vertices exactly on the plane; every reported crossing is located again on the segments in exact order of definition; focus against a least-squares solution computed independently.",
 "polylines that only touch the plane are excluded", "about 8 s")
D['C12'] = ("random programs of 3–12 path operations run next to an independent piecewise model (scales 1e-6–1e3); each intermediate path is compared: length, points, breakpoints, ends, closedness, names, averages.",
 "splines and irregular functions within their sampling accuracy; unit-speed is judged by a step large enough for rounding", "about 15 s")
D['C13'] = ("revolutions, extrusions, spans, boundaries, primitives, collections and enclosed shapes against the set of points their construction describes; enclosed constructions against their volume and free edges; nearly full turns included.",
 "parametrisation along revolutions is free except for direction, ends and range", "about 18 s")
D['C14'] = ("every element of meshes of random paths and surfaces: on the path, in order, covering it, no longer than asked, nodes at breakpoints, curved elements at thirds; surfaces: vertices on the surface, coverage, element size, breakpoint lines, factor semantics, merging of points, groups.",
 "hanging nodes are allowed; no area claim for surfaces folded on themselves or paths touching themselves", "about 25 s")
D['C15'] = ("random programs of mesh operations and file formats next to a model holding elements as plain coordinates; after every operation elements, groups, degenerate elements and types are compared.",
 "file formats only for what they can store", "about 15 s")
D['C16'] = ("closed surfaces and profiles with every element randomly reversed; every normal is compared with the known outward direction (parity of ray crossings for nested shells); inward, flip, transforms, reading files, several components and other groups.",
 "components of a group do not touch; open surfaces claim nothing", "about 12 s")
D['C17'] = ("`split_collect` under injected delays and failures is observed chunk by chunk (every row once, exceptions delivered); solves with 1…N+40 threads against one thread; concurrent solves, evaluations and traces on a ThreadSanitizer build.",
 "TSan sees the native backend only", "about 40 s")
D['C18'] = ("the workloads of all other properties and hostile ones on an ASan+UBSan build with poisoned heap and stack; any report, dead process or NaN where a number is due is a violation.",
 "C `assert`s are off as in the production build; values are judged elsewhere", "about 100 s")
D['C19'] = ("sessions of random public operations, each repeated, while every object alive is fingerprinted bitwise around each operation; arrays handed in or out are scribbled over; inputs in every layout, type and order; whole sessions repeated with another hash seed in a new process.",
 "documented in-place operations are listed in the module; repeated results equal to 1e-9", "about 26 s")
D['C20'] = ("elliptic integrals, ring kernels, Triangle and line-element integrals over their whole domain against defining integrals in extended precision (AGM, trapezoid sums over the ring, Gauss rules).",
 "cancellation intrinsic to closed forms allowed; targets of adaptive quadrature restricted to convergent integrals", "about 25 s")
D['C21'] = ("velocity helpers for 1e-9–1e9 eV and directions 1e-100–1e100; random sequences of valid and invalid excitation calls run next to a model; what is reported, active and solved is compared after every call.",
 "invalid values must be rejected when added or when solved; overlapping groups unspecified", "about 15 s")
D['C22'] = ("figures are read back (geometry, colours, scalars, legends, normals, limits) and compared with the object plotted; show() runs against a recording stand-in, and the axes of a figure do not depend on the order of its meshes; log messages at every level.",
 "single precision coordinates of vedo; normals of lines in the xz plane only", "about 20 s")
caught = {}
if os.path.exists('/tmp/caught.json'):
    caught = json.load(open('/tmp/caught.json'))
o = []
w = o.append
w('''# Runtime monitoring of leon-vv/Traceon

Every property in `properties.jsonl` is decided by running the real package under generated workloads while monitors watch; none is left to
another technique and `not_applicable` is empty. The C backend of the working tree is compiled anew for every check, in up to three variants.

## Machinery

| part | what it does |
|---|---|
| `mon/stage.py` | copies `/repo`'s tracked working tree to a scratch folder and compiles the backend: `prod` (the flags of `setup.py`), `asan` (ASan + UBSan, poisoned heap and stack), `tsan`. No hooks in `/repo` are needed: observation is through the public interface and by wrapping functions of the staged package in the worker, so `hooks` is empty. |
| `mon/check.py` | runs the cases of one property in 8 worker processes; watches for dead and stuck workers; judges; writes `evidence/<id>.json` and replay files. `check.py C05 --replay FILE` repeats one case. |
| `mon/worker.py` | `Ctx`: monitors (`close`, `check`, `raises`), counters of oracle evaluations per monitor, states, events, non-trivial executions. Random numbers come from (seed, property, case). |
| `mon/lib.py`, `mon/fields.py` | generators of electrodes, coils, meshes, solved fields; closed-form potentials; finite differences; quadrature. |
| `mon/props/cNN.py` | one module per property: `cases(tier, seed)`, `run_case(ctx, case)`, `RULE`, `ASSUMPTIONS`, `REQUIRED`. |
| `tools/plant.py` | makes, verifies and runs planted bugs (not used by checks). |

Verdicts. 0: every monitor evaluation held *and* every monitor in `REQUIRED` was evaluated at least so often (a workload that no longer reaches its
monitors does not count as held). 1: a violation, printed with a replay file. 2: inconclusive — a case ran out of its time, a worker died by memory
shortage, monitors not reached. An exception raised by the package where the workload expects a value is a violation. Wall-clock limits only ever lead to 2.

Evidence: for each run the number of cases, evaluations per monitor with the worst ratio of error to tolerance, distinct states and non-trivial executions (hashes),
events seen (rows traced, threads overlapping, sanitizer variants), assumptions, seed and tier.

Quick tiers take 5–110 s each on 8 cores; thorough tiers run roughly ten times the cases with the same monitors.
Both tiers draw from the seed, so different seeds are different workloads; the tolerances were tuned on the unchanged tree over tens of seeds
such that the worst observed ratio stays below about 0.7, and every monitor was kept only if a change of the code can trip it (see the table of planted bugs).

## Properties
''')
for p in props:
    i = p['id']
    d = D[i]
    w(f"### {i} {p['title']}\n")
    w(f"*Monitored:* {d[0]}\n")
    w(f"*Bounds and tolerance:* {d[1]}. *Cost:* {d[2]} (quick).\n")
    w(f"*Beyond the tests:* {p['why_tests_cant']}\n")
w(open('/verif/tools/design_tail.md').read())
w('| bug | property | needs | found by |\n|---|---|---|---|')
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(d)); i = d.split('/')[-2]
    w(f"| {i} | {m['property']} | {m['needs']} | {caught.get(i, m['property'])} |")
w('')
open('/verif/DESIGN.md', 'w').write('\n'.join(o))
