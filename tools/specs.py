"""What each check runs: harness parts (file, method variant, build mode, number of cases per tier) and fuzz targets."""
ALL2D = ["noHS", "noHL", "noECS", "noDS", "noSPP", "uBLAS", "standard", "GC", "GCnoSPP", "GCnomid", "explicit", "explicitnoSPP", "central"]
ALL3D = ["3D", "3DGC", "3DnoSPP", "3DnoHL", "3Dexplicit"]


def part(variant="default", quick=2000, thorough=20000, **kw):
    return dict(dict(variant=variant, quick=quick, thorough=thorough), **kw)


STATE = ("A case is a scene (parameters, arrangement, types, velocities, pressures, domain, wall motion) and a sequence of operations, "
         "drawn from a seeded choice sequence; sizes are relative to spacing and step. ")
GENERAL = ["particles do not coincide (closest pair >= 0.4 spacing unless a check says otherwise)",
           "values within 1e-8 (relative) of a threshold of the method are not decided and counted as discarded"]

def parts(main, **others):
    """main=(variant, quick, thorough); others: variant=(quick, thorough)"""
    out = [part(main[0], main[1], main[2])]
    for v, (q, t) in others.items():
        out.append(part(v.lstrip("_"), q, t, **({} if q else {"thorough_only": True})))
    return out


ARCHER = "/usr/lib/llvm-18/lib/libarcher.so"
OMP_ENV = {"OMP_NUM_THREADS": "4", "OMP_WAIT_POLICY": "passive", "OMP_DYNAMIC": "false"}
TSAN_ENV = dict(OMP_ENV, OMP_TOOL_LIBRARIES=ARCHER, TSAN_OPTIONS="ignore_noninstrumented_modules=1:halt_on_error=1:exitcode=66")

OMP2_ENV = {"OMP_NUM_THREADS": "2", "OMP_WAIT_POLICY": "passive", "OMP_DYNAMIC": "false"}


def openmp(q, t, variant="default"):
    """the same check on the code compiled with OpenMP (two threads, sanitized)"""
    return part(variant, q, t, mode="sanomp", name="OpenMP" + ("" if variant == "default" else "-" + variant), env=OMP2_ENV, shards=5, cpu=60)


def wide(k, variant="default", q=16, t=120):
    """scenes of up to 70000 particles made of copies of a small one"""
    return part(variant, q, t, file="wide", name="wide" + ("" if variant == "default" else "-" + variant), extra=("-DWIDE=%d" % k,), cpu=300, shrink=60)


SPECS = {
    "C01": dict(
        parts=parts(("default", 12000, 150000), _3D=(5000, 60000), explicit=(3000, 30000), standard=(1500, 20000)) + [openmp(1500, 15000), openmp(500, 5000, "3D")] + [wide(1)],
        fuzz=[dict(variant="default", seconds=200), dict(variant="3D", seconds=100)],
        rule="A case is a set of particles placed relative to the block lattice (edges, corners, first/last rows, boundary of range), a domain and a history of searches; "
             "neighbour lists are compared with an all-pairs search and grid iteration with the stored contents. Non-trivial: more pairs in range than particles and the grid was iterated, or a search inside a space found two pairs or more.",
        assumptions=GENERAL),
    "C02": dict(
        parts=parts(("default", 8000, 100000), _3D=(3000, 40000), noSPP=(3000, 30000), explicit=(3000, 30000), standard=(2000, 20000)) + [openmp(800, 8000)],
        fuzz=[dict(variant="default", seconds=200)],
        rule=STATE + "Particles are put on, next to and far beyond the domain corners, up to infinities; types are compared with the rule. Non-trivial: some particle left the domain and some other stayed.",
        assumptions=GENERAL + ["between the maximum corner and the last search block (at most three neighbour distances) either type is accepted"]),
    "C03": dict(
        parts=parts(("default", 3000, 40000), noSPP=(2000, 20000), explicit=(2000, 20000), _3D=(1500, 20000), standard=(1500, 20000), _3DnoSPP=(800, 10000), GC=(1000, 10000), uBLAS=(1000, 10000)) + [openmp(600, 6000)] + [wide(3), wide(3, "explicit")],
        rule=STATE + "The same history is run with the disabled particles removed. Non-trivial: the scene holds a disabled and an enabled particle.",
        assumptions=GENERAL),
    "C04": dict(
        parts=parts(("default", 8000, 100000), _3D=(3000, 40000), explicit=(3000, 30000)) + [openmp(2500, 20000), openmp(800, 8000, "3D")],
        fuzz=[dict(variant="default", seconds=200)],
        rule="A case is a grid (spacing, neighbour distance, domain) and a sequence of stores and clears, concentrated on few blocks; a map from blocks to contents is the model. "
             "Non-trivial: a block was filled to its limit, the grid was cleared after more than 10 stores, or a dense lattice or block was stepped.",
        assumptions=["after a refused store the contents of that one block are not looked at"]),
    "C05": dict(
        parts=parts(("default", 5000, 60000), _3D=(2500, 30000), noSPP=(3000, 30000), explicit=(3000, 30000), _3DnoSPP=(1500, 15000), noHS=(1000, 10000), explicitnoSPP=(1500, 15000)) + [openmp(800, 8000)] + [wide(5)],
        fuzz=[dict(variant="default", seconds=150)],
        rule=STATE + "Densities are compared with the direct sum. Non-trivial: more than two pairs in range (or, for the weight function, a distance inside the radius).", assumptions=GENERAL),
    "C06": dict(
        parts=parts(("default", 5000, 60000), _3D=(2500, 30000), noSPP=(2500, 25000), explicit=(2500, 25000), standard=(2000, 20000), _3DnoSPP=(1000, 10000)),
        rule=STATE + "Pairs are placed so that they enter the influence radius within the step. Non-trivial: a pair crossed the radius during the step.", assumptions=GENERAL),
    "C07": dict(
        parts=parts(("default", 8000, 100000), standard=(4000, 40000), _3D=(4000, 40000), explicit=(6000, 60000), central=(2000, 20000), noSPP=(2000, 20000), noHL=(3000, 30000), _3DnoHL=(2000, 20000), explicitnoSPP=(1500, 15000), _3Dexplicit=(1500, 15000), _3Dcentral=(1000, 10000)),
        rule="A case is a parameter set over many orders of magnitude; every derived value is compared with its definition. Every case is non-trivial.", assumptions=[]),
    "C08": dict(
        parts=parts(("default", 5000, 60000), _3D=(2000, 25000), explicit=(2500, 25000), standard=(2500, 25000), noSPP=(2000, 20000), uBLAS=(1000, 10000), GC=(1000, 10000)) + [openmp(500, 5000)],
        rule=STATE + "Clock and step size are compared with a model after each automatic or given step. Non-trivial: at least one automatic step was taken.", assumptions=GENERAL),
    "C09": dict(
        parts=parts(("default", 5000, 60000), _3D=(2500, 25000), explicit=(2500, 25000), noHL=(2500, 25000), standard=(2000, 20000), central=(2000, 20000), noSPP=(1500, 15000), GC=(1000, 10000), _3DnoHL=(1200, 12000), _3Dcentral=(800, 8000), explicitnoHL=(1200, 12000), explicitnoSPP=(800, 8000)) + [openmp(600, 6000)],
        rule=STATE + "Scenes too sparse for pressure and repulsion. Non-trivial: a fluid particle felt gravity or a viscous force.", assumptions=GENERAL),
    "C10": dict(
        parts=parts(("default", 5000, 60000), _3D=(2500, 25000), explicit=(2500, 25000), standard=(2500, 25000), noSPP=(1500, 15000), GC=(1000, 10000)) + [openmp(600, 6000)] + [wide(10, "explicit")],
        rule=STATE + "The calls of the wall law are recorded. Non-trivial: a wall or dummy particle was asked for in a scene with fluid.", assumptions=GENERAL),
    "C11": dict(
        parts=parts(("default", 4000, 50000), _3D=(2000, 25000), noSPP=(3000, 30000), noHL=(2000, 20000), noHS=(2000, 20000), noECS=(2000, 20000), standard=(2500, 25000),
                    uBLAS=(2000, 20000), central=(600, 6000), _3DnoSPP=(1500, 15000), standarduBLAS=(1000, 10000), GC=(600, 6000), _3DnoHL=(600, 6000)) + [openmp(1000, 10000), openmp(500, 5000, "noSPP")],
        rule=STATE + "The assembled matrix and right-hand side are compared entry by entry with the reference. Non-trivial: the system couples two particles.", assumptions=GENERAL),
    "C12": dict(
        parts=parts(("default", 20000, 250000), uBLAS=(8000, 80000), noSPP=(4000, 40000)),
        fuzz=[dict(variant="default", seconds=200)],
        rule="A case is a symmetric definite system (spectrum, right-hand side, guess, tolerance), written into the space's own equation. Non-trivial: the guess is not already the solution.",
        assumptions=["condition numbers and scales up to the generator's limits; residuals are judged up to rounding of the recurrence"]),
    "C13": dict(
        parts=parts(("default", 3000, 40000), explicit=(3000, 30000), noSPP=(2500, 25000), _3D=(1200, 12000), standard=(2000, 20000), uBLAS=(1000, 10000), GC=(600, 6000), explicitnoSPP=(1500, 15000), _3DnoSPP=(600, 6000), noHL=(600, 6000), _3Dexplicit=(600, 6000)) + [openmp(500, 5000)],
        rule=STATE + "The step is repeated with other stored pressures. Non-trivial: some pressure is positive.", assumptions=GENERAL),
    "C14": dict(
        parts=parts(("default", 4000, 50000), noSPP=(3000, 30000), _3D=(2000, 20000), _3DnoSPP=(1500, 15000), GC=(2000, 20000), GCnoSPP=(2000, 20000), GCnomid=(2000, 20000), noHS=(1000, 10000),
                    explicit=(2500, 25000), standard=(2000, 20000), _3DGC=(1500, 15000)) + [openmp(800, 8000)],
        rule=STATE + "Velocities and positions after the correction stage and whole steps are compared, and pair impulses summed. Non-trivial: a pressure force acted on a fluid particle.", assumptions=GENERAL),
    "C15": dict(
        parts=parts(("default", 5000, 60000), _3D=(2500, 25000), explicit=(2500, 25000), noDS=(2000, 20000), noSPP=(2000, 20000), standard=(1500, 15000), GC=(1000, 10000)) + [openmp(600, 6000)],
        rule=STATE + "Scenes with pairs around the repulsion distance. Non-trivial: a pair is closer than the repulsion distance (or, with the option off, would be).", assumptions=GENERAL),
    "C16": dict(
        parts=parts(("GC", 8000, 100000), _3DGC=(6000, 60000), _3DGCnomid=(3000, 30000), GCnomid=(4000, 40000), GCnoSPP=(2500, 25000), GCnomidnoSPP=(2500, 25000)),
        rule="A case is a matrix (all conditionings, also singular) or a neighbourhood with a pressure field. Non-trivial: the matrix is not singular, or a non-degenerate neighbourhood was corrected.",
        assumptions=["matrices closer to singular than the stated conditioning are discarded"]),
    "C18": dict(
        parts=parts(("default", 3000, 40000), noSPP=(2000, 25000), _3D=(1200, 15000), explicit=(1500, 20000), central=(1000, 10000), standard=(1500, 15000), GC=(1200, 12000), _3DGC=(1000, 10000)) + [openmp(400, 4000)],
        rule=STATE + "The transformed scene is stepped alongside. Non-trivial: at least one step compared in a scene with two particles or more.", assumptions=GENERAL),
    "C19": dict(
        parts=[part(mode="omp", name="libomp", quick=2000, thorough=16000, env=OMP_ENV, cpu=120, shards=4),
               part(mode="gomp", name="libgomp", quick=2000, thorough=16000, env=OMP_ENV, cpu=120, shards=4),
               part(mode="opt", name="without-OpenMP", quick=800, thorough=8000, cpu=120),
               part("uBLAS", mode="omp", name="uBLAS", quick=800, thorough=8000, env=OMP_ENV, cpu=120, shards=4),
               part("3D", mode="omp", name="3D", quick=500, thorough=6000, env=OMP_ENV, cpu=120, shards=4),
               part("standard", mode="omp", name="standard", quick=600, thorough=6000, env=OMP_ENV, cpu=120, shards=4),
               part("explicit", mode="omp", name="explicit", quick=600, thorough=6000, env=OMP_ENV, cpu=120, shards=4),
               part("GC", mode="omp", name="GC", quick=500, thorough=6000, env=OMP_ENV, cpu=120, shards=4)]
        + [part(v, q, t, mode="tsan", name="race-" + v, env=TSAN_ENV, cpu=200, shards=4, extra=("-DC19_RACE",), confirm=8, shrink=120)
           for v, q, t in [("default", 250, 2500), ("GC", 80, 800), ("standard", 120, 1200), ("explicit", 120, 1200), ("uBLAS", 80, 800), ("3D", 60, 800)]],
        width=5,
        rule=STATE + "The history is run with one and with several threads, and repeated. Non-trivial: at least two particles and a fluid one.",
        assumptions=GENERAL + ["data races are looked for on the schedules that occur (ThreadSanitizer with the OpenMP-aware Archer tool)"]),
    "C20": dict(
        parts=parts(("default", 3000, 40000), _3D=(1200, 12000), explicit=(1500, 15000), standard=(1500, 15000), uBLAS=(1000, 10000), GC=(1000, 10000)) + [openmp(600, 6000)] + [wide(20, "explicit")],
        rule=STATE + "Additions are cut into batches of all sizes, interleaved with steps. Non-trivial: particles were added in two batches or more and a step was taken.", assumptions=GENERAL),
    "C17": dict(
        parts=[part(quick=6000, thorough=60000)]
        + [part(v, 1500, 12000) for v in ["GC", "explicit", "3D", "standard", "noSPP"]]
        + [part(v, 600, 12000) for v in ["noHS", "noHL", "noECS", "noDS", "GCnoSPP", "GCnomid", "explicitnoSPP", "central", "3DGC", "uBLAS"]]
        + [openmp(800, 8000), openmp(300, 4000, "standard"), wide(17), wide(17, "explicit")]
        + [part(v, 0, 8000, thorough_only=True) for v in ["3Dstandard", "3DGCnomid", "GCnomidnoSPP", "explicitnoHL", "3DexplicitnoSPP", "3DGCnomidnoSPP", "3DGCnoSPP", "3DnoSPP", "3DnoHL", "3Dexplicit", "noHSnoSPP", "noHLnoSPP", "standarduBLAS", "3Dcentral"]],
        fuzz=[dict(variant="default", seconds=120), dict(variant="standard", seconds=60)],
        rule=STATE + "Non-trivial: at least one step was compared completely in a scene with a fluid particle and at least two particles.",
        assumptions=GENERAL),
    "C21": dict(py=True, technique="property-based testing of the built application (Hypothesis): generated particle tables in all layouts, output compared with the values written",
        apps=[("san", (), ()), ("san", ("DIM3",), ())],
        rule="A case is a particle table (column order, blanks, notation of numbers, many next to a change of the sixth digit). Non-trivial: it holds a particle.",
        assumptions=["numbers between 1e-300 and 0 in magnitude are not generated"]),
    "C22": dict(py=True, technique="fault injection into generated valid inputs (Hypothesis) against a sanitized build of the application",
        apps=[("san", (), ()), ("san", ("DIM3",), ()), ("san", (), ("MPS_SPP",)), ("san", ("PRESSURE_EXPLICIT",), ())],
        rule="A case is a valid input with one fault of a named kind, or none. Non-trivial: there is a fault.",
        assumptions=["an error is an exit status other than 0, including the abort of an uncaught exception"]),
    "C23": dict(py=True, technique="property-based testing of the built application (Hypothesis): results compared with the library's states, and round trip of a result file through a new run",
        apps=[("san", (), ()), ("san", ("DIM3",), ())],
        rule="A case is a small scene run by the application; one of its results is fed back. Non-trivial: there are particles.",
        assumptions=["runs with non-finite values are discarded"]),
    "C24": dict(py=True, technique="property-based testing of the built application (Hypothesis) against a model of the output schedule over the library's states",
        apps=[("san", (), ())],
        rule="A case is an output schedule with few particles. Non-trivial: at least one result after the initial one.",
        assumptions=["start times below 0 are not generated", "quotients between 1e-10 and 1e-6 from an integer may count either way"]),
    "C25": dict(py=True, technique="differential property-based testing (Hypothesis): the application on a generated input file against the library driven with the same values",
        apps=[("san", (), ()), ("san", ("DIM3",), ()), ("san", (), ("MPS_SPP",)), ("san", ("PRESSURE_EXPLICIT",), ()), ("sanomp", (), ())],
        rule="A case is an input file with all settings varied. Non-trivial: the state changes during the run.",
        assumptions=["both are built with the same compiler and sanitizers"]),
    "C26": dict(py=True, technique="property-based testing (Hypothesis) of the built application on generated scenes whose computation fails, against the library driven the same way",
        apps=[("san", (), ()), ("san", (), ("MPS_SPP",)), ("sanomp", (), ())],
        rule="A case is a scene that overfills a search block or demands an unreachable tolerance (or neither). Non-trivial: the run failed.",
        assumptions=[]),
    "C27": dict(py=True, technique="property-based testing (Hypothesis) of the benchmark generators with generated sizes; geometric oracle and a run of the application",
        apps=[("san", (), ())],
        rule="A case is a generator with sizes and spacing. Every completed case is non-trivial.",
        assumptions=["tank walls are at least as high as the fluid", "two lattice units of fluid or more in dam-break scenes"]),
}

PBT = "property-based testing: "
TECHNIQUE = {
    "C01": PBT + "generated scenes and search histories against an all-pairs search; coverage-guided fuzzing (libFuzzer) of the same generator",
    "C02": PBT + "stateful histories against a model of which particles are disabled; coverage-guided fuzzing of the same generator",
    "C03": PBT + "metamorphic relation (the history with the disabled particles removed) over generated scenes and histories",
    "C04": PBT + "model-based sequences of stores and clears against a map of blocks, and generated over-dense scenes; coverage-guided fuzzing",
    "C05": PBT + "generated scenes against the directly summed density; coverage-guided fuzzing of the same generator",
    "C06": PBT + "generated scenes with pairs that come into range during a step, against the all-pairs reference step",
    "C07": PBT + "generated parameter sets against the definitions of the derived values",
    "C08": PBT + "stateful histories of automatic and given steps against a model of clock and step width",
    "C09": PBT + "generated scenes against a reference of gravity and viscosity, with the momentum balance as an invariant",
    "C10": PBT + "generated scenes with recorded calls of the wall law, against the positions it returned",
    "C11": PBT + "differential, the assembled equation entry by entry against a reference assembly over all pairs",
    "C12": PBT + "generated systems of equations against the residual computed in long double; coverage-guided fuzzing",
    "C13": PBT + "metamorphic relation (the step repeated with other stored pressures) and sign invariant over generated histories",
    "C14": PBT + "differential against a reference gradient over all pairs, with pairwise impulses as an invariant",
    "C15": PBT + "generated scenes with pairs near the repulsion distance against a reference impulse, with the momentum as an invariant",
    "C16": PBT + "generated matrices and neighbourhoods against inverses and gradients computed in long double; exactness on linear fields",
    "C17": PBT + "stateful differential testing of whole histories against an independent reference implementation; coverage-guided fuzzing",
    "C18": PBT + "metamorphic relations (translation, rotation, reflection, renumbering, common velocity) over generated histories",
    "C19": PBT + "metamorphic relation over thread counts and backends, with ThreadSanitizer on generated histories",
    "C20": PBT + "metamorphic relation over the ways a scene is cut into batches of additions",
}
for _k, _t in TECHNIQUE.items():
    SPECS[_k].setdefault("technique", _t)
