#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, os
S = "src/OpenMps/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[S + f if not f.startswith("Benchmark") else f for f in files],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Neighbour search finds exactly the particles in range",
 "After a neighbour search over any set of particles inside the computing domain, the neighbour list of every enabled particle holds each other enabled particle closer than the neighbour distance exactly once and nothing else (not itself, no disabled particle, nothing from an earlier search). This holds wherever the particles lie relative to the search blocks, including the first and last rows of blocks, block edges and empty blocks, and for repeated searches on the same space. Iterating the grid around a position visits every particle stored in the surrounding blocks exactly once and terminates.",
 ["inputs", "histories"], "all particle sets and positions (any block alignment, domain size, spacing, types), all sequences of move/search",
 "Tests search one 7x7 lattice away from most block borders and only check symmetry and absence of self; completeness needs all block alignments.",
 ["Grid.hpp", "Computer.hpp"],
 [("grid store and 3^D block iteration", "Grid.hpp: Store, Iterator, cbegin/cend, Clear"), ("distance filter", "Computer.hpp: SearchNeighbor")],
 [("grid data", "per block: count then particle numbers", "Grid.hpp data"), ("neighbor", "per particle: count then neighbour numbers", "Computer.hpp neighbor")],
 ["Grid public API", "neighbour lists after SearchNeighbor"])

prop("C02", "Leaving the domain disables a particle for good; being inside never does",
 "At each step a particle whose position lies below the minimum corner of the computing domain on any axis, or beyond the grid that covers the domain, becomes disabled; a particle inside the closed box from minimum to maximum corner never does. A disabled particle stays disabled for the rest of the run, and no particle changes type in any other way. No position, however extreme, leads to an out-of-bounds access.",
 ["inputs", "histories"], "all positions (inside, on the border, just outside, far away, non-finite), all step histories",
 "No test moves a particle out of the domain.",
 ["Grid.hpp", "Computer.hpp", "Particle.hpp"],
 [("range check in Store", "Grid.hpp: Store"), ("Disable on failed store", "Computer.hpp: SearchNeighbor")],
 [("type", "particle type", "Particle.hpp")], ["Particles()[i].TYPE() after each ForwardTime"])

prop("C03", "Disabled particles are inert",
 "A disabled particle has no influence on the simulation: all other particles evolve, and the time step is chosen, exactly as if it had been removed. Its own position, velocity and pressure no longer change, and no wall position is requested for it.",
 ["inputs", "histories"], "all scenes with any subset of particles disabled from the start or leaving the domain on the way",
 "No test contains a disabled particle that takes part in a step.",
 ["Computer.hpp"],
 [("skip of disabled particles", "Computer.hpp: SearchNeighbor, DetermineDt, ComputeNeighborDensities, ComputeExplicitForces, SetPressurePoissonEquation")],
 [("type", "particle type", "Particle.hpp")], ["Particles() and GetEnvironment().Dt() after ForwardTime"])

prop("C04", "An overfull search block is an error, never a silent loss",
 "Storing particles in the search grid either keeps every one of them retrievable or raises an exception: a block accepts exactly the advertised maximum number of particles and the next one is refused with an error, leaving what other blocks hold intact. The advertised maximum is never smaller than the number of particles that a regular arrangement at the initial spacing can put in a block. After clearing, the grid is empty and fully usable again.",
 ["inputs", "histories"], "all grids (block length, spacing, domain) and all sequences of store / clear / iterate",
 "Tests never fill a block.",
 ["Grid.hpp"],
 [("capacity check", "Grid.hpp: Store"), ("capacity computation", "Grid.hpp: constructor, MaxParticles"), ("Clear", "Grid.hpp: Clear")],
 [("data", "per-block counts and contents", "Grid.hpp")], ["Store return value / exception", "ParticleCount", "cbegin/cend iteration"])

prop("C05", "Number density equals the weighted sum over all particles in range",
 "After a density computation every fluid or wall particle's number density equals the sum of the weight (r_e/r - 1 inside the influence radius, 0 outside and at zero distance) over all other enabled particles, dummies included, at their current positions; where the free-surface filling option is on it is raised to the reference density if lower, and never exceeds the sum otherwise. Dummy and disabled particles keep their stored value. The weight is non-negative, decreasing in the distance and continuous at the influence radius.",
 ["inputs", "configurations"], "all particle arrangements and types, all influence radii, with and without free-surface filling",
 "The test checks the central particle of one lattice; other arrangements, types and deficiency states are not reached.",
 ["Computer.hpp", "Particle.hpp"],
 [("density accumulation", "Computer.hpp: ComputeNeighborDensities, AccumulateNeighbor"), ("weight", "Particle.hpp: W")],
 [("n", "particle number density", "Particle.hpp"), ("nWithoutSpp", "density before filling", "Computer.hpp")],
 ["Particles()[i].N()"])

prop("C06", "One neighbour search per step misses no interacting pair",
 "The neighbour distance exceeds the influence radius by twice the largest displacement a step may produce relative to the radius (factor 1 + 2 x Courant number), so when every particle moves at most Courant x spacing after the search, every quantity evaluated at the moved positions equals the one a fresh search would give. In particular densities and pressures reported after a CFL-limited step include every pair inside the influence radius at the time they are evaluated.",
 ["inputs", "configurations"], "all scenes, Courant numbers, influence radii >= 1 spacing and displacement fields bounded by Courant x spacing per particle",
 "No test moves particles between the search and the evaluation.",
 ["Environment.hpp", "Computer.hpp", "Grid.hpp"],
 [("enlarged neighbour distance", "Environment.hpp: NeighborLength"), ("distance re-check at current positions", "Computer.hpp: AccumulateNeighbor")],
 [("neighbor", "list from the start of the step", "Computer.hpp")], ["N and P after moving without a new search vs after a fresh search"])

prop("C07", "Derived space parameters follow from the given ones",
 "For every parameter set the influence radius is ratio x spacing, the per-step displacement limit is Courant x spacing, the neighbour distance is influence radius x (1 + 2 Courant), gravity points along negative z with the given magnitude, and the maximum time step is the smaller of the given one and the time in which gravity alone moves a particle by Courant x spacing (or sound does, with the explicit pressure option). The reference density is the weight sum over the complete lattice with the initial spacing around one particle, independent of the spacing itself, and lambda is the weighted mean squared distance on that lattice. All other parameters are stored unchanged, and time starts at zero.",
 ["inputs", "configurations"], "all parameter values (spacing, radius ratio incl. integers, Courant, g incl. 0, rho, nu, limits), all option sets",
 "Tests construct one parameter set and mostly compare stored fields.",
 ["Environment.hpp"],
 [("constructor", "Environment.hpp")], [("n0, lambda, MaxDt, MaxDx, R_e, NeighborLength, G", "derived parameters", "Environment.hpp")],
 ["Environment public fields and accessors"])

prop("C08", "The time step obeys the CFL limits and the clock adds it up",
 "An automatically stepped simulation advances by exactly min(maximum step, Courant x spacing / fastest enabled particle's speed), walls included, so no enabled particle enters a step fast enough to travel further than Courant x spacing in it; when nothing moves it is the maximum step. An explicitly given step is used as given. The clock starts at 0 and after any sequence of steps equals the sum of the steps taken, also for spaces without any particles.",
 ["inputs", "histories"], "all velocity fields and particle types, all sequences of automatic and explicit steps",
 "No test advances time.",
 ["Computer.hpp", "Environment.hpp"],
 [("CFL choice", "Computer.hpp: DetermineDt, ForwardTime"), ("clock", "Environment.hpp: SetNextT")],
 [("t, dt", "current time and step", "Environment.hpp")], ["GetEnvironment().T(), Dt() after each ForwardTime"])

prop("C09", "Gravity and viscosity act as specified and conserve momentum",
 "In a step without pressure or repulsion every fluid particle's velocity changes by dt x (gravity + nu x discrete Laplacian of velocity over the non-dummy particles in range) and its position by dt x the new velocity. Viscous forces between fluid particles are equal and opposite, so an all-fluid system changes its total momentum only by gravity; a uniform velocity field feels no viscosity; neither the stored pressure nor dummies' velocities matter.",
 ["inputs", "configurations"], "all positions, velocities, viscosities, gravities and types; high-order and standard Laplacian, central gravity option",
 "The two explicit-force tests are commented out upstream; nothing is tested here today.",
 ["Computer.hpp"],
 [("explicit stage", "Computer.hpp: ComputeExplicitForces, AccumulateNeighbor")],
 [("du", "acceleration per particle", "Computer.hpp")], ["Particles() U and X after a pressure-free step"])

prop("C10", "Walls and dummies go exactly where they are told",
 "Every wall and dummy particle is, after each step, exactly at the position the caller's wall law returns for its index, current time and step, with velocity (new - old)/dt, no matter what the fluid does. The law is asked once per such particle per step with that step's time and dt, never for fluid particles, and the caller's per-step preparation is called exactly once with the same time and dt before the first of these requests.",
 ["inputs", "histories"], "all wall laws (fixed, translating, index- and time-dependent), scenes and step sequences",
 "All tests use walls that do not move, and never check them after a step.",
 ["Computer.hpp"],
 [("wall branch", "Computer.hpp: ComputeExplicitForces"), ("fluid-only corrections", "Computer.hpp: ModifyByPressureGradient, DynamicStabilize")],
 [("positionWall, positionWallPre", "caller's law", "Computer.hpp")], ["recorded callback arguments", "Particles() X and U"])

prop("C11", "The pressure equation is the documented discretisation",
 "The linear system set up in each step has, for every fluid or wall particle, off-diagonal entries equal to the discrete Laplacian coefficients towards the other fluid or wall particles in range, a diagonal equal to minus the sum of these and of the zero-pressure virtual surface particle's coefficient where the particle lacks neighbours, and a right-hand side -rho/(n0 dt) x (density growth rate + error correction); it is symmetric and its fluid block negative semi-definite. Dummy, disabled and completely isolated particles get the equation p = 0. Nothing of an earlier step's system survives, whatever the order of particles or changes in their number.",
 ["inputs", "histories", "configurations"], "all scenes and option sets, successive steps with changing neighbourhoods and particle counts",
 "Tests check one regular lattice in one step; surfaces with partial neighbourhoods, walls/dummies mixes and re-assembly are not reached.",
 ["Computer.hpp"],
 [("assembly", "Computer.hpp: SetPressurePoissonEquation"), ("source", "Computer.hpp: NeighborDensityVariationSpeed, ComputeErrorCorrection"), ("virtual particle", "Computer.hpp: AccumulateNeighbor")],
 [("ppe.A, ppe.b", "matrix and right-hand side", "Computer.hpp"), ("ecs", "error correction", "Computer.hpp")], ["ppe.A, ppe.b after a step"])

prop("C12", "The linear solver returns a solution or raises an error",
 "For every symmetric definite system the pressure solver, started from any initial guess, either leaves a vector whose residual is smaller than the allowed fraction of the initial residual (up to rounding) or raises the computation exception; it never returns an unconverged or non-finite vector silently. Systems for which the convergence bound of conjugate gradients reaches the tolerance within as many iterations as there are unknowns are always solved, as are well-conditioned ones of few unknowns (finite termination), and a guess that already solves the system is left as it is.",
 ["inputs"], "all symmetric definite matrices (dense/sparse, positive or negative, identity rows mixed in), right-hand sides, initial guesses, tolerances; singular systems must raise or solve",
 "Tests solve the identity, one 4x4 and one 1-D Laplacian from a zero guess.",
 ["Computer.hpp"],
 [("conjugate gradient", "Computer.hpp: SolvePressurePoissonEquation")],
 [("ppe", "A, x, b, tolerance", "Computer.hpp")], ["ppe.x after solving", "exception"])

prop("C13", "Pressures are non-negative and depend only on the current state",
 "After every step the pressure of each fluid or wall particle is the solution of that step's pressure equation with negative values replaced by zero (or, with the explicit pressure option, max(0, c^2 x rho x (n/n0 - 1))); dummies and disabled particles keep theirs. The result depends on positions, velocities and types only: changing the stored pressures before a step, which serve as the initial guess, changes nothing beyond the solver tolerance, and a particle with nothing in range has pressure zero.",
 ["inputs", "histories", "configurations"], "all scenes, previous pressures and step histories; implicit and explicit pressure",
 "No test solves for pressure in a scene and inspects the particles afterwards.",
 ["Computer.hpp"],
 [("pressure assignment", "Computer.hpp: ComputeImplicitForces"), ("initial guess", "Computer.hpp: SetPressurePoissonEquation")],
 [("p", "pressure", "Particle.hpp")], ["Particles()[i].P() after ForwardTime"])

prop("C14", "Pressure pushes fluid by the discrete gradient, equal and opposite in pairs",
 "The pressure correction changes each fluid particle's velocity by -dt/rho times the discrete gradient of the step's pressures over the non-dummy particles in range and the virtual surface particle, and its position by dt times that; walls, dummies and disabled particles are not moved. With midpoint evaluation, fluid particles without virtual neighbours push each other with equal and opposite impulses along the line between them, repulsively for positive pressures, so an all-fluid, surface-free exchange conserves momentum.",
 ["inputs", "configurations"], "all positions, pressures, types, spacings and option sets",
 "Tests check one interior particle of a regular lattice for two fields.",
 ["Computer.hpp"],
 [("gradient correction", "Computer.hpp: ModifyByPressureGradient")],
 [("du", "velocity correction", "Computer.hpp")], ["Particles() U and X before/after the correction"])

prop("C15", "Artificial repulsion acts only on, and exactly against, over-close pairs",
 "With the dynamic-stabilisation option, a step finally pushes apart only fluid particles that came closer than spacing - Courant x spacing to another fluid or wall particle, along the direction the pair had before the pressure correction, by -1/(2 n0 dt) x (sqrt(d^2 - perpendicular^2) - parallel distance) summed over such neighbours, moving positions by dt times that; pairs further apart, dummies and virtual particles cause nothing. Pushes between two fluid particles are equal and opposite, and a scene without such pairs is unchanged by the option.",
 ["inputs", "configurations"], "all scenes with and without over-close pairs, all types, option on and off",
 "No test runs the repulsion at all.",
 ["Computer.hpp"],
 [("repulsion", "Computer.hpp: DynamicStabilize, SaveX")],
 [("originalX", "positions before the pressure correction", "Computer.hpp")], ["Particles() U and X after ForwardTime"])

prop("C16", "Gradient correction uses the true inverse of the moment matrix",
 "The matrix inversion used by the gradient-correction option returns, for every non-singular 2x2 or 3x3 matrix, its inverse (product with the original is the identity up to rounding scaled by the conditioning), and the given multiple of the identity for a singular one. With the option on, the pressure correction of a particle uses the inverse of the weighted moment matrix of its own neighbourhood, so that it is exact (up to the factor n/n0 the option applies) for pressure differences linear in position, wherever the neighbourhood is not degenerate.",
 ["inputs", "configurations"], "all matrices (well- and ill-conditioned, singular, asymmetric, scaled), all neighbourhoods; 2-D and 3-D",
 "Tests invert three fixed 2x2 matrices; the 3x3 path is not compiled by any test.",
 ["Computer.hpp"],
 [("inverse", "Computer.hpp: Detail::InvertMatrix"), ("moment matrix", "Computer.hpp: ModifyByPressureGradient (MPS_GC)")],
 [], ["InvertMatrix result", "Particles() after a step with MPS_GC"])

prop("C17", "Every step equals the documented method, along any history and option set",
 "For every supported combination of the method options, one step applied to any state yields, up to rounding and solver tolerance, the positions, velocities, pressures, densities and types that a direct evaluation of the documented method yields: density, error correction, gravity and viscosity, wall motion, density, pressure, gradient correction and repulsion, in this order. It depends on nothing but the current particles, the time and the parameters; in particular nothing remembered from earlier steps changes the result, and continuing with a fresh space built from the current particles gives the same step.",
 ["inputs", "histories", "configurations"], "all scenes, all histories of automatic and explicit steps and insertions, all option combinations that compile (standard/high-order source, Laplacian, error correction, repulsion, surface filling, gradient correction, explicit pressure, central gravity, 3-D)",
 "Tests never advance a simulation by a step and cover two option sets.",
 ["Computer.hpp", "Environment.hpp", "Grid.hpp", "Particle.hpp", "defines.hpp"],
 [("step", "Computer.hpp: ForwardTime")], [("all particle state", "", "Computer.hpp particles")], ["Particles() and GetEnvironment() around ForwardTime"])

prop("C18", "Results respect the symmetries of the method",
 "Renumbering the particles renumbers the result; shifting the scene together with its domain shifts it; mirroring left-right mirrors it; without gravity a quarter turn turns it; scaling lengths, times and masses scales it; and adding a common velocity to everything changes positions and velocities by just that (for a given step size). Each holds for whole steps and sequences of steps, up to rounding.",
 ["inputs", "histories"], "all scenes and all permutations, shifts, mirrorings, rotations, scalings and uniform velocities",
 "No metamorphic relation is tested.",
 ["Computer.hpp", "Grid.hpp", "Environment.hpp"],
 [("step", "Computer.hpp: ForwardTime"), ("grid origin", "Grid.hpp")], [], ["Particles() of the transformed and the original run"])

prop("C19", "Thread count and acceleration options do not change the results",
 "For every scene and step sequence the results are the same, up to rounding and solver tolerance, for any number of OpenMP threads, with or without OpenMP, and with either linear-algebra back end, and repeating a run repeats its results. Parallel sections have no data races.",
 ["schedules", "inputs", "configurations"], "all scenes, thread counts, thread schedules, OpenMP on/off, ViennaCL/uBLAS",
 "Tests run one configuration once on tiny inputs; a race or a thread-dependent result need not show up.",
 ["Computer.hpp", "Grid.hpp", "defines.hpp"],
 [("parallel loops writing only their own particle", "Computer.hpp: OMP_PARALLEL_FOR loops"), ("atomic block count", "Grid.hpp: Store")],
 [], ["Particles() across builds and thread counts", "ThreadSanitizer with Archer"])

prop("C20", "Particles can be added in any batches at any time",
 "Adding particles in several batches gives the same simulation as adding them at once; adding a batch between steps appends it in order, changes nothing about the particles already there, and the next step equals the one of a fresh space holding all of them. Adding an empty batch changes nothing, nor does moving the whole space to another object between two operations.",
 ["inputs", "histories"], "all splits into batches and all interleavings of insertions and steps",
 "Tests add all particles in one go before anything else.",
 ["Computer.hpp"],
 [("buffers follow the particle count", "Computer.hpp: AddParticles, SetPressurePoissonEquation")],
 [("neighbor, du, ecs, originalX, nWithoutSpp, ppe", "per-particle buffers", "Computer.hpp")], ["Particles() after AddParticles/ForwardTime"])

prop("C21", "Input files are read faithfully",
 "The application starts from exactly the particles written in the input's particle table: one per non-blank line, in order, each value taken from the column its header names, for every column order and any spaces, tabs and blank lines. Values are read as ordinary decimal or exponent floating-point text without loss beyond double precision.",
 ["inputs"], "all particle tables: column permutations, whitespace, blank lines, number formats, counts, types 0-3",
 "Main.cpp has no tests.",
 ["Main.cpp", "stov.hpp"],
 [("table parser", "Main.cpp: InputFromCsv, LoadParticles"), ("number conversion", "stov.hpp")], [], ["initial result file", "particle count on stdout"])

prop("C22", "Malformed input is refused before computing, never misread",
 "An input that does not exist or breaks off before its end, or whose particle table is missing, empty of any header, lacks a required column, names an unknown one, has a data line with too few values, a value that is not a number or an unknown particle type, whose particle format is not supported or absent, or which lacks a required setting, ends the application with an error and without any simulation result; it never runs with invented values, out-of-bounds reads or undefined behaviour. A table with a header and no particles is a valid empty scene and runs to the end.",
 ["inputs"], "all single and multiple corruptions of valid input files",
 "Main.cpp has no tests.",
 ["Main.cpp", "stov.hpp"],
 [("header and format checks", "Main.cpp: InputFromCsv, LoadParticles, LoadCondition, LoadEnvironment")], [], ["exit status, absence of result files, sanitizer reports"])

prop("C23", "Result files hold the full state and can be fed back as input",
 "Every result file has the documented header and one line per particle in input order with type, position, velocity, pressure and density to the printed precision (6 significant digits), disabled particles included; the printed particle count is the number of enabled ones. Used as the particle table of a new run, a result file is accepted and that run's initial result file reproduces it exactly.",
 ["inputs", "histories"], "all scenes, magnitudes and signs of values, runs of any length, chains of restarts",
 "Main.cpp has no tests.",
 ["Main.cpp"],
 [("writer", "Main.cpp: OutputToCsv"), ("reader", "Main.cpp: InputFromCsv")], [], ["result/particles_NNNNN.csv", "stdout"])

prop("C24", "Results are written on schedule and numbered consecutively",
 "A run writes the initial state and then one result file for each output interval up to the end time: ceil((end - start)/interval) of them, numbered consecutively from ceil(start/interval), where quotients within rounding of an integer count as that integer. The k-th one holds the first state at or after k intervals from the start, it is reached after at least k times the configured minimum number of steps, and the reported times and step counts agree with the states written.",
 ["inputs", "configurations"], "all start/end times, intervals, minimum step counts and speeds limiting the step",
 "Main.cpp has no tests.",
 ["Main.cpp", "ComputingCondition.hpp"],
 [("output loop", "Main.cpp: main")], [], ["set of result files", "stdout lines"])

prop("C25", "A run of the application is the library run its input file describes",
 "For every input file the application's results are those of driving the library with the parameters the file names (each setting reaching the parameter it is named after, with the maximum step being output interval / minimum steps per output), the given solver tolerance, the particles of the table, and walls and dummies held at their initial positions. This holds wherever the input file lies and however it is named on the command line (the sample two folders above if it is not named), and whatever files an earlier run left in the result folder: those with the numbers of this run's results are replaced.",
 ["inputs", "configurations"], "all settings and scenes",
 "Main.cpp has no tests.",
 ["Main.cpp", "Computer.hpp", "Environment.hpp", "ComputingCondition.hpp"],
 [("settings mapping", "Main.cpp: LoadEnvironment, LoadCondition, main")], [], ["result files vs. an independent driver of the library"])

prop("C26", "A failing computation stops the run with a report and keeps the results so far",
 "When the computation of a step raises an error, whether from the pressure solver or from the search grid, the application prints the error with its message, writes no further result files, leaves the ones already written intact and ends normally.",
 ["inputs", "fault_sequences"], "all scenes that make a step fail, at the first or any later step",
 "Main.cpp has no tests.",
 ["Main.cpp", "Computer.hpp", "Grid.hpp"],
 [("error handling", "Main.cpp: main"), ("error sources", "Computer.hpp: SolvePressurePoissonEquation; Grid.hpp: Store")], [], ["exit status, stdout, result files"])

prop("C27", "Benchmark generators write valid, complete scenes",
 "For every choice of their size and spacing settings the benchmark scene generators write an input file the application accepts, with no two particles closer than the initial spacing (up to rounding), every particle inside the search grid so that none is lost when the run starts, and the fluid of tank scenes in contact with nothing but fluid, walls and the free surface (every lattice site next to fluid at the sides and bottom is fluid, open space of the tank or wall, backed by dummies, with no gap within four spacings of the fluid, corners included).",
 ["configurations"], "all settings of the generators' condition / environment / geometry tables",
 "The scripts have no tests.",
 ["Benchmark/DamBreak/generate_koshizukaoka1996.py", "Benchmark/DamBreak/generate_zhouetal1999.py", "Benchmark/StaticPressure/generate.py", "Benchmark/CentralGravity/generate.py"],
 [("scene layout", "main() of each generator")], [], ["test.xml written by the generator", "first step of the application on it"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
