from runcheck import Run
ALL = ["ref", "v4sse", "v8avx2", "v8omp", "v16portable"]
try: _cpu = set(open("/proc/cpuinfo").read().split("flags", 1)[1].split("\n", 1)[0].split())
except Exception: _cpu = set()
if {"avx512f", "avx512dq"} <= _cpu: ALL.append("v16avx512")  # can only be run on such a processor
CHECKS = {}
NOT_APPLICABLE = {}
def check(pid, exe, runs, rule, **kw): CHECKS[pid] = dict(exe=exe, runs=runs, rule=rule, **kw)

def single(cases_q, cases_t, tpps=(1, 3), extra=()):
    """single-rank runs in every build, with one and several pipelines"""
    def f(tier):
        n = cases_q if tier == "quick" else cases_t
        out = [Run(c, 1, t, n if t == 1 else n // 2) for c in ALL for t in tpps]
        for c, t, k in extra: out.append(Run(c, 1, t, max(1, int(n * k))))
        return out
    return f

check("C02", "c02", single(3000, 120000, (1, 2, 5), (("asan", 2, 0.1),)),
  "A case is a generated periodic grid, species (q, m), per-cell random interpolation coefficients, and a particle list; non-trivial: at least 5 particles, magnetic rotation above 0.01 rad and some particle moving more than 0.3 cell.",
  assumptions=["reference uses the documented tan() series of the Boris rotation; tolerance 6e-6 of the kick/rotation scale"])

check("C04", "c04", lambda tier: single(4000, 150000, (1, 2, 5), (("asan", 2, 0.1),))(tier) + [Run(c, 3, 2, 1500 if tier == "quick" else 40000) for c in ("ref", "v8omp")],
  "A case is a periodic grid, species, random interpolation coefficients and a particle list per rank (momentum scale 1e-6..300); non-trivial: at least 5 particles with magnetic rotation above 0.01 rad and non-zero electric kick.")
check("C08", "c08", single(3000, 100000, (1, 2, 5), (("asan", 3, 0.1),)),
  "A case is a mesh with random field values in every slot and random currents in every pipeline's buffer; non-trivial: more than 3 interior cells.")
check("C12", "c12", single(3000, 100000, (1, 2, 3, 7), (("asan", 3, 0.2),)),
  "A case is a mesh and 1-3 rounds of a particle list (up to 5000 particles, distributions: one cell, last cell, two extremes, clustered, reversed, uniform, byte-sorted) followed by a sort; non-trivial: more than 4 particles spread over several cells.")

def multi(n1_q, n1_t, tpps=(1, 3), ranks=((2, 1), (4, 1), (3, 2)), rk=0.35, extra=(), rcfgs=None):
    """single-rank runs in every build plus MPI runs, rotating the builds over the rank counts"""
    def f(tier):
        n = n1_q if tier == "quick" else n1_t
        out = [Run(c, 1, t, n if t == 1 else n // 2) for c in ALL for t in tpps]
        for i, (r, t) in enumerate(ranks):
            for c in (rcfgs or (ALL if tier != "quick" else [ALL[(i * 2 + k) % len(ALL)] for k in range(2)])): out.append(Run(c, r, t, max(1, int(n * rk))))
        for c, r, t, k in extra: out.append(Run(c, r, t, max(1, int(n * k))))
        return out
    return f
R3 = ((2, 1), (4, 1), (3, 2), (8, 1))
check("C06", "c06", multi(2500, 80000, (1, 2, 5), R3, extra=(("asan", 1, 2, 0.1),)),
  "A case is a global mesh with generated walls, up to 4 anisotropic, possibly conducting materials placed per mesh point, random E, B, damping and current fields, and a sequence of up to 6 field advances; non-trivial: more than 3 cells.",
  assumptions=["reference follows the documented update equations (exponential differencing, Higdon absorbing wall); tolerance scales with a running sum of the magnitudes of the terms added"])
check("C07", "c07", multi(2500, 80000, (1, 2, 5), R3, extra=(("asan", 1, 2, 0.1),)),
  "A case is a global mesh with walls, materials, random E, B and charge densities and a sequence of up to 8 divergence computations, cleaning passes and field advances; non-trivial: more than 3 cells.")
check("C28", "c28", multi(3000, 100000, (1, 2, 5), R3, extra=(("asan", 1, 2, 0.1),)),
  "A case is a global mesh with walls, a per-point material map and random fields; non-trivial: more than 3 cells.")
check("C11", "c11", multi(2500, 80000, (1, 2), ((2, 1), (3, 1), (4, 1), (8, 1)), rk=0.8, extra=(("asan", 1, 1, 0.1), ("asan", 4, 1, 0.05))),
  "A case is a global mesh with walls, per-copy field values (all copies agree / all differ / few differ) and one synchronisation or ghost exchange, repeated for idempotence; non-trivial: some periodic axis or more than one rank.")
check("C05", "c05", multi(2500, 80000, (1, 2, 5), R3, extra=(("asan", 1, 2, 0.1), ("asan", 2, 1, 0.05))),
  "A case is a global mesh with walls, 1-3 species of generated particles (uniform, clustered, at the walls) in random per-cell fields; charge density, bound charge and the 14 moments are compared at every node; non-trivial: more than 4 particles.")
check("C01", "c01", multi(2500, 80000, (1, 2, 5), R3, extra=(("asan", 1, 2, 0.1), ("asan", 2, 1, 0.05))),
  "A case is a global mesh with walls and 1-3 species of generated particles stepped 1-8 times, with fixed random or self-consistent fields; the continuity equation is evaluated at every node after every step; non-trivial: more than 2 particles.",
  assumptions=["nodes on electric-wall (anti-symmetric) faces carry no charge density by definition and are not compared"])
check("C03", "c03", multi(2500, 80000, (1, 2, 5), R3, extra=(("asan", 1, 2, 0.1), ("asan", 4, 1, 0.05))),
  "A case is a global mesh with walls, 1-3 species of tagged particles in random per-cell fields, storage exactly as large as the initial list or roomy, 1-6 steps; every particle is predicted in double precision each step; non-trivial: more than 4 cell crossings.",
  assumptions=["particles within rounding distance of a wall may be on either side of it"])

check("C10", "xsim", lambda tier: [Run(c, 1, t, (1500 if tier == "quick" else 60000) // (1 if t == 1 else 2), cost=2) for c in ALL for t in (1, 2, 5) if (c, t) != ("ref", 1)],
  "A case is a whole simulation (mesh, walls, materials, up to 3 species, user currents/fields/injection, cleaning, 1-8 steps) run through vpic_simulation in a build/thread count under test and in the scalar single-pipeline reference; particles (matched by tag), fields, moments and energies are compared; a quarter of the cases also run twice in one process and are compared bit for bit; non-trivial: particles present.", also=["ref"],
  assumptions=["cases in which a particle ends a step within 1e-5 of a cell face are not compared across builds (the interpolation is discontinuous there)"])
check("C09", "xsim", lambda tier: [Run(c, r, t, n * (1 if tier == "quick" else 25), cost=min(8, r * min(t, 2) + 1)) for r, t, n in ((2, 1, 1500), (3, 1, 800), (4, 1, 800), (4, 2, 500), (8, 1, 400)) for c in (ALL if tier != "quick" else {2: ["ref", "v4sse", "v8avx2"], 3: ["v8omp", "v16portable"], 4: ["ref", "v8avx2"], 8: ["ref", "v4sse"]}[r])],
  "A case is a whole simulation (mesh, walls, materials, up to 3 species, user currents/fields/injection, cleaning, 1-8 steps) run on a rank lattice that divides the mesh and compared with the same case on one rank: particles (matched by tag), fields, moments and energies; non-trivial: particles present.", also=["ref"],
  assumptions=["cases in which a particle ends a step within 1e-5 of a cell face are not compared (the interpolation is discontinuous there)"])
check("C13", "c13", multi(1000, 50000, (1, 2, 4), R3, extra=(("asan", 1, 2, 0.1), ("asan", 2, 1, 0.05))),
  "A case is a whole simulation (mesh, walls, refluxing and tallying boundaries, materials, species, all collision operators, emitter, injection) checkpointed after a generated step and restored in the same process (once or twice in a row) or, on one rank, in a fresh process; the full state after the restore and after every further step, the final moments, energies and random streams are compared bit for bit; non-trivial: species present and steps left to do.")
check("C15", "c15", multi(2500, 50000, (1, 2), ((2, 1), (4, 1), (3, 2)), extra=(("asan", 1, 1, 0.1), ("asan", 2, 1, 0.05))),
  "A case is a whole simulation (mesh, walls, materials, species) in which, at a generated step, 1-6 dumps of generated kind, variable selection, stride, format, tag, step number and array are written, parsed back and compared with memory byte for byte; non-trivial: species present.")
check("C16", "c16", lambda tier: [Run(c, 1, 1, 4000 if tier == "quick" else 200000) for c in ALL] + [Run(c, r, 1, 1000 if tier == "quick" else 30000) for c, r in (("ref", 2), ("v4sse", 3), ("v8avx2", 4), ("ref", 8))] + [Run("asan", 1, 1, 500 if tier == "quick" else 20000)],
  "A case is a seed and a generated sequence of typed single draws, strided bulk fills and reseedings (compared with a second generator and with a reference implementation of the generator's definition), a permutation or shuffle of generated element size and stride, a set of pools over all ranks, or a generator state with extreme bits; non-trivial: more than 100 draws, more than 2 elements, or any pool/extreme case.")
check("C17", "c17", lambda tier: [Run(c, 1, 1, 700 if tier == "quick" else 20000) for c in ("ref", "v4sse", "v8avx2", "v16portable")] + [Run("v8omp", 1, 1, 40 if tier == "quick" else 2000, opts={"big": 1}, tag="big")] + [Run(c, 1, 1, 12 if tier == "quick" else 100, opts={"long": 3 if tier == "quick" else 30}, tag="long") for c in ("ref", "v4sse", "v8avx2")],
  "A case is a seed, a generator and 5e3 to 1.6e8 (thorough 1.6e9) draws put through chi-square (cells, pairs, tails, fine cells), moment, bit-frequency, correlation or ordering-count tests with p-value 1e-10; non-trivial: all.",
  assumptions=["deviations smaller than the statistical resolution of the sample are not seen"])
check("C14", "c14", lambda tier: [Run(c, 1, 1, 2500 if tier == "quick" else 150000) for c in ALL] + [Run(c, 2, 1, 800 if tier == "quick" else 30000) for c in ("ref", "v8avx2")] + [Run("asan", 1, 1, 400 if tier == "quick" else 20000)],
  "A case is a history of up to 16 operations on a synthetic object graph: register groups of objects (strings, strided over-allocated aligned arrays, backward and cyclic forward pointers, symbols, hooks present or absent), unregister, modify, checkpoint, restore any earlier archive; non-trivial: more than 2 objects and at least one restore.")
check("C26", "c26", lambda tier: [Run(c, 1, 1, 1500 if tier == "quick" else 100000, cost=4) for c in ALL],
  "A case reboots the dispatcher with a generated number of pipelines (1-12, some up to 272; host included or not) and performs up to 12 dispatches of generated argument size, stride, per-rank durations and kind (vectorised, direct, serial), or checks item/voxel range partitions for generated sizes; non-trivial: more than one pipeline, or a range case.",
  assumptions=["schedules are those the kernel produces under generated per-rank delays"])
check("C27", "c27", lambda tier: [Run(c, r, 1, (1500 if tier == "quick" else 60000) // (1 if r == 1 else 3), cost=min(4, r)) for c, r in [(c, 1) for c in ALL] + [("ref", 3), ("v8omp", 2)]] + [Run("asan", 1, 1, 150 if tier == "quick" else 6000)] + [Run(c, 1, 1, 40 if tier == "quick" else 2500, opts={"program": 1}, tag="program") for c in ALL + ["asan"]],
  "A case is (a) a run of advance() with generated intervals, round counts, step counts, starting step, modification file applied in between and every field kernel and hook logged; (b) the program of deck/main.cc run in its own process on a generated simulation (all operators, walls, emitters) with generated argument vectors, checkpoint step, restart and modification files; (c) an argument vector and a sequence of option strippings; non-trivial: more than one step or argument.",
  assumptions=["how often the divergence error is measured and the wording of messages other than the status line are not part of the property"])
check("C18", "c18", single(7000, 200000, (1, 2, 5), (("asan", 2, 0.1),)),
  "A case is a mesh, 1-3 species (charge and mass ratios, equal/per-species/mixed weights, per-cell occupancies 0, 1, 2, 3, odd, clustered, or one cell with more than 46000 particles), 1-3 operators of the eight kinds with generated intervals, strengths and sampling, applied over several steps with particles moved in between; non-trivial: some momentum changed or several pairs were tested.")
check("C19", "c19", single(600, 15000, (1, 3)),
  "A case is one operator with generated masses, charges, weights, densities, cell volume, time step, speed of light, interval and sampling, applied to 1e4 to 1e5 pairs or particles prepared in a known state: event counts per particle, scattering angle and azimuth, coverage, diffusion, thermal kick are tested against the analytic definition with p-value 1e-10; non-trivial: enough events for the test.",
  assumptions=["deviations smaller than the statistical resolution of the sample (about 1%) are not seen"])
check("C20", "c20", multi(3000, 80000, (1, 2), ((2, 1), (3, 1), (4, 1), (8, 1)), rk=0.5, extra=(("asan", 1, 1, 0.1), ("asan", 4, 1, 0.05))),
  "A case is a global mesh with walls and 1-3 rounds of up to 200 injections per round (positions uniform, on cell faces, exactly on or one ulp from domain boundaries, outside; with and without age, bound-charge update, few movers; also the raw variants), followed by boundary processing; existence on exactly one rank, position, momentum, weight and the continuity equation at every node are compared; non-trivial: more than 2 injections.",
  assumptions=["the domain is bounded by its corners as stored in single precision"])
check("C21", "c21", multi(2500, 60000, (1, 2), ((2, 1), (3, 1), (4, 1), (8, 1)), rk=0.5, extra=(("asan", 1, 1, 0.1), ("asan", 4, 1, 0.05))),
  "A case is either a mesh with walls that absorb, reflect, reflux or tally, 1-3 freely streaming species stepped 1-4 times (every particle predicted in double precision, refluxed ones from their drawn momentum), or a Child-Langmuir emitter on a generated set of cell faces and fields (count, weight, face, origin, age, momenta); continuity is evaluated at every node and the drawn momenta are tested with Kolmogorov-Smirnov; non-trivial: at least 3 tallied or refluxed particles, or an emitting face.",
  assumptions=["particles whose fate is decided by rounding (grazing a wall, refluxed within reach of a second wall) may have either outcome"])
check("C22", "c22", multi(2500, 60000, (1, 2), ((2, 1), (3, 1), (4, 1), (8, 1)), rk=0.5, extra=(("asan", 1, 1, 0.1), ("asan", 4, 1, 0.05))),
  "A case defines 1-40 materials and up to 12 species with generated (also nearly equal) names and looks them up again, then applies 1-5 region macros of the deck language (point and mesh-mapped regions; material, field, boundary, volume and surface emitter) with generated regions (random sets of points of the half-cell lattice, boxes, spheres, half spaces, everywhere) and compares every material slot, field component and cell face of every rank, ghosts included, with an integer-lattice model; half the cases then move particles for some steps and check that none crosses a reflecting region surface; non-trivial: at least one component lies in a region.",
  assumptions=["a region is evaluated at the reference points the documentation of deck/wrapper.h names"])
check("C23", "c23", multi(2500, 60000, (1,), ((2, 1), (3, 1), (4, 1), (6, 1), (8, 1)), rk=0.8, extra=(("asan", 1, 1, 0.2), ("asan", 4, 1, 0.1))),
  "A case partitions a generated global box (periodic, absorbing, metal; any topology of the ranks, far offsets, strongly anisotropic cells, once or twice over the same grid) or joins domains of different lengths in a randomly ordered chain or ring, compares sizes, corners, volumes, ranges, face boundary conditions and the neighbour of every face of every cell of every rank with a global model, then changes field and particle boundary conditions of random faces per rank and compares again; non-trivial: more than one rank or more than one cell.")
def c24runs(tier):
    n = 4000 if tier == "quick" else 100000
    return [Run("ref", r, 1, n // (1 if r < 8 else 2)) for r in (1, 2, 3, 4, 5, 8)] + [Run("v8omp", r, 1, n // 2) for r in (2, 4)] + [Run("asan", r, 1, n // 8) for r in (1, 2, 4)]
check("C24", "c24", c24runs,
  "A case is (a) 1-60 messages between random ranks over the ports of 1-2 message objects, executed in a random global order of begin/end operations that cannot deadlock, buffers grown before, during and after use, every byte compared; (b) rounds of exchanges over the six grid ports in independent random orders per rank, including ports that lead to the same rank, to the rank itself and to walls; (c) a sequence of collectives (exact sums, gathers, barriers and turnstiles timed on the shared monotonic clock); non-trivial: more than 4 events, an existing neighbour, or any collective.",
  assumptions=["the MPI library itself is correct"])

import builder as _b
check("C25", "c25", lambda tier: [Run("simd_" + v, 1, 1, 60000 if tier == "quick" else 3000000) for v in _b.SIMD],
  "A case is a sequence of 1-40 operations on 20 registers and 1024 words of memory filled with ordinary and special values (signed zeros, infinities, NaNs, denormals, extreme integers), with repeated and overlapping operands; after every operation all registers and the memory are compared with the scalar operation applied lane by lane; non-trivial: more than 3 operations.",
  assumptions=["integer division by zero, shifts outside 0..31, exchanging a register with itself and mathematical functions outside their domain are not generated", "rsqrt_approx and rcp_approx are held to 4e-4, rsqrt and rcp to 1e-6, library functions to 4e-7, everything else is exact"])
