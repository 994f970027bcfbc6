#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext},
                  why_tests_cant=why, anchors=a))

prop("C01", "Deposited current and charge satisfy discrete charge conservation",
 "Over every time step, at every mesh node and for every mix of particles and domain boundaries, the change in charge density (free charge carried by particles plus bound charge left on walls) equals minus the time step times the discrete divergence of the current density deposited in that step, up to single-precision rounding. "
 "As a consequence the electric divergence error of a simulation that starts consistent stays at rounding level without any cleaning.",
 ["inputs", "histories", "configurations"],
 "Every particle position (including on cell faces), momentum up to the speed of light, charge sign and weight, cell aspect ratio, boundary kind (periodic, conducting, symmetric, absorbing; particle reflect/absorb), number of ranks and pipelines, and every SIMD build.",
 "The tests sample one particle or run a whole deck and look only for a crash; a deposition error in one quadrant, one face-crossing order or one vector lane is invisible to them.",
 ["src/species_advance/standard/move_p.cc", "src/species_advance/standard/pipeline/advance_p_pipeline.cc", "src/species_advance/standard/pipeline/advance_p_pipeline_v4.cc", "src/species_advance/standard/pipeline/advance_p_pipeline_v8.cc", "src/species_advance/standard/pipeline/advance_p_pipeline_v16.cc", "src/sf_interface/pipeline/unload_accumulator_pipeline.cc", "src/boundary/boundary_p.cc", "src/species_advance/standard/rho_p.cc", "src/field_advance/standard/remote.cc", "src/field_advance/standard/local.cc"],
 [("Villasenor-Buneman segment-wise current accumulation", "src/species_advance/standard/move_p.cc"), ("trilinear charge deposition", "src/species_advance/standard/rho_p.cc"), ("accumulator unload and boundary adjustment", "src/sf_interface/pipeline/unload_accumulator_pipeline.cc, src/field_advance/standard/local.cc")],
 ["jf*, rhof, rhob of the field array before and after a step; compute_div_e_err"])

prop("C02", "Particle advance follows the relativistic Boris leapfrog trajectory",
 "Advancing a species by one step kicks each particle's momentum with the relativistic Boris scheme in the fields interpolated at the particle and then moves its position by velocity times time step, to single-precision accuracy of a double-precision evaluation of the same scheme. "
 "The result for a particle does not depend on how many other particles there are, where it is stored in the list or whether it leaves its cell, and no other attribute of any particle changes.",
 ["inputs", "configurations"],
 "Every charge-to-mass ratio of either sign, field strength, momentum from rest to ultra-relativistic, position within a cell, list length (all remainders modulo the vector width and the number of pipelines) and SIMD build.",
 "The unit tests push a single particle in two fixed field configurations; list tails, cell crossers, mixed lanes and most of the momentum range are never sampled.",
 ["src/species_advance/standard/pipeline/advance_p_pipeline.cc", "src/species_advance/standard/pipeline/advance_p_pipeline_v4.cc", "src/species_advance/standard/pipeline/advance_p_pipeline_v8.cc", "src/species_advance/standard/pipeline/advance_p_pipeline_v16.cc", "src/species_advance/standard/move_p.cc", "src/util/v4", "src/util/v8", "src/util/v16"],
 [("half-kick, tan-corrected rotation, half-kick, drift", "src/species_advance/standard/pipeline/advance_p_pipeline*.cc"), ("mover list for cell crossers", "src/species_advance/standard/move_p.cc")],
 ["species particle array and mover list after advance_p"])

prop("C03", "Particles are neither lost, duplicated nor corrupted at boundaries",
 "After every step each particle that has not reached an absorbing wall is held by exactly one domain, in an interior cell of that domain at an in-cell offset within [-1,1], with its weight unchanged and position and momentum equal to the unobstructed trajectory folded by periodic wrapping and mirror reflection. "
 "Particles reaching an absorbing wall disappear exactly once, leaving their charge behind as bound charge, and this holds however many particles cross at once and however small the initial particle storage was.",
 ["inputs", "histories", "configurations"],
 "Every set of particle positions and velocities (corner, edge and multi-face crossings), combination of wall kinds, domain decomposition, number of time steps, initial particle and mover storage, SIMD build and pipeline count.",
 "Existing tests move one particle across one boundary or only check that a run finishes; simultaneous crossings through corners of a decomposed domain with storage growth are not explored.",
 ["src/boundary/boundary_p.cc", "src/species_advance/standard/move_p.cc", "src/grid/partition.cc", "src/grid/ops.cc", "src/vpic/advance.cc"],
 [("neighbour table with cell ids or wall actions", "src/grid/ops.cc"), ("particle exchange with dynamic resize", "src/boundary/boundary_p.cc"), ("segment-wise mover with reflection", "src/species_advance/standard/move_p.cc")],
 ["species lists of all ranks after each step"])

prop("C04", "Momentum centering is invertible and kinetic energy is exact",
 "Advancing momenta by the half step that time-centers them agrees with a double-precision half Boris step and the reverse operation undoes it exactly up to rounding, leaving positions and weights untouched. "
 "The reported kinetic energy of a species is the sum over all particles on all domains of weight times m c^2 (gamma-1) at the time-centered momentum, accurate also for non-relativistic particles.",
 ["inputs", "configurations"],
 "Every list of particles (length, momentum range from 1e-6 to 1e3, charge-to-mass ratio), interpolated field, pipeline count, rank count and SIMD build.",
 "Tests check one round trip with a fixed tolerance and never compare the energy with an independent sum or with partially filled vector blocks.",
 ["src/species_advance/standard/center_p.cc", "src/species_advance/standard/uncenter_p.cc", "src/species_advance/standard/energy_p.cc", "src/species_advance/standard/pipeline"],
 [("half advance / half de-advance", "src/species_advance/standard/pipeline/center_p_pipeline*.cc, uncenter_p_pipeline*.cc"), ("energy reduction over pipelines and ranks", "src/species_advance/standard/energy_p.cc")],
 ["particle momenta; value returned by energy_p"])

prop("C05", "Charge density and fluid moments equal the weighted particle sums",
 "The charge density and all fluid moments (current density, momentum density, kinetic energy density, stress tensor) that a species deposits on the mesh equal a double-precision trilinear deposition of the corresponding time-centered per-particle quantities, including half and quarter cells at walls and the contributions of neighbouring domains. "
 "Summing the charge density over the mesh with cell volumes gives back the total particle charge.",
 ["inputs", "configurations"],
 "Every particle set, field, species charge and mass, mesh size including single-cell directions, boundary kind, rank count and SIMD build.",
 "No test compares any moment with an independent evaluation; the decks only write them.",
 ["src/species_advance/standard/hydro_p.cc", "src/species_advance/standard/pipeline/hydro_p_pipeline.cc", "src/species_advance/standard/rho_p.cc", "src/sf_interface/hydro_array.cc", "src/field_advance/standard/remote.cc"],
 [("trilinear weights", "src/species_advance/standard/pipeline/hydro_p_pipeline.cc, src/species_advance/standard/rho_p.cc"), ("boundary folding and neighbour exchange", "src/sf_interface/hydro_array.cc")],
 ["hydro array after accumulate and synchronize; rhof after accumulate_rho_p and synchronize_rho"])

prop("C06", "Field advance equals the Yee scheme with materials and boundary conditions",
 "Advancing the magnetic and electric fields gives, at every interior and boundary edge and face, the values of a double-precision Yee leapfrog with the local material's permittivity, permeability and conductivity, the requested transverse-current damping and the requested wall condition (periodic, electric or magnetic symmetry wall, absorbing). "
 "The specialised solver for a uniform material gives the same fields as the general one.",
 ["inputs", "configurations", "histories"],
 "Every field state, current, mesh shape (including single-cell directions), cell size, time step, damping, material map (anisotropic, conducting), wall kind on each side, pipeline count and SIMD build.",
 "Tests run a few decks whose field values are not compared with a reference; heterogeneous materials and most wall kinds are never compared at all.",
 ["src/field_advance/standard/advance_b.cc", "src/field_advance/standard/advance_e.cc", "src/field_advance/standard/vacuum_advance_e.cc", "src/field_advance/standard/sfa.cc", "src/field_advance/standard/local.cc", "src/field_advance/standard/remote.cc", "src/field_advance/standard/pipeline"],
 [("material coefficients", "src/field_advance/standard/sfa.cc"), ("ghost cell values for each wall kind", "src/field_advance/standard/local.cc, remote.cc"), ("per-vector-width stencils", "src/field_advance/standard/pipeline")],
 ["field array components after advance_b/advance_e"])

prop("C07", "Divergence constraints are preserved, measured and cleaned correctly",
 "Field advances never change the divergence of B, and change the divergence of E only as required by the deposited charge; the reported divergence errors and their RMS equal a direct double-precision evaluation over the whole domain. "
 "A cleaning pass applies exactly one step of the diffusive correction, so it reduces the error it targets and never touches components it does not own.",
 ["inputs", "configurations", "histories"],
 "Every field state with arbitrary divergence error, mesh shape, material, wall kind, rank count, pipeline count and SIMD build.",
 "No test looks at the divergence diagnostics or the effect of a cleaning pass.",
 ["src/field_advance/standard/compute_div_b_err.cc", "src/field_advance/standard/compute_div_e_err.cc", "src/field_advance/standard/clean_div_b.cc", "src/field_advance/standard/clean_div_e.cc", "src/field_advance/standard/compute_rms_div_b_err.cc", "src/field_advance/standard/compute_rms_div_e_err.cc", "src/field_advance/standard/pipeline", "src/field_advance/standard/vacuum_clean_div_e.cc"],
 [("Marder-type diffusive cleaning", "src/field_advance/standard/pipeline/clean_div_b_pipeline*.cc, clean_div_e_pipeline.cc"), ("shared-node weighted RMS", "src/field_advance/standard/compute_rms_div_e_err.cc")],
 ["div_b_err, div_e_err, E and B, RMS return values"])

prop("C08", "Mesh-particle transfer is exact: interpolation, current gathering, merging",
 "The field a particle sees is the documented energy-conserving interpolation of the mesh field of its cell for every cell of the domain, and the current density on the mesh is the sum over all pipelines' private current buffers spread to the four surrounding edges with the documented factors. "
 "Clearing the buffers leaves nothing behind for the next step.",
 ["inputs", "configurations"],
 "Every mesh field, buffer content, mesh shape, number of pipelines and SIMD build.",
 "Tests exercise one interpolation on one cell; buffer merging across pipelines and vector tails have no oracle.",
 ["src/sf_interface/interpolator_array.cc", "src/sf_interface/accumulator_array.cc", "src/sf_interface/pipeline"],
 [("interpolator load stencils", "src/sf_interface/pipeline/load_interpolator_pipeline*.cc"), ("accumulator reduction", "src/sf_interface/pipeline/reduce_accumulators_pipeline*.cc"), ("accumulator unload", "src/sf_interface/pipeline/unload_accumulator_pipeline.cc")],
 ["interpolator coefficients, accumulator 0, jf"])

prop("C09", "Results do not depend on the domain decomposition",
 "A simulation of a given global problem gives the same particles, fields, moments and energies, up to rounding, however many ranks the domain is split over and however the split is laid out.",
 ["configurations", "inputs", "histories"],
 "Every global problem (mesh, walls, materials, particles, initial field), number of steps with sorting and divergence cleaning on, and topology of the decomposition.",
 "The parallel tests compare at most a single hard-coded deck in two decompositions.",
 ["src/vpic/advance.cc", "src/vpic/initialize.cc", "src/grid/partition.cc", "src/boundary/boundary_p.cc", "src/field_advance/standard/remote.cc", "src/sf_interface/hydro_array.cc", "src/vpic/misc.cc"],
 [("ghost exchange and shared-face synchronisation", "src/field_advance/standard/remote.cc"), ("particle exchange", "src/boundary/boundary_p.cc"), ("global mesh partitioning", "src/grid/partition.cc")],
 ["gathered global state after each run"])

prop("C10", "Results do not depend on SIMD width, threading model or sort algorithm",
 "The same simulation run with every supported combination of vector width (scalar, 4, 8 and 16 wide, portable and hardware), pipeline count, threading model and particle sort gives the same particles, fields and energies up to rounding, and a repeated run of one build with one pipeline count is bit-for-bit identical.",
 ["configurations", "inputs", "schedules"],
 "Every small simulation (mesh, walls, materials, species, fields, steps), pipeline count from 1 to many more than cores or particles, and build configuration.",
 "Each test runs in one configuration at a time and never compares configurations with each other.",
 ["src/species_advance/standard/pipeline", "src/field_advance/standard/pipeline", "src/sf_interface/pipeline", "src/species_advance/standard/sort_p.cc", "src/util/pipelines", "src/util/v4", "src/util/v8", "src/util/v16"],
 [("per-width pipelines with scalar stragglers", "src/*/pipeline"), ("static work distribution", "src/util/pipelines/pipelines.h"), ("per-pipeline accumulators", "src/sf_interface/accumulator_array.cc")],
 ["gathered state of the same case in different builds"])

prop("C11", "Shared mesh points agree between neighbouring domains after synchronisation",
 "After synchronisation, every copy of a mesh quantity shared between domains, or between the two sides of a periodic domain, holds the same value: the average of the copies for electric and magnetic field components and the sum of all contributions for current and charge densities. "
 "The reported desynchronisation error is zero exactly when the copies agree, synchronising again changes nothing, and ghost values equal the neighbour's interior values.",
 ["inputs", "configurations"],
 "Every content of the field arrays, mesh shape, wall kind and rank topology.",
 "Tests only reach these exchanges indirectly and never look at ghost or shared values.",
 ["src/field_advance/standard/remote.cc", "src/field_advance/standard/local.cc", "src/util/mp", "src/grid/ops.cc"],
 [("begin/end remote ghost exchange", "src/field_advance/standard/remote.cc"), ("synchronize_* with averaging or summing", "src/field_advance/standard/remote.cc")],
 ["field arrays of all ranks; return value of synchronize_tang_e_norm_b"])

prop("C12", "Sorting only permutes particles and leaves them ordered by cell",
 "Sorting a species leaves exactly the same multiset of particles, bit for bit, ordered by cell, with a cell index that delimits each cell's particles, and it changes nothing observable about the simulation.",
 ["inputs", "configurations", "histories"],
 "Every particle distribution (empty, one cell, reversed, uniform, all in the last cell), list length, mesh, pipeline count, sort implementation and in-place or out-of-place mode.",
 "No test inspects the order or the multiset; an off-by-one in a pipeline's share corrupts only rare distributions.",
 ["src/species_advance/standard/sort_p.cc", "src/species_advance/standard/pipeline/sort_p_pipeline.cc"],
 [("counting sort, coarse and fine passes", "src/species_advance/standard/pipeline/sort_p_pipeline.cc"), ("legacy sort", "src/species_advance/standard/sort_p.cc")],
 ["species particle array, partition array, last_sorted"])

prop("C13", "A restarted simulation continues exactly like the uninterrupted one",
 "A simulation checkpointed at any step and restored, by a process with the same rank and pipeline counts, has exactly the same observable state and from then on produces bit-for-bit the same particles, fields, random numbers and diagnostics as the run that was never interrupted.",
 ["crash_points", "histories", "configurations"],
 "Every step at which the checkpoint is taken, every combination of features in use (species, materials, custom particle boundaries, emitters, collision operators, random pools, strided sort and cleaning intervals), rank and pipeline count, and repeated checkpoint/restore chains.",
 "The single restart test compares one deck at one step.",
 ["src/util/checkpt", "src/vpic/vpic.cc", "src/vpic/advance.cc", "src/species_advance/species_advance.cc", "src/field_advance/standard/sfa.cc", "src/grid/grid_structors.cc", "src/collision", "src/emitter", "src/boundary", "src/util/rng", "src/material/material.cc", "src/sf_interface"],
 [("object registry with checkpt/restore/reanimate functions", "src/util/checkpt/checkpt.cc"), ("per-object checkpoint functions", "src/*/")],
 ["full state of the simulation object after restore and after further steps"])

prop("C14", "Checkpoint archives reproduce arbitrary object graphs",
 "Any set of registered objects holding scalars, strings, null or cross-referencing pointers and strided arrays with spare capacity and alignment is restored with equal values, equal sharing, requested capacity and alignment, and its reanimation hooks run once per object after all objects exist. "
 "Unregistering an object removes exactly that object.",
 ["inputs", "histories"],
 "Every sequence of register/unregister operations, object sizes including zero, array strides and paddings, and pointer graphs including cycles and interior null pointers.",
 "Only the concrete objects of one deck are ever archived by the tests.",
 ["src/util/checkpt/checkpt.cc", "src/util/checkpt/checkpt.h", "src/util/checkpt/checkpt_io.h"],
 [("registry of objects with ids", "src/util/checkpt/checkpt.cc"), ("checkpt_data/restore_data records", "src/util/checkpt/checkpt.cc")],
 ["restored objects"])

prop("C15", "Dump files contain exactly the simulation state they describe",
 "Grid, field, fluid-moment, particle, energy, species and material dumps and the strided banded dumps hold, in the documented layout, headers matching the run and exactly the values in memory at that moment (time-centered momenta for particles), for every selected variable and stride, and writing any of them leaves the simulation state unchanged.",
 ["inputs", "configurations"],
 "Every mesh shape, domain decomposition, species size around the internal buffer size, variable selection, stride that divides the mesh, band or interleaved layout, and step tag.",
 "The dump test only checks that the calls do not crash; no test reads a file back.",
 ["src/vpic/dump.cc", "src/vpic/dumpmacros.h", "src/util/io", "src/util/bitfield.h"],
 [("header writers", "src/vpic/dumpmacros.h"), ("chunked particle writer", "src/vpic/dump.cc"), ("banded field and hydro writers", "src/vpic/dump.cc")],
 ["bytes of the files written"])

prop("C16", "Random streams are deterministic, independent, in range and permuting",
 "A seeded generator always produces the same sequence, every generator of a pool and of every rank produces a different sequence unless synchronisation is requested, and bulk fills equal the same number of single draws. "
 "Integer and floating draws stay within their documented open or closed intervals and random permutations and shuffles are permutations of their input.",
 ["inputs", "histories", "configurations"],
 "Every seed, pool size, sync flag, rank count, interleaving of draw kinds, bulk length and stride, and permutation length including 0 and 1.",
 "The rng tests compare a few fixed statistics for single seeds.",
 ["src/util/rng/rng.cc", "src/util/rng/rng_pool.cc", "src/util/rng/rng.h", "src/util/rng/frandn_table.h"],
 [("SFMT state and per-type extraction", "src/util/rng/rng.cc"), ("pool seeding by rank and index", "src/util/rng/rng_pool.cc")],
 ["draw results"])

prop("C17", "Random variates follow their stated distributions",
 "Uniform draws of every type and interval convention are uniform in every bit and in pairs, normal draws are standard normal including the tails, exponential draws are unit exponential, and permutations and shuffles reach every ordering equally often.",
 ["inputs"],
 "Every seed and every draw type, single and bulk, in any interleaving.",
 "The test suite looks at coarse moments of a subset of the generators with one seed, and never at shuffles or tails.",
 ["src/util/rng/rng.cc", "src/util/rng/frandn_table.h", "src/util/rng/drandn_table.cc"],
 [("conversion of raw bits to floats", "src/util/rng/rng.h"), ("ziggurat normals", "src/util/rng/rng.cc")],
 ["draw results"])

prop("C18", "Collision operators conserve what physics requires and touch only momenta",
 "Particle-pair collision operators conserve total momentum and kinetic energy of equal-weight pairs up to rounding, act only between particles of the same cell and only at their configured step interval, and change nothing but momenta of the species they are configured for; an operator with zero rate or cross section changes nothing. "
 "Two-body operators with unequal weights always update the lighter partner.",
 ["inputs", "configurations", "histories"],
 "Every particle population (cell occupancy including 0, 1, 2 and odd numbers, equal or mixed weights), mass and charge ratio, same- or two-species, interval, operator kind, pipeline count and sort implementation.",
 "Collision tests compare one relaxation rate for one deck; odd occupancies, mixed species orders and conservation per cell are not examined.",
 ["src/collision/binary.cc", "src/collision/takizuka_abe.cc", "src/collision/hard_sphere.cc", "src/collision/large_angle_coulomb.cc", "src/collision/unary.cc", "src/collision/langevin.cc", "src/collision/pipeline"],
 [("pairing within a sorted cell", "src/collision/pipeline/binary_pipeline.cc, takizuka_abe_pipeline.cc"), ("elastic scattering in the centre-of-mass frame", "src/collision/collision_private.h, src/collision/pipeline")],
 ["species lists before and after apply_collision_op_list"])

prop("C19", "Collision rates and thermal coupling match their analytic definition",
 "The number and angular distribution of binary scattering events match the configured rate constant or cross section and density, and a Langevin bath relaxes momenta with the configured collision frequency towards the configured temperature, independent of the interval at which the operator is applied.",
 ["inputs", "configurations"],
 "Every rate, cross section, density, mass ratio, weight, cell volume, time step, interval and temperature within the operator's validity range.",
 "One test checks one relaxation curve.",
 ["src/collision"],
 [("probability normalisation", "src/collision/pipeline/binary_pipeline.cc"), ("Ornstein-Uhlenbeck update", "src/collision/pipeline/langevin_pipeline.cc")],
 ["scatter counts, momentum statistics"])

prop("C20", "Injected particles are created exactly once, where and as requested",
 "Injecting a particle at any global position inside the domain creates it on exactly one rank with the requested position, momentum and weight to rounding, a position outside creates it nowhere, and optional ageing and charge-neutral loading account for its current and bound charge so that the charge bookkeeping stays consistent.",
 ["inputs", "configurations"],
 "Every position (cell faces, domain faces and corners, outside points), weight, momentum, age, rank topology and boundary kind.",
 "Decks inject uniformly distributed interior particles and never verify ownership of face points or the bound charge.",
 ["src/vpic/misc.cc", "src/vpic/vpic.h", "src/species_advance/standard/move_p.cc", "src/species_advance/standard/rho_p.cc"],
 [("ownership test and cell lookup", "src/vpic/misc.cc"), ("bound charge and ageing through a mover", "src/vpic/misc.cc")],
 ["species lists, rhob and accumulators of all ranks after injection"])

prop("C21", "Particle boundary handlers and emitters account for every particle and charge",
 "An absorbing tally counts every particle that hits it under the right species exactly once, a refluxing wall returns every particle that hits it into the domain with an outgoing thermal half-Maxwellian of the configured temperatures, and a space-charge-limited emitter emits the configured number of particles on exactly the faces whose field exceeds the threshold. "
 "Each conserves total particle plus bound charge.",
 ["inputs", "configurations", "histories"],
 "Every species mix, wall placement and orientation, incidence, temperature pair, threshold, field and rank topology.",
 "The tests run one reflux deck and no emitter; counts and charge balances are not examined.",
 ["src/boundary/absorb_tally.cc", "src/boundary/maxwellian_reflux.cc", "src/boundary/boundary_p.cc", "src/emitter/child_langmuir.cc", "src/emitter/emitter.cc"],
 [("custom interaction callbacks", "src/boundary/boundary_p.cc"), ("half-Maxwellian sampling", "src/boundary/maxwellian_reflux.cc"), ("per-face emission", "src/emitter/child_langmuir.cc")],
 ["tallies, species lists, rhob after boundary processing and emission"])

prop("C22", "Regions, materials and species definitions are applied exactly as stated",
 "Assigning a material, field, boundary or emitter to a region affects exactly the mesh cells, faces and edges whose reference points lie in the region, on every rank consistently, and named materials and species are found again by name and id with the properties they were defined with.",
 ["inputs", "configurations"],
 "Every region predicate (boxes, half spaces, balls, everything, nothing), order of overlapping assignments, mesh and rank topology, number of materials and species.",
 "Decks use one or two regions each and do not check the assignment.",
 ["deck/wrapper.h", "src/material/material.cc", "src/species_advance/species_advance.cc", "src/vpic/vpic.h", "src/field_advance/standard/sfa.cc"],
 [("region macros looping over cells with half-cell offsets", "deck/wrapper.h"), ("id allocation and lookup lists", "src/material/material.cc, src/species_advance/species_advance.cc")],
 ["material ids of the field array, fields, neighbour tables, lookup results"])

prop("C23", "The domain is partitioned into a consistent grid topology",
 "For every valid global mesh and topology, the local domains tile the global box exactly, cell sizes and volumes agree, the cell neighbour relation is symmetric across cells and ranks and matches geometric adjacency with the requested wall conditions only at the outer walls, and changing a boundary condition affects only the requested face.",
 ["configurations", "inputs"],
 "Every mesh size (including one cell), topology, box placement, and periodic, conducting and absorbing partitioning, followed by arbitrary boundary changes.",
 "Tests build a handful of grids and only run on them.",
 ["src/grid/partition.cc", "src/grid/ops.cc", "src/grid/grid_structors.cc", "src/grid/grid.h"],
 [("size_grid / join_grid / set_fbc / set_pbc", "src/grid/ops.cc"), ("rank lattice", "src/grid/partition.cc")],
 ["grid fields: bc, neighbor, range, x0..z1, nv of all ranks"])

prop("C24", "Messages and collectives deliver exactly the data sent",
 "Through the message layer every receive yields exactly the bytes of the matching send whatever the order in which ports are begun and ended, buffers keep their contents when grown, and reductions, gathers and barriers return the exact result on every rank.",
 ["histories", "schedules", "inputs"],
 "Every sequence of buffer sizes (growing and shrinking, including empty), sends and receives on several ports, payload, number of ranks and reduction input including infinities and ties.",
 "Message passing is only exercised by the fixed sizes a deck produces.",
 ["src/util/mp/mp.h", "src/util/mp/DMPPolicy.h"],
 [("ports with posted receive and issued send", "src/util/mp/DMPPolicy.h"), ("MPI collectives wrappers", "src/util/mp/DMPPolicy.h")],
 ["received buffers and collective results"])

prop("C25", "Vector classes behave element-wise like scalars in every implementation",
 "Every operation of the 4-, 8- and 16-wide vector classes (loads, stores, transposing and gathering memory access, swaps, permutations, arithmetic, comparison, logic, merging, fused and approximate operations) gives in each lane the scalar result, exactly for exact operations and within the documented accuracy for approximate ones, in the portable and every hardware implementation, including aliased operands.",
 ["inputs", "configurations"],
 "Every lane content (signed zeros, denormals, infinities, NaN bit patterns for moves, integer extremes), operand aliasing, memory alignment class and implementation.",
 "The unit tests use one fixed value per lane.",
 ["src/util/v4", "src/util/v8", "src/util/v16"],
 [("portable and intrinsic implementations of one interface", "src/util/v4/*.h, src/util/v8/*.h, src/util/v16/*.h")],
 ["lane values"])

prop("C26", "Dispatched work runs exactly once per pipeline and completes before waiting ends",
 "Dispatching a function over pipelines runs it exactly once for every pipeline rank with the right argument block and rank, plus exactly one scalar clean-up call where the convention asks for it; waiting returns only after all calls finished and their effects are visible, for any sequence of dispatches. The item and voxel ranges computed for the pipelines and the host are contiguous, cover every item exactly once, and give every pipeline whole blocks and equal shares to within one block.",
 ["schedules", "histories", "configurations"],
 "Every sequence of dispatches with varying durations, argument strides, pipeline counts from 1 up, serial or threaded dispatch, and work distributions of any size and block.",
 "Tests use the dispatcher implicitly with uniform work.",
 ["src/util/pipelines/pipelines_thread.cc", "src/util/pipelines/pipelines_serial.cc", "src/util/pipelines/pipelines.h", "src/util/pipelines/pipelines_exec.h"],
 [("condition variable hand-off per worker", "src/util/pipelines/pipelines_thread.cc"), ("DISTRIBUTE macro", "src/util/pipelines/pipelines.h")],
 ["call log of instrumented pipeline functions"])

prop("C27", "Run control, options and intervals act exactly as requested",
 "A run performs exactly the requested number of steps, with sorting, divergence cleaning, synchronisation, status and user hooks at exactly the multiples of their intervals, resumes the remaining ones after a restart, honours changed intervals and step counts from a modification file, and command-line options are recognised and removed leaving all other arguments in order, legacy single-dash flags are refused, and a finished run leaves nothing registered and exits normally.",
 ["inputs", "histories"],
 "Every combination of intervals (zero, one, larger than the run), step count, modification file content and order, and argument vector.",
 "The tests use one interval setting each and never a modification file.",
 ["src/vpic/advance.cc", "src/vpic/misc.cc", "src/vpic/vpic.cc", "src/vpic/initialize.cc", "src/util/util_base.cc", "src/util/boot.cc", "deck/main.cc"],
 [("modulo tests on the step counter", "src/vpic/advance.cc"), ("modify file parser", "src/vpic/misc.cc"), ("strip_cmdline", "src/util/util_base.cc")],
 ["hook call log, step counter, interval fields, remaining argv"])

prop("C28", "Field energy diagnostics equal the volume integral of the energy density",
 "The six reported field energies equal the double-precision integral of half the field squared times the local permittivity or inverse permeability over the global domain, with each shared face counted once, for any material map, decomposition and vector width.",
 ["inputs", "configurations"],
 "Every field state, material map, mesh shape, rank count, pipeline count and SIMD build.",
 "Energy values are only compared with a reference file for one deck, if at all.",
 ["src/field_advance/standard/energy_f.cc", "src/field_advance/standard/pipeline/energy_f_pipeline.cc", "src/field_advance/standard/vacuum_energy_f.cc"],
 [("cell-wise averaging of edge and face energies", "src/field_advance/standard/energy_f.cc")],
 ["the six values returned"])

prop("C29", "No valid simulation reads or writes outside its storage",
 "No sequence of valid simulation operations on any rank or pipeline count accesses memory outside live allocations, uses freed or uninitialised storage to decide what it does, or invokes undefined integer arithmetic.",
 ["inputs", "histories", "configurations"],
 "Every small simulation with arbitrary mesh shape (including single-cell directions), particle storage sizes, species, materials, walls, collisions, emitters, dumps, checkpoint and restore.",
 "The suite runs without sanitizers on a few fixed decks.",
 ["src"],
 [("explicit allocation with capacity checks and dynamic resizing", "src/boundary/boundary_p.cc, src/util/util_base.cc, src/species_advance")],
 ["sanitizer reports"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    assert p["statement"].count(". ") <= 2, p["id"]
