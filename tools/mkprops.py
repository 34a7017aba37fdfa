#!/usr/bin/env python3
# Writes properties.jsonl
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = list(observe)
    P.append(d)

p("C01", "Charge and current are exactly consistent (discrete continuity)",
  "In every step, at every mesh node (domain faces, edges, corners and rank boundaries included), the change of the deposited free plus bound charge equals minus the discrete divergence of the deposited current, to rounding, for any particle motion of at most one cell per axis. Particles that a wall absorbs leave their charge behind as bound charge on that wall, and injected or emitted particles never create net charge.",
  ["inputs", "configurations"], "every particle start, displacement, number of faces crossed (0-3), boundary kind met, rank layout and pipeline/SIMD build",
  "the tests push a few particles in periodic boxes and look at averages; no test compares charge change with current divergence per node, on walls or across ranks",
  ["src/species_advance/standard/move_p.cc", "src/species_advance/standard/rho_p.cc", "src/species_advance/standard/pipeline/advance_p_pipeline.cc", "src/sf_interface/unload_accumulator.cc", "src/field_advance/standard/remote.cc", "src/field_advance/standard/local.cc", "src/boundary/boundary_p.cc"],
  [("zigzag current deposition per voxel crossed", "move_p, advance_p pipelines"), ("trilinear charge deposition", "accumulate_rho_p, accumulate_rhob"), ("boundary folding of jf and rho", "synchronize_jf, synchronize_rho, local_adjust_*")],
  [("jf", "free current on edges", "field_t"), ("rhof, rhob", "free and bound charge on nodes", "field_t")], ["field array after a step"])
p("C02", "Particles move by the relativistic Boris push in the interpolated fields",
  "For every particle and every local field configuration, one step changes the momentum by a half electric kick, a magnetic rotation and a half electric kick with the fields interpolated to the particle position, and then moves the particle by its new velocity times the time step; weight never changes. The half-step centring and its inverse used at start-up and in diagnostics are the matching half pushes and undo each other, and a pure magnetic field never changes a particle's energy.",
  ["inputs", "configurations"], "all particle positions in a cell, momenta from zero to ultra-relativistic, field values and gradients, charge signs, particle counts modulo every vector width, and every SIMD build",
  "the particle tests follow a single particle in one constant field in one build at a time; interpolation gradients, remainders of vector blocks and large momenta are not compared with an independent reference",
  ["src/species_advance/standard/pipeline/advance_p_pipeline.cc", "src/species_advance/standard/pipeline/advance_p_pipeline_v4.cc", "src/species_advance/standard/pipeline/advance_p_pipeline_v8.cc", "src/species_advance/standard/pipeline/advance_p_pipeline_v16.cc", "src/species_advance/standard/pipeline/center_p_pipeline.cc", "src/species_advance/standard/pipeline/uncenter_p_pipeline.cc", "src/sf_interface/interpolator_array.cc"],
  [("Boris push with interpolated fields", "advance_p pipelines"), ("half pushes", "center_p, uncenter_p"), ("field interpolation coefficients", "load_interpolator_array")],
  observe=["particle array and movers"])
p("C03", "Every particle ends the step in exactly one place, moved as the boundaries say",
  "After each step every particle that existed is held by exactly one rank at the position its full displacement leads to: continued in the neighbouring cell or rank (periodic wrap included), reflected with the mirrored momentum, or removed at an absorbing wall. Charge, species, weight and the untouched momentum components are preserved, and nothing is lost, duplicated or left unprocessed, no matter how many particles cross in how many rounds or how far the particle and mover arrays have to grow or shrink.",
  ["inputs", "histories", "configurations"], "all crossings of up to three faces, boundary kinds on each side, rank grids, species counts, crossing orders and storage sizes, over multi-step histories",
  "tests use one or two ranks in a fixed periodic box; corner crossings over several ranks, mixed boundaries, storage resizing and multi-round migration are not enumerated",
  ["src/boundary/boundary_p.cc", "src/species_advance/standard/move_p.cc", "src/vpic/advance.cc", "src/grid/ops.cc"],
  [("voxel-by-voxel mover", "move_p"), ("exchange of migrating particles", "boundary_p"), ("rounds per step and left-over handling", "vpic_simulation::advance")],
  observe=["particle arrays of all ranks"])
p("C04", "Fields follow the discrete Maxwell equations, independent of the decomposition",
  "One field step computes, on every edge and face of the global mesh, the discrete Faraday and Ampere updates with the local material coefficients, current and radiation damping, and applies the stated wall condition (conducting, magnetic, symmetric or absorbing) exactly on the walls. The result, including start-up curl and bound-charge computations, is the same to rounding for every partition of the same global mesh into ranks and for every number of pipelines.",
  ["inputs", "configurations"], "every source component at every mesh site (the operators are linear, so a unit-impulse basis covers all fields), every wall kind per side, rank grid, material layout and build",
  "tests integrate one plane wave or a uniform field in a periodic single-rank box; ghost exchange, wall folding, material edges and anisotropy have no oracle",
  ["src/field_advance/standard/advance_b.cc", "src/field_advance/standard/advance_e.cc", "src/field_advance/standard/vacuum_advance_e.cc", "src/field_advance/standard/local.cc", "src/field_advance/standard/remote.cc", "src/field_advance/standard/sfa.cc", "src/field_advance/standard/compute_curl_b.cc", "src/field_advance/standard/compute_rhob.cc", "src/field_advance/standard/pipeline"],
  [("interior and exterior stencils", "advance_b, advance_e pipelines"), ("ghost values and wall adjustments", "local.cc, remote.cc"), ("material coefficients", "sfa.cc")],
  observe=["field array through the kernel table"])
p("C05", "Results do not depend on pipelines, vector width or threading model",
  "For the same problem, every supported number of pipelines, every vector width (none, 4, 8, 16) and both threading models give the same particles, fields, charge, hydro moments and sorted order up to rounding. Work given to concurrent pipelines never overlaps: no pipeline of a dispatch reads or changes memory that another one of the same dispatch changes.",
  ["schedules", "configurations", "inputs"], "all interleavings of the concurrent jobs of each dispatch, pipeline counts beyond and below the amount of work, and all builds",
  "each test build runs one pipeline count and compares nothing with another build; races are invisible to assertions on a single schedule",
  ["src/util/pipelines/pipelines_exec.h", "src/util/pipelines/pipelines_exec_pth.h", "src/util/pipelines/pipelines_exec_omp.h", "src/sf_interface/reduce_array.cc", "src/sf_interface/clear_array.cc", "src/sf_interface/pipeline", "src/species_advance/standard/pipeline", "src/field_advance/standard/pipeline"],
  [("even split of work over pipelines plus host remainder", "DISTRIBUTE, EXEC_PIPELINES"), ("private accumulators and reduction", "accumulator_array, reduce_array")])
p("C06", "The thread dispatcher runs each job exactly once and never hangs",
  "Every dispatch runs each job exactly once with its own argument slot, job number and job count; the wait call returns only after every job has finished, and always returns. Threads can be reused for any number of dispatches and boot/halt cycles, survive spurious wake-ups, and misuse (double dispatch, wait without dispatch, use before boot or from a worker) is reported instead of corrupting the state.",
  ["schedules", "histories"], "all interleavings of host and worker threads up to a preemption bound, for dispatch sequences, thread counts, host participation and spurious wake-ups",
  "a unit test dispatches once under whatever schedule the machine produces; lost wake-ups and early returns need specific interleavings",
  ["src/util/pipelines/pipelines_thread.cc", "src/util/pipelines/pipelines_serial.cc"],
  [("per-thread state machine under mutex and condition", "parallel_execute, pipeline_mgr"), ("completion flags", "thread_dispatch, thread_wait")],
  [("Pipeline[].state", "SLEEP/EXECUTE/TERMINATE/ACK", "pipelines_thread.cc"), ("Done[]", "job completion", "pipelines_thread.cc")])
p("C07", "Restoring a checkpoint continues the run as if it had never stopped",
  "A run restored from a checkpoint taken after any step produces exactly the same fields, particles, random numbers, diagnostics and later checkpoints as the run that was not interrupted, for every registered kind of object (species, materials, boundary handlers, emitters, collision operators, user globals). A checkpoint made by a different number of ranks, rank number or pipeline count is refused.",
  ["crash_points", "histories", "configurations"], "every step as the interruption point, chains of restores, rank and pipeline counts, and problem set-ups using every object kind",
  "one integrated test restores one simple deck once; object kinds, ranks and chained restores are not covered",
  ["src/util/checkpt/checkpt.cc", "deck/main.cc", "src/vpic/vpic.cc", "src/species_advance/species_advance.cc", "src/field_advance/field_advance.cc", "src/grid/grid_structors.cc", "src/boundary/boundary.cc", "src/emitter/emitter.cc", "src/collision/collision.cc", "src/util/rng/rng.cc"],
  [("object registry with checkpt/restore/reanimate functions", "checkpt.cc"), ("per-object savers", "checkpt_* and restore_* functions")])
p("C08", "A damaged or incomplete checkpoint is never silently accepted",
  "If writing a checkpoint fails at any point (disk full after any number of bytes, failing write or close), the run reports an error rather than continuing as if the checkpoint existed. Restoring from a file that is missing, truncated at any byte, or whose structural markers are damaged, or that hits a read error, is reported as an error and never yields a running simulation with made-up state.",
  ["fault_sequences", "crash_points"], "every byte position at which the file ends, a write or read fails, or a marker is corrupted",
  "no test injects I/O faults",
  ["src/util/checkpt/checkpt_io.h", "src/util/checkpt/checkpt.cc", "src/util/io/StandardIOPolicy.h"],
  [("markers and sizes checked while reading", "checkpt.cc"), ("I/O result checks", "checkpt_io.h")])
p("C09", "Parallel runs neither deadlock nor depend on message timing",
  "For every order in which ranks execute and messages are transferred, a parallel run completes, gives identical results, leaves no message unreceived, and never touches a message buffer while a transfer on it is pending. All ranks take part in the same collective operations in the same order, also when their numbers of particles, boundaries or local sizes differ.",
  ["schedules", "configurations"], "all message transfer times (early or late per message) up to a deviation bound and all rank orders, for rank grids, boundary mixes and phases of the run",
  "tests run on one or few ranks under one real schedule of one MPI library",
  ["src/util/mp/DMPPolicy.h", "src/grid/grid_comm.cc", "src/field_advance/standard/remote.cc", "src/boundary/boundary_p.cc", "src/sf_interface/hydro_array.cc", "src/vpic/dump.cc"],
  [("receives posted before sends, all completed before reuse", "begin/end send/recv ports")])
p("C10", "Gridded dumps hold exactly the selected variables at the selected points",
  "A field or hydro dump written with any stride, variable selection and output format contains, for every selected variable in the documented order, the value of every selected mesh point (ghost layers included) at the documented file position, after a header that states the true dimensions, spacing, step and rank. Reading the file back by the documented layout recovers the in-memory values bit for bit.",
  ["inputs", "configurations"], "all strides that divide the mesh, all variable selections, both formats, mesh shapes and ranks",
  "tests write dumps but never read back strided or interleaved files against memory",
  ["src/vpic/dump.cc", "src/vpic/dumpmacros.h", "src/util/bitfield.h"],
  [("strided index lists and variable loops", "vpic_simulation::field_dump, hydro_dump"), ("header macros", "dumpmacros.h")])
p("C11", "Particle, grid and text dumps tell exactly what is in memory",
  "A particle dump contains each local particle of the species exactly once with its position, weight and identity unchanged and its momentum centred in time, for any particle count, without altering the simulation. Grid, raw field, raw hydro, material, species and global-header dumps state the true local mesh, neighbours, arrays, properties and layout.",
  ["inputs", "histories"], "all particle counts around the internal buffer size, species, ranks, steps and file options",
  "tests only check that the files exist; counts near the internal buffer size are never used",
  ["src/vpic/dump.cc"], [("buffered copy of particles centred before writing", "dump_particles"), ("array headers", "dumpmacros.h")])
p("C12", "Sorting only permutes the particles and orders them by voxel",
  "Sorting a species, in place or out of place, with any number of pipelines, leaves exactly the same multiset of particles, ordered by voxel, and its per-voxel index delimits exactly the particles of every voxel. This includes empty species, all particles in one voxel and particles in the first and last voxel.",
  ["inputs", "configurations"], "all assignments of small particle counts to voxels, plus counts around every internal block size, for both sort implementations",
  "tests do not compare the particle multiset or the index before and after",
  ["src/species_advance/standard/sort_p.cc", "src/species_advance/standard/pipeline/sort_p_pipeline.cc"],
  [("counting sort, coarse and fine", "sort_p, sort_p_pipeline")])
p("C13", "Divergence errors are measured exactly and cleaning removes only them",
  "The measured divergence errors equal the discrete div(eps E) minus charge and div B at every node and cell, their global root mean square is computed once per global site regardless of the decomposition, and a cleaning pass changes the fields only by the stated multiple of the discrete gradient of that error. Cleaning reduces the error, leaves a divergence-free field unchanged and gives the same result for every rank layout.",
  ["inputs", "configurations"], "every error source at every mesh site (linear operators, unit-impulse basis), wall kinds, materials, rank grids and builds",
  "one test cleans one uniform case",
  ["src/field_advance/standard/clean_div_e.cc", "src/field_advance/standard/clean_div_b.cc", "src/field_advance/standard/compute_div_e_err.cc", "src/field_advance/standard/compute_div_b_err.cc", "src/field_advance/standard/compute_rms_div_e_err.cc", "src/field_advance/standard/compute_rms_div_b_err.cc", "src/field_advance/standard/pipeline"],
  [("Marder passes", "clean_div_e, clean_div_b")])
p("C14", "Reported energies equal the energy of the state",
  "The reported field energies per component equal the volume sum of the energy density with the local permittivity and permeability, and the reported species energy equals the sum of the weighted relativistic kinetic energies at the centred time, for any state. Both count every part of the global domain exactly once, so they do not depend on ranks, pipelines or vector width, and a boundary energy flux is computed from the fields on that boundary alone.",
  ["inputs", "configurations"], "every field component at every mesh site, particle momenta from zero to ultra-relativistic, rank grids and builds",
  "tests print energies or compare them to earlier output of the same build",
  ["src/field_advance/standard/energy_f.cc", "src/field_advance/standard/vacuum_energy_f.cc", "src/species_advance/standard/energy_p.cc", "src/field_advance/standard/pipeline", "src/species_advance/standard/pipeline", "src/vpic/dump.cc", "src/vpic/diagnostics.cc"],
  [("per-voxel quadrature and global sum", "energy_f, energy_p")])
p("C15", "The domain decomposition tiles the box and neighbours agree",
  "Partitioning a box over any rank grid gives subdomains that tile it exactly with equal shared corners, and every voxel face leads either to the voxel that geometrically touches it (possibly on another rank, wrapping where periodic) or to the declared wall condition. The relation is symmetric, global voxel numbers are unique and consecutive per rank, and inconsistent partition requests are refused.",
  ["configurations", "inputs"], "all small mesh sizes, rank grids, box kinds and re-joined or re-declared boundaries",
  "only one or two fixed partitions are ever built in the tests",
  ["src/grid/partition.cc", "src/grid/ops.cc", "src/grid/grid_structors.cc"],
  [("neighbour table and global ranges", "size_grid, join_grid, set_fbc, set_pbc"), ("box partitioners", "partition_*_box")])
p("C16", "Hydro moments are the trilinear sums of the particles",
  "The hydro arrays equal, at every node, the sum over particles of charge, current, momentum, kinetic energy and stress weighted by the trilinear shape and divided by the cell volume, with momenta centred in time. After synchronisation shared nodes hold the full sum from all ranks, walls count the half cells as documented, and totals do not depend on ranks, pipelines or vector width.",
  ["inputs", "configurations"], "particle positions in every voxel including walls and corners, momenta, rank grids, wall kinds and builds",
  "no test compares hydro moments with an independent sum",
  ["src/species_advance/standard/hydro_p.cc", "src/species_advance/standard/pipeline/hydro_p_pipeline.cc", "src/sf_interface/hydro_array.cc", "src/sf_interface/reduce_array.cc"],
  [("trilinear deposition", "accumulate_hydro_p"), ("boundary sums", "synchronize_hydro_array")])
p("C17", "Injected and emitted particles appear once, where and as requested",
  "Injecting a particle at any global position adds it on exactly one rank (shared faces, edges, corners and far walls included; in a periodic direction the far wall is the near wall and takes nothing), in the voxel and at the offset that map back to that position, with the requested momentum and weight, compensating its charge when asked, and ageing it along its motion when asked without ever writing past the particle or mover storage. Surface emitters add particles only on their own faces, with the documented number, weight, direction and total charge for the local field.",
  ["inputs", "configurations", "histories"], "all positions on a lattice including every face, edge and corner, ages, rank grids and wall kinds; all emitter faces and field signs",
  "tests inject at interior points of one rank; emitters are not tested",
  ["src/vpic/misc.cc", "src/vpic/vpic.h", "src/emitter/emitter.cc", "src/emitter/child_langmuir.cc"],
  [("ownership test and coordinate conversion", "inject_particle"), ("per-face emission", "child-langmuir emitter")])
p("C18", "Collisions act within a cell and conserve what they must",
  "A collision operator only changes momenta of particles that share a voxel, never positions, voxels, counts or species; binary collisions between equal weights conserve momentum and energy of each pair and of the cell, and pairs respect the configured species, interval and per-weight update rule. Drag-diffusion collisions relax towards the set temperature by the exact exponential law.",
  ["inputs", "configurations"], "all small per-voxel populations of the two species, weights, pipeline counts, intervals and random outcomes within the enumerated seeds",
  "one statistical test of one operator; per-pair and per-cell conservation is not checked",
  ["src/collision/binary.cc", "src/collision/unary.cc", "src/collision/langevin.cc", "src/collision/hard_sphere.cc", "src/collision/large_angle_coulomb.cc", "src/collision/takizuka_abe.cc", "src/collision/pipeline"],
  [("per-voxel pairing", "collision pipelines"), ("momentum exchange", "collision models")])
p("C19", "Random numbers are reproducible, distinct per rank and in range",
  "Equal seeds give equal sequences whatever mix of types is drawn; local generators of different ranks, slots and seeds start from different seeds, synchronous generators agree on all ranks, and the two kinds never share a seed. Every integer draw covers its full range and every floating-point draw obeys its documented open or closed interval for every raw value; shuffles and permutations produce every order of their elements equally often; exponential and normal deviates have their distribution; filling an array draws what single draws give.",
  ["inputs", "configurations", "histories"], "all raw 32-bit words for the single-precision conversions, boundary and enumerated words for double precision, all small draw sequences, rank counts and seeds",
  "tests compare one sequence for one seed",
  ["src/util/rng/rng.cc", "src/util/rng/rng_pool.cc", "src/util/rng/rng_private.h", "src/util/rng/drandn_table.cc", "src/util/rng/frandn_table.cc"],
  [("SFMT state with byte cursor", "rng.cc"), ("seed formula", "rng_pool.cc"), ("conversion macros", "rng_private.h")])
p("C20", "Vector classes compute exactly what the scalar code would per lane",
  "Every operation of the 4-, 8- and 16-wide vector classes (arithmetic, comparison, logical, masked merge, transposed loads and stores, permutations, fused forms, conversions) yields in each lane the result of the corresponding scalar operation on that lane, up to the accuracy stated for approximate operations, and touches no other memory. All implementations of a width agree with each other.",
  ["inputs", "configurations"], "all lane positions, all pairs from a set of special and ordinary values, every implementation that the machine can run",
  "class tests use one value set per operation; lane mix-ups that coincide for those values pass",
  ["src/util/v4", "src/util/v8", "src/util/v16"],
  [("intrinsics and portable classes", "v4_*.h, v8_*.h, v16_*.h")])
p("C21", "Wall handlers account for every particle that hits them",
  "A tallying absorber removes each particle that hits it, counts it once under its own species and leaves its charge on the wall; a thermal re-emission wall returns each particle exactly once on the side it came from, moving away from the wall, with its weight unchanged and momenta drawn with the set parallel and perpendicular temperatures of its species. Handlers act only on the walls they were attached to.",
  ["inputs", "configurations", "histories"], "all six faces, incidence directions and species, mixed with other boundary kinds and ranks",
  "no test uses these handlers",
  ["src/boundary/absorb_tally.cc", "src/boundary/maxwellian_reflux.cc", "src/boundary/boundary.cc", "src/boundary/boundary_p.cc"],
  [("per-handler interaction functions", "absorb_tally, maxwellian_reflux")])
p("C22", "Options, overrides and object lists behave as documented",
  "Command-line options are recognised wherever they stand, the last occurrence wins, they are removed while all other arguments keep their order, and obsolete spellings are refused; an override file changes exactly the documented run parameters. Species, materials, boundary handlers, emitters and collision operators get unique consecutive identities, are found by name or number, duplicates or invalid definitions are refused, and unphysical or unsupported material properties are reported under the material's name.",
  ["inputs", "histories"], "all argument vectors up to a length over a small alphabet, all override files over the keys, all define/lookup sequences up to a depth",
  "tests pass a single option combination",
  ["src/util/util_base.cc", "src/vpic/misc.cc", "src/vpic/vpic.cc", "src/species_advance/species_advance.cc", "src/material/material.cc", "src/boundary/boundary.cc", "src/emitter/emitter.cc", "src/collision/collision.cc"],
  [("argument stripping", "strip_cmdline_*"), ("linked lists with ids", "append_*, find_*"), ("override parser", "vpic_simulation::modify")])
p("C23", "Running out of particle storage never corrupts memory",
  "Whatever the number of particles that cross a boundary, are injected or emitted in one step, and however small the particle and mover arrays are, no operation writes outside its arrays: storage is grown where growth is allowed, and otherwise the excess is reported and the remaining particles and charges stay valid.",
  ["inputs", "configurations"], "all mover and particle capacities from zero up to the demand, pipeline counts and builds",
  "tests always provide ample storage; overflows need capacities at the edge",
  ["src/species_advance/standard/advance_p.cc", "src/species_advance/standard/pipeline/advance_p_pipeline.cc", "src/boundary/boundary_p.cc", "src/vpic/misc.cc", "src/vpic/advance.cc"],
  [("per-pipeline mover segments with overflow count", "advance_p pipelines"), ("dynamic resizing", "boundary_p")])
p("C24", "Each step performs its phases in order and at the set intervals",
  "One step performs, in the documented order, sorting, collisions, particle advance, emission, user injections, boundary handling, current deposition, the leap-frogged field update, cleaning and synchronisation, and user diagnostics, each exactly when its interval says; user callbacks are called once per step and see the state the documentation promises. The run stops after exactly the requested number of steps, and time and step counters always agree.",
  ["histories", "configurations"], "all small combinations of intervals, rounds, step counts and present object kinds",
  "integrated decks use fixed intervals and only look at the end result",
  ["src/vpic/advance.cc", "src/vpic/initialize.cc", "src/vpic/vpic.h"],
  [("main loop", "vpic_simulation::advance, initialize")])
p("C25", "Region commands of input decks touch exactly the documented part of the mesh",
  "The commands by which an input deck sets materials, particle walls, fields and emitters in a region act on exactly the documented components: interior and surface decided by the cell centres (or, for point regions, by the points themselves), surface arguments on the surface only, nothing where an argument is left unchanged, equations evaluated at the location of the component they set, and emitters on exactly the cells, or the faces that look out of the region, once each. The result is the same for every partition of the mesh into ranks.",
  ["inputs", "configurations"], "all regions on small meshes x all arguments x partitions",
  "no test sets anything in a proper part of the mesh",
  ["deck/wrapper.h", "src/emitter/emitter.h", "src/boundary/boundary.cc", "src/material/material.cc"],
  [("region macros", "set_region_*, set_point_region_*, define_*_emitter")])
p("C26", "Message ports and collectives deliver exactly what was sent",
  "A message port hands the receiver exactly the bytes its peer sent under the same tag, whatever other transfers are under way and in whatever order they are begun and ended; growing a buffer keeps its content, buffers are aligned and large enough, and sums and gathers give every rank the exact result of all ranks in rank order and change nothing else. Turnstiles admit at most the set number of ranks and everybody once. A bad port, rank, size or buffer, or a message of another size than expected, is reported instead of touching memory.",
  ["inputs", "histories", "schedules"], "all operation sequences on a message object up to a depth, all orders of transfers, all schedules of the ranks within a bound",
  "no unit test exercises the layer; the integrated decks use one fixed pattern",
  ["src/util/mp/mp.cc", "src/util/mp/DMPPolicy.h", "src/util/mp/MPWrapper.h", "src/util/mp/mp.h"],
  [("ports with growing buffers", "mp_size_*_buffer, mp_begin_*, mp_end_*"), ("collectives", "mp_allsum_*, mp_allgather_*, mp_gather_uc"), ("turnstiles", "BEGIN_TURNSTILE")])
p("C27", "Files hold what was written to them, and a failed write is reported",
  "A file object behaves as the mode it was opened with says: reads give what was written, positions, sizes and the end of the file are exact, appended data follow what was there, and an old file is replaced completely. Every dump either leaves a complete file or ends the run with an error: a full disk, a failed write or a failed close at any byte, or a place that cannot be written, is never passed over in silence.",
  ["histories", "crash points", "inputs"], "all operation sequences up to a depth; a fault at every byte of every kind of dump",
  "tests write to a healthy disk and look at whole files",
  ["src/util/io/StandardIOPolicy.h", "src/util/io/FileIO.h", "src/util/io/StandardUtilsPolicy.h", "src/util/bitfield.h", "src/vpic/dump.cc"],
  [("file object", "FileIO_T, StandardIOPolicy"), ("dumps", "vpic_simulation::dump_*, field_dump, hydro_dump, global_header")])
p("C28", "The helper functions of input decks compute what they document",
  "Accessors by indices reach exactly the documented element of every array for every point of the mesh, ghosts included; the Courant length, truncation to a multiple, remainder, uniform and normal deviates, time and step are exact for every argument; species, materials and units get the properties they are defined with, and room for at least the requested number of particles and movers (a sufficient default where none is requested).",
  ["inputs"], "all combinations of ordinary, extreme and boundary arguments; all points of all small meshes",
  "tests call a few of the helpers with one set of arguments",
  ["src/vpic/vpic.h", "src/species_advance/species_advance.cc", "src/material/material.cc"],
  [("helpers", "vpic_simulation inline functions")])
p("C29", "The timing table, log and clock of a run tell the truth",
  "The timing table counts each operation exactly as often as it was carried out since the last status and in all, charges it all the time it took and no other, and prints exactly the operations called with consistent shares, times and counts, on status steps and rank 0 only. The messages of initialization and of every step say what was done, in order, with the right numbers (errors before and after cleaning, particles removed, steps completed). The uptime is the mean over the ranks of the time since they started, the same on every rank.",
  ["inputs", "histories"], "all histories of timed operations and updates up to a depth; all small settings of intervals, rounds, step limits and status interval for every kind of set-up",
  "tests never look at the log or the table",
  ["src/util/profile/profile.cc", "src/vpic/advance.cc", "src/vpic/initialize.cc", "src/util/boot.cc"],
  [("table", "update_profile, TIC/TOC"), ("log", "vpic_simulation::initialize/advance"), ("uptime", "uptime")])
p("C30", "Memory services never overlap, misalign or grant the impossible",
  "Every block of memory handed out has the requested size and alignment, overlaps no other and keeps its content until it is released; requests that cannot be met (no memory, sizes that overflow, alignments that are not powers of two) end the run with an error instead of granting less. The macros that round, partition, index, mask and copy compute what they document for all arguments: a partition covers everything once, in pieces that differ by at most a block. Old-style options are refused, all others are left alone.",
  ["inputs", "histories"], "all histories of allocations and releases up to a depth; all small arguments of the macros; all short command lines",
  "tests exercise allocation only as far as runs happen to need it",
  ["src/util/util_base.cc", "src/util/util_base.h"],
  [("allocation", "util_malloc, util_malloc_aligned"), ("partition", "DISTRIBUTE and other macros"), ("old options", "detect_old_style_arguments")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
