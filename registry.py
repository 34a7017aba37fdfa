# One entry per claimed property: what to build and how the check is described.
A2 = ("-mavx2", "-mfma"); A5 = A2 + ("-mavx512f", "-mavx512dq", "-mavx512bw", "-mavx512vl")
VEC = [("v4-portable", ("-DVW=4", "-DUSE_V4_PORTABLE")), ("v4-portable1", ("-DVW=4", "-DV1")), ("v4-sse", ("-DVW=4", "-DUSE_V4_SSE")), ("v4-avx", ("-DVW=4", "-mavx", "-DUSE_V4_AVX")), ("v4-avx2", ("-DVW=4", "-DUSE_V4_AVX2") + A2),
       ("v8-portable", ("-DVW=8", "-DUSE_V8_PORTABLE")), ("v8-portable1", ("-DVW=8", "-DV1")), ("v8-avx", ("-DVW=8", "-mavx", "-DUSE_V8_AVX")), ("v8-avx2", ("-DVW=8", "-DUSE_V8_AVX2") + A2),
       ("v16-portable", ("-DVW=16", "-DUSE_V16_PORTABLE")), ("v16-portable1", ("-DVW=16", "-DV1")), ("v16-avx512", ("-DVW=16", "-DUSE_V16_AVX512") + A5)]
CHECKS = {
 "C06": dict(host="disp_host.cc", rank="disp_rank.cc", libs=[dict(cfg="ref", tsan=("pipelines_thread",))],
   technique="stateless model checking of the real dispatcher under a controlled scheduler, preemption-bounded, exhaustive",
   note="Every interleaving of host and worker threads up to the stated preemption bound, on the real code; sequentially consistent memory is assumed."),
 "C04": dict(host="field_host.cc", rank="field_rank.cc", libs=["ref","v8avx2"],
   technique="explicit-state conformance checking: exhaustive unit-impulse and operation-sequence enumeration of the real field kernels against a global-mesh model",
   note="All wall combinations, impulses in every component and site, and all operation sequences up to a depth on the listed meshes and partitions; bounded mesh sizes, agreement to single-precision rounding."),
 "C13": dict(host="field_host.cc", rank="field_rank.cc", libs=["ref","v8avx2","v16avx512"],
   technique="explicit-state conformance checking: exhaustive unit-impulse and operation-sequence enumeration of the real cleaning kernels against a global-mesh model",
   note="As C04, for the divergence measurement and cleaning operators, their global norms and the shared-face synchronisation."),
 "C01": dict(host="part_host.cc", rank="part_rank.cc", libs=["ref","v8avx2","v16portable","v4sse"],
   technique="bounded exhaustive enumeration of particle moves x walls x partitions on the real time step, checked against the discrete continuity equation",
   note="Complete lattice of cells, offsets and directions for every wall combination on small meshes; single-precision tolerance."),
 "C03": dict(host="part_host.cc", rank="part_rank.cc", libs=["ref","v8avx2","v16portable","v4sse"],
   technique="explicit-state conformance checking: complete lattice of particle moves x walls x partitions, every particle-step replayed on a reference mover",
   note="Complete lattice of cells, offsets and directions for every wall combination on small meshes, multi-step, with arrays that have to grow and shrink."),
 "C02": dict(host="push_host.cc", rank="push_rank.cc", libs=["ref","v8avx2","v16portable","v4sse","v16avx512"],
   technique="bounded exhaustive enumeration of particle states x field states on the real kernels against a double-precision transition model",
   note="Complete lattice of positions, directions and momenta for every field strength, every particle count modulo the vector widths, every build; tolerance of single-precision rounding."),
 "C14": dict(host="push_host.cc", host_defs=("-DWITH_FIELD",), libs=[dict(cfg="ref",name="field-ref",rank="field_rank.cc"),dict(cfg="v8avx2",name="field-v8avx2",rank="field_rank.cc")]+[dict(cfg=c,rank="push_rank.cc") for c in ("ref","v8avx2","v16portable","v4sse")],
   technique="explicit-state conformance checking: enumerated field and particle states, reported energies against a global-mesh model",
   note="Dense field states reached by every operation sequence up to a depth, all wall and partition choices; particle lattice as C02."),
 "C16": dict(host="push_host.cc", rank="push_rank.cc", libs=["ref","v8avx2","v16portable","v4sse"],
   technique="explicit-state conformance checking: complete lattice of particle states x partitions x walls against the nodal sums of a global model",
   note="Every moment at every node on every rank, lattice as C02; tolerance of single-precision rounding."),
 "C12": dict(host="sort_host.cc", rank="sort_rank.cc", libs=["ref","v4sse","v8avx2"],
   technique="bounded exhaustive enumeration of particle populations on the real sort, checked against the definition of a sort",
   note="Every assignment of up to 4-10 particles to the voxels of small meshes for 1-8 pipelines and both sorts, plus structured large populations; schedules of the pipelines are covered by C05."),
 "C19": dict(host="rng_host.cc", rank="rng_rank.cc", libs=["ref","v8avx2"],
   technique="exhaustive enumeration of raw generator words and draw sequences on the real generator, checked against an independent model and exact distributions",
   note="All 2^32 raw words for the single-precision conversions, all draw sequences up to a depth at every cursor position near a refresh; double precision on boundary and structured words only."),
 "C07": dict(host="ck_host.cc", rank="ck_rank.cc", libs=["ref","v8avx2"],
   technique="exhaustive enumeration of crash points: every step as interruption point and chains of two restores on the real program, compared bit for bit with the uninterrupted run",
   note="Every interruption point of bounded histories for set-ups that use every kind of object, restored into another copy of the program; misfitting checkpoints must be refused."),
 "C08": dict(host="cf_host.cc", rank="cf_rank.cc", libs=["ref","v8avx2"],
   technique="exhaustive fault injection: every byte position at which a checkpoint stream can end, fail or be damaged, on the real program",
   note="Truncation, read error, full disk and failing write at (almost) every byte of the checkpoints of small set-ups on every rank, failing close, and damaged markers; every one must end in an error before any step runs."),
 "C09": dict(host="mp_host.cc", rank="mp_rank.cc", libs=["ref","v8avx2"],
   technique="stateless exploration of rank and message-transfer orders of complete parallel runs under a controlled MPI, results compared bit for bit",
   note="Six fixed orders for runs that use every kind of object on up to 8 ranks, all executions with up to 1 (quick) or 2 (thorough) deviations for small runs, turnstiles with up to 3 deviations; misuse of MPI (buffers, collectives, leftovers) is detected by the controlled MPI."),
 "C15": dict(host="topo_host.cc", rank="topo_rank.cc", libs=["ref"],
   technique="exhaustive enumeration of small meshes x rank grids x walls on the real partitioner, every voxel face compared with an index model",
   note="All rank grids with up to 20 (quick) or 32 (thorough) ranks, all local meshes up to 4^3 or 6^3, all box kinds, walls re-declared on every pair of faces, hand-joined chains of unequal subdomains, and malformed requests."),
 "C22": dict(host="opts_host.cc", rank="opts_rank.cc", libs=["ref","v8omp"],
   technique="exhaustive enumeration of argument vectors, command lines, override files and definition sequences on the real code, compared with models",
   note="All argument vectors up to 5 (thorough 7) over 8 words and up to 4 (5) over 12, command lines of the real main with up to 3 (4) options and user arguments, override files of up to 3 (4) lines over 23, definition sequences up to 4 (6) names."),
 "C24": dict(host="seq_host.cc", rank="seq_rank.cc", libs=["ref","v8avx2"],
   technique="explicit enumeration of interval, round and step settings; every run of the real main loop is replayed against an explicit model of the documented sequence of phases",
   note="All combinations of sort, cleaning and synchronisation intervals, rounds and step limits up to small bounds for a dozen set-ups that use every kind of object, on 1-4 ranks; the state every callback sees is compared."),
 "C17": dict(host="inj_host.cc", rank="inj_rank.cc", libs=["ref","v8avx2"],
   technique="exhaustive enumeration of injection positions, ages, directions, capacities and emitter faces and fields on the real code, compared with a geometric model",
   note="All positions of a lattice with every face, edge, corner and the floating point neighbours of every subdomain corner, for several boxes, walls and up to 8 ranks; all start cells, 26 directions and 3 ages; all capacities up to 6; all 27 emitter components, field signs and thresholds."),
 "C21": dict(host="hit_host.cc", rank="hit_rank.cc", libs=["ref","v4sse","v8avx2"],
   technique="exhaustive enumeration of wall handlers, faces, incidence directions and starting points on the real code, compared with a geometric model of every path",
   note="Every face and plate with every handler, pairs of walls with different handlers, all start cells, 27 offsets and 26 directions of two species, up to 4 ranks, by direct launch and by the real particle advance; 32 handlers at once; species defined after a handler; the law of the momenta by moments."),
 "C18": dict(host="coll_host.cc", rank="coll_rank.cc", libs=["ref","v8avx2"],
   technique="exhaustive enumeration of per-cell populations, weights, intervals and pipeline counts on the real code, with observing collision models that record every pair tested and struck",
   note="All populations up to 7 x 8 particles per cell, 1-4 pipelines, five sampling densities, five intervals; every built-in operator checked for conservation in every cell; single pairs for the angular laws; extreme raw random words forced in cells of up to 100000 particles."),
 "C05": dict(host="pipe_host.cc", rank="pipe_rank.cc", libs=[dict(cfg=c,tsan=("/src/",),opt="-O1") for c in ("ref","v4sse","v8avx2","v16portable","v8omp","v16avx512")],
   technique="partial-order exploration of the concurrent jobs of every dispatch on the real kernels: all accesses recorded, any conflict is a violation, so that one order stands for all; plus exhaustive comparison of builds x pipeline counts x job orders",
   note="Every dispatch of the field, particle and collision kernels, 6-15 pipeline counts, five builds, three job orders; conflicts at byte granularity."),
 "C23": dict(host="mem_host.cc", rank="mem_rank.cc", libs=["ref","v4sse","v8avx2","v16portable",dict(cfg="ref",name="ref-fixed",defs=("-DDISABLE_DYNAMIC_RESIZING",))],
   technique="exhaustive enumeration of storage capacities from one up to beyond the demand on the real code, with every array against an inaccessible page",
   note="All capacities for populations up to 60 (thorough 120) particles in five crossing patterns and 1-8 pipelines; arrivals on up to 8 ranks with every amount of spare room; emission; complete runs that start with no spare room; a build with fixed storage."),
 "C10": dict(host="grid_host.cc", rank="dump_rank.cc", libs=["ref","v8avx2","v16portable"],
   technique="exhaustive enumeration of meshes x strides x variable selections x formats on the real dump code, every file compared byte by byte with a layout model",
   note="All strides (those that do not divide must be refused) of 8 (thorough 12) local meshes, all single, adjacent, all-but-one and leading selections plus the named groups and masks with bits of no variable (thorough: all pairs), both formats, own and user arrays, given and current steps, up to 4 (8) ranks."),
 "C11": dict(host="dump_host.cc", rank="dump_rank.cc", libs=["ref","v4sse","v8avx2","v16portable"],
   technique="exhaustive enumeration of particle counts, dump kinds, histories of appended dumps and header selections on the real code, every file compared with memory",
   note="52 particle counts around every power of two and around multiples of the internal buffer, three species, all file naming options, 1-8 ranks; all 16 histories of begun and continued energy files; all 4096 selections of the global header's field groups; grids with every wall, materials, species."),
 "C20": dict(host="vec_host.cc", rank="vec_rank.cc", libs=[dict(cfg="vec-"+n,bare=True,defs=("-std=gnu++17",)+d) for n,d in VEC],
   technique="exhaustive enumeration of lane patterns, operand pairs, permutations and address arrangements on the real classes, compared with scalar arithmetic",
   note="Twelve implementations (those the processor can run): all 2^width mask patterns, every pair of special and ordinary operands in every lane, all splats, over 500 permutations, every transposing access in five address arrangements with every other word of memory checked."),
 "C25": dict(host="region_host.cc", rank="region_rank.cc", libs=["ref","v8avx2"],
   technique="exhaustive enumeration of regions (all sets of cells, single points and parity patterns) x arguments of the deck's region commands, compared with their definition",
   note="All sets of cells of meshes of up to 8-9 (thorough 16) cells with three continuations beyond the domain, all choices of the arguments, 1-8 ranks, three boxes; every value of the mesh compared."),
 "C26": dict(host="msg_host.cc", rank="msg_rank.cc", libs=["ref","v8omp"],
   technique="exhaustive enumeration of operation sequences on message ports, of orders of beginning and ending transfers and of schedules of the ranks, against a model of what was sent",
   note="All sequences of up to 3 (4) port operations, all orders of beginning and ending transfers between up to 4 ranks, collectives on up to 8 ranks with all value patterns, every schedule of 2-3 ranks within a deviation bound."),
 "C27": dict(host="io_host.cc", rank="io_rank.cc", libs=["ref","v8avx2"],
   technique="exhaustive enumeration of operation sequences on files against a model, and of a fault at every byte of every kind of dump, on the real code",
   note="All sequences of 4 (5) out of 20 operations in six modes on three files; every kind of dump with the disk full, one failed write or a failed close at every byte; every dump to a place that cannot be written."),
 "C28": dict(host="help_host.cc", rank="help_rank.cc", libs=["ref","v8avx2"],
   technique="exhaustive enumeration of argument combinations of the deck's helper functions on the real code against their definitions",
   note="Lattices of ordinary, extreme and boundary arguments; every point of every mesh of up to 4x4x4 (6x6x6) cells through the accessors, every allocation ending at an inaccessible page."),
 "C29": dict(host="log_host.cc", rank="log_rank.cc", libs=["ref","digits"],
   technique="exhaustive enumeration of histories of timed operations under a controlled clock, and of interval, round and step settings of the real main loop, whose log and timing table are replayed against an explicit model of the run",
   note="All histories of up to 4 (5) timed operations and updates; all combinations of intervals, rounds and step limits up to small bounds for nine set-ups on 1-4 ranks; every counter, time, line of the table and message of the main loop compared."),
 "C30": dict(host="util_host.cc", rank="util_rank.cc", libs=["ref","v8omp"],
   technique="exhaustive enumeration of allocation histories and of macro arguments and command lines on the real code against their definitions",
   note="All histories of up to 5 (6) allocations and releases over 12 kinds of request; all alignments up to 300; all partitions of up to 260 (700) elements over up to 18 pieces; all command lines of up to 3 (4) words over 19."),
}
NOT_CLAIMED = {}
